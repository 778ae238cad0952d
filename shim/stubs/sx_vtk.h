// Stand-in for the part of VTK that is used to write grids: reference-counted objects that keep what is put into them
// and writers that record what they write. Breaches of the documented contract are reported.
#pragma once
#include <string>
#include <vector>
#include "sx.h"
#define VTK_MAJOR_VERSION 9
using vtkIdType = long long;
inline long & sx_vtk_alive() { static long *n = new long(0); return *n; }
class vtkObject {
    long refs = 1;

  protected:
    vtkObject() { sx_vtk_alive()++; }
    virtual ~vtkObject() { sx_vtk_alive()--; }

  public:
    void Register(void * = nullptr) { refs++; }
    void UnRegister(void * = nullptr) { if (--refs == 0) delete this; }
    void Delete() { UnRegister(); }
};
template <class T> class vtkSmartPointer {
    T *p = nullptr;

  public:
    vtkSmartPointer() {}
    vtkSmartPointer(T *q) : p(q) { if (p) p->Register(); }
    vtkSmartPointer(const vtkSmartPointer & o) : p(o.p) { if (p) p->Register(); }
    vtkSmartPointer(vtkSmartPointer && o) : p(o.p) { o.p = nullptr; }
    vtkSmartPointer & operator=(vtkSmartPointer o) { std::swap(p, o.p); return *this; }
    ~vtkSmartPointer() { if (p) p->UnRegister(); }
    static vtkSmartPointer New() { T *q = T::New(); vtkSmartPointer r(q); q->UnRegister(); return r; }
    T *operator->() const { return p; }
    T & operator*() const { return *p; }
    operator T *() const { return p; }
    T *Get() const { return p; }
    T *GetPointer() const { return p; }
};
class vtkIdList : public vtkObject {
  public:
    std::vector<vtkIdType> ids;
    static vtkIdList *New() { return new vtkIdList; }
    void SetNumberOfIds(vtkIdType n) { ids.resize(n, -1); }
    vtkIdType GetNumberOfIds() { return ids.size(); }
    void SetId(vtkIdType i, vtkIdType v) { sx_check(i >= 0 && i < (vtkIdType) ids.size(), "a cell has room for its points"); if (i >= 0 && i < (vtkIdType) ids.size()) ids[i] = v; }
    vtkIdType GetId(vtkIdType i) { return ids[i]; }
    vtkIdType InsertNextId(vtkIdType v) { ids.push_back(v); return ids.size() - 1; }
};
template <int N, int TYPE> class sx_vtk_cell : public vtkObject {
    vtkIdList *points;

  protected:
    sx_vtk_cell() : points(vtkIdList::New()) { points->SetNumberOfIds(N); }
    ~sx_vtk_cell() { points->UnRegister(); }

  public:
    vtkIdList *GetPointIds() { return points; }
    int GetCellType() { return TYPE; }
    vtkIdType GetNumberOfPoints() { return N; }
};
#define VTK_LINE 3
#define VTK_TRIANGLE 5
#define VTK_TETRA 10
class vtkLine : public sx_vtk_cell<2, VTK_LINE> { public: static vtkLine *New() { return new vtkLine; } };
class vtkTriangle : public sx_vtk_cell<3, VTK_TRIANGLE> { public: static vtkTriangle *New() { return new vtkTriangle; } };
class vtkTetra : public sx_vtk_cell<4, VTK_TETRA> { public: static vtkTetra *New() { return new vtkTetra; } };
class vtkPoints : public vtkObject {
  public:
    std::vector<double> x;
    static vtkPoints *New() { return new vtkPoints; }
    vtkIdType InsertNextPoint(double a, double b, double c) { x.push_back(a); x.push_back(b); x.push_back(c); return x.size() / 3 - 1; }
    vtkIdType InsertNextPoint(const double p[3]) { return InsertNextPoint(p[0], p[1], p[2]); }
    void InsertPoint(vtkIdType i, double a, double b, double c) { if ((vtkIdType) x.size() < 3 * (i + 1)) x.resize(3 * (i + 1)); x[3 * i] = a; x[3 * i + 1] = b; x[3 * i + 2] = c; }
    void SetPoint(vtkIdType i, double a, double b, double c) { sx_check(i >= 0 && 3 * i < (vtkIdType) x.size(), "points that are set exist"); InsertPoint(i, a, b, c); }
    void SetNumberOfPoints(vtkIdType n) { x.resize(3 * n); }
    void SetDataType(int) {}
    void SetDataTypeToDouble() {}
    vtkIdType GetNumberOfPoints() { return x.size() / 3; }
};
class vtkDoubleArray : public vtkObject {
  public:
    std::string name;
    int components = 1;
    std::vector<double> v;
    std::vector<char> known;
    static vtkDoubleArray *New() { return new vtkDoubleArray; }
    void SetName(const char *n) { name = n; }
    void SetNumberOfComponents(int n) { components = n; }
    void SetNumberOfTuples(vtkIdType n) { v.resize(n * components); known.resize(n); }
    vtkIdType GetNumberOfTuples() { return known.size(); }
    void SetTuple(vtkIdType i, const double *t)
    {
        sx_check(i >= 0 && i < (vtkIdType) known.size(), "tuples that are set exist");
        if (i < 0 || i >= (vtkIdType) known.size()) return;
        for (int k = 0; k < components; k++) v[i * components + k] = t[k];
        known[i] = true;
    }
    void SetTuple1(vtkIdType i, double a) { SetTuple(i, &a); }
    void SetValue(vtkIdType i, double a) { v[i] = a; known[i / components] = true; }
    void SetComponent(vtkIdType i, int k, double a) { v[i * components + k] = a; known[i] = true; }
    vtkIdType InsertNextTuple(const double *t) { v.insert(v.end(), t, t + components); known.push_back(true); return known.size() - 1; }
};
class vtkPointData : public vtkObject {
  public:
    std::vector<vtkSmartPointer<vtkDoubleArray>> arrays;
    static vtkPointData *New() { return new vtkPointData; }
    int AddArray(vtkDoubleArray *a)
    {
        // an array takes the place of the one of the same name
        for (size_t i = 0; i < arrays.size(); i++) if (arrays[i]->name == a->name) { arrays[i] = vtkSmartPointer<vtkDoubleArray>(a); return (int) i; }
        arrays.push_back(vtkSmartPointer<vtkDoubleArray>(a));
        return arrays.size() - 1;
    }
    int SetScalars(vtkDoubleArray *a) { return AddArray(a); }
    int SetVectors(vtkDoubleArray *a) { return AddArray(a); }
};
struct sx_vtk_cell_record { int type; std::vector<vtkIdType> ids; };
class vtkUnstructuredGrid : public vtkObject {
    vtkPointData *data;

  protected:
    vtkUnstructuredGrid() : data(vtkPointData::New()) {}
    ~vtkUnstructuredGrid() { data->UnRegister(); }

  public:
    vtkSmartPointer<vtkPoints> points;
    std::vector<sx_vtk_cell_record> cells;
    static vtkUnstructuredGrid *New() { return new vtkUnstructuredGrid; }
    void Allocate(vtkIdType = 0) {}
    vtkIdType InsertNextCell(int type, vtkIdList *l) { cells.push_back({ type, l->ids }); return cells.size() - 1; }
    vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType *l) { cells.push_back({ type, std::vector<vtkIdType>(l, l + n) }); return cells.size() - 1; }
    void SetPoints(vtkPoints *p) { points = vtkSmartPointer<vtkPoints>(p); }
    vtkPoints *GetPoints() { return points.Get(); }
    vtkIdType GetNumberOfPoints() { return points.Get() ? points->GetNumberOfPoints() : 0; }
    vtkIdType GetNumberOfCells() { return cells.size(); }
    vtkPointData *GetPointData() { return data; }
};
// what has been written
struct sx_vtk_array { std::string name; int components; std::vector<double> v; bool complete; };
struct sx_vtk_file { std::string name; std::vector<double> x; std::vector<sx_vtk_cell_record> cells; std::vector<sx_vtk_array> arrays; int pieces = 1, first = 0, last = 0; bool parallel = false; };
inline std::vector<sx_vtk_file> & sx_vtk_files() { static auto *f = new std::vector<sx_vtk_file>; return *f; }
class vtkXMLUnstructuredGridWriter : public vtkObject {
  protected:
    std::string name;
    vtkUnstructuredGrid *input = nullptr;
    int pieces = 1, first = 0, last = 0;
    bool parallel = false;
    ~vtkXMLUnstructuredGridWriter() { if (input) input->UnRegister(); }

  public:
    static vtkXMLUnstructuredGridWriter *New() { return new vtkXMLUnstructuredGridWriter; }
    void SetFileName(const char *n) { name = n; }
    void SetInputData(vtkUnstructuredGrid *g) { if (g) g->Register(); if (input) input->UnRegister(); input = g; }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    void SetCompressor(void *) {}
    int Write()
    {
        sx_check(!name.empty() && input, "a writer has a name and a grid");
        sx_vtk_file f{ name };
        if (input && input->points.Get()) f.x = input->points->x;
        if (input) {
            f.cells = input->cells;
            for (auto & a : input->GetPointData()->arrays) {
                bool all = true;
                for (char k : a->known) all = all && k;
                f.arrays.push_back({ a->name, a->components, a->v, all });
            }
        }
        f.pieces = pieces; f.first = first; f.last = last; f.parallel = parallel;
        sx_vtk_files().push_back(f);
        return 1;
    }
};
class vtkXMLPUnstructuredGridWriter : public vtkXMLUnstructuredGridWriter {
    vtkXMLPUnstructuredGridWriter() { parallel = true; }

  public:
    static vtkXMLPUnstructuredGridWriter *New() { return new vtkXMLPUnstructuredGridWriter; }
    void SetNumberOfPieces(int n) { pieces = n; }
    void SetStartPiece(int n) { first = n; }
    void SetEndPiece(int n) { last = n; }
    void SetGhostLevel(int) {}
};
struct sx_vtk_job { int procs = 1, rank = 0, initialized = 0; };
inline sx_vtk_job & sx_vtk_mpi() { static auto *j = new sx_vtk_job; return *j; }
class vtkMultiProcessController : public vtkObject { public: static void SetGlobalController(vtkMultiProcessController *) {} };
class vtkMPIController : public vtkMultiProcessController {
  public:
    static vtkMPIController *New() { return new vtkMPIController; }
    void Initialize(int *, char ***, int external = 0) { sx_check(external == 1, "the processes are started by the caller"); sx_vtk_mpi().initialized++; }
    void Finalize(int external = 0) { sx_check(external == 1, "the processes are ended by the caller"); sx_vtk_mpi().initialized--; }
    int GetNumberOfProcesses() { sx_check(sx_vtk_mpi().initialized > 0, "the controller is initialized before it is asked"); return sx_vtk_mpi().procs; }
    int GetLocalProcessId() { return sx_vtk_mpi().rank; }
};
