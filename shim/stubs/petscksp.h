// Stand-in for the PETSc interface: exact dense storage seen by one of {sx_petsc().procs} processes. It keeps the
// documented contract (entries owned by other processes count after assembly only, adding and inserting cannot be mixed
// without assembling in between, only assembled objects can be used, an array gives access to the local part, every
// object is destroyed once) and records every breach. Solving returns an arbitrary vector and keeps a copy of the system, or is exact (Cramer's rule, up to three equations).
#pragma once
#include <vector>
#include <string>
#include <cstring>
using PetscInt = int;
using PetscScalar = double;
using PetscReal = double;
using PetscErrorCode = int;
using PetscMPIInt = int;
using MPI_Comm = int;
enum PetscBool { PETSC_FALSE, PETSC_TRUE };
enum InsertMode { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES };
enum MatAssemblyType { MAT_FLUSH_ASSEMBLY = 1, MAT_FINAL_ASSEMBLY = 0 };
enum ScatterMode { SCATTER_FORWARD = 0, SCATTER_REVERSE = 1 };
#define PETSC_COMM_WORLD 91
#define PETSC_COMM_SELF 92
#define PETSC_DECIDE -1
#define PETSC_DETERMINE -1
#define PETSC_DEFAULT -2
#define PETSC_NULLPTR nullptr
#define PETSC_VIEWER_STDOUT_WORLD 0
#define PETSC_SUCCESS 0
#define PetscCall(...) do { if (__VA_ARGS__) return 1; } while (0)
#define PetscCallVoid(...) do { if (__VA_ARGS__) return; } while (0)
#define PetscCallAbort(comm, ...) do { (void)(__VA_ARGS__); } while (0)
struct sx_petsc_state {
    int procs = 1, rank = 0;     // this process
    int breaches = 0;            // calls that PETSc rejects
    int alive = 0;               // objects
    std::vector<std::string> options;
    bool exact = false;          // solve (up to three equations), or return any vector
    int n = 0;                   // the system that was solved last and what was returned for it
    std::vector<double> A, b, x;
};
inline sx_petsc_state & sx_petsc() { static sx_petsc_state *s = new sx_petsc_state; return *s; }
inline int sx_petsc_breach(const char *what) { sx_petsc().breaches++; sx_check(false, what); return 1; }
struct sx_layout {
    int n = 0, lo = 0, hi = 0;
    void set(int local, int global)
    {
        auto & s = sx_petsc();
        n = global; lo = 0;
        for (int r = 0; r < s.procs; r++) { const int k = n / s.procs + (n % s.procs > r); if (r < s.rank) lo += k; if (r == s.rank) hi = lo + k; }
    }
    bool mine(int i) const { return i >= lo && i < hi; }
};
struct sx_stashed { int i, j; double v; InsertMode m; };
struct sx_vec { sx_layout L; bool typed = false, sized = false; double *local = nullptr; std::vector<double> others; std::vector<sx_stashed> stash; InsertMode mode = NOT_SET_VALUES; int locks = 0; bool seq = false; bool assembling = false; };
struct sx_mat { sx_layout L; bool typed = false, sized = false, assembled = false; std::vector<double> a; std::vector<sx_stashed> stash; InsertMode mode = NOT_SET_VALUES; bool assembling = false; };
struct sx_ksp { struct sx_mat *A = nullptr; std::string prefix; bool configured = false; std::vector<std::string> seen; };
struct sx_scatter { sx_vec *from, *to; bool begun = false; };
using Vec = sx_vec *; using Mat = sx_mat *; using KSP = sx_ksp *; using VecScatter = sx_scatter *; using PetscViewer = int; using PetscOptions = void *; using PC = void *;
inline int PetscInitializeNoArguments() { return 0; }
inline int PetscFinalize() { return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *n) { *n = c == PETSC_COMM_SELF ? 1 : sx_petsc().procs; return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int *n) { *n = c == PETSC_COMM_SELF ? 0 : sx_petsc().rank; return 0; }
// vectors
inline int VecCreate(MPI_Comm, Vec *v) { *v = new sx_vec; sx_petsc().alive++; return 0; }
inline int sx_vec_alloc(Vec v)
{
    if (v->typed && v->sized && !v->local) {
        const int k = v->seq ? v->L.n : v->L.hi - v->L.lo;
        v->local = new double[k ? k : 1];
        for (int i = 0; i < k; i++) v->local[i] = 0;
        v->others.assign(v->L.n, 0.0);
    }
    return 0;
}
inline int VecSetSizes(Vec v, int local, int global) { if (v->sized) return sx_petsc_breach("sizes of a vector are set once"); v->L.set(local, global); v->sized = true; return sx_vec_alloc(v); }
inline int VecSetFromOptions(Vec v) { v->typed = true; return sx_vec_alloc(v); }
inline int VecSetUp(Vec v) { return VecSetFromOptions(v); }
inline int VecSetType(Vec v, const char *) { return VecSetFromOptions(v); }
inline int VecDestroy(Vec *v) { if (!*v) return 0; delete[](*v)->local; delete *v; *v = nullptr; sx_petsc().alive--; return 0; }
inline int VecGetSize(Vec v, int *n) { *n = v->L.n; return 0; }
inline int VecGetLocalSize(Vec v, int *n) { *n = v->seq ? v->L.n : v->L.hi - v->L.lo; return 0; }
inline int VecGetOwnershipRange(Vec v, int *lo, int *hi) { *lo = v->seq ? 0 : v->L.lo; *hi = v->seq ? v->L.n : v->L.hi; return 0; }
inline bool sx_vec_mine(Vec v, int i) { return v->seq || v->L.mine(i); }
inline double & sx_vec_at(Vec v, int i) { return v->seq ? v->local[i] : v->L.mine(i) ? v->local[i - v->L.lo] : v->others[i]; }
inline int sx_vec_ready(Vec v) { if (!v || !v->local) return sx_petsc_breach("the vector is created, typed and sized before it is used"); if (!v->stash.empty() || v->assembling || (!v->seq && sx_petsc().procs > 1 && v->mode != NOT_SET_VALUES)) return sx_petsc_breach("the vector is assembled before it is used"); return 0; }
inline int VecSetValue(Vec v, int i, double x, InsertMode m)
{
    if (!v || !v->local) return sx_petsc_breach("the vector is created, typed and sized before it is used");
    if (i < 0) return 0;
    if (i >= v->L.n) return sx_petsc_breach("entries of a vector lie inside it");
    if (sx_petsc().procs > 1) { if (v->mode != NOT_SET_VALUES && v->mode != m) return sx_petsc_breach("adding and inserting are not mixed without assembling"); v->mode = m; }
    if (!sx_vec_mine(v, i)) { v->stash.push_back({ i, 0, x, m }); return 0; }
    if (m == ADD_VALUES) sx_vec_at(v, i) += x; else sx_vec_at(v, i) = x;
    return 0;
}
inline int VecSetValues(Vec v, int n, const int *i, const double *x, InsertMode m) { for (int k = 0; k < n; k++) if (VecSetValue(v, i[k], x[k], m)) return 1; return 0; }
inline int VecAssemblyBegin(Vec v) { if (!v || !v->local) return sx_petsc_breach("the vector is created, typed and sized before it is used"); v->assembling = true; return 0; }
inline int VecAssemblyEnd(Vec v)
{
    if (!v || !v->assembling) return sx_petsc_breach("the end of an assembly follows its beginning");
    for (auto & s : v->stash) if (s.m == ADD_VALUES) sx_vec_at(v, s.i) += s.v; else sx_vec_at(v, s.i) = s.v;
    v->stash.clear(); v->mode = NOT_SET_VALUES; v->assembling = false;
    return 0;
}
inline int VecSet(Vec v, double x) { if (sx_vec_ready(v)) return 1; for (int i = 0; i < v->L.n; i++) sx_vec_at(v, i) = x; return 0; }
inline int VecZeroEntries(Vec v) { return VecSet(v, 0); }
inline int VecGetArrayRead(Vec v, const double **a) { if (sx_vec_ready(v)) return 1; v->locks++; *a = v->local; return 0; }
inline int VecRestoreArrayRead(Vec v, const double **a) { if (!v->locks || *a != v->local) return sx_petsc_breach("an array is given back once"); v->locks--; *a = nullptr; return 0; }
inline int VecGetArray(Vec v, double **a) { if (sx_vec_ready(v)) return 1; v->locks++; *a = v->local; return 0; }
inline int VecRestoreArray(Vec v, double **a) { if (!v->locks || *a != v->local) return sx_petsc_breach("an array is given back once"); v->locks--; *a = nullptr; return 0; }
inline int VecGetValues(Vec v, int n, const int *i, double *x)
{
    if (sx_vec_ready(v)) return 1;
    for (int k = 0; k < n; k++) { if (i[k] < 0) continue; if (i[k] >= v->L.n || !sx_vec_mine(v, i[k])) return sx_petsc_breach("only local values of a vector are read"); x[k] = sx_vec_at(v, i[k]); }
    return 0;
}
inline int VecCopy(Vec a, Vec b) { if (sx_vec_ready(a) || sx_vec_ready(b)) return 1; for (int i = 0; i < a->L.n; i++) sx_vec_at(b, i) = sx_vec_at(a, i); return 0; }
inline int VecDuplicate(Vec a, Vec *b) { *b = new sx_vec; (*b)->L = a->L; (*b)->typed = a->typed; (*b)->sized = a->sized; (*b)->seq = a->seq; sx_petsc().alive++; return sx_vec_alloc(*b); }
inline int VecView(Vec v, PetscViewer) { return sx_vec_ready(v); }
inline int VecScatterCreateToAll(Vec v, VecScatter *c, Vec *all)
{
    *all = new sx_vec; (*all)->seq = true; (*all)->L = v->L; (*all)->typed = (*all)->sized = true; sx_vec_alloc(*all);
    *c = new sx_scatter{ v, *all }; sx_petsc().alive += 2;
    return 0;
}
inline int VecScatterBegin(VecScatter c, Vec x, Vec y, InsertMode, ScatterMode) { if (sx_vec_ready(x)) return 1; c->begun = true; return 0; }
inline int VecScatterEnd(VecScatter c, Vec x, Vec y, InsertMode m, ScatterMode)
{
    if (!c->begun) return sx_petsc_breach("the end of a scatter follows its beginning");
    for (int i = 0; i < x->L.n; i++) if (m == ADD_VALUES) sx_vec_at(y, i) += sx_vec_at(x, i); else sx_vec_at(y, i) = sx_vec_at(x, i);
    c->begun = false;
    return 0;
}
inline int VecScatterDestroy(VecScatter *c) { if (!*c) return 0; delete *c; *c = nullptr; sx_petsc().alive--; return 0; }
// matrices
inline int MatCreate(MPI_Comm, Mat *m) { *m = new sx_mat; sx_petsc().alive++; return 0; }
inline int MatSetSizes(Mat m, int, int, int M, int N)
{
    if (m->sized) return sx_petsc_breach("sizes of a matrix are set once");
    if (M != N) return sx_petsc_breach("the matrix is square");
    m->L.set(-1, M); m->a.assign(M * M, 0.0); m->sized = true;
    return 0;
}
inline int MatSetFromOptions(Mat m) { m->typed = true; return 0; }
inline int MatSetType(Mat m, const char *) { m->typed = true; return 0; }
inline int MatSetUp(Mat m) { m->typed = true; return 0; }
inline int MatSetOption(Mat, int, PetscBool) { return 0; }
inline int MatDestroy(Mat *m) { if (!*m) return 0; delete *m; *m = nullptr; sx_petsc().alive--; return 0; }
inline int MatGetSize(Mat m, int *r, int *c) { if (r) *r = m->L.n; if (c) *c = m->L.n; return 0; }
inline int MatGetOwnershipRange(Mat m, int *lo, int *hi) { *lo = m->L.lo; *hi = m->L.hi; return 0; }
inline int MatSetValue(Mat m, int i, int j, double x, InsertMode k)
{
    if (!m || !m->typed || !m->sized) return sx_petsc_breach("the matrix is created, typed and sized before it is used");
    if (i < 0 || j < 0) return 0;
    if (i >= m->L.n || j >= m->L.n) return sx_petsc_breach("entries of a matrix lie inside it");
    if (m->mode != NOT_SET_VALUES && m->mode != k) return sx_petsc_breach("adding and inserting are not mixed without assembling");
    m->mode = k; m->assembled = false;
    if (!m->L.mine(i)) { m->stash.push_back({ i, j, x, k }); return 0; }
    double & a = m->a[i * m->L.n + j];
    if (k == ADD_VALUES) a += x; else a = x;
    return 0;
}
inline int MatSetValues(Mat m, int r, const int *i, int c, const int *j, const double *x, InsertMode k)
{
    for (int p = 0; p < r; p++) for (int q = 0; q < c; q++) if (MatSetValue(m, i[p], j[q], x[p * c + q], k)) return 1;
    return 0;
}
inline int MatAssemblyBegin(Mat m, MatAssemblyType) { if (!m || !m->typed || !m->sized) return sx_petsc_breach("the matrix is created, typed and sized before it is used"); m->assembling = true; return 0; }
inline int MatAssemblyEnd(Mat m, MatAssemblyType t)
{
    if (!m || !m->assembling) return sx_petsc_breach("the end of an assembly follows its beginning");
    for (auto & s : m->stash) { double & a = m->a[s.i * m->L.n + s.j]; if (s.m == ADD_VALUES) a += s.v; else a = s.v; }
    m->stash.clear(); m->mode = NOT_SET_VALUES; m->assembling = false; m->assembled = t == MAT_FINAL_ASSEMBLY;
    return 0;
}
inline int MatZeroEntries(Mat m) { for (auto & x : m->a) x = 0; return 0; }
inline int MatView(Mat m, PetscViewer) { if (!m || !m->assembled) return sx_petsc_breach("the matrix is assembled before it is used"); return 0; }
// options and solvers
inline int PetscOptionsInsertString(PetscOptions, const char *s)
{
    std::string w;
    for (; ; s++) {
        if (*s == ' ' || !*s) { if (!w.empty()) sx_petsc().options.push_back(w); w.clear(); }
        else w.push_back(*s);
        if (!*s) break;
    }
    return 0;
}
inline int KSPCreate(MPI_Comm, KSP *k) { *k = new sx_ksp; sx_petsc().alive++; return 0; }
inline int KSPSetOperators(KSP k, Mat a, Mat p) { if (!a || !p) return sx_petsc_breach("the matrix is created before the solver"); k->A = a; return a == p ? 0 : sx_petsc_breach("one matrix"); }
inline int KSPSetOptionsPrefix(KSP k, const char *p) { k->prefix = p ? p : ""; return 0; }
inline int KSPAppendOptionsPrefix(KSP k, const char *p) { k->prefix += p ? p : ""; return 0; }
inline int KSPSetFromOptions(KSP k) { k->configured = true; k->seen = sx_petsc().options; return 0; }
inline int KSPSetUp(KSP k) { return 0; }
inline int KSPDestroy(KSP *k) { if (!*k) return 0; delete *k; *k = nullptr; sx_petsc().alive--; return 0; }
inline int KSPSolve(KSP k, Vec b, Vec x)
{
    if (!k || !k->A) return sx_petsc_breach("the solver has a matrix");
    if (!k->A->assembled || k->A->mode != NOT_SET_VALUES || !k->A->stash.empty()) return sx_petsc_breach("the matrix is assembled before it is used");
    if (sx_vec_ready(b) || sx_vec_ready(x)) return 1;
    const int n = k->A->L.n;
    if (b->L.n != n || x->L.n != n || (sx_petsc().exact && n > 3)) return sx_petsc_breach("the sizes of the system agree");
    auto & state = sx_petsc();
    state.n = n; state.A = k->A->a; state.b.clear(); state.x.clear();
    for (int i = 0; i < n; i++) state.b.push_back(sx_vec_at(b, i));
    if (!state.exact) {
        for (int i = 0; i < n; i++) { state.x.push_back(sx_real("result of the solver", -10, 10)); sx_vec_at(x, i) = state.x[i]; }
        return 0;
    }
    const auto A = [&](int i, int j) { return k->A->a[i * n + j]; };
    const auto B = [&](int i) { return sx_vec_at(b, i); };
    const auto det = [&](int c) {      // determinant with column c replaced by the right hand side
        const auto e = [&](int i, int j) { return j == c ? B(i) : A(i, j); };
        if (n == 1) return e(0, 0);
        if (n == 2) return e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0);
        return e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1)) - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0)) + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0));
    };
    double s[3];
    const double d = n ? det(-1) : 1;
    for (int i = 0; i < n; i++) s[i] = det(i) / d;
    for (int i = 0; i < n; i++) sx_vec_at(x, i) = s[i];
    return 0;
}
