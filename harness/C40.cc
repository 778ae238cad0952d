// The Python interface gives what the library gives.
// @flags -include cassert -fdelete-null-pointer-checks -D_GLIBCXX_EXTERN_TEMPLATE=0 -w
// @run coordinates
// @run fields
// @run mesh quick:cells=2 thorough:cells=3
// @run large
// @run scales
// @run integral quick:cells=2 thorough:cells=3
// @run dropped
#include "sx_files.h"
#include "geo.h"
#include "grid.h"
#include "../extensions/mito/mito.cc"
namespace py = pybind11;
static int pick(const char *what, int n) { return sx_concretize(sx_choose(what, n)); }
struct Python {
    py::module_ m;
    Python() { sx_python_module(m); }
};
template <class T> static py::object value(T v) { return py::sx_value<T>(std::move(v)); }
static py::object tuple(const std::vector<double> & v) { py::args_t a; for (double x : v) a.push_back(value<double>(x)); return value<py::args_t>(a); }
static py::object number(int i) { return value<int>(i); }
static py::object text(const char *s) { return value<std::string>(s); }
static double real_of(const py::object & o)
{
    const double *d = o.as<double>();
    sx_check(d != nullptr, "the result is a number");
    return d ? *d : 0;
}
// the components of coordinates as Python sees them
template <int D> static vec_t<D> components(Python & P, const char *cls, const py::object & x) { vec_t<D> v; for (int i = 0; i < D; i++) v[i] = real_of(P.m.call(cls, "__getitem__", { x, number(i) })); return v; }
template <int D> static void coordinates_case(const char *cls)
{
    Python P;
    std::vector<double> v, w;
    for (int i = 0; i < D; i++) { v.push_back(sx_real("x", -3, 3)); w.push_back(sx_real("y", -3, 3)); }
    const auto x = P.m.make(cls, { tuple(v) });
    const auto y = P.m.make(cls, { tuple(w) });
    const auto o = P.m.make(cls, {});
    for (int i = 0; i < D; i++) {
        sx_eq("component", real_of(P.m.call(cls, "__getitem__", { x, number(i) })), v[i]);
        sx_eq("component of another", real_of(P.m.call(cls, "__getitem__", { y, number(i) })), w[i]);
        sx_eq("component of the origin", real_of(P.m.call(cls, "__getitem__", { o, number(i) })), 0);
    }
    if (pick("outside", 2)) {
        const int past = pick("index past the end", 3);
        sx_expect_reject();
        P.m.call(cls, "__getitem__", { x, number(past == 0 ? D : past == 1 ? D + 1 : -D - 1) });
        sx_check(false, "an index outside is rejected");
    }
}
SX_HARNESS(coordinates) { if (pick("dimension", 2)) coordinates_case<3>("Coordinates3D"); else coordinates_case<2>("Coordinates2D"); }
// a quadratic function of coordinates, written in Python
template <int D> struct Quadratic {
    double c[3][D + 1];
    explicit Quadratic(const char *n) { for (auto & r : c) for (double & e : r) e = sx_real(n, -2, 2); }
    double operator()(const vec_t<D> & x) const
    {
        double l[3];
        for (int k = 0; k < 3; k++) { l[k] = c[k][D]; for (int i = 0; i < D; i++) l[k] += c[k][i] * x[i]; }
        return l[0] * l[1] + l[2];
    }
    py::object python(Python & P, const char *coordinates) const
    {
        return value<py::function>([f = *this, &P, coordinates](const py::args_t & a) {
            sx_check(a.size() == 1, "one argument");
            return value<double>(f(components<D>(P, coordinates, a[0])));
        });
    }
};
template <int D> static void field_case(const char *cls, const char *field)
{
    Python P;
    const Quadratic<D> f("f"), g("g");
    std::vector<double> v;
    vec_t<D> x;
    for (int i = 0; i < D; i++) { x[i] = sx_real("x", -3, 3); v.push_back(x[i]); }
    py::object F = f.python(P, cls), G = g.python(P, cls);
    const auto a = P.m.make(field, { F }), b = P.m.make(field, { G });
    if (pick("function dropped", 2)) F.drop();
    const auto at = P.m.make(cls, { tuple(v) });
    sx_eq("value of the field", real_of(P.m.call(field, "__call__", { a, at })), f(x));
    sx_eq("value of another field", real_of(P.m.call(field, "__call__", { b, at })), g(x));
    for (int i = 0; i < D; i++) sx_eq("the coordinates are left alone", real_of(P.m.call(cls, "__getitem__", { at, number(i) })), v[i]);
}
SX_HARNESS(fields) { if (pick("dimension", 2)) field_case<3>("Coordinates3D", "ScalarField3D"); else field_case<2>("Coordinates2D", "ScalarField2D"); }
// a file with triangles on 4 or 5 nodes
struct File {
    std::vector<vec_t<2>> p;
    std::vector<std::array<int, 3>> cells;
    File(int count, const char *name, double from = 0, double unit = 1)
    {
        const std::array<int, 3> choice[] = { { 0, 1, 2 }, { 2, 1, 3 }, { 3, 1, 4 } };
        for (int k = 0; k < count + 2; k++) { vec_t<2> x; x[0] = sx_real("x", 10 * k + from, 10 * k + 1 + from); x[1] = sx_real("y", -2, 2); p.push_back(x); }
        for (int k = 0; k < count; k++) {
            auto c = choice[k];
            const int r = pick("rotation", 3);
            std::rotate(c.begin(), c.begin() + r, c.end());
            if (pick("reversed", 2)) std::swap(c[0], c[1]);
            cells.push_back(c);
        }
        auto q = p;
        for (auto & x : p) { x[0] *= unit; x[1] *= unit; }
        write(name);
        p = q;
    }
    void write(const char *name) const
    {
        std::ofstream f(name);
        f << std::setprecision(18) << 2 << "\n" << p.size() << " " << cells.size() << " " << 1 << "\n";
        for (const auto & x : p) f << x[0] << " " << x[1] << "\n";
        for (const auto & c : cells) f << 3 << " " << c[0] + 1 << " " << c[1] + 1 << " " << c[2] + 1 << " " << 1 << "\n";
        f.close();
    }
    // a larger one
    File(int w, int h, const char *name, bool spread)
    {
        for (int k = 0; k < (w + 1) * (h + 1); k++) { vec_t<2> x; x[0] = spread ? 10 * k + 0.5 : k % (w + 1) + 0.25 * (k % 2); x[1] = spread ? sx_real("y", -2, 2) : k / (w + 1) + 0.125 * (k % 3); p.push_back(x); }
        cells = grid_triangles(w, h);
        write(name);
    }
    // the integral of a quadratic function is the area times the mean of its values at the middles of the edges
    double integral(const Quadratic<2> & f) const
    {
        double s = 0;
        for (const auto & c : cells) {
            const vec_t<2> &a = p[c[0]], &b = p[c[1]], &d = p[c[2]];
            s += signed_measure<2>(*this, c) / 6 * (f(0.5 * (a + b)) + f(0.5 * (b + d)) + f(0.5 * (d + a)));
        }
        return s;
    }
};
static void mesh_case(Python & P, const File & f)
{
    auto cs = P.m.make("CoordinateSystem2D", {});
    auto mesh = P.m.make("SimplicialMesh2D", { text("in.summit"), cs });
    const auto cells = P.m.get("SimplicialMesh2D", "cells", mesh);
    using mesh_type = mito::mesh::mesh_t<geometry::triangle_t<2>>;
    const auto *list = cells.as<std::remove_cvref_t<decltype(std::declval<const mesh_type &>().cells())>>();
    sx_check(list != nullptr, "cells of the mesh");
    const auto *system = cs.as<geometry::coordinate_system_t<cart_t<2>>>();
    sx_check(system != nullptr, "coordinate system");
    if (!list || !system) return;
    size_t k = 0;
    std::vector<bool> seen(f.cells.size(), false);
    for (const auto & c : *list) {
        std::array<int, 3> a;
        for (int i = 0; i < 3; i++) {
            const auto x = system->coordinates(c.nodes()[i]->point());
            a[i] = -1;
            for (int j = 0; j < (int) f.p.size(); j++) if (x[0] > 10 * j - 2 && x[0] < 10 * j + 3) a[i] = j;
            sx_check(a[i] >= 0, "node of the file");
            if (a[i] < 0) return;
            for (int d = 0; d < 2; d++) sx_eq("coordinate", x[d], f.p[a[i]][d]);
        }
        for (size_t j = 0; j < f.cells.size(); j++) if (f.cells[j] == a && !seen[j]) { seen[j] = true; k++; break; }
    }
    sx_check(k == f.cells.size() && list->size() == k, "the cells of the file");
}
SX_HARNESS(mesh)
{
    Python P;
    const File f(1 + pick("cells", sx_bound("cells", 2)), "in.summit");
    mesh_case(P, f);
}
static void integral_case(Python & P, const File & file)
{
    const Quadratic<2> f("f");
    auto cs = P.m.make("CoordinateSystem2D", {});
    auto mesh = P.m.make("SimplicialMesh2D", { text("in.summit"), cs });
    auto manifold = P.m.make("ManifoldTriangle2D", { mesh, cs });
    auto integrator = P.m.make("GaussIntegrator2Triangle2D", { manifold });
    auto field = P.m.make("ScalarField2D", { f.python(P, "Coordinates2D") });
    sx_eq("integral", real_of(P.m.call("GaussIntegrator2Triangle2D", "integrate", { integrator, field })), file.integral(f));
    sx_eq("integral again", real_of(P.m.call("GaussIntegrator2Triangle2D", "integrate", { integrator, field })), file.integral(f));
}
SX_HARNESS(integral)
{
    Python P;
    const File file(1 + pick("cells", sx_bound("cells", 2)), "in.summit");
    integral_case(P, file);
}
// positions and fields from tiny to huge
SX_HARNESS(scales)
{
    Python P;
    static const double size[] = { 1e-9, 1e-4, 1e8 };
    const double u = size[pick("size", 3)], s = size[pick("size of the field", 3)];
    const File file(1, "in.summit", 0, u);
    auto cs = P.m.make("CoordinateSystem2D", {});
    auto mesh = P.m.make("SimplicialMesh2D", { text("in.summit"), cs });
    auto manifold = P.m.make("ManifoldTriangle2D", { mesh, cs });
    auto integrator = P.m.make("GaussIntegrator2Triangle2D", { manifold });
    double c[3], mean = 0;
    for (double & e : c) e = sx_real("f", -2, 2);
    auto field = P.m.make("ScalarField2D", { value<py::function>([&](const py::args_t & a) {
        const auto x = components<2>(P, "Coordinates2D", a[0]);
        return value<double>(s * (c[0] * x[0] / u + c[1] * x[1] / u + c[2]));
    }) });
    for (const auto & i : file.cells[0]) mean += (c[0] * file.p[i][0] + c[1] * file.p[i][1] + c[2]) / 3;
    sx_close("integral", real_of(P.m.call("GaussIntegrator2Triangle2D", "integrate", { integrator, field })) / u / u / s, signed_measure<2>(file, file.cells[0]) / 2 * mean, 1e-7);
}
SX_HARNESS(large)
{
    Python P;
    const bool integral = pick("integral", 2);
    const File f(4, 3, "in.summit", !integral);
    if (integral) integral_case(P, f); else mesh_case(P, f);
}
// what Python no longer refers to may still be needed by what was made from it
SX_HARNESS(dropped)
{
    Python P;
    const File file(1, "in.summit");
    const Quadratic<2> f("f");
    auto cs = P.m.make("CoordinateSystem2D", {});
    auto mesh = P.m.make("SimplicialMesh2D", { text("in.summit"), cs });
    auto manifold = P.m.make("ManifoldTriangle2D", { mesh, cs });
    const int early = pick("dropped before the integrator is made", 4);
    if (early & 1) mesh.drop();
    if (early & 2) cs.drop();
    auto integrator = P.m.make("GaussIntegrator2Triangle2D", { manifold });
    auto field = P.m.make("ScalarField2D", { f.python(P, "Coordinates2D") });
    const int late = pick("dropped before integrating", 8);
    if (late & 1) manifold.drop();
    if (late & 2) mesh.drop();
    if (late & 4) cs.drop();
    sx_eq("integral", real_of(P.m.call("GaussIntegrator2Triangle2D", "integrate", { integrator, field })), file.integral(f));
}
