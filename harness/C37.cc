// Meshes survive being written and read; files for visualization hold every node, cell and value.
// @flags -include cassert -fdelete-null-pointer-checks -D_GLIBCXX_EXTERN_TEMPLATE=0 -DWITH_VTK -DWITH_PARALLEL_VTK
// @run read quick:cells=2 thorough:cells=3
// @run round_trip quick:steps=3 thorough:steps=4
// @run curvilinear
// @run labels
// @run missing
// @run large
// @run scales
// @run vtk_mesh quick:cells=2 thorough:cells=3
// @run vtk_curvilinear
// @run vtk_fields quick:cells=2 thorough:cells=2
// @run vtk_cloud
// @run vtk_nodes
// @run vtk_parallel
#include "sx_files.h"
#include "fem.h"
#include "grid.h"
#include <mito/io.h>
#include <mito/discrete.h>
static int pick(const char *what, int n) { return sx_concretize(sx_choose(what, n)); }
constexpr double NEAR = 1e-11;
// nodes whose first coordinate tells them apart: node k lies between 10 k and 10 k + 1
template <int D> static vec_t<D> place(int k) { vec_t<D> p; for (int i = 0; i < D; i++) p[i] = i ? sx_real("y", -2, 2) : sx_real("x", 10 * k, 10 * k + 1); return p; }
static int tag(double x) { for (int k = 0; k < 60; k++) if (x < 10 * k + 5) return k; return 99; }
template <int N, int D> using cell_of = geometry::geometric_simplex_t<N, D>;
template <int N> static std::array<int, N + 1> corners(int n) { auto a = ordered<N + 1>("corner", n); for (int & i : a) i = sx_concretize(i); return a; }
// the mesh has the cells a on nodes at p, in this order
template <int N, int D, class M, class S, class A> static void same_mesh(const M & m, const S & cs, const std::vector<vec_t<D>> & p, const A & a, bool shared)
{
    sx_check(m.nCells() == (int) a.size(), "number of cells");
    size_t k = 0;
    std::vector<int> first(p.size(), -1);
    std::vector<bool> used(a.size(), false);
    std::vector<geometry::node_t<D>> all;
    for (const auto & c : m.cells()) {
        std::array<int, N + 1> t;
        for (int i = 0; i <= N; i++) {
            const auto & node = c.nodes()[i];
            const auto x = cs.coordinates(node->point());
            t[i] = tag(x[0]);
            sx_check(t[i] < (int) p.size(), "the nodes are those of the mesh");
            if (t[i] >= (int) p.size()) return;
            for (int d = 0; d < D; d++) sx_close("coordinate", x[d], p[t[i]][d], NEAR);
            if (!shared) for (const auto & o : all) sx_check(!(o == node), "every cell has nodes of its own");
            all.push_back(node);
            if (first[t[i]] < 0) first[t[i]] = all.size() - 1;
            const auto & seen = all[first[t[i]]];
            sx_check(node->vertex() == seen->vertex() && node->point() == seen->point(), "cells share vertices and points");
            if (shared) sx_check(node == seen, "cells share nodes");
        }
        bool found = false;
        for (size_t j = 0; j < a.size() && !found; j++) if (!used[j] && a[j] == t) used[j] = found = true;
        sx_check(found, "every cell is one of the expected ones, with its nodes in order");
        k++;
    }
    sx_check(k == a.size(), "number of cells visited");
}
// a file in the summit format
template <int N, int D> static void summit_file(const char *name, const std::vector<vec_t<D>> & p, const std::vector<std::array<int, N + 1>> & a, int layout)
{
    std::ofstream f(name);
    f << std::setprecision(18) << D << (layout == 2 ? "  " : "\n") << p.size() << " " << a.size() << " " << 1 << " " << std::endl;
    for (const auto & x : p) { for (int d = 0; d < D; d++) f << x[d] << (layout ? "\t" : " "); f << "\n"; }
    for (size_t k = 0; k < a.size(); k++) {
        f << N + 1;
        for (int i : a[k]) f << " " << i + 1;
        f << (layout == 1 ? " steel" : layout == 2 ? " -7 " : " 1") << std::endl;
    }
    f.close();
}
template <int N, int D> static void read_case(int cells)
{
    const int n = N + 2;
    std::vector<vec_t<D>> p;
    for (int k = 0; k < n; k++) p.push_back(place<D>(k));
    std::vector<std::array<int, N + 1>> a;
    const int count = pick("cells", cells + 1);
    for (int k = 0; k < count; k++) {
        auto c = corners<N>(n);
        // cells of a mesh are different
        for (const auto & o : a) { auto x = c, y = o; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x == y) sx_stop(); }
        a.push_back(c);
    }
    summit_file<N, D>("in.summit", p, a, pick("layout", 3));
    geometry::coordinate_system_t<cart_t<D>> cs;
    std::ifstream f("in.summit");
    if (pick("discontinuous", 2)) { const auto m = io::summit::reader<cell_of<N, D>, io::summit::DG>(f, cs); same_mesh<N, D>(m, cs, p, a, false); }
    else { const auto m = io::summit::reader<cell_of<N, D>>(f, cs); same_mesh<N, D>(m, cs, p, a, true); }
}
SX_HARNESS(read)
{
    const int cells = sx_bound("cells", 2);
    switch (pick("kind", 5)) {
        case 0: read_case<1, 1>(cells); break;
        case 1: read_case<1, 2>(cells); break;
        case 2: read_case<2, 2>(cells); break;
        case 3: read_case<2, 3>(1); break;
        case 4: read_case<3, 3>(1); break;
    }
}
template <int N, int D> static void round_trip_case(int steps)
{
    const int n = N + 2;
    Nodes<D, 8> S;
    std::vector<vec_t<D>> p;
    for (int k = 0; k < n; k++) { p.push_back(place<D>(k)); S.add(p[k]); }
    const bool dg = pick("discontinuous", 2);
    mesh::mesh_t<cell_of<N, D>> m;
    std::vector<std::array<int, N + 1>> a;
    for (int s = 0; s < steps; s++) {
        const int op = pick("operation", a.empty() ? 1 : 2);
        if (op == 0) {
            auto c = corners<N>(n);
            for (const auto & o : a) { auto x = c, y = o; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x == y) sx_stop(); }
            auto fresh = [&](int k) { return geometry::node_t<D>(S.n[k]->vertex(), S.n[k]->point()); };
            auto make = [&]<size_t... I>(std::index_sequence<I...>) { return dg ? cell_of<N, D>({ fresh(c[I])... }) : cell_of<N, D>({ S.n[c[I]]... }); };
            m.insert(make(std::make_index_sequence<N + 1>{}));
            a.push_back(c);
        } else {
            const int k = pick("erased", a.size());
            for (auto & c : m.cells()) {
                bool same = true;
                for (int i = 0; i <= N; i++) same = same && tag(S.cs.coordinates(c.nodes()[i]->point())[0]) == a[k][i];
                if (same) { m.erase(c); break; }
            }
            a.erase(a.begin() + k);
        }
    }
    io::summit::writer("out", m, S.cs);
    // the file lists every point that is used once, and the cells by their points
    {
        std::ifstream f("out.summit");
        sx_check(f.is_open(), "the file has the name it was given");
        int dim = -1, points = -1, cells = -1, one = -1;
        f >> dim >> points >> cells >> one;
        bool used[8] = {};
        int distinct = 0;
        for (const auto & c : a) for (int i : c) if (!used[i]) { used[i] = true; distinct++; }
        sx_check(dim == D && points == distinct && cells == (int) a.size() && one == 1, "heading of the file");
        std::vector<int> at;
        for (int k = 0; k < points; k++) {
            vec_t<D> x;
            for (int d = 0; d < D; d++) f >> x[d];
            const int t = tag(x[0]);
            sx_check(t < n && used[t], "points of the file belong to the mesh and are listed once");
            if (t >= n) return;
            used[t] = false;
            for (int d = 0; d < D; d++) sx_close("coordinate in the file", x[d], p[t][d], NEAR);
            at.push_back(t);
        }
        for (size_t k = 0; k < a.size(); k++) {
            int type = -1;
            std::string label;
            f >> type;
            sx_check(type == N + 1, "type of the cell");
            for (int i = 0; i <= N; i++) {
                int id = -1;
                f >> id;
                sx_check(id >= 1 && id <= points, "points are numbered from one");
                if (id < 1 || id > points) return;
            }
            f >> label;
        }
        sx_check(!f.fail(), "the file is complete");
    }
    geometry::coordinate_system_t<cart_t<D>> cs;
    std::ifstream f("out.summit");
    if (dg) { const auto r = io::summit::reader<cell_of<N, D>, io::summit::DG>(f, cs); same_mesh<N, D>(r, cs, p, a, false); }
    else { const auto r = io::summit::reader<cell_of<N, D>>(f, cs); same_mesh<N, D>(r, cs, p, a, true); }
}
SX_HARNESS(round_trip)
{
    const int steps = sx_bound("steps", 3);
    switch (pick("kind", 5)) {
        case 0: round_trip_case<1, 1>(steps); break;
        case 1: round_trip_case<1, 3>(steps); break;
        case 2: round_trip_case<2, 2>(std::min(steps, 2)); break;
        case 3: round_trip_case<2, 3>(std::min(steps, 2)); break;
        case 4: round_trip_case<3, 3>(1); break;
    }
}
// coordinates are those of the system the mesh is written in
SX_HARNESS(curvilinear)
{
    using polar = geometry::coordinates_t<2, geometry::POLAR>;
    geometry::coordinate_system_t<polar> cs, back;
    std::vector<geometry::node_t<2>> n;
    std::vector<vec_t<2>> p;
    for (int k = 0; k < 3; k++) { vec_t<2> x; x[0] = sx_real("radius", 10 * k + 0.5, 10 * k + 1); x[1] = sx_real("angle", -3, 3); p.push_back(x); n.push_back(geometry::node(cs, polar(x))); }
    mesh::mesh_t<geometry::triangle_t<2>> m;
    m.insert(geometry::triangle<2>({ n[0], n[1], n[2] }));
    io::summit::writer("polar", m, cs);
    std::ifstream f("polar.summit");
    const auto r = io::summit::reader<geometry::triangle_t<2>>(f, back);
    same_mesh<2, 2>(r, back, p, std::vector<std::array<int, 3>>{ { 0, 1, 2 } }, true);
}
// whatever is noted about the type of the elements and about their material does not matter
SX_HARNESS(labels)
{
    Nodes<2, 4> S;
    std::vector<vec_t<2>> p;
    for (int k = 0; k < 4; k++) { p.push_back(place<2>(k)); S.add(p[k]); }
    mesh::mesh_t<geometry::triangle_t<2>> m;
    m.insert(geometry::triangle<2>({ S.n[0], S.n[1], S.n[2] }));
    m.insert(geometry::triangle<2>({ S.n[2], S.n[1], S.n[3] }));
    static const char *const type[] = { "", "P1", "3", "two words" };
    io::summit::writer("typed", m, S.cs, type[pick("type", 4)]);
    geometry::coordinate_system_t<cart_t<2>> cs;
    std::ifstream f("typed.summit");
    const auto r = io::summit::reader<geometry::triangle_t<2>>(f, cs);
    same_mesh<2, 2>(r, cs, p, std::vector<std::array<int, 3>>{ { 0, 1, 2 }, { 2, 1, 3 } }, true);
}
SX_HARNESS(missing)
{
    geometry::coordinate_system_t<cart_t<2>> cs;
    std::ifstream f("nowhere.summit");
    sx_expect_reject();
    const auto r = io::summit::reader<geometry::triangle_t<2>>(f, cs);
    sx_check(false, "a file that is not there is rejected");
}
// the written grid g holds the cells a on the nodes p
template <int N, int D, class A> static void same_grid(const sx_vtk_file & g, const std::vector<vec_t<D>> & p, const A & a, bool shared)
{
    static const int types[] = { 0, VTK_LINE, VTK_TRIANGLE, VTK_TETRA };
    const int n = g.x.size() / 3;
    std::vector<int> count(p.size(), 0), expected(p.size(), 0), t;
    for (const auto & c : a) for (int i : c) if (!shared || !expected[i]) expected[i]++;
    for (int k = 0; k < n; k++) {
        const int i = tag(g.x[3 * k]);
        sx_check(i < (int) p.size(), "points of the grid are nodes");
        if (i >= (int) p.size()) return;
        t.push_back(i);
        count[i]++;
        for (int d = 0; d < 3; d++) sx_close("coordinate of a point", g.x[3 * k + d], d < D ? p[i][d] : 0, 1e-6);
    }
    for (size_t i = 0; i < p.size(); i++) sx_check(count[i] == expected[i], "every node is a point of the grid once");
    sx_check(g.cells.size() == a.size(), "number of cells of the grid");
    std::vector<bool> used(a.size(), false);
    for (const auto & c : g.cells) {
        sx_check(c.type == types[N] && c.ids.size() == N + 1, "type of the cells of the grid");
        std::array<int, N + 1> q;
        for (int i = 0; i <= N; i++) { const int id = c.ids[i]; sx_check(id >= 0 && id < n, "cells of the grid are made of its points"); if (id < 0 || id >= n) return; q[i] = t[id]; }
        bool found = false;
        for (size_t j = 0; j < a.size() && !found; j++) if (!used[j] && a[j] == q) used[j] = found = true;
        sx_check(found, "every cell of the grid is one of the mesh");
    }
}
template <int N, int D> struct Case {
    Nodes<D, 8> S;
    std::vector<vec_t<D>> p;
    mesh::mesh_t<cell_of<N, D>> m;
    std::vector<std::array<int, N + 1>> a;
    bool dg;
    Case(int cells, bool with_dg = true)
    {
        const int n = N + 2;
        for (int k = 0; k < n; k++) { p.push_back(place<D>(k)); S.add(p[k]); }
        dg = with_dg && pick("discontinuous", 2);
        const int count = pick("cells", cells + 1);
        for (int s = 0; s < count; s++) {
            auto c = corners<N>(n);
            for (const auto & o : a) { auto x = c, y = o; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x == y) sx_stop(); }
            auto fresh = [&](int k) { return geometry::node_t<D>(S.n[k]->vertex(), S.n[k]->point()); };
            auto make = [&]<size_t... I>(std::index_sequence<I...>) { return dg ? cell_of<N, D>({ fresh(c[I])... }) : cell_of<N, D>({ S.n[c[I]]... }); };
            m.insert(make(std::make_index_sequence<N + 1>{}));
            a.push_back(c);
        }
    }
};
template <int N, int D> static void vtk_mesh_case(int cells)
{
    Case<N, D> c(cells);
    {
        auto w = io::vtk::grid_writer("mesh", c.m, c.S.cs);
        w.write();
    }
    sx_check(sx_vtk_files().size() == 1 && sx_vtk_files()[0].name == "mesh.vtu", "one file is written");
    same_grid<N, D>(sx_vtk_files()[0], c.p, c.a, !c.dg);
    sx_check(sx_vtk_alive() == 0, "everything made for the grid is released");
}
SX_HARNESS(vtk_mesh)
{
    const int cells = sx_bound("cells", 2);
    switch (pick("kind", 5)) {
        case 0: vtk_mesh_case<1, 1>(cells); break;
        case 1: vtk_mesh_case<1, 2>(cells); break;
        case 2: vtk_mesh_case<2, 2>(cells); break;
        case 3: vtk_mesh_case<2, 3>(1); break;
        case 4: vtk_mesh_case<3, 3>(1); break;
    }
}
// points are drawn where they are in space, whatever coordinates are used
SX_HARNESS(vtk_curvilinear)
{
    if (pick("spherical", 2)) {
        using spherical = geometry::coordinates_t<3, geometry::SPHERICAL>;
        geometry::coordinate_system_t<spherical> cs;
        std::vector<geometry::node_t<3>> n;
        double x[3][3];
        for (int k = 0; k < 3; k++) {
            vec_t<3> c;
            const double r = sx_real("radius", 1, 3), t = sx_real("polar angle", 0.2, 2.9), f = sx_real("azimuth", -3, 3);
            c[0] = r; c[1] = t; c[2] = f;
            n.push_back(geometry::node(cs, spherical(c)));
            x[k][0] = r * std::sin(t) * std::cos(f); x[k][1] = r * std::sin(t) * std::sin(f); x[k][2] = r * std::cos(t);
        }
        mesh::mesh_t<geometry::triangle_t<3>> m;
        m.insert(geometry::triangle<3>({ n[0], n[1], n[2] }));
        io::vtk::grid_writer("spherical", m, cs).write();
        const auto & g = sx_vtk_files().at(0);
        sx_check(g.x.size() == 9 && g.cells.size() == 1, "one triangle");
        for (int k = 0; k < 3; k++) for (int d = 0; d < 3; d++) sx_close("place in space", g.x[3 * g.cells[0].ids[k] + d], x[k][d], 1e-6);
    } else {
        using polar = geometry::coordinates_t<2, geometry::POLAR>;
        geometry::coordinate_system_t<polar> cs;
        std::vector<geometry::node_t<2>> n;
        double x[3][3];
        for (int k = 0; k < 3; k++) {
            vec_t<2> c;
            const double r = sx_real("radius", 1, 3), t = sx_real("angle", -3, 3);
            c[0] = r; c[1] = t;
            n.push_back(geometry::node(cs, polar(c)));
            x[k][0] = r * std::cos(t); x[k][1] = r * std::sin(t); x[k][2] = 0;
        }
        mesh::mesh_t<geometry::triangle_t<2>> m;
        m.insert(geometry::triangle<2>({ n[0], n[1], n[2] }));
        io::vtk::grid_writer("polar", m, cs).write();
        const auto & g = sx_vtk_files().at(0);
        sx_check(g.x.size() == 9 && g.cells.size() == 1, "one triangle");
        for (int k = 0; k < 3; k++) for (int d = 0; d < 3; d++) sx_close("place in space", g.x[3 * g.cells[0].ids[k] + d], x[k][d], 1e-6);
    }
}
static int width(double) { return 1; }
template <class Y> static int width(const Y &) { return Y::size; }
static double part(double v, int) { return v; }
template <class Y> static double part(const Y & v, int k) { if constexpr (Y::size == 9) return v[{ k / 3, k % 3 }]; else return v[k]; }
static void set(double & v, int, double x) { v = x; }
template <class Y> static void set(Y & v, int k, double x) { if constexpr (Y::size == 9) v[{ k / 3, k % 3 }] = x; else v[k] = x; }
// the array holds for every point the value of the field there
template <class Y> static void same_values(const sx_vtk_file & g, size_t which, const std::string & name, const std::vector<Y> & value)
{
    sx_check(which < g.arrays.size(), "every recorded field is written");
    if (which >= g.arrays.size()) return;
    const auto & a = g.arrays[which];
    const int n = g.x.size() / 3, w = width(Y{});
    sx_check(a.name == name && a.components == w && (int) a.v.size() == n * w && a.complete, "name and size of a written field");
    if ((int) a.v.size() != n * w) return;
    for (int k = 0; k < n; k++) for (int j = 0; j < w; j++) sx_eq("written value", a.v[k * w + j], part(value[tag(g.x[3 * k])], j));
}
template <class Y, int N, int D> static void vtk_fields_case(int cells)
{
    Case<N, D> c(cells, false);
    auto f = discrete::mesh_field<Y>(c.m, "first"), h = discrete::mesh_field<Y>(c.m, "second");
    std::vector<Y> u(c.p.size()), v(c.p.size());
    for (size_t k = 0; k < c.p.size(); k++) {
        const int w = width(Y{});
        for (int j = 0; j < w; j++) { set(u[k], j, sx_real("u", -5, 5)); set(v[k], j, sx_real("v", -5, 5)); }
    }
    for (auto & [node, value] : f) value = u[tag(c.S.cs.coordinates(node->point())[0])];
    for (auto & [node, value] : h) value = v[tag(c.S.cs.coordinates(node->point())[0])];
    {
        auto w = io::vtk::field_writer("fields", c.m, c.S.cs);
        const bool named = pick("named", 2);
        if (named) w.record(f, "other name"); else w.record(f);
        w.record(h);
        w.write();
        const auto & g = sx_vtk_files().at(0);
        sx_check(g.name == "fields.vtu", "name of the file");
        same_grid<N, D>(g, c.p, c.a, true);
        sx_check(g.arrays.size() == 2, "number of fields");
        same_values(g, 0, named ? "other name" : "first", u);
        same_values(g, 1, "second", v);
        // a later state of the field
        if (!c.a.empty()) {
            for (auto & [node, value] : h) for (int j = 0; j < width(value); j++) set(value, j, 2.5);
            for (auto & y : v) for (int j = 0; j < width(y); j++) set(y, j, 2.5);
            w.record(h);
            w.write();
            same_values(sx_vtk_files().at(1), 0, named ? "other name" : "first", u);
            same_values(sx_vtk_files().at(1), 1, "second", v);
        }
    }
    sx_check(sx_vtk_alive() == 0, "everything made for the grid is released");
}
SX_HARNESS(vtk_fields)
{
    const int cells = sx_bound("cells", 2);
    switch (pick("kind", 4)) {
        case 0: vtk_fields_case<tensor::scalar_t, 1, 2>(cells); break;
        case 1: vtk_fields_case<tensor::vector_t<2>, 1, 2>(cells); break;
        case 2: vtk_fields_case<tensor::matrix_t<3>, 2, 3>(1); break;
        case 3: vtk_fields_case<tensor::vector_t<3>, 2, 2>(1); break;
    }
}
SX_HARNESS(vtk_cloud)
{
    const bool parallel = pick("parallel", 2);
    auto & cloud = geometry::point_cloud<2>();
    geometry::coordinate_system_t<cart_t<2>> cs;
    const int before = cloud.size();
    sx_check(before == 0, "no points yet");
    const int n = pick("points", 5);
    std::vector<vec_t<2>> p;
    std::vector<double> u;
    for (int k = 0; k < n; k++) { p.push_back(place<2>(k)); cs.place(cloud.point(), cart_t<2>(p[k])); u.push_back(sx_real("u", -5, 5)); }
    auto f = discrete::point_field<tensor::scalar_t>(cloud, "density");
    for (auto & [point, value] : f) value = u[tag(cs.coordinates(point)[0])];
    if (parallel) { auto w = io::vtk::parallel_field_writer("cloud", cloud, cs); w.record(f); w.write(); }
    else { auto w = io::vtk::field_writer("cloud", cloud, cs); w.record(f); w.write(); io::vtk::grid_writer("points", cloud, cs).write(); }
    for (const auto & g : sx_vtk_files()) {
        sx_check((int) g.x.size() == 3 * n && g.cells.empty(), "every point of the cloud is a point of the grid");
        std::vector<int> count(n, 0);
        for (int k = 0; k < n && 3 * k + 2 < (int) g.x.size(); k++) {
            const int t = tag(g.x[3 * k]);
            sx_check(t < n && !count[t]++, "points are written once");
            if (t >= n) return;
            for (int d = 0; d < 3; d++) sx_close("coordinate of a point", g.x[3 * k + d], d < 2 ? p[t][d] : 0, 1e-6);
        }
        if (g.arrays.size()) same_values(g, 0, "density", u);
    }
    sx_check(sx_vtk_files().size() == 2 && sx_vtk_files()[0].arrays.size() == 1, "files");
}
// fields of a finite element solution are written at the nodes of the mesh
template <int degree> static void vtk_nodes_case()
{
    using E = fem::isoparametric_simplex_t<degree, geometry::triangle_t<2>>;
    Nodes<2, 8> S;
    std::vector<vec_t<2>> p;
    for (int k = 0; k < 4; k++) { p.push_back(place<2>(k)); S.add(p[k]); }
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> a{ { 0, 1, 2 } };
    const int more = pick("second cell", 4);
    static const std::array<int, 3> second[] = { { 1, 3, 2 }, { 2, 0, 3 }, { 3, 1, 0 } };
    if (more) a.push_back(second[more - 1]);
    for (const auto & c : a) m.insert(simplex<2, 2>(S, c));
    const auto zero = functions::zero<cart_t<2>>;
    const auto man = manifolds::manifold(m, S.cs);
    mesh::mesh_t<geometry::segment_t<2>> none;
    const auto space = fem::function_space<E>(man, constraints::dirichlet_bc(none, zero));
    auto f = space.template fem_field<tensor::scalar_t>("temperature");
    std::vector<double> u(4);
    for (int k = 0; k < 4; k++) u[k] = sx_real("u", -5, 5);
    for (auto & [node, value] : f) value = 77;
    for (int k = 0; k < 4; k++) { const auto it = space.node_map().find(S.n[k]); if (it != space.node_map().end()) f(it->second) = u[k]; }
    if (pick("parallel", 2)) {
        auto w = io::vtk::parallel_field_writer("nodes", space, S.cs);
        w.record(f.nodal_values());
        w.write();
    } else {
        auto w = io::vtk::field_writer("nodes", space, S.cs);
        w.record(f.nodal_values());
        w.write();
        io::vtk::grid_writer("grid", space, S.cs).write();
        same_grid<2, 2>(sx_vtk_files().back(), p, a, true);
    }
    same_grid<2, 2>(sx_vtk_files().at(0), p, a, true);
    same_values(sx_vtk_files()[0], 0, "temperature", u);
}
SX_HARNESS(vtk_nodes) { if (pick("quadratic", 2)) vtk_nodes_case<2>(); else vtk_nodes_case<1>(); }
// many nodes and cells
SX_HARNESS(large)
{
    constexpr int w = 5, h = 4, n = (w + 1) * (h + 1);
    Nodes<2, n + 1> S;
    std::vector<vec_t<2>> p;
    for (int k = 0; k < n; k++) { vec_t<2> x; x[0] = 10 * k + 0.375; x[1] = sx_real("y", -2, 2); p.push_back(x); S.add(x); }
    auto a = grid_triangles(w, h);
    const int what = pick("what", 6);
    if (what == 5) {
        auto & cloud = geometry::point_cloud<3>();
        geometry::coordinate_system_t<cart_t<3>> cs;
        std::vector<vec_t<3>> q;
        std::vector<tensor::vector_t<3>> u(50);
        for (int k = 0; k < 50; k++) {
            vec_t<3> x;
            x[0] = 10 * k + 0.375; x[1] = sx_real("y", -2, 2); x[2] = k % 7;
            q.push_back(x);
            cs.place(cloud.point(), cart_t<3>(x));
            for (int d = 0; d < 3; d++) u[k][d] = sx_real("u", -5, 5);
        }
        auto f = discrete::point_field<tensor::vector_t<3>>(cloud, "velocity");
        for (auto & [point, value] : f) value = u[tag(cs.coordinates(point)[0])];
        auto writer = io::vtk::field_writer("cloud", cloud, cs);
        writer.record(f);
        writer.write();
        const auto & g = sx_vtk_files().at(0);
        sx_check(g.x.size() == 150 && g.cells.empty(), "every point of the cloud is a point of the grid");
        std::vector<int> count(50, 0);
        for (int k = 0; k < 50; k++) {
            const int t = tag(g.x[3 * k]);
            sx_check(t < 50 && !count[t]++, "points are written once");
            for (int d = 0; d < 3; d++) sx_close("coordinate of a point", g.x[3 * k + d], q[t][d], 1e-6);
        }
        same_values(g, 0, "velocity", u);
        return;
    }
    mesh::mesh_t<geometry::triangle_t<2>> m;
    auto fresh = [&](int k) { return geometry::node_t<2>(S.n[k]->vertex(), S.n[k]->point()); };
    for (const auto & c : a) { if (what == 1) m.insert(geometry::triangle_t<2>({ fresh(c[0]), fresh(c[1]), fresh(c[2]) })); else m.insert(simplex<2, 2>(S, c)); }
    if (what < 2) {
        io::summit::writer("large", m, S.cs);
        geometry::coordinate_system_t<cart_t<2>> cs;
        std::ifstream f("large.summit");
        if (what) { const auto r = io::summit::reader<geometry::triangle_t<2>, io::summit::DG>(f, cs); same_mesh<2, 2>(r, cs, p, a, false); }
        else { const auto r = io::summit::reader<geometry::triangle_t<2>>(f, cs); same_mesh<2, 2>(r, cs, p, a, true); }
    } else if (what == 2) {
        io::vtk::grid_writer("large", m, S.cs).write();
        same_grid<2, 2>(sx_vtk_files().at(0), p, a, true);
    } else if (what == 3) {
        auto f = discrete::mesh_field<tensor::vector_t<2>>(m, "velocity");
        std::vector<tensor::vector_t<2>> u(n);
        for (auto & v : u) { v[0] = sx_real("u", -5, 5); v[1] = sx_real("u", -5, 5); }
        for (auto & [node, value] : f) value = u[tag(S.cs.coordinates(node->point())[0])];
        auto writer = io::vtk::field_writer("large", m, S.cs);
        writer.record(f);
        writer.write();
        same_grid<2, 2>(sx_vtk_files().at(0), p, a, true);
        same_values(sx_vtk_files()[0], 0, "velocity", u);
    } else {
        using E = fem::isoparametric_simplex_t<2, geometry::triangle_t<2>>;
        const auto zero = functions::zero<cart_t<2>>;
        const auto man = manifolds::manifold(m, S.cs);
        mesh::mesh_t<geometry::segment_t<2>> none;
        const auto space = fem::function_space<E>(man, constraints::dirichlet_bc(none, zero));
        auto f = space.template fem_field<tensor::scalar_t>("temperature");
        std::vector<double> u(n);
        for (auto & [node, value] : f) value = 77;
        for (int k = 0; k < n; k++) f(space.node_map().at(S.n[k])) = u[k] = sx_real("u", -5, 5);
        auto writer = io::vtk::field_writer("large", space, S.cs);
        writer.record(f.nodal_values());
        writer.write();
        same_grid<2, 2>(sx_vtk_files().at(0), p, a, true);
        same_values(sx_vtk_files()[0], 0, "temperature", u);
    }
}
// fifteen digits of every coordinate, whatever its size
SX_HARNESS(scales)
{
    Nodes<2, 4> S;
    std::vector<vec_t<2>> p;
    static const double size[] = { 1e-20, 1e-9, 1.0, 1e7, 1e20 };
    const double s = size[pick("size", 5)];
    for (int k = 0; k < 3; k++) { vec_t<2> x; x[0] = s * (k + 0.1234567890123); x[1] = s * sx_real("y", 1, 2); p.push_back(x); S.add(x); }
    mesh::mesh_t<geometry::triangle_t<2>> m;
    m.insert(geometry::triangle<2>({ S.n[0], S.n[1], S.n[2] }));
    io::summit::writer("scaled", m, S.cs);
    geometry::coordinate_system_t<cart_t<2>> cs;
    std::ifstream f("scaled.summit");
    const auto r = io::summit::reader<geometry::triangle_t<2>>(f, cs);
    for (const auto & c : r.cells())
        for (int i = 0; i < 3; i++)
            for (int d = 0; d < 2; d++) sx_close("digits of a coordinate", cs.coordinates(c.nodes()[i]->point())[d] / s, p[i][d] / s, 1e-13);
}
// every process writes its own piece
SX_HARNESS(vtk_parallel)
{
    auto & job = sx_vtk_mpi();
    job.procs = 1 + pick("processes", 3);
    job.rank = pick("rank", job.procs);
    Case<2, 2> c(1);
    auto f = discrete::mesh_field<tensor::scalar_t>(c.m, "first");
    std::vector<double> u(c.p.size());
    for (auto & x : u) x = sx_real("u", -5, 5);
    for (auto & [node, value] : f) value = u[tag(c.S.cs.coordinates(node->point())[0])];
    if (pick("field", 2)) {
        auto w = io::vtk::parallel_field_writer("job", c.m, c.S.cs);
        w.record(f);
        w.write();
        for (const auto & g : sx_vtk_files()) same_values(g, 0, "first", u);
    } else io::vtk::parallel_grid_writer("job", c.m, c.S.cs).write();
    const auto & files = sx_vtk_files();
    int pieces = 0, summaries = 0;
    for (const auto & g : files) {
        same_grid<2, 2>(g, c.p, c.a, !c.dg);
        if (g.parallel) { summaries++; sx_check(g.name == "job.pvtu" && g.pieces == job.procs && g.first == job.rank && g.last == job.rank, "the summary has a piece per process"); }
        else { pieces++; sx_check(g.name == "job_" + sx_digits(job.rank) + ".vtu", "the piece bears the number of the process"); }
    }
    sx_check(pieces == 1 && summaries == 1, "one piece and one summary");
    sx_check(job.initialized == 0, "the controller is finalized");
}
