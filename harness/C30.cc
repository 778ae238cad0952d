// Subdividing a mesh preserves its volume and orientation.
// @flags -include cassert
// @run segments quick:levels=3 thorough:levels=5
// @run triangles quick:levels=2 thorough:levels=4
// @run triangles_3D quick:levels=2 thorough:levels=3
// @run tetrahedra quick:levels=2 thorough:levels=3 tt:600
// @run meshes quick:levels=2 thorough:levels=3
// @run grid quick:squares=3 thorough:squares=5
// @run unchanged
// @run scales
#include "geo.h"
#include "grid.h"
#include <mito/mesh.h>
template <int N, int D> using mesh_of = mesh::mesh_t<geometry::geometric_simplex_t<N, D>>;
template <int N, int D, class C> static auto position(const geometry::coordinate_system_t<cart_t<D>> &cs, const C &c, int i) { const auto &x = cs.coordinates(c.nodes()[i]->point()); vec_t<D> r; for (int k = 0; k < D; k++) r[k] = x[k]; return r; }
template <int N, int D, class C> static void edges_of(const geometry::coordinate_system_t<cart_t<D>> &cs, const C &c, vec_t<D> *e)
{
    const auto o = position<N, D>(cs, c, 0);
    for (int j = 0; j < N; j++) { const auto p = position<N, D>(cs, c, j + 1); for (int k = 0; k < D; k++) e[j][k] = p[k] - o[k]; }
}
// the oriented measure: a determinant, or the components of the cross product of a triangle in space
template <int N, int D, class C> static std::array<double, 3> measure(const geometry::coordinate_system_t<cart_t<D>> &cs, const C &c)
{
    vec_t<D> e[N];
    edges_of<N, D>(cs, c, e);
    if constexpr (N == D) return { det<D>(e), 0, 0 };
    else if constexpr (N == 1) return { e[0][0], D > 1 ? e[0][D > 1 ? 1 : 0] : 0, D > 2 ? e[0][D > 2 ? 2 : 0] : 0 };
    else return { e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2], e[0][0] * e[1][1] - e[0][1] * e[1][0] };
}
static int pow2(int n) { return 1 << n; }
// the mesh c of children of the single cell p
template <int N, int D> static void check_children(const geometry::coordinate_system_t<cart_t<D>> &cs, const geometry::geometric_simplex_t<N, D> &p, const mesh_of<N, D> &m, int levels, int shared)
{
    const auto M = measure<N, D>(cs, p);
    const int f = pow2(N * levels);
    sx_check(m.nCells() == f, "number of children");
    int n = 0;
    double total[3] = { 0, 0, 0 };
    for (const auto &c : m.cells()) {
        const auto s = measure<N, D>(cs, c);
        for (int k = 0; k < 3; k++) { sx_close("children have the orientation and their share of the volume of the parent", s[k] * f, M[k], 1e-7); total[k] += s[k]; }
        // children have the corners of the lattice of the parent
        for (int i = 0; i <= N; i++) {
            const auto x = position<N, D>(cs, c, i);
            for (int j = 0; j < i; j++) sx_check(c.nodes()[i] != c.nodes()[j], "distinct nodes");
            (void)x;
        }
        n++;
    }
    sx_check(n == f, "number of children");
    for (int k = 0; k < 3; k++) sx_close("volume", total[k], M[k], 1e-7);
    if (shared) {
        // the children of one level meet face to face
        std::set<geometry::node_t<D>> nodes;
        mesh::get_nodes(m, nodes);
        sx_check((int)nodes.size() == (N + 1) * (N + 2) / 2, "one node per corner and edge");
        const int bs = mesh::boundary_size(m);
        sx_check(bs == (N == 1 ? 2 : N == 2 ? 6 : 16), "the children cover the faces of the parent");
    }
}
// every node of a child sits at a point of the lattice of the parent, every lattice point is used
template <int N, int D, int M> static void check_lattice(Nodes<D, M> &S, const std::array<int, N + 1> &a, const mesh_of<N, D> &m, int levels)
{
    const int q = pow2(levels);
    std::map<int, int> used;
    for (const auto &c : m.cells())
        for (int i = 0; i <= N; i++) {
            const auto x = position<N, D>(S.cs, c, i);
            // at the fixed positions below the lattice coordinates can be read off
            int b[3] = { 0, 0, 0 };
            for (int k = 0; k < N; k++) { const double t = x[k] * q; b[k] = (int)(t + 0.5); sx_check(std::fabs(t - b[k]) < 1e-9, "a node of the lattice"); }
            sx_check(b[0] >= 0 && b[1] >= 0 && b[2] >= 0 && b[0] + b[1] + b[2] <= q, "a node inside the parent");
            used[b[0] * 10000 + b[1] * 100 + b[2]]++;
        }
    int points = 0;
    for (int i = 0; i <= q; i++) for (int j = 0; j <= (N > 1 ? q - i : 0); j++) for (int k = 0; k <= (N > 2 ? q - i - j : 0); k++) points++;
    sx_check((int)used.size() == points, "every lattice point is a node");
}
template <int N, int D> static void one_cell(int max)
{
    Nodes<D, 5> S;
    S.add_free(N + 1);
    std::array<int, N + 1> a;
    for (int i = 0; i <= N; i++) a[i] = i;
    if (sx_choose("orientation", 2)) std::swap(a[0], a[1]);
    mesh_of<N, D> m;
    if (sx_choose("already there", 2)) { auto r = a; std::swap(r[0], r[1]); static auto other = simplex<N, D>(S, r); }
    const auto &p = m.insert(simplex<N, D>(S, a));
    const int levels = 1 + sx_choose("levels", max);
    auto t = mesh::tetra(m, S.cs, levels);
    check_children<N, D>(S.cs, p, t, levels, levels == 1);
    sx_check(m.nCells() == 1, "the mesh itself stays");
    for (int i = 0; i <= N; i++) { const auto x = position<N, D>(S.cs, p, i); for (int k = 0; k < D; k++) sx_eq("the nodes of the parent stay", x[k], S.p[a[i]][k]); }
    // the corners of the parent are nodes of the children
    for (int i = 0; i <= N; i++) { int n = 0; for (const auto &c : t.cells()) for (const auto &v : c.nodes()) n += v == S.n[a[i]]; sx_check(n == 1, "each corner belongs to one child"); }
    // once more
    if (levels == 1) {
        const auto u = mesh::tetra(t, S.cs);
        check_children<N, D>(S.cs, p, u, 2, 0);
    }
}
SX_HARNESS(segments) { switch (sx_choose("dimension", 3)) { case 0: one_cell<1, 1>(sx_bound("levels", 3)); break; case 1: one_cell<1, 2>(sx_bound("levels", 3)); break; default: one_cell<1, 3>(sx_bound("levels", 3)); } }
SX_HARNESS(triangles) { one_cell<2, 2>(sx_bound("levels", 2)); }
SX_HARNESS(triangles_3D) { one_cell<2, 3>(sx_bound("levels", 2)); }
SX_HARNESS(tetrahedra) { one_cell<3, 3>(sx_bound("levels", 2)); }
// meshes of several cells
template <int N> static void several(std::vector<std::array<int, N + 1>> cells, int nodes, int levels)
{
    Nodes<N, 8> S;
    S.add_free(nodes);
    mesh_of<N, N> m;
    double total = 0;
    for (auto &c : cells) { m.insert(simplex<N, N>(S, c)); total += signed_measure<N>(S, c); }
    const auto t = mesh::tetra(m, S.cs, levels);
    const int f = pow2(N * levels);
    sx_check(t.nCells() == f * (int)cells.size(), "number of children");
    double sum = 0;
    int n = 0;
    for (const auto &c : t.cells()) { const auto s = measure<N, N>(S.cs, c); sum += s[0]; sx_close("children of one parent follow each other", s[0] * f, signed_measure<N>(S, cells[n / f]), 1e-7); n++; }
    sx_close("volume", sum, total, 1e-7);
}
SX_HARNESS(meshes)
{
    const int levels = 1 + sx_choose("levels", sx_bound("levels", 2));
    switch (sx_choose("kind", 3)) {
        case 0: several<1>({ { 0, 1 }, { 1, 2 }, { 3, 2 } }, 4, levels); break;
        case 1: several<2>({ { 0, 1, 2 }, { 2, 1, 3 }, { 1, 3, 4 } }, 5, levels); break;
        default: several<3>({ { 0, 1, 2, 3 }, { 1, 0, 2, 4 } }, 5, levels);
    }
}
// many cells: the children of a grid are those of its cells
SX_HARNESS(grid)
{
    const int k = sx_bound("squares", 3), levels = 1 + sx_choose("levels", 2);
    Nodes<2, 64> S;
    for (int j = 0; j <= k; j++) for (int i = 0; i <= k; i++) S.add(vec_t<2>{ i + 0.125 * ((i * j) % 3), j + 0.0625 * ((2 * i + j) % 4) });
    // one node is anywhere nearby
    Nodes<2, 64> T;
    const auto d = rvec<2>("d", -0.125, 0.125);
    for (int n = 0; n < (k + 1) * (k + 1); n++) T.add(n == k + 2 ? vec_t<2>(S.p[n] + d) : S.p[n]);
    mesh_of<2, 2> m;
    const auto cells = grid_triangles(k, k);
    double total = 0;
    for (auto &c : cells) { m.insert(simplex<2, 2>(T, c)); total += signed_measure<2>(T, c); }
    const auto t = mesh::tetra(m, T.cs, levels);
    const int f = pow2(2 * levels);
    sx_check(t.nCells() == f * (int)cells.size() && m.nCells() == (int)cells.size(), "number of children");
    double sum = 0;
    int n = 0;
    for (const auto &c : t.cells()) { const auto s = measure<2, 2>(T.cs, c); sum += s[0]; sx_close("children of one parent follow each other", s[0] * f, signed_measure<2>(T, cells[n / f]), 1e-7); n++; }
    sx_check(n == t.nCells(), "every child is visited");
    sx_close("volume", sum, total, 1e-7);
}
SX_HARNESS(unchanged)
{
    // no refinement: the same cells on the same nodes
    Nodes<2, 8> S;
    S.add_free(5);
    mesh_of<2, 2> m;
    const std::vector<std::array<int, 3>> cells{ { 0, 1, 2 }, { 2, 1, 3 }, { 1, 3, 4 } };
    for (auto &c : cells) m.insert(simplex<2, 2>(S, c));
    const int gone = sx_choose("erased", 4);
    int k = 0;
    std::vector<std::array<int, 3>> left;
    for (auto &c : m.cells()) { if (k == gone) m.erase(c); else left.push_back(cells[k]); k++; }
    const auto t = mesh::tetra(m, S.cs, 0);
    sx_check(t.nCells() == (int)left.size(), "number of cells");
    int n = 0;
    for (const auto &c : t.cells()) { sx_check(node_numbers<2>(S, c) == left[n] && permutation_parity(left[n], vertex_numbers<2>(S, c)) == 0, "the same cells"); n++; }
    // the reference cells: the nodes of the children make the lattice
    Nodes<3, 8> R;
    R.add(vec_t<3>{ 0.0, 0.0, 0.0 }); R.add(vec_t<3>{ 1.0, 0.0, 0.0 }); R.add(vec_t<3>{ 0.0, 1.0, 0.0 }); R.add(vec_t<3>{ 0.0, 0.0, 1.0 });
    Nodes<2, 8> Q;
    Q.add(vec_t<2>{ 0.0, 0.0 }); Q.add(vec_t<2>{ 1.0, 0.0 }); Q.add(vec_t<2>{ 0.0, 1.0 });
    const int levels = 1 + sx_choose("levels", 2);
    const auto a3 = ordered<4>("corner", 4);
    const auto a2 = std::array<int, 3>{ 1, 2, 0 };
    mesh_of<3, 3> m3; m3.insert(simplex<3, 3>(R, a3));
    mesh_of<2, 2> m2; m2.insert(simplex<2, 2>(Q, a2));
    check_lattice<3, 3>(R, a3, mesh::tetra(m3, R.cs, levels), levels);
    check_lattice<2, 2>(Q, a2, mesh::tetra(m2, Q.cs, levels), levels);
}
// cells from tiny to huge
template <int N> static void scaled()
{
    static const double size[] = { 1e-9, 1e-4, 1e6 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    Nodes<N, 5> S, T;
    mesh_of<N, N> m;
    std::array<int, N + 1> a, b;
    for (int i = 0; i < N + 2; i++) { S.p[i] = rvec<N>("x"); T.add(vec_t<N>(u * S.p[i])); }
    for (int i = 0; i <= N; i++) b[i] = a[i] = i;
    b[0] = N + 1;
    m.insert(simplex<N, N>(T, a));
    m.insert(simplex<N, N>(T, b));
    const int levels = 1 + sx_concretize(sx_choose("levels", N < 3 ? 2 : 1));
    const auto t = mesh::tetra(m, T.cs, levels);
    const int f = pow2(N * levels);
    sx_check(t.nCells() == 2 * f, "number of children");
    const double v[2] = { signed_measure<N>(S, a), signed_measure<N>(S, b) };
    double un = 1;
    for (int i = 0; i < N; i++) un *= u;
    int n = 0;
    for (const auto &c : t.cells()) { sx_close("children have the orientation and their share of the volume of the parent", measure<N, N>(T.cs, c)[0] / un * f, v[n / f], 1e-7); n++; }
}
SX_HARNESS(scales) { switch (sx_concretize(sx_choose("dimension", 3))) { case 0: scaled<1>(); break; case 1: scaled<2>(); break; default: scaled<3>(); } }
