// The boundary of a mesh consists of the faces that belong to exactly one cell.
// @flags -include cassert
// @run segments_1D
// @run segments quick:cells=3,nodes=4 thorough:cells=4,nodes=5
// @run triangles quick:cells=2 thorough:cells=2
// @run three_triangles
// @run three_triangles_everywhere quick:nodes=4,cells=3 thorough:nodes=5,cells=4 tt:700
// @run tetrahedra quick:everywhere=1 thorough:everywhere=1
// @run closed
// @run grid_3D quick:cubes=2 thorough:cubes=3
// @run grid quick:squares=4 thorough:squares=6
// @run filters
// @run erased
// @run copies quick:steps=4 thorough:steps=6
#include "geo.h"
#include <mito/mesh.h>
#include <numeric>
#include "grid.h"
// nodes at fixed positions (the boundary does not depend on them), numbered by the order of creation
template <int D, int M> static void place(Nodes<D, M> &S, int n)
{
    for (int i = 0; i < n; i++) { vec_t<D> x; for (int k = 0; k < D; k++) x[k] = i * (k + 1) + (i == k ? 0.5 : 0) + i * i * k; S.add(x); }
}
// a face is a sorted tuple of node numbers with a sign
template <int N> struct Face { std::array<int, N> v; int sign; };
template <int N> static Face<N> face(std::array<int, N> v)
{
    int s = 1;
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (v[j] > v[i]) s = -s;
    std::sort(v.begin(), v.end());
    return { v, s };
}
// the faces of a cell with the orientation of the mesh boundary: the edges of a triangle run around it, the
// faces of a tetrahedron are seen from inside
static std::vector<Face<2>> faces(const std::array<int, 3> &c) { return { face<2>({ c[0], c[1] }), face<2>({ c[1], c[2] }), face<2>({ c[2], c[0] }) }; }
static std::vector<Face<3>> faces(const std::array<int, 4> &c)
{
    return { face<3>({ c[0], c[1], c[2] }), face<3>({ c[1], c[3], c[2] }), face<3>({ c[3], c[1], c[0] }), face<3>({ c[3], c[0], c[2] }) };
}
template <int N> using Census = std::vector<std::pair<std::array<int, N>, std::array<int, 2>>>;
template <int N> static std::array<int, 2> &count(Census<N> &c, const std::array<int, N> &v)
{
    for (auto &e : c) if (e.first == v) return e.second;
    c.push_back({ v, { 0, 0 } });
    return c.back().second;
}
// compares the boundary of m with the oracle computed from the node numbers of the cells
template <int N, int D, int M> static void check_boundary(const Nodes<D, M> &S, const mesh::mesh_t<geometry::geometric_simplex_t<N, D>> &m, const std::vector<std::array<int, N + 1>> &cells)
{
    Census<N> all, expected;
    for (auto &c : cells) for (auto &f : faces(c)) count<N>(all, f.v)[f.sign < 0]++;
    int total = 0;
    bool manifold = true;
    for (auto &[v, n] : all) {
        auto &e = count<N>(expected, v);
        if (n[1] == 0) e[0] = n[0];
        if (n[0] == 0) e[1] = n[1];
        total += e[0] + e[1];
        manifold = manifold && n[0] <= 1 && n[1] <= 1;
    }
    sx_check(mesh::boundary_size(m) == total, "size of the boundary");
    const auto b = mesh::boundary(m);
    sx_check(b.nCells() == total, "number of boundary cells");
    Census<N> seen;
    for (const auto &c : b.cells()) {
        const auto a = node_numbers<N - 1>(S, c), v = vertex_numbers<N - 1>(S, c);
        for (int i : a) sx_check(i >= 0, "nodes of the boundary are nodes of the mesh");
        sx_check(permutation_parity(a, v) == 0, "orientation of a boundary cell");
        for (int i = 0; i < N; i++) {
            const auto &x = S.cs.coordinates(c.nodes()[i]->point());
            for (int k = 0; k < D; k++) sx_check(x[k] == S.p[a[i]][k], "points of the boundary nodes");
        }
        const auto f = face<N>(a);
        count<N>(seen, f.v)[f.sign < 0]++;
    }
    for (auto &[v, n] : seen) sx_check(count<N>(expected, v) == n, "a boundary cell is a face of exactly one cell with the induced orientation");
    for (auto &[v, n] : expected) sx_check(count<N>(seen, v) == n, "every free face is in the boundary");
    if (manifold) sx_check(mesh::boundary_size(b) == 0, "the boundary of a boundary is empty");
    if (manifold) { const auto bb = mesh::boundary(b); int left; if constexpr (N == 3) left = bb.nCells(); else left = std::size(bb); sx_check(left == 0, "the boundary of a boundary is empty"); }
}
// boundary of meshes of segments: a set of nodes
template <int D, int M> static void check_tips(const Nodes<D, M> &S, const mesh::mesh_t<geometry::segment_t<D>> &m, const std::vector<std::array<int, 2>> &cells, int n)
{
    std::vector<int> in(n, 0), out(n, 0);
    for (auto &c : cells) { out[c[0]]++; in[c[1]]++; }
    int tips = 0, ends = 0;
    for (int i = 0; i < n; i++) if ((in[i] == 0) != (out[i] == 0)) { tips++; ends += in[i] + out[i]; }
    sx_check(mesh::boundary_size(m) == ends, "size of the boundary");
    const auto b = mesh::boundary(m);
    sx_check((int)std::size(b) == tips, "number of tips");
    for (const auto &v : b) {
        const int i = S.index(v);
        sx_check(i >= 0 && (in[i] == 0) != (out[i] == 0), "a boundary node is the tip of segments of one direction only");
        for (int k = 0; k < D; k++) sx_check(S.cs.coordinates(v->point())[k] == S.p[i][k], "points of the boundary nodes");
    }
}
SX_HARNESS(segments_1D)
{
    Nodes<1, 8> S;
    S.add_free(3);
    const bool up = sx_choose("direction", 2);
    mesh::mesh_t<geometry::segment_t<1>> m;
    std::vector<std::array<int, 2>> cells;
    for (int i = 0; i < 2; i++) { cells.push_back(up ? std::array<int, 2>{ i, i + 1 } : std::array<int, 2>{ i + 1, i }); m.insert(simplex<1, 1>(S, cells.back())); }
    check_tips(S, m, cells, 3);
}
SX_HARNESS(segments)
{
    Nodes<2, 8> S;
    const int n = sx_bound("nodes", 4);
    place(S, n);
    // the footprints may exist already in either direction
    std::vector<geometry::segment_t<2>> before;
    if (sx_choose("already there", 2)) { before.push_back(simplex<1, 2>(S, std::array<int, 2>{ 1, 0 })); before.push_back(simplex<1, 2>(S, std::array<int, 2>{ 2, 1 })); }
    mesh::mesh_t<geometry::segment_t<2>> m;
    std::vector<std::array<int, 2>> cells;
    const int k = 1 + sx_choose("cells", sx_bound("cells", 3));
    for (int i = 0; i < k; i++) {
        if (i == 0) cells.push_back({ 0, 1 });
        else cells.push_back(ordered<2>("node", n));
        m.insert(simplex<1, 2>(S, cells.back()));
    }
    check_tips(S, m, cells, n);
}
// an ordered choice up to rotation: the smallest node comes first
static std::array<int, 3> triangle_of(int n)
{
    const int pick = sx_choose("triangle", n * (n - 1) * (n - 2) / 3);
    int k = 0;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = a + 1; c < n; c++) if (b != c && k++ == pick) return { a, b, c };
    return { 0, 1, 2 };
}
template <int D> static void triangle_mesh(int n, int k, bool pinned)
{
    Nodes<D, 8> S;
    place(S, n);
    std::vector<geometry::triangle_t<D>> before;
    switch (sx_choose("already there", 3)) {
        case 1: before.push_back(simplex<2, D>(S, std::array<int, 3>{ 0, 2, 1 })); break;
        case 2: before.push_back(simplex<2, D>(S, std::array<int, 3>{ 1, 3, 2 })); before.push_back(simplex<2, D>(S, std::array<int, 3>{ 0, 3, 1 })); break;
        default: break;
    }
    mesh::mesh_t<geometry::triangle_t<D>> m;
    std::vector<std::array<int, 3>> cells;
    cells.push_back({ 0, 1, 2 });
    for (int i = 1; i < k; i++) {
        if (pinned && i == 1) cells.push_back(sx_choose("orientation", 2) ? std::array<int, 3>{ 0, 1, 3 } : std::array<int, 3>{ 1, 0, 3 });
        else cells.push_back(triangle_of(n));
    }
    for (auto &c : cells) m.insert(simplex<2, D>(S, c));
    check_boundary<2, D>(S, m, cells);
}
SX_HARNESS(triangles) { if (sx_choose("dimension", 2)) triangle_mesh<3>(5, sx_bound("cells", 2), false); else triangle_mesh<2>(5, sx_bound("cells", 2), false); }
SX_HARNESS(three_triangles) { triangle_mesh<2>(4, 3, true); }
SX_HARNESS(three_triangles_everywhere) { triangle_mesh<3>(sx_bound("nodes", 4), sx_bound("cells", 3), false); }
SX_HARNESS(tetrahedra)
{
    Nodes<3, 8> S;
    place(S, 6);
    std::vector<geometry::tetrahedron_t<3>> before;
    if (sx_choose("already there", 2)) before.push_back(simplex<3, 3>(S, std::array<int, 4>{ 1, 0, 2, 3 }));
    mesh::mesh_t<geometry::tetrahedron_t<3>> m;
    std::vector<std::array<int, 4>> cells;
    cells.push_back(sx_choose("orientation", 2) ? std::array<int, 4>{ 0, 1, 2, 3 } : std::array<int, 4>{ 0, 2, 1, 3 });
    switch (sx_choose("arrangement", sx_bound("everywhere", 0) ? 5 : 4)) {
        case 0: break;
        case 1: cells.push_back({ 1, 0, 2, 4 }); break;
        case 2: cells.push_back({ 0, 1, 2, 4 }); break;
        case 3: cells.push_back({ 4, 3, 2, 5 }); break;
        default: cells.push_back(ordered<4>("node", 5));
    }
    for (auto &c : cells) m.insert(simplex<3, 3>(S, c));
    check_boundary<3, 3>(S, m, cells);
}
// a closed surface has no boundary, whatever footprints its faces ride on
SX_HARNESS(closed)
{
    Nodes<3, 8> S;
    place(S, 4);
    std::vector<geometry::triangle_t<3>> before;
    const std::array<int, 3> f[4] = { { 0, 1, 2 }, { 1, 3, 2 }, { 3, 1, 0 }, { 3, 0, 2 } };
    const int pre = sx_choose("already there, reversed", 16);
    for (int i = 0; i < 4; i++) if (pre >> i & 1) before.push_back(simplex<2, 3>(S, std::array<int, 3>{ f[i][1], f[i][0], f[i][2] }));
    mesh::mesh_t<geometry::triangle_t<3>> m;
    std::vector<std::array<int, 3>> cells;
    const int left = sx_choose("left out", 5);
    for (int i = 0; i < 4; i++) if (i != left) { cells.push_back(f[i]); m.insert(simplex<2, 3>(S, f[i])); }
    if (left == 4) { sx_check(mesh::boundary_size(m) == 0, "a closed surface has no boundary"); sx_check(mesh::boundary(m).nCells() == 0, "a closed surface has no boundary"); }
    check_boundary<2, 3>(S, m, cells);
}
// filters: the subcells of a dimension that compose the mesh
template <int I, int N, int D> static void check_filter(const Nodes<D, 8> &S, const mesh::mesh_t<geometry::geometric_simplex_t<N, D>> &m, const std::vector<std::array<int, N + 1>> &cells)
{
    const auto f = mesh::filter<I>(m);
    std::vector<std::array<int, I + 1>> seen, expected;
    for (const auto &c : cells)
        for (int s = 0; s < (1 << (N + 1)); s++) {
            std::array<int, I + 1> v;
            int k = 0;
            for (int i = 0; i <= N; i++) if (s >> i & 1) { if (k <= I) v[k] = c[i]; k++; }
            if (k != I + 1) continue;
            std::sort(v.begin(), v.end());
            if (std::find(expected.begin(), expected.end(), v) == expected.end()) expected.push_back(v);
        }
    int n = 0;
    for (const auto &c : f.cells()) {
        auto a = node_numbers<I>(S, c);
        sx_check(permutation_parity(a, vertex_numbers<I>(S, c)) == 0, "orientation of a filtered cell");
        std::sort(a.begin(), a.end());
        sx_check(std::find(expected.begin(), expected.end(), a) != expected.end(), "a filtered cell is a subcell of a cell");
        if (std::find(seen.begin(), seen.end(), a) == seen.end()) seen.push_back(a);
        n++;
    }
    sx_check(n == f.nCells(), "number of filtered cells");
    sx_check(seen.size() == expected.size(), "every subcell is in the filtered mesh");
    auto g = mesh::filter<I>(m);
    g.erase_topological_duplicates();
    sx_check(g.nCells() == (int)expected.size(), "one cell per subcell without duplicates");
    n = 0;
    for (const auto &c : g.cells()) { (void)c; n++; }
    sx_check(n == (int)expected.size(), "one cell per subcell without duplicates");
}
SX_HARNESS(filters)
{
    const bool rev = sx_choose("already there", 2);
    if (sx_choose("kind", 2)) {
        Nodes<3, 8> S;
        place(S, 5);
        std::vector<geometry::tetrahedron_t<3>> before;
        if (rev) before.push_back(simplex<3, 3>(S, std::array<int, 4>{ 1, 0, 2, 3 }));
        mesh::mesh_t<geometry::tetrahedron_t<3>> m;
        std::vector<std::array<int, 4>> cells{ { 0, 1, 2, 3 } };
        if (sx_choose("cells", 2)) cells.push_back(sx_choose("orientation", 2) ? std::array<int, 4>{ 1, 0, 2, 4 } : std::array<int, 4>{ 0, 1, 2, 4 });
        for (auto &c : cells) m.insert(simplex<3, 3>(S, c));
        check_filter<2, 3, 3>(S, m, cells);
        check_filter<1, 3, 3>(S, m, cells);
    } else {
        Nodes<2, 8> S;
        place(S, 4);
        std::vector<geometry::triangle_t<2>> before;
        if (rev) before.push_back(simplex<2, 2>(S, std::array<int, 3>{ 1, 0, 2 }));
        mesh::mesh_t<geometry::triangle_t<2>> m;
        std::vector<std::array<int, 3>> cells{ { 0, 1, 2 } };
        const int k = sx_choose("cells", 3);
        for (int i = 0; i < k; i++) cells.push_back(triangle_of(4));
        for (auto &c : cells) m.insert(simplex<2, 2>(S, c));
        check_filter<1, 2, 2>(S, m, cells);
    }
}
// the boundary follows the cells that are erased and inserted again
SX_HARNESS(erased)
{
    Nodes<2, 8> S;
    place(S, 5);
    std::vector<geometry::triangle_t<2>> before;
    if (sx_choose("already there", 2)) { before.push_back(simplex<2, 2>(S, std::array<int, 3>{ 0, 2, 1 })); before.push_back(simplex<2, 2>(S, std::array<int, 3>{ 3, 1, 2 })); }
    mesh::mesh_t<geometry::triangle_t<2>> m;
    const std::array<int, 3> c[4] = { { 0, 1, 2 }, { 1, 3, 2 }, { 2, 3, 4 }, { 0, 2, 4 } };
    std::vector<std::array<int, 3>> cells(c, c + 4), left;
    for (auto &x : cells) m.insert(simplex<2, 2>(S, x));
    const int gone = sx_choose("erased", 16);
    int i = 0;
    for (auto &x : m.cells()) { if (gone >> i & 1) m.erase(x); else left.push_back(c[i]); i++; }
    check_boundary<2, 2>(S, m, left);
    // back again
    for (int j = 0; j < 4; j++) if (gone >> j & 1) { m.insert(simplex<2, 2>(S, c[j])); left.push_back(c[j]); break; }
    check_boundary<2, 2>(S, m, left);
}

// cells may be inserted several times, in either orientation, and are erased one at a time
SX_HARNESS(copies)
{
    Nodes<2, 8> S;
    place(S, 4);
    mesh::mesh_t<geometry::triangle_t<2>> m;
    const std::array<int, 3> c[3] = { { 0, 1, 2 }, { 1, 3, 2 }, { 1, 0, 2 } };
    std::vector<std::pair<geometry::triangle_t<2> *, int>> in;
    const int steps = sx_bound("steps", 4);
    for (int k = 0; k < steps; k++) {
        const int what = sx_concretize(sx_choose("insert or erase", 3 + (int)in.size()));
        if (what < 3) in.push_back({ &m.insert({ S.n[c[what][0]], S.n[c[what][1]], S.n[c[what][2]] }), what });
        else { m.erase(*in[what - 3].first); in.erase(in.begin() + (what - 3)); }
        std::vector<std::array<int, 3>> cells;
        for (auto &x : in) cells.push_back(c[x.second]);
        check_boundary<2, 2>(S, m, cells);
    }
}
// many cells, any of which is left out or erased
// cubes cut into six tetrahedra each, one of which may be missing or have been erased
SX_HARNESS(grid_3D)
{
    const int k = sx_bound("cubes", 2);
    Nodes<3, 80> S;
    for (int z = 0; z <= k; z++) for (int y = 0; y <= k; y++) for (int x = 0; x <= k; x++) S.add(vec_t<3>{ 1.0 * x, 1.0 * y, 1.0 * z });
    auto at = [&](int x, int y, int z) { return (z * (k + 1) + y) * (k + 1) + x; };
    static const int order[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 0, 2 } };
    std::vector<std::array<int, 4>> t;
    for (int z = 0; z < k; z++) for (int y = 0; y < k; y++) for (int x = 0; x < k; x++)
        for (int o = 0; o < 6; o++) {
            int c[3] = { x, y, z };
            std::array<int, 4> a{ at(x, y, z), 0, 0, 0 };
            for (int i = 0; i < 3; i++) { c[order[o][i]]++; a[i + 1] = at(c[0], c[1], c[2]); }
            if (o >= 3) std::swap(a[1], a[2]);                           // all turn the same way
            const int r = (o + x + 2 * y) % 3;                           // the order of the vertices varies
            t.push_back({ a[0], a[1 + r], a[1 + (r + 1) % 3], a[1 + (r + 2) % 3] });
        }
    const int n = t.size();
    mesh::mesh_t<geometry::tetrahedron_t<3>> m;
    const int out = sx_concretize(sx_choose("left out", n / 5 + 2)) * 5, how = sx_concretize(sx_choose("how", 2));
    std::vector<std::array<int, 4>> cells;
    const geometry::tetrahedron_t<3> *gone = nullptr;
    for (int i = 0; i < n; i++) {
        if (i == out && how) continue;
        auto &c = m.insert(simplex<3, 3>(S, t[i]));
        if (i == out) gone = &c;
        else cells.push_back(t[i]);
    }
    if (gone) for (auto &c : m.cells()) if (&c == gone) { m.erase(const_cast<geometry::tetrahedron_t<3> &>(c)); break; }
    check_boundary<3, 3>(S, m, cells);
}
SX_HARNESS(grid)
{
    const int k = sx_bound("squares", 4);
    auto t = grid_triangles(k, k);
    const int n = t.size();
    Nodes<2, 64> S;
    for (int j = 0; j <= k; j++) for (int i = 0; i <= k; i++) S.add(vec_t<2>{ 1.0 * i, 1.0 * j });
    mesh::mesh_t<geometry::triangle_t<2>> m;
    const int out = sx_concretize(sx_choose("left out", n + 1)), how = sx_concretize(sx_choose("how", 2));
    std::vector<std::array<int, 3>> cells;
    std::vector<const geometry::triangle_t<2> *> at;
    for (int i = 0; i < n; i++) {
        if (i == out && how) continue;
        auto &c = m.insert(simplex<2, 2>(S, t[i]));
        if (i == out) at.push_back(&c);
        else cells.push_back(t[i]);
    }
    if (!at.empty()) for (auto &c : m.cells()) if (&c == at[0]) { m.erase(const_cast<geometry::triangle_t<2> &>(c)); break; }
    check_boundary<2, 2>(S, m, cells);
}
