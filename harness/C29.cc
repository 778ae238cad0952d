// A mesh holds exactly the cells that were inserted and not erased.
// @flags -include cassert
// @run triangles quick:steps=5 thorough:steps=7 tt:600
// @run triangles_down quick:steps=4 thorough:steps=6 opt:--heap-down
// @run triangles_3D quick:steps=4 thorough:steps=6
// @run segments quick:steps=4 thorough:steps=6
// @run tetrahedra quick:steps=4 thorough:steps=6
// @run copies quick:steps=4 thorough:steps=6
// @run duplicates quick:cells=3 thorough:cells=5
// @run many
// @run inserted_cells quick:steps=3 thorough:steps=5
#include "geo.h"
#include <mito/mesh.h>
template <int D, int M> static void place(Nodes<D, M> &S, int n, bool symbolic)
{
    if (symbolic) { S.add_free(n); return; }
    for (int i = 0; i < n; i++) { vec_t<D> x; for (int k = 0; k < D; k++) x[k] = i * (k + 1) + (i == k ? 0.5 : 0) + i * i * k; S.add(x); }
}
template <int N, int D> using mesh_of = mesh::mesh_t<geometry::geometric_simplex_t<N, D>>;
// the number of boundary cells of a set of cells, by node numbers
template <int N> static int free_faces(const std::vector<std::array<int, N + 1>> &cells)
{
    struct F { std::array<int, N> v; int s; };
    std::vector<F> f;
    for (auto &c : cells)
        for (int o = 0; o <= N; o++) {
            std::array<int, N> v; int k = 0;
            for (int i = 0; i <= N; i++) if (i != o) v[k++] = c[i];
            int s = o % 2 ? -1 : 1;
            for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (v[j] > v[i]) s = -s;
            std::sort(v.begin(), v.end());
            f.push_back({ v, s });
        }
    int n = 0;
    for (auto &a : f) { bool met = false; for (auto &b : f) met = met || (a.v == b.v && a.s != b.s); n += !met; }
    return n;
}
template <int N, int D, int M> struct History {
    using cell_t = geometry::geometric_simplex_t<N, D>;
    Nodes<D, M> &S;
    mesh_of<N, D> m;
    std::vector<std::array<int, N + 1>> tup;
    std::vector<cell_t *> cell;   // where insert put the cell, null when it is not in the mesh
    bool with_topology;
    History(Nodes<D, M> &s, std::vector<std::array<int, N + 1>> t, bool wt) : S(s), tup(t), cell(t.size(), nullptr), with_topology(wt) {}
    void insert(int i)
    {
        typename cell_t::nodes_type n = [&]<size_t... I>(std::index_sequence<I...>) { return typename cell_t::nodes_type{ S.n[tup[i][I]]... }; }(std::make_index_sequence<N + 1>{});
        cell[i] = &m.insert(n);
    }
    void erase(int i)
    {
        auto &c = *cell[i];
        m.erase(c);
        if (with_topology) topology::topology().erase(c.simplex());
        const int left = m.nCells();
        m.erase(c);
        sx_check(m.nCells() == left, "erasing a cell twice does nothing");
        cell[i] = nullptr;
    }
    std::vector<std::array<int, N + 1>> alive() const { std::vector<std::array<int, N + 1>> r; for (size_t i = 0; i < tup.size(); i++) if (cell[i]) r.push_back(tup[i]); return r; }
    void verify()
    {
        const auto left = alive();
        sx_check(m.nCells() == (int)left.size(), "number of cells");
        std::vector<int> seen(tup.size(), 0);
        int n = 0;
        for (const auto &c : m.cells()) {
            const auto a = node_numbers<N>(S, c);
            sx_check(c.is_valid(), "the cells traversed are valid");
            bool found = false;
            for (size_t i = 0; i < tup.size(); i++) if (cell[i] && tup[i] == a) { seen[i]++; found = true; sx_check(cell[i] == &c, "cells stay where they were inserted"); }
            sx_check(found, "only inserted cells are traversed");
            sx_check(permutation_parity(a, vertex_numbers<N>(S, c)) == 0, "cells keep their simplex");
            for (int i = 0; i <= N; i++) {
                const auto &x = S.cs.coordinates(c.nodes()[i]->point());
                for (int k = 0; k < D; k++) sx_eq("nodes keep their points", x[k], S.p[a[i]][k]);
            }
            n++;
        }
        sx_check(n == (int)left.size(), "traversal");
        for (size_t i = 0; i < tup.size(); i++) sx_check(seen[i] == (cell[i] ? 1 : 0), "every inserted cell is traversed once");
        int bs;
        if constexpr (N > 1) { bs = mesh::boundary_size(m); sx_check(bs == free_faces<N>(left), "boundary of the remaining cells"); }
        std::set<geometry::node_t<D>> nodes;
        mesh::get_nodes(m, nodes);
        int used = 0;
        for (int v = 0; v < S.count; v++) { bool u = false; for (auto &c : left) for (int i : c) u = u || i == v; used += u; sx_check((nodes.count(S.n[v]) == 1) == u, "nodes of the mesh"); }
        sx_check((int)nodes.size() == used, "nodes of the mesh");
        if (with_topology)
            for (int a = 0; a < S.count; a++)
                for (int b = 0; b < S.count; b++) {
                    if (a == b) continue;
                    bool want = false;
                    for (auto &c : left) { bool A = false, B = false; for (int i : c) { A = A || i == a; B = B || i == b; } want = want || (A && B); }
                    // segments are oriented: some cell uses the edge in one of the directions
                    sx_check((topology::topology().exists({ S.n[a]->vertex(), S.n[b]->vertex() }) || topology::topology().exists({ S.n[b]->vertex(), S.n[a]->vertex() })) == want, "the topology holds the edges of the remaining cells");
                }
        if (with_topology) sx_check(topology::topology().n_simplices<N>() == (int)left.size(), "the topology holds the remaining cells");
    }
};
template <int N, int D> static void run(std::vector<std::array<int, N + 1>> cells, int nodes, int steps)
{
    Nodes<D, 8> S;
    place(S, nodes, true);
    History<N, D, 8> H(S, cells, sx_choose("erase from the topology", 2));
    H.verify();
    for (int k = 0; k < steps; k++) {
        const int i = sx_choose("cell", cells.size());
        if (H.cell[i]) H.erase(i); else H.insert(i);
        H.verify();
    }
    // a mesh moved elsewhere is the same mesh
    mesh_of<N, D> other(std::move(H.m));
    int n = 0;
    for (const auto &c : other.cells()) { const auto a = node_numbers<N>(S, c); bool found = false; for (auto &t : H.alive()) found = found || t == a; sx_check(found, "cells of a moved mesh"); n++; }
    sx_check(n == (int)H.alive().size() && other.nCells() == n, "cells of a moved mesh");
}
SX_HARNESS(triangles) { run<2, 2>({ { 0, 1, 2 }, { 0, 2, 3 }, { 3, 4, 0 }, { 4, 1, 0 } }, 5, sx_bound("steps", 5)); }
SX_HARNESS(triangles_down) { run<2, 2>({ { 0, 1, 2 }, { 0, 2, 3 }, { 3, 4, 0 } }, 5, sx_bound("steps", 4)); }
SX_HARNESS(triangles_3D) { run<2, 3>({ { 0, 1, 2 }, { 0, 1, 3 }, { 2, 1, 3 } }, 4, sx_bound("steps", 4)); }
SX_HARNESS(segments) { run<1, 2>({ { 0, 1 }, { 1, 2 }, { 0, 2 }, { 3, 2 } }, 4, sx_bound("steps", 4)); }
SX_HARNESS(tetrahedra) { run<3, 3>({ { 0, 1, 2, 3 }, { 1, 0, 2, 4 }, { 4, 2, 1, 3 } }, 5, sx_bound("steps", 4)); }
// cells that are copied from another mesh or built by the client
SX_HARNESS(inserted_cells)
{
    Nodes<2, 8> S;
    place(S, 4, true);
    mesh_of<2, 2> a, b;
    const std::vector<std::array<int, 3>> t{ { 0, 1, 2 }, { 2, 1, 3 }, { 0, 2, 3 } };
    std::vector<int> left;
    for (int k = 0; k < sx_bound("steps", 3); k++) {
        const int i = sx_choose("cell", 3);
        if (sx_choose("by hand", 2)) { const auto c = simplex<2, 2>(S, t[i]); a.insert(c); b.insert(c); }
        else { auto &c = a.insert({ S.n[t[i][0]], S.n[t[i][1]], S.n[t[i][2]] }); b.insert(c); }
        left.push_back(i);
        if (sx_choose("take one away", 2)) { for (auto &c : a.cells()) { a.erase(c); break; } }
        int n = 0;
        for (const auto &c : b.cells()) { sx_check(n < (int)left.size() && node_numbers<2>(S, c) == t[left[n]], "the other mesh keeps its cells"); n++; }
        sx_check(n == (int)left.size() && b.nCells() == n, "the other mesh keeps its cells");
    }
}
SX_HARNESS(duplicates)
{
    Nodes<2, 8> S;
    place(S, 4, false);
    const std::vector<std::array<int, 3>> t{ { 0, 1, 2 }, { 1, 2, 0 }, { 2, 1, 0 }, { 1, 3, 2 } };
    // same oriented simplex, same footprint
    auto oriented = [&](int a, int b) { return permutation_parity(t[a], t[b]) == 0; };
    auto foot = [&](int a, int b) { return permutation_parity(t[a], t[b]) >= 0; };
    mesh_of<2, 2> m;
    std::vector<int> in;
    const int n = sx_bound("cells", 3);
    for (int k = 0; k < n; k++) { in.push_back(sx_choose("cell", 4)); m.insert({ S.n[t[in[k]][0]], S.n[t[in[k]][1]], S.n[t[in[k]][2]] }); }
    const bool topological = sx_choose("topological", 2);
    if (topological) m.erase_topological_duplicates(); else m.erase_geometrical_duplicates();
    std::vector<int> want;
    for (int k : in) { bool met = false; for (int w : want) met = met || (topological ? foot(k, w) : oriented(k, w)); if (!met) want.push_back(k); }
    sx_check(m.nCells() == (int)want.size(), "one cell remains of each kind");
    std::vector<int> met(want.size(), 0);
    for (const auto &c : m.cells()) {
        const auto a = node_numbers<2>(S, c);
        bool found = false;
        for (size_t w = 0; w < want.size(); w++) if (topological ? permutation_parity(a, t[want[w]]) >= 0 : permutation_parity(a, t[want[w]]) == 0) { met[w]++; found = true; }
        sx_check(found, "one cell remains of each kind");
    }
    for (int k : met) sx_check(k == 1, "one cell remains of each kind");
    std::vector<std::array<int, 3>> left;
    for (const auto &c : m.cells()) left.push_back(node_numbers<2>(S, c));
    sx_check(mesh::boundary_size(m) == free_faces<2>(left), "boundary of the remaining cells");
}
// more cells than fit in one segment of the storage
SX_HARNESS(many)
{
    Nodes<1, 128> S;
    for (int i = 0; i < 104; i++) S.add(vec_t<1>{ 1.0 * i });
    mesh_of<1, 1> m;
    std::vector<geometry::segment_t<1> *> c;
    for (int i = 0; i < 103; i++) c.push_back(&m.insert({ S.n[i], S.n[i + 1] }));
    std::vector<bool> gone(103, false);
    for (int k = 0; k < 2; k++) { static const int which[] = { 0, 50, 99, 100, 102 }; const int i = which[sx_choose("erased", 5)]; m.erase(*c[i]); gone[i] = true; }
    int n = 0, last = -1;
    for (const auto &x : m.cells()) { const int i = node_numbers<1>(S, x)[0]; sx_check(i > last && !gone[i] && c[i] == &x, "traversal in the order of insertion"); last = i; n++; }
    int left = 0;
    for (int i = 0; i < 103; i++) left += !gone[i];
    sx_check(n == left && m.nCells() == left, "number of cells");
    auto &again = m.insert({ S.n[103], S.n[0] });
    sx_check(m.nCells() == left + 1, "number of cells");
    sx_check(node_numbers<1>(S, again)[0] == 103, "the new cell");
    n = 0;
    for (const auto &x : m.cells()) { (void)x; n++; }
    sx_check(n == left + 1, "traversal");
}
// the same cell may be inserted several times: the copies are separate cells
SX_HARNESS(copies)
{
    Nodes<2, 8> S;
    place(S, 4, true);
    mesh_of<2, 2> m;
    const std::array<int, 3> t[3] = { { 0, 1, 2 }, { 1, 3, 2 }, { 1, 0, 2 } };
    std::vector<std::pair<geometry::triangle_t<2> *, int>> in;
    const int steps = sx_bound("steps", 4);
    for (int k = 0; k < steps; k++) {
        const int what = sx_concretize(sx_choose("insert or erase", 3 + (int)in.size()));
        if (what < 3) in.push_back({ &m.insert({ S.n[t[what][0]], S.n[t[what][1]], S.n[t[what][2]] }), what });
        else { m.erase(*in[what - 3].first); in.erase(in.begin() + (what - 3)); }
        sx_check(m.nCells() == (int)in.size(), "number of cells");
        int n = 0;
        std::vector<int> met(in.size(), 0);
        for (const auto &c : m.cells()) {
            n++;
            bool found = false;
            for (size_t i = 0; i < in.size(); i++) if (in[i].first == &c) { found = true; met[i]++; sx_check(node_numbers<2>(S, c) == t[in[i].second], "each copy keeps its nodes"); }
            sx_check(found, "only inserted cells are traversed");
        }
        for (int x : met) sx_check(x == 1, "every copy is traversed once");
        sx_check(n == (int)in.size(), "number of cells");
        std::vector<std::array<int, 3>> left;
        for (auto &x : in) left.push_back(t[x.second]);
        sx_check(mesh::boundary_size(m) == free_faces<2>(left), "boundary of the remaining cells");
    }
}
