// Partitioning a mesh hands every cell to exactly one process.
// @flags -include cassert -fdelete-null-pointer-checks -DWITH_METIS=1 -DWITH_MPI=1
// @run segments quick:cells=3,parts=3 thorough:cells=4,parts=4
// @run triangles quick:cells=3,parts=3 thorough:cells=4,parts=4
// @run triangles_3D quick:cells=2,parts=2 thorough:cells=3,parts=3
// @run tetrahedra quick:cells=3,parts=2 thorough:cells=3,parts=3
// @run neighbours quick:squares=2 thorough:squares=3
// @run neighbours_tetrahedra
// @run erased
// @run many
// @run context
#include "geo.h"
#include "grid.h"
#include <mito/mesh.h>
#include <mito/simulation.h>
template <int N, int D> using mesh_of = mesh::mesh_t<geometry::geometric_simplex_t<N, D>>;
// the parts of m for every rank are a partition of its cells
template <int N, int D, int M> static void check_parts(Nodes<D, M> &S, mesh_of<N, D> &m, const std::vector<std::array<int, N + 1>> &cells, int parts)
{
    using K = typename geometry::geometric_simplex_t<N, D>::simplex_type;
    std::vector<const void *> simplices;
    for (auto &c : m.cells()) simplices.push_back(c.simplex().operator->());
    std::vector<mesh_of<N, D>> part;
    for (int r = 0; r < parts; r++) {
        auto p = mesh::metis::partition(m, parts, r);
        part.push_back(std::move(p));
    }
    if (parts > 1) sx_check(sx_metis().calls >= 1 && sx_metis().parts == parts && sx_metis().painting.size() == cells.size(), "METIS is asked for as many parts of as many cells");
    std::vector<int> seen(cells.size(), 0);
    for (int r = 0; r < parts; r++) {
        int count = 0;
        std::vector<std::array<int, N + 1>> mine;
        for (const auto &c : part[r].cells()) {
            count++;
            const auto a = node_numbers<N>(S, c), v = vertex_numbers<N>(S, c);
            mine.push_back(a);
            bool found = false;
            for (size_t i = 0; i < cells.size() && !found; i++)
                if (!seen[i] && cells[i] == a) { seen[i] = 1; found = true; sx_check(c.simplex().operator->() == simplices[i], "a cell of a part rides on the simplex it had in the mesh"); }
            sx_check(found, "a cell of a part is a cell of the mesh, in one part only");
            sx_check(permutation_parity(a, v) == 0, "a cell of a part has the orientation it had in the mesh");
            for (int i = 0; i <= N; i++) for (int k = 0; k < D; k++) sx_eq("the nodes of a part are where they were", S.cs.coordinates(c.nodes()[i]->point())[k], S.p[a[i]][k]);
        }
        sx_check(part[r].nCells() == count, "number of cells of a part");
        if (parts > 1) {
            int painted = 0;
            for (int e = 0; e < (int)cells.size(); e++) painted += sx_metis().painting[e] == r;
            sx_check(count == painted, "a part has as many cells as METIS painted with its colour");
        }
        // a part is a mesh as good as one built from its cells
        mesh_of<N, D> again;
        for (auto &a : mine) again.insert(simplex<N, D>(S, a));
        if constexpr (N > 1) sx_check(mesh::boundary_size(part[r]) == mesh::boundary_size(again), "boundary of a part");
    }
    for (size_t i = 0; i < cells.size(); i++) sx_check(seen[i] == 1, "every cell of the mesh is in a part");
    // the mesh is left as it was
    size_t i = 0;
    for (const auto &c : m.cells()) { sx_check(i < cells.size() && node_numbers<N>(S, c) == cells[i], "the mesh is left as it was"); i++; }
    sx_check(i == cells.size() && m.nCells() == (int)cells.size(), "the mesh is left as it was");
    // and does not depend on its parts
    for (auto &p : part) {
        std::vector<geometry::geometric_simplex_t<N, D> *> all;
        for (auto &c : p.cells()) all.push_back(const_cast<geometry::geometric_simplex_t<N, D> *>(&c));
        for (auto *c : all) p.erase(*c);
        sx_check(p.nCells() == 0, "cells can be erased from a part");
    }
    i = 0;
    for (const auto &c : m.cells()) { sx_check(i < cells.size() && node_numbers<N>(S, c) == cells[i], "the mesh does not depend on its parts"); i++; }
    sx_check(i == cells.size() && m.nCells() == (int)cells.size(), "the mesh does not depend on its parts");
}
template <int N, int D> static void any_mesh(const std::vector<std::array<int, N + 1>> &from, int nodes)
{
    Nodes<D, 8> S;
    S.add_free(nodes);
    mesh_of<N, D> m;
    std::vector<std::array<int, N + 1>> cells;
    const int k = 1 + sx_concretize(sx_choose("cells", std::min<int>(sx_bound("cells", 3), from.size())));
    const int parts = 1 + sx_concretize(sx_choose("parts", sx_bound("parts", 3)));
    for (int i = 0; i < k; i++) {
        auto a = from[i];
        if (sx_choose("reversed", 2)) std::swap(a[0], a[1]);
        cells.push_back(a);
        m.insert(simplex<N, D>(S, a));
    }
    check_parts<N, D>(S, m, cells, parts);
}
SX_HARNESS(segments) { any_mesh<1, 1>({ { 0, 1 }, { 2, 1 }, { 2, 3 }, { 0, 3 } }, 4); }
SX_HARNESS(triangles) { any_mesh<2, 2>({ { 0, 1, 2 }, { 1, 3, 2 }, { 4, 0, 2 }, { 4, 3, 2 } }, 5); }
SX_HARNESS(triangles_3D) { any_mesh<2, 3>({ { 2, 1, 0 }, { 1, 3, 2 }, { 4, 0, 2 } }, 5); }
SX_HARNESS(tetrahedra) { any_mesh<3, 3>({ { 0, 1, 2, 3 }, { 4, 1, 2, 3 }, { 1, 5, 0, 2 } }, 6); }
// METIS is told which cells are neighbours: with every cell in a part of its own the cells and the elements correspond
template <int N, int D, int M> static void check_neighbours(const Nodes<D, M> &S, const mesh_of<N, D> &m, const std::vector<std::array<int, N + 1>> &cells)
{
    const int n = cells.size();
    sx_metis().each_its_own = true;
    std::vector<int> which(n, -1);
    for (int r = 0; r < n; r++) {
        const auto p = mesh::metis::partition(m, n, r);
        sx_check(p.nCells() == 1, "one cell per part");
        for (const auto &c : p.cells()) for (int i = 0; i < n; i++) if (cells[i] == node_numbers<N>(S, c)) which[r] = i;
    }
    const auto &s = sx_metis();
    sx_check((int)s.given.size() == n, "one element for each cell");
    std::vector<int> cell(n, -1);   // of an element
    for (int e = 0; e < n; e++) { cell[e] = which[s.painting[e]]; sx_check(cell[e] >= 0, "every cell is in a part"); }
    // the cells around every vertex, as seen by METIS and in the mesh
    std::map<int, std::set<int>> a, b;
    for (int e = 0; e < n; e++) { sx_check((int)s.given[e].size() == N + 1, "vertices of an element"); for (int v : s.given[e]) a[v].insert(cell[e]); }
    for (int i = 0; i < n; i++) for (int v : cells[i]) b[v].insert(i);
    std::multiset<std::set<int>> x, y;
    for (auto &[v, c] : a) x.insert(c);
    for (auto &[v, c] : b) y.insert(c);
    sx_check(x == y, "METIS is given the vertices that the cells share");
}
SX_HARNESS(neighbours)
{
    const int k = sx_bound("squares", 2);
    Nodes<2, 16> S;
    // the nodes are made in an arbitrary order
    const bool back = sx_choose("order of the nodes", 2);
    std::vector<int> at((k + 1) * (k + 1));
    for (int q = 0; q < (k + 1) * (k + 1); q++) { const int i = back ? (k + 1) * (k + 1) - 1 - q : q; at[i] = S.add(vec_t<2>{ 1.0 * (i % (k + 1)), 1.0 * (i / (k + 1)) }); }
    mesh_of<2, 2> m;
    std::vector<std::array<int, 3>> cells;
    for (auto t : grid_triangles(k, k)) { for (int &v : t) v = at[v]; cells.push_back(t); }
    const int out = sx_concretize(sx_choose("left out", 2 * k * k + 1));
    if (out < 2 * k * k) cells.erase(cells.begin() + out);
    for (auto &c : cells) m.insert(simplex<2, 2>(S, c));
    check_neighbours<2, 2>(S, m, cells);
}
SX_HARNESS(neighbours_tetrahedra)
{
    Nodes<3, 8> S;
    S.add_free(7);
    mesh_of<3, 3> m;
    std::vector<std::array<int, 4>> cells{ { 0, 1, 2, 3 }, { 4, 1, 2, 3 }, { 1, 5, 0, 2 } };
    if (sx_choose("another", 2)) cells.push_back({ 4, 5, 6, 1 });
    for (auto &c : cells) m.insert(simplex<3, 3>(S, c));
    check_neighbours<3, 3>(S, m, cells);
}
// cells that were erased are in no part
SX_HARNESS(erased)
{
    Nodes<2, 8> S;
    S.add_free(5);
    mesh_of<2, 2> m;
    std::vector<std::array<int, 3>> cells{ { 0, 1, 2 }, { 1, 3, 2 }, { 4, 0, 2 }, { 4, 3, 2 } };
    for (auto &c : cells) m.insert(simplex<2, 2>(S, c));
    const int i = sx_concretize(sx_choose("erased", 4)), j = sx_concretize(sx_choose("erased", 4));
    int q = 0;
    std::vector<geometry::triangle_t<2> *> gone;
    for (auto &c : m.cells()) { if (q == i || q == j) gone.push_back(const_cast<geometry::triangle_t<2> *>(&c)); q++; }
    for (auto *c : gone) m.erase(*c);
    std::vector<std::array<int, 3>> left;
    for (int k = 0; k < 4; k++) if (k != i && k != j) left.push_back(cells[k]);
    check_parts<2, 2>(S, m, left, 1 + sx_concretize(sx_choose("parts", 2)));
}
// more cells than fit into one segment of the storage
SX_HARNESS(many)
{
    Nodes<1, 128> S;
    for (int i = 0; i < 104; i++) S.add(vec_t<1>{ 1.0 * i });
    mesh_of<1, 1> m;
    std::vector<std::array<int, 2>> cells;
    for (int i = 0; i < 103; i++) { cells.push_back({ i, i + 1 }); m.insert(simplex<1, 1>(S, cells.back())); }
    sx_metis().each_its_own = true;
    static const int ranks[] = { 0, 1, 50, 99, 100, 101, 102 };
    const int r = ranks[sx_concretize(sx_choose("rank", 7))];
    const auto p = mesh::metis::partition(m, 103, r);
    sx_check(p.nCells() == 1, "one cell per part");
    for (const auto &c : p.cells()) {
        const auto a = node_numbers<1>(S, c);
        int e = 0;
        while (sx_metis().painting[e] != r) e++;
        int size = 0;
        for (const auto &g : sx_metis().given) for (int v : g) size += v == sx_metis().given[e][0] || v == sx_metis().given[e][1];
        sx_check(size == (a[0] == 0 || a[1] == 103 ? 3 : 4), "the element painted with the colour is the cell");
    }
}
// every process knows its rank
SX_HARNESS(context)
{
    auto &mpi = sx_mpi();
    mpi.size = sx_int("processes", 1, 64);
    mpi.rank = sx_int("rank", 0, 63);
    sx_assume(mpi.rank < mpi.size);
    if (sx_choose("simulation", 2)) {
        const auto &s = simulation::simulation();
        sx_check(s.context().n_tasks() == mpi.size && s.context().task_id() == mpi.rank, "rank and number of processes");
        sx_check(&simulation::simulation() == &s, "one simulation");
        sx_check(mpi.initialized == 1 && mpi.finalized == 0, "MPI is up");
        sx_eq("the clock starts from zero", s.clock(), 0);
    } else {
        {
            simulation::Context c;
            sx_check(c.n_tasks() == mpi.size && c.task_id() == mpi.rank, "rank and number of processes");
            sx_check(mpi.initialized == 1 && mpi.finalized == 0, "MPI is up");
        }
        sx_check(mpi.finalized == 1, "MPI is finalized at the end");
    }
}
