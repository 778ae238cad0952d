// Discretization shares nodes between neighbours and numbers unknowns consistently.
// @flags -include cassert -fdelete-null-pointer-checks
// @run segments quick:cells=3 thorough:cells=4
// @run triangles_p1 quick:cells=2 thorough:cells=3
// @run triangles_p2 quick:cells=2 thorough:cells=3
// @run triangles_p2 opt:--heap-down
// @run strip
// @run grid quick:squares=3 thorough:squares=5
// @run two_spaces
#include "fem.h"
#include "grid.h"
using scalar = tensor::scalar_t;
// the geometric nodes of the discretization nodes 0..n of a cell: a vertex, or the two ends of an edge
template <int D> static std::array<int, 2> entity(const std::array<int, D + 1> &a, int i)
{
    if (i <= D) return { a[i], a[i] };
    const int u = a[i - 3], w = a[(i - 2) % 3];
    return { std::min(u, w), std::max(u, w) };
}
template <class E, int D, class S, class M, class C> static void check_space(const S &s, const M &mesh, const std::vector<std::array<int, D + 1>> &cells, const std::set<std::array<int, 2>> &constrained, const C &constraints)
{
    const auto man = manifolds::manifold(mesh, s.cs);
    const auto space = fem::function_space<E>(man, constraints);
    // one element per cell, on that cell
    sx_check(space.elements().size() == (int)cells.size(), "one element per cell");
    std::map<std::array<int, 2>, discrete::discretization_node_t> known;
    std::vector<bool> seen(cells.size(), false);
    int m = 0;
    for (const auto &e : space.elements()) {
        m++;
        const auto a = node_numbers<D>(s, e.cell());
        bool found = false;
        for (size_t i = 0; i < cells.size() && !found; i++) if (!seen[i] && cells[i] == a) { seen[i] = true; found = true; }
        sx_check(found, "the element lies on a cell of the mesh");
        bool ref = false;
        for (const auto &c : mesh.cells()) ref |= &c == &e.cell();
        sx_check(ref, "the element refers to the cell in the mesh");
        for (int i = 0; i < E::n_nodes; i++) {
            const auto key = entity<D>(a, i);
            const auto it = known.find(key);
            if (it == known.end()) known.emplace(key, e.connectivity()[i]);
            else sx_check(it->second == e.connectivity()[i], "elements that share an entity share its node");
        }
    }
    sx_check(m == (int)cells.size(), "traversal visits every element");
    int verts = 0;
    for (auto &[k, x] : known) {
        verts += k[0] == k[1];
        for (auto &[l, y] : known) if (k != l) sx_check(!(x == y), "different entities have different nodes");
        if (k[0] == k[1]) {
            const auto it = space.node_map().find(s.n[k[0]]);
            sx_check(it != space.node_map().end() && it->second == x, "node map");
        }
    }
    sx_check((int)space.node_map().size() == verts, "size of the node map");
    // constrained nodes
    sx_check(space.constrained_nodes().size() == constrained.size(), "number of constrained nodes");
    for (auto &k : constrained) sx_check(space.constrained_nodes().count(known.at(k)) == 1, "constrained node");
    // numbering: every free node has its own equation, constrained nodes have none
    const auto w = fem::weakform<E>();
    auto sys = fem::discrete_system<Recorder>("system", space, w);
    const int n = (int)(known.size() - constrained.size());
    sx_check(sys.n_equations() == n, "number of equations");
    auto &ls = sys.linear_system();
    sx_check(ls.n == n && ls.created == 1, "the linear system is created once with the number of equations");
    sx_check(ls.label == "system" , "label");
    for (int i = 0; i < n; i++) ls.u[i] = i + 1;
    sys.read_solution();
    std::vector<int> used(n + 1, 0);
    for (auto &[k, x] : known) {
        const double v = sys.solution()(x);
        const int q = (int)v;
        if (constrained.count(k)) sx_check(v == 0, "constrained nodes have no unknown");
        else { sx_check(q >= 1 && q <= n && q == v, "free nodes have an equation"); if (q >= 1 && q <= n) used[q]++; }
    }
    for (int q = 1; q <= n; q++) sx_check(used[q] == 1, "one free node per equation");
    // field over the nodes
    auto f = space.template fem_field<scalar>("f");
    sx_check(f.nodal_values().size() == (int)known.size(), "a field has a value per node");
    for (auto &[k, x] : known) sx_check(f(x) == 0, "starts at zero");
    sys.assemble();
    sx_check(!ls.outside, "assembly stays within the system");
}
SX_HARNESS(segments)
{
    using E = fem::isoparametric_simplex_t<1, geometry::segment_t<1>>;
    Nodes<1, 6> S;
    S.add_free(5);
    mesh::mesh_t<geometry::segment_t<1>> m;
    const int k = 1 + sx_choose("cells", sx_bound("cells", 3));
    std::vector<std::array<int, 2>> cells;
    std::set<int> nodes;
    for (int i = 0; i < k; i++) {
        if (i == 0) cells.push_back({ 0, 1 });
        else if (i < 3) cells.push_back(ordered<2>("node", 4));
        else cells.push_back({ 2, 4 });
        m.insert(simplex<1, 1>(S, cells.back()));
        nodes.insert(cells.back().begin(), cells.back().end());
    }
    std::unordered_set<geometry::node_t<1>, utilities::hash_function<geometry::node_t<1>>> domain;
    std::set<std::array<int, 2>> constrained;
    const int c = sx_choose("constrained", 5);
    int i = 0;
    for (int x : nodes) { if (c == 4 || c == i || (c == 3 && i == 0)) { domain.insert(S.n[x]); constrained.insert({ x, x }); } i++; }
    const auto zero = functions::zero<cart_t<1>>;
    const auto bc = constraints::dirichlet_bc(domain, zero);
    check_space<E, 1>(S, m, cells, constrained, bc);
}
template <int degree> static void triangle_space(int count, bool fixed)
{
    using E = fem::isoparametric_simplex_t<degree, geometry::triangle_t<2>>;
    Nodes<2, 6> S;
    S.add_free(5);
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> cells;
    std::set<std::array<int, 2>> edges;
    for (int i = 0; i < count; i++) {
        if (i == 0) cells.push_back({ 0, 1, 2 });
        else if (i == 1 && !fixed) { auto t = triangle_of(5); const int r = sx_choose("rotation", 3); cells.push_back({ t[r], t[(r + 1) % 3], t[(r + 2) % 3] }); }
        else { const int w = sx_choose("neighbour", 3); cells.push_back(w == 0 ? std::array<int, 3>{ 3, 1, 0 } : w == 1 ? std::array<int, 3>{ 2, 4, 0 } : std::array<int, 3>{ 4, 3, 1 }); }
        m.insert(simplex<2, 2>(S, cells.back()));
        for (int j = 3; j < 6; j++) edges.insert(entity<2>(cells.back(), j));
    }
    // the constrained part: nothing, the boundary, or up to two edges in either direction
    std::set<std::array<int, 2>> con;
    auto constrain = [&](int u, int w) {
        con.insert({ u, u }); con.insert({ w, w });
        if (degree == 2) con.insert({ std::min(u, w), std::max(u, w) });
    };
    const auto zero = functions::zero<cart_t<2>>;
    if (sx_choose("constrained", 2)) {
        auto domain = mesh::boundary(m);
        for (const auto &c : domain.cells()) { const auto a = node_numbers<1>(S, c); constrain(a[0], a[1]); }
        const auto bc = constraints::dirichlet_bc(domain, zero);
        check_space<E, 2>(S, m, cells, con, bc);
    } else {
        mesh::mesh_t<geometry::segment_t<2>> domain;
        std::vector<std::array<int, 2>> list(edges.begin(), edges.end());
        const int k = sx_choose("constrained edges", 3);
        const bool flip = k && sx_choose("reversed", 2);
        int last = -1;
        for (int i = 0; i < k; i++) {
            const int e = sx_choose("edge", (int)list.size());
            if (e == last) sx_stop();
            last = e;
            const int u = list[e][flip], w = list[e][!flip];
            domain.insert(simplex<1, 2>(S, std::array<int, 2>{ u, w }));
            constrain(u, w);
        }
        const auto bc = constraints::dirichlet_bc(domain, zero);
        check_space<E, 2>(S, m, cells, con, bc);
    }
}
SX_HARNESS(triangles_p1) { triangle_space<1>(sx_bound("cells", 2), false); }
SX_HARNESS(triangles_p2) { triangle_space<2>(sx_bound("cells", 2), false); }
SX_HARNESS(strip) { if (sx_choose("degree", 2)) triangle_space<2>(3, true); else triangle_space<1>(3, true); }
// many cells, one of which is left out; the whole boundary or none of it is constrained
template <int degree> static void grid_space()
{
    using E = fem::isoparametric_simplex_t<degree, geometry::triangle_t<2>>;
    const int k = sx_bound("squares", 3);
    Nodes<2, 40> S;
    for (int j = 0; j <= k; j++) for (int i = 0; i <= k; i++) S.add(vec_t<2>{ 1.0 * i, 1.0 * j });
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> cells;
    const auto all = grid_triangles(k, k);
    const int out = sx_concretize(sx_choose("left out", (int)all.size() + 1));
    for (int i = 0; i < (int)all.size(); i++) if (i != out) { cells.push_back(all[i]); m.insert(simplex<2, 2>(S, all[i])); }
    std::set<std::array<int, 2>> con;
    const auto zero = functions::zero<cart_t<2>>;
    auto domain = mesh::boundary(m);
    if (sx_choose("constrained", 2)) {
        for (const auto &c : domain.cells()) {
            const auto a = node_numbers<1>(S, c);
            con.insert({ a[0], a[0] }); con.insert({ a[1], a[1] });
            if (degree == 2) con.insert({ std::min(a[0], a[1]), std::max(a[0], a[1]) });
        }
        check_space<E, 2>(S, m, cells, con, constraints::dirichlet_bc(domain, zero));
    } else {
        mesh::mesh_t<geometry::segment_t<2>> none;
        check_space<E, 2>(S, m, cells, con, constraints::dirichlet_bc(none, zero));
    }
}
SX_HARNESS(grid) { if (sx_choose("degree", 2)) grid_space<2>(); else grid_space<1>(); }
// two spaces on the same mesh do not share nodes
SX_HARNESS(two_spaces)
{
    using P1 = fem::isoparametric_simplex_t<1, geometry::triangle_t<2>>;
    using P2 = fem::isoparametric_simplex_t<2, geometry::triangle_t<2>>;
    Nodes<2, 6> S;
    S.add_free(4);
    mesh::mesh_t<geometry::triangle_t<2>> m;
    m.insert(simplex<2, 2>(S, std::array<int, 3>{ 0, 1, 2 }));
    if (sx_choose("cells", 2)) m.insert(simplex<2, 2>(S, std::array<int, 3>{ 1, 0, 3 }));
    const auto man = manifolds::manifold(m, S.cs);
    auto domain = mesh::boundary(m);
    const auto zero = functions::zero<cart_t<2>>;
    const auto bc = constraints::dirichlet_bc(domain, zero);
    const auto a = fem::function_space<P1>(man, bc), b = fem::function_space<P1>(man, bc);
    const auto c = fem::function_space<P2>(man, bc);
    for (const auto &e : a.elements()) for (const auto &x : e.connectivity()) {
        for (const auto &f : b.elements()) for (const auto &y : f.connectivity()) sx_check(!(x == y), "spaces do not share nodes");
        for (const auto &f : c.elements()) for (const auto &y : f.connectivity()) sx_check(!(x == y), "spaces do not share nodes");
    }
    sx_check(&a.constraints() == &bc, "constraints of the space");
}
