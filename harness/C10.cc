// Flipping a diagonal keeps the quadrilateral and swaps only the diagonal.
// @run flip
// @run flip_down opt:--heap-down
// @run reused
// @run apart
// @run geometric
// @flags -include cassert
#include "geo.h"
#include "topo.h"

using pair_t = std::pair<simplex_t<2>, simplex_t<2>>;
static std::multiset<std::pair<int, int>> edges(const simplex_t<2> & t)
{
    auto n = nums<2>(t);
    return { { n[0], n[1] }, { n[1], n[2] }, { n[2], n[0] } };
}
// the two triangles cover the quadrilateral q (cyclic order) with the diagonal q[d] - q[d+2]
static void covers(const pair_t & p, const std::array<int, 4> & q, int d)
{
    std::multiset<std::pair<int, int>> want, got;
    for (int i = 0; i < 4; i++) want.insert({ q[i], q[(i + 1) % 4] });
    want.insert({ q[d], q[d + 2] });
    want.insert({ q[d + 2], q[d] });
    for (auto & e : edges(p.first)) got.insert(e);
    for (auto & e : edges(p.second)) got.insert(e);
    sx_check(got == want, "the triangles cover the quadrilateral with its orientation");
    sx_check(p.first->sanityCheck() && p.second->sanityCheck(), "both triangles are sane");
    sx_check(p.first.id() != p.second.id(), "two different triangles");
}
static bool same_pair(const pair_t & a, const pair_t & b)
{
    return (a.first.id() == b.first.id() && a.second.id() == b.second.id()) || (a.first.id() == b.second.id() && a.second.id() == b.first.id());
}
// build the two triangles of the quadrilateral, each starting at an arbitrary vertex
static pair_t quadrilateral(const std::array<int, 4> & q, int r0, int r1, bool opposite0, bool opposite1)
{
    std::array<int, 3> a = { q[0], q[1], q[2] }, b = { q[0], q[2], q[3] };
    std::rotate(a.begin(), a.begin() + r0, a.end());
    std::rotate(b.begin(), b.begin() + r1, b.end());
    // an earlier simplex of opposite orientation defines the footprint
    simplex_t<2> e0, e1;
    if (opposite0) e0 = build<2>({ a[1], a[0], a[2] });
    if (opposite1) e1 = build<2>({ b[1], b[0], b[2] });
    return { build<2>(a), build<2>(b) };
}
static void flip()
{
    make_vertices(4);
    auto q = pick<4>("corner", 4);
    int r0 = sx_concretize(sx_choose("rotate first", 3)), r1 = sx_concretize(sx_choose("rotate second", 3));
    bool o0 = sx_choose("first has an opposite footprint", 2), o1 = sx_choose("second has an opposite footprint", 2);
    auto p = quadrilateral(q, r0, r1, o0, o1);
    if (sx_choose("swap", 2)) std::swap(p.first, p.second);
    covers(p, q, 0);
    auto & T = topology::topology();
    auto f = topology::flip_diagonal(p);
    covers(f, q, 1);
    covers(p, q, 0);
    sx_check(T.exists({ V[q[1]], V[q[3]] }) && T.exists({ V[q[3]], V[q[1]] }), "the new diagonal exists in both directions");
    auto g = topology::flip_diagonal(f);
    covers(g, q, 0);
    sx_check(same_pair(g, p), "flipping again restores the original pair");
    auto h = topology::flip_diagonal(g);
    sx_check(same_pair(h, f), "and again the flipped pair");
    sx_observe_i("orientation", f.first->orientation());
}
SX_HARNESS(flip) { flip(); }
SX_HARNESS(flip_down) { flip(); }
// the opposite pair, erased afterwards: only the flipped quadrilateral is left
SX_HARNESS(reused)
{
    make_vertices(4);
    auto q = pick<4>("corner", 4);
    auto p = quadrilateral(q, 0, 0, false, false);
    auto f = topology::flip_diagonal(p);
    auto & T = topology::topology();
    T.erase(p.first);
    T.erase(p.second);
    covers(f, q, 1);
    sx_check(!T.exists({ V[q[0]], V[q[2]] }) && !T.exists({ V[q[2]], V[q[0]] }), "the old diagonal is gone");
    sx_check(T.n_simplices<2>() == 2, "two triangles are left");
    p = topology::flip_diagonal(f);
    covers(p, q, 0);
    T.erase(f.first);
    T.erase(f.second);
    covers(p, q, 0);
    sx_check(!T.exists({ V[q[1]], V[q[3]] }) && !T.exists({ V[q[3]], V[q[1]] }), "the flipped diagonal is gone");
    sx_check(T.n_simplices<2>() == 2, "two triangles are left");
}
// two triangles that do not share an edge have no diagonal to flip
SX_HARNESS(apart)
{
    make_vertices(5);
    auto a = pick<3>("first", 5), b = pick<3>("second", 5);
    int common = 0;
    for (int x : a)
        for (int y : b) common += x == y;
    if (common >= 2) sx_stop();
    auto s = build<2>(a), t = build<2>(b);
    sx_expect_reject();
    topology::flip_diagonal({ s, t });
}
// the same for triangles with nodes in the plane and in space: the nodes follow the vertices
template <int D> static void geometric_pair()
{
    Nodes<D, 5> S;
    S.add_free(4);
    for (int i = 0; i < 4; i++) V[i] = S.n[i]->vertex();
    const auto q = pick<4>("corner", 4);
    const int r0 = sx_concretize(sx_choose("rotate first", 3)), r1 = sx_concretize(sx_choose("rotate second", 3));
    std::array<int, 3> a = { q[0], q[1], q[2] }, b = { q[0], q[2], q[3] };
    std::rotate(a.begin(), a.begin() + r0, a.end());
    std::rotate(b.begin(), b.begin() + r1, b.end());
    using cell_t = geometry::triangle_t<D>;
    std::vector<cell_t> before;
    if (sx_choose("opposite footprint", 2)) before.push_back(simplex<2, D>(S, std::array<int, 3>{ a[1], a[0], a[2] }));
    std::pair<cell_t, cell_t> p{ simplex<2, D>(S, a), simplex<2, D>(S, b) };
    if (sx_choose("swap", 2)) std::swap(p.first, p.second);
    auto compare = [&](const std::pair<cell_t, cell_t> & f, int d) {
        covers({ f.first.simplex(), f.second.simplex() }, q, d);
        for (const auto * c : { &f.first, &f.second }) {
            const auto n = node_numbers<2>(S, *c);
            for (int i : n) sx_check(i >= 0, "the nodes are those of the quadrilateral");
            sx_check(permutation_parity(n, vertex_numbers<2>(S, *c)) == 0, "the nodes are in the order of the vertices");
            for (int i = 0; i < 3; i++)
                for (int k = 0; k < D; k++) sx_eq("the nodes stay where they are", S.cs.coordinates(c->nodes()[i]->point())[k], S.p[n[i]][k]);
        }
    };
    compare(p, 0);
    auto f = geometry::flip_diagonal(p);
    compare(f, 1);
    auto g = geometry::flip_diagonal(f);
    compare(g, 0);
    sx_check(same_pair({ g.first.simplex(), g.second.simplex() }, { p.first.simplex(), p.second.simplex() }), "flipping again restores the original pair");
    // areas: the pair covers as much as before (signed areas in the plane)
    if constexpr (D == 2)
        sx_eq("the area is unchanged", signed_measure<2>(S, node_numbers<2>(S, f.first)) + signed_measure<2>(S, node_numbers<2>(S, f.second)),
            signed_measure<2>(S, node_numbers<2>(S, p.first)) + signed_measure<2>(S, node_numbers<2>(S, p.second)));
}
SX_HARNESS(geometric) { if (sx_choose("dimension", 2)) geometric_pair<3>(); else geometric_pair<2>(); }
