// Erasing simplices leaves exactly the simplices still in use.
// @run triangles quick:steps=4,fan=4 thorough:steps=6,fan=4
// @run triangles_down quick:steps=4,fan=3 thorough:steps=6,fan=4 opt:--heap-down
// @run opposite quick:steps=4 thorough:steps=6
// @run tetrahedra quick:steps=4 thorough:steps=5 tq:150
// @run segments quick:steps=5 thorough:steps=7
// @run grid quick:squares=6 thorough:squares=8
// @run held quick:steps=3 thorough:steps=5
#include "topo.h"
#include "grid.h"

// everything that belongs to the simplex s
struct closure_t {
    std::set<const void *> o[4], f[4];   // oriented simplices and footprints by order
    template <int N>
    void add(const simplex_t<N> & s)
    {
        o[N].insert(s.operator->());
        f[N].insert(s->footprint().operator->());
        if constexpr (N > 0)
            for (const auto & sub : s->composition()) add<N - 1>(sub);
    }
};
// the footprint's own parts (the composition of either orientation lists the same oriented subsimplices)
static void counts(const closure_t & c)
{
    auto & T = topology::topology();
    sx_check(T.n_simplices<3>() == (int)c.o[3].size(), "exactly the tetrahedra in use remain");
    sx_check(T.n_simplices<2>() == (int)c.o[2].size(), "exactly the triangles in use remain");
    sx_check(T.n_simplices<1>() == (int)c.o[1].size(), "exactly the segments in use remain");
    sx_check(T.n_simplices<0>() == (int)c.o[0].size(), "exactly the oriented vertices in use remain");
}
template <int N>
struct live_t {
    std::vector<simplex_t<N>> s;
    std::vector<std::array<int, N + 1>> tup;
    std::vector<bool> alive;
    void verify()
    {
        closure_t c;
        for (size_t i = 0; i < s.size(); i++) {
            if (!alive[i]) {
                sx_check(s[i].is_nullptr(), "the handle of an erased simplex is null");
                continue;
            }
            c.add<N>(s[i]);
            sx_check(parity(tup[i], nums<N>(s[i])) == 0, "a surviving simplex keeps its vertices");
            sx_check(s[i]->sanityCheck(), "a surviving simplex passes its sanity check");
            std::map<int, int> b, w;
            chain<N>(s[i], b);
            chain(tup[i], w);
            if (N > 1) sx_check(equal_chains(b, w, N == 3 ? -1 : 1), "a surviving simplex keeps its boundary");
            for (size_t j = 0; j < i; j++)
                if (alive[j]) sx_check((s[i].id() == s[j].id()) == (parity(tup[i], tup[j]) == 0), "no survivor occurs twice");
        }
        counts(c);
    }
};
// one step: toggle a cell of the given list (insert it when absent, erase it when present)
template <int N, size_t M>
static void toggle(const std::array<std::array<int, N + 1>, M> & cells, int ncells, int steps, int nv)
{
    make_vertices(nv);
    auto & T = topology::topology();
    live_t<N> L;
    L.s.resize(ncells);
    L.alive.assign(ncells, false);
    L.tup.assign(cells.begin(), cells.begin() + ncells);
    for (int k = 0; k < steps; k++) {
        int i = sx_concretize(sx_choose("cell", ncells));
        if (!L.alive[i]) {
            L.s[i] = build<N>(cells[i]);
            L.alive[i] = true;
        } else {
            T.erase(L.s[i]);
            L.alive[i] = false;
        }
        L.verify();
        if constexpr (N >= 2)
            for (int a = 0; a < nv; a++)
                for (int b = 0; b < nv; b++) {
                    if (a == b) continue;
                    // does the oriented segment a -> b belong to a survivor?
                    bool want = false;
                    auto edges = [&](const simplex_t<2> & t) {
                        for (auto & e : t->composition()) {
                            auto n = nums<1>(e);
                            want = want || (n[0] == a && n[1] == b);
                        }
                    };
                    for (int q = 0; q < ncells; q++)
                        if (L.alive[q]) {
                            if constexpr (N == 2) edges(L.s[q]);
                            else for (auto & t : L.s[q]->composition()) edges(t);
                        }
                    sx_check(T.exists({ V[a], V[b] }) == want, "existence query agrees with the survivors");
                }
    }
    sx_observe_i("left", T.n_simplices<N>());
    for (int i = 0; i < ncells; i++)
        if (L.alive[i]) { T.erase(L.s[i]); L.alive[i] = false; }
    L.verify();
    for (int i = 0; i < ncells; i++) T.erase(L.s[i]);   // erasing a null handle does nothing
    L.verify();
}
// consistently oriented triangles around vertex 0
SX_HARNESS(triangles) { toggle<2, 4>({ { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 0, 4, 1 } } }, sx_bound("fan", 4), sx_bound("steps", 4), 5); }
SX_HARNESS(triangles_down) { toggle<2, 4>({ { { 1, 2, 0 }, { 2, 3, 0 }, { 0, 3, 4 }, { 4, 1, 0 } } }, sx_bound("fan", 4), sx_bound("steps", 4), 5); }
// triangles with inconsistent orientations, one of them in both orientations
SX_HARNESS(opposite) { toggle<2, 4>({ { { 0, 1, 2 }, { 1, 0, 2 }, { 0, 3, 2 }, { 1, 2, 3 } } }, 4, sx_bound("steps", 4), 4); }
SX_HARNESS(tetrahedra) { toggle<3, 3>({ { { 0, 1, 2, 3 }, { 0, 2, 1, 4 }, { 1, 2, 3, 4 } } }, 3, sx_bound("steps", 4), 5); }
SX_HARNESS(segments) { toggle<1, 4>({ { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 1, 0 } } }, 4, sx_bound("steps", 5), 3); }
// erasing does nothing while someone else holds the simplex, and parts held by a client survive
SX_HARNESS(held)
{
    make_vertices(4);
    auto & T = topology::topology();
    auto t0 = build<2>({ 0, 1, 2 });
    auto t1 = build<2>({ 0, 2, 3 });
    int what = sx_choose("held", 4);
    simplex_t<2> hold_t;
    simplex_t<1> hold_s;
    topology::unoriented_simplex_t<1> hold_f;
    if (what == 1) hold_t = t0;
    if (what == 2) hold_s = t0->composition()[sx_concretize(sx_choose("edge", 3))];
    auto held_nums = what == 2 ? nums<1>(hold_s) : std::array<int, 2>{ 0, 0 };
    if (what == 3) hold_s = T.segment({ V[3], V[1] });
    if (what == 3) held_nums = { 3, 1 };
    bool first = sx_choose("first", 2);
    auto check = [&](bool alive0, bool alive1) {
        closure_t c;
        if (alive0) c.add<2>(t0.is_nullptr() ? hold_t : t0);
        if (alive1) c.add<2>(t1);
        if (!hold_s.is_nullptr()) c.add<1>(hold_s);
        counts(c);
        if (!hold_s.is_nullptr()) sx_check(nums<1>(hold_s) == held_nums, "a held segment keeps its vertices");
        if (!hold_t.is_nullptr()) sx_check(parity(nums<2>(hold_t), { 0, 1, 2 }) == 0, "a held triangle keeps its vertices");
    };
    check(true, true);
    if (first) { T.erase(t1); check(true, false); }
    T.erase(t0);
    if (what == 1) sx_check(!t0.is_nullptr() || !hold_t.is_nullptr(), "still held");
    check(what == 1, !first);
    if (!first) { T.erase(t1); check(what == 1, false); }
    if (what == 1) {
        t0 = simplex_t<2>();
        T.erase(hold_t);
        check(false, false);
    }
    if (!hold_s.is_nullptr()) {
        T.erase(hold_s);
        sx_check(hold_s.is_nullptr(), "released");
        check(false, false);
    }
    // the same elements can be inserted again
    t0 = build<2>({ 2, 1, 0 });
    sx_check(parity(nums<2>(t0), { 0, 2, 1 }) == 0, "fresh orientation after re-insertion");
    sx_check(t0->orientation() == 1, "a fresh simplex defines the orientation of its footprint");
    check(true, false);
}
// erasing any triangle out of many, making it again, erasing another
SX_HARNESS(grid)
{
    const int k = sx_bound("squares", 6), n = 2 * k * k;
    const auto t = grid_triangles(k, k);
    auto & T = topology::topology();
    std::vector<vertex_t> v;
    for (int i = 0; i < (k + 1) * (k + 1); i++) v.push_back(T.vertex());
    std::vector<simplex_t<2>> s;
    for (auto & a : t) s.push_back(T.triangle({ v[a[0]], v[a[1]], v[a[2]] }));
    auto verify = [&] {
        closure_t c;
        for (int i = 0; i < n; i++) {
            if (s[i].is_nullptr()) continue;
            c.add<2>(s[i]);
            const auto w = s[i]->vertices();
            bool even = false;
            for (int q = 0; q < 3; q++) even = even || (w[0].id() == v[t[i][q]].id() && w[1].id() == v[t[i][(q + 1) % 3]].id() && w[2].id() == v[t[i][(q + 2) % 3]].id());
            sx_check(even, "a surviving simplex keeps its vertices");
        }
        counts(c);
    };
    verify();
    const int i = sx_concretize(sx_choose("erased", n)), what = sx_concretize(sx_choose("then", 3));
    T.erase(s[i]);
    sx_check(s[i].is_nullptr(), "the handle of an erased simplex is null");
    verify();
    const int j = (i + 1 + 7 * what) % n;
    if (what == 0) { s[i] = T.triangle({ v[t[i][1]], v[t[i][2]], v[t[i][0]] }); verify(); }
    T.erase(s[j]);
    verify();
    if (what) s[i] = T.triangle({ v[t[i][0]], v[t[i][1]], v[t[i][2]] });
    if (what == 2) s[j] = T.triangle({ v[t[j][0]], v[t[j][1]], v[t[j][2]] });
    verify();
    for (int q = 0; q < n; q++) T.erase(s[(q * 5) % n]);
    verify();
}
