// Simplices are unique and carry the orientation of their vertex order.
// @run segments quick:steps=3 thorough:steps=4
// @run triangles quick:steps=2 thorough:steps=3
// @run triangles_down quick:steps=2 thorough:steps=3 opt:--heap-down
// @run tetrahedra quick:verts=4,steps=2 thorough:verts=5,steps=2
// @run mixed quick:steps=2 thorough:steps=3
// @run grid quick:squares=6 thorough:squares=8
// @run degenerate
// @run compositions
#include "topo.h"
#include "grid.h"

template <int N>
static void same_as(const simplex_t<N> & s, const std::array<int, N + 1> & a)
{
    sx_check(!s.is_nullptr(), "the simplex exists");
    sx_check(parity(a, nums<N>(s)) == 0, "reported vertices are an even permutation of the requested ones");
    std::set<vertex_t> vs;
    s->vertices(vs);
    sx_check(vs.size() == N + 1, "reports N+1 vertices");
    for (int v : a) sx_check(vs.count(V[v]) == 1, "reports each vertex it was built from");
    sx_check(s->sanityCheck(), "passes its sanity check");
    sx_check(std::remove_cvref_t<decltype(*s.operator->())>::order == N, "order");
    sx_check(std::remove_cvref_t<decltype(*s.operator->())>::n_vertices == N + 1, "number of vertices");
    // the vertices of all its faces, each collected once
    if constexpr (N == 1) {
        std::vector<vertex_t> list;
        for (int round = 0; round < 2; round++)
            for (const auto & v : s->composition()) v->vertices(list);
        sx_check(list.size() == 2 && ((list[0] == V[a[0]] && list[1] == V[a[1]]) || (list[0] == V[a[1]] && list[1] == V[a[0]])), "oriented vertices report their vertex once");
    }
    if constexpr (N >= 2) {
        std::set<simplex_t<1>> es;
        s->edges(es);
        std::set<int> pairs;
        for (auto & e : es) {
            auto n = nums<1>(e);
            bool in0 = false, in1 = false;
            for (int v : a) { in0 = in0 || v == n[0]; in1 = in1 || v == n[1]; }
            sx_check(in0 && in1 && n[0] != n[1], "every edge joins two of its vertices");
            pairs.insert((1 << n[0]) | (1 << n[1]));
        }
        sx_check(pairs.size() == (N + 1) * N / 2, "reports all its edges");
    }
}
template <int N>
static void related(const simplex_t<N> & s, const std::array<int, N + 1> & a, const simplex_t<N> & t, const std::array<int, N + 1> & b)
{
    int p = parity(a, b);
    sx_check((s.id() == t.id()) == (p == 0), "same simplex exactly for an even permutation of the same vertices");
    sx_check((s == t) == (p == 0), "equality of handles");
    sx_check((s->footprint().id() == t->footprint().id()) == (p >= 0), "same footprint exactly for the same vertices");
    if (p >= 0) sx_check(s->orientation() * t->orientation() == (p ? -1 : 1), "relative orientation is the parity");
}
template <int N>
static void histories(int nv, int steps)
{
    make_vertices(nv);
    std::vector<std::array<int, N + 1>> tup;
    std::vector<simplex_t<N>> s;
    for (int k = 0; k < steps; k++) {
        tup.push_back(pick<N + 1>("vertex", nv));
        s.push_back(build<N>(tup[k]));
        same_as<N>(s[k], tup[k]);
        for (int j = 0; j < k; j++) related<N>(s[k], tup[k], s[j], tup[j]);
        int distinct = 0;
        for (int i = 0; i <= k; i++) {
            bool dup = false;
            for (int j = 0; j < i; j++) dup = dup || parity(tup[i], tup[j]) == 0;
            distinct += !dup;
        }
        sx_check(topology::topology().n_simplices<N>() == distinct, "one simplex per class of vertex orders");
    }
    // earlier simplices are unaffected by later ones
    for (int k = 0; k < steps; k++) same_as<N>(s[k], tup[k]);
    for (int k = 0; k < steps; k++) {
        auto again = build<N>(tup[k]);
        sx_check(again.id() == s[k].id(), "asking again yields the same simplex");
    }
    if constexpr (N == 1)
        for (int i = 0; i < nv; i++)
            for (int j = 0; j < nv; j++) {
                if (i == j) continue;
                bool want = false;
                for (auto & t : tup) want = want || (t[0] == i && t[1] == j);
                sx_check(topology::topology().exists({ V[i], V[j] }) == want, "existence query by vertices");
            }
    sx_observe_i("orientation", s.back()->orientation());
}
SX_HARNESS(segments) { histories<1>(4, sx_bound("steps", 3)); }
SX_HARNESS(triangles) { histories<2>(4, sx_bound("steps", 2)); }
SX_HARNESS(triangles_down) { histories<2>(4, sx_bound("steps", 2)); }
SX_HARNESS(tetrahedra) { histories<3>(sx_bound("verts", 4), sx_bound("steps", 2)); }

// simplices of different order built one after the other share their faces
SX_HARNESS(mixed)
{
    make_vertices(4);
    int steps = sx_bound("steps", 3);
    std::vector<std::array<int, 2>> t1; std::vector<simplex_t<1>> s1;
    std::vector<std::array<int, 3>> t2; std::vector<simplex_t<2>> s2;
    std::vector<std::array<int, 4>> t3; std::vector<simplex_t<3>> s3;
    for (int k = 0; k < steps; k++) {
        int what = sx_choose("order", k == steps - 1 ? 2 : 3);
        if (what == 0) { t1.push_back(pick<2>("vertex", 4)); s1.push_back(build<1>(t1.back())); }
        else if (what == 1) { t2.push_back(pick<3>("vertex", 4)); s2.push_back(build<2>(t2.back())); }
        else {
            // the parity of the first two is what can matter for what follows
            bool flip = sx_choose("odd", 2);
            t3.push_back(flip ? std::array<int, 4>{ 2, 1, 3, 0 } : std::array<int, 4>{ 1, 2, 3, 0 });
            s3.push_back(build<3>(t3.back()));
        }
    }
    for (size_t i = 0; i < t1.size(); i++) { same_as<1>(s1[i], t1[i]); for (size_t j = 0; j < i; j++) related<1>(s1[i], t1[i], s1[j], t1[j]); }
    for (size_t i = 0; i < t2.size(); i++) { same_as<2>(s2[i], t2[i]); for (size_t j = 0; j < i; j++) related<2>(s2[i], t2[i], s2[j], t2[j]); }
    for (size_t i = 0; i < t3.size(); i++) { same_as<3>(s3[i], t3[i]); for (size_t j = 0; j < i; j++) related<3>(s3[i], t3[i], s3[j], t3[j]); }
    // every edge or face of an element is the very simplex one gets by asking for it
    for (auto & s : s2)
        for (auto & e : s->composition()) {
            auto n = nums<1>(e);
            sx_check(build<1>(n).id() == e.id(), "edges are shared");
        }
    for (auto & s : s3)
        for (auto & f : s->composition()) {
            auto n = nums<2>(f);
            sx_check(build<2>(n).id() == f.id(), "faces are shared");
        }
}
// a vertex may not occur twice
SX_HARNESS(degenerate)
{
    make_vertices(4);
    int order = sx_choose("order", 3);
    std::array<int, 4> a;
    for (int i = 0; i < order + 2; i++) a[i] = sx_choose("vertex", 4);
    bool dup = false;
    for (int i = 0; i < order + 2; i++)
        for (int j = 0; j < i; j++) dup = dup || a[i] == a[j];
    if (!dup) sx_stop();
    sx_expect_reject();
    if (order == 0) build<1>({ a[0], a[1] });
    if (order == 1) build<2>({ a[0], a[1], a[2] });
    if (order == 2) build<3>({ a[0], a[1], a[2], a[3] });
}
// the same triangle offered edge by edge, starting anywhere
SX_HARNESS(compositions)
{
    make_vertices(3);
    auto & T = topology::topology();
    auto a = pick<3>("vertex", 3);
    auto first = build<2>(pick<3>("earlier", 3));
    int r = sx_choose("start", 3);
    auto e = [&](int i) { return T.segment({ V[a[i % 3]], V[a[(i + 1) % 3]] }); };
    auto t = T.triangle({ e(r), e(r + 1), e(r + 2) });
    same_as<2>(t, a);
    auto again = build<2>(a);
    sx_check(again.id() == t.id(), "edges and vertices give the same triangle");
    sx_check(T.exists<2>({ e(r), e(r + 1), e(r + 2) }), "existence query by edges");
    sx_check(t->footprint().id() == first->footprint().id(), "one footprint");
    auto s = T.simplex(t->footprint(), t->orientation());
    sx_check(s.id() == t.id(), "footprint and orientation identify the simplex");
    auto seg = T.segment(T.segment({ V[a[0]], V[a[1]] })->composition());
    sx_check(seg.id() == T.segment({ V[a[0]], V[a[1]] }).id(), "segment from its own composition");
    sx_check(topology::tail(seg).id() == V[a[0]].id() && topology::head(seg).id() == V[a[1]].id(), "tail and head");
}
// many triangles: asking for any of them again, in any order of its vertices, finds it; its edges are the edges
// of its neighbours
SX_HARNESS(grid)
{
    const int k = sx_bound("squares", 6);
    const auto t = grid_triangles(k, k);
    auto & T = topology::topology();
    std::vector<vertex_t> v;
    for (int i = 0; i < (k + 1) * (k + 1); i++) v.push_back(T.vertex());
    std::vector<simplex_t<2>> s;
    for (auto & a : t) s.push_back(T.triangle({ v[a[0]], v[a[1]], v[a[2]] }));
    sx_check(T.n_simplices<2>() == 2 * k * k, "one triangle for each request");
    // every edge inside is run through in both directions, those of the boundary in one
    sx_check(T.n_simplices<1>() == 3 * 2 * k * k, "one segment for each direction of each edge");
    const int i = sx_concretize(sx_choose("triangle", 2 * k * k)), r = sx_concretize(sx_choose("order", 6));
    const auto & a = t[i];
    const std::array<int, 3> b = r < 3 ? std::array<int, 3>{ a[r], a[(r + 1) % 3], a[(r + 2) % 3] } : std::array<int, 3>{ a[r % 3], a[(r + 2) % 3], a[(r + 1) % 3] };
    const auto again = T.triangle({ v[b[0]], v[b[1]], v[b[2]] });
    sx_check((again.id() == s[i].id()) == (r < 3), "same simplex exactly for an even permutation of the same vertices");
    sx_check(again->footprint().id() == s[i]->footprint().id(), "same footprint");
    sx_check(again->orientation() == (r < 3 ? 1 : -1) * s[i]->orientation(), "relative orientation is the parity");
    sx_check(T.n_simplices<2>() == 2 * k * k + (r >= 3), "nothing else is made");
    sx_check(again->sanityCheck(), "passes its sanity check");
    for (int e = 0; e < 3; e++) {
        const auto x = a[e], y = a[(e + 1) % 3];
        sx_check(T.exists({ v[x], v[y] }), "the edges exist");
        const auto seg = T.segment({ v[x], v[y] });
        bool mine = false;
        for (const auto & c : s[i]->composition()) mine = mine || c.id() == seg.id();
        sx_check(mine, "the edges of the triangle are the segments one gets by asking for them");
        sx_check(topology::tail(seg).id() == v[x].id() && topology::head(seg).id() == v[y].id(), "tail and head");
    }
    for (size_t j = 0; j < t.size(); j++) {
        sx_check((int)j == i || s[j].id() != s[i].id(), "different triangles");
        const auto w = s[j]->vertices();
        bool even = false;
        for (int q = 0; q < 3; q++) even = even || (w[0].id() == v[t[j][q]].id() && w[1].id() == v[t[j][(q + 1) % 3]].id() && w[2].id() == v[t[j][(q + 2) % 3]].id());
        sx_check(even, "every triangle reports its vertices in an even permutation of the requested order");
    }
}
