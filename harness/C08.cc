// Simplices are closed: faces chain head to tail and boundaries have no boundary.
// @run built
// @run shared quick:steps=2 thorough:steps=3
// @run triangles_offered
// @run tetrahedra_offered tq:150
// @run segments_offered
// @run triangles_open
// @run tetrahedra_open tq:150
#include "topo.h"

template <int N>
static void closed(const simplex_t<N> & s)
{
    std::map<int, int> dd;
    if constexpr (N >= 2) {
        // boundary of the boundary
        for (const auto & f : s->composition()) {
            std::map<int, int> d;
            chain<N - 1>(f, d, s->orientation());
            for (auto & x : d) dd[x.first] += x.second;
        }
        sx_check(dd.size() == (N + 1) * N / 2, "every subface occurs");
        sx_check(zero_chain(dd), "the boundary of the boundary vanishes");
    }
    std::map<int, int> b, w;
    chain<N>(s, b);
    chain(nums<N>(s), w);
    sx_check(b.size() == N + 1, "N+1 distinct faces");
    // the convention of the library: edges follow the vertices, faces of a tetrahedron look inward
    if constexpr (N >= 2) sx_check(equal_chains(b, w, N == 3 ? -1 : 1), "the order of the vertices is consistent with the boundary");
    if constexpr (N == 1) {
        auto n = nums<1>(s);
        sx_check(vnum(topology::tail(s)) == n[0] && vnum(topology::head(s)) == n[1], "tail and head are the vertices in order");
        sx_check(zero_chain(b) == false && b.size() == 2, "two vertices");
        int sum = 0;
        for (auto & x : b) sum += x.second;
        sx_check(sum == 0, "the end points have opposite signs");
    }
    if constexpr (N > 1)
        for (const auto & f : s->composition()) closed<N - 1>(f);
}
SX_HARNESS(built)
{
    make_vertices(4);
    int order = 1 + sx_choose("order", 3);
    auto & T = topology::topology();
    auto a = pick<4>("vertex", 4);
    if (order == 1) { auto s = build<1>({ a[0], a[1] }); closed<1>(s); closed<1>(T.flip(s)); }
    if (order == 2) {
        auto s = build<2>({ a[0], a[1], a[2] });
        closed<2>(s);
        closed<2>(T.flip(s));
        auto c = s->composition();
        for (int i = 0; i < 3; i++) {
            sx_check(topology::headTailConnected(c[i], c[(i + 1) % 3]), "each edge starts where the previous one ends");
            sx_check(!topology::headTailConnected(c[(i + 1) % 3], c[i]), "and not the other way round");
        }
        sx_check(topology::isValid<2>(c), "its composition is valid");
    }
    if (order == 3) {
        auto s = build<3>(a);
        closed<3>(s);
        closed<3>(T.flip(s));
        sx_check(topology::isValid<3>(s->composition()), "its composition is valid");
    }
}
// several elements that share faces in any orientation
SX_HARNESS(shared)
{
    make_vertices(5);
    auto a = pick<4>("vertex", 4);
    auto s = build<3>(a);
    int steps = sx_bound("steps", 2);
    for (int k = 1; k < steps; k++) {
        std::array<int, 4> b = { 0, 1, 2, 3 };
        int replaced = sx_choose("replaced vertex", 5);
        if (replaced < 4) b[replaced] = 4;
        int p = sx_choose("order", 6);
        const int perm[6][4] = { { 0, 1, 2, 3 }, { 1, 0, 2, 3 }, { 3, 1, 0, 2 }, { 2, 3, 1, 0 }, { 3, 2, 1, 0 }, { 0, 3, 2, 1 } };
        std::array<int, 4> c;
        for (int i = 0; i < 4; i++) c[i] = b[perm[p][i]];
        auto t = build<3>(c);
        closed<3>(t);
        std::map<int, int> x, y;
        chain<3>(t, x);
        chain(c, y);
        sx_check(equal_chains(x, y, -1), "boundary of the requested orientation");
    }
    closed<3>(s);
}
// ---- compositions offered directly ----
static simplex_t<1> dir_edge(int k)   // k in 0..11: ordered pairs of 4 vertices
{
    int i = k / 3, j = k % 3;
    if (j >= i) j++;
    return topology::topology().segment({ V[i], V[j] });
}
static void offer_triangle(bool want_closed)
{
    make_vertices(4);
    int k[3];
    for (int i = 0; i < 3; i++) k[i] = sx_concretize(sx_choose("edge", 12));
    std::array<simplex_t<1>, 3> c = { dir_edge(k[0]), dir_edge(k[1]), dir_edge(k[2]) };
    std::map<int, int> d;
    int mask[3];
    for (int i = 0; i < 3; i++) {
        auto n = nums<1>(c[i]);
        d[n[0]]--;
        d[n[1]]++;
        mask[i] = (1 << n[0]) | (1 << n[1]);
    }
    bool good = zero_chain(d) && mask[0] != mask[1] && mask[1] != mask[2] && mask[0] != mask[2];
    if (good != want_closed) sx_stop();
    if (!want_closed) sx_expect_reject();
    auto t = topology::topology().triangle({ c[0], c[1], c[2] });
    closed<2>(t);
    std::map<int, int> b, w;
    chain<2>(t, b);
    for (int i = 0; i < 3; i++) {
        auto n = nums<1>(c[i]);
        w[mask[i]] += n[0] < n[1] ? 1 : -1;
    }
    sx_check(equal_chains(b, w, 1), "its boundary is what was offered");
    auto again = topology::topology().triangle({ c[1], c[2], c[0] });
    sx_check(again.id() == t.id(), "a rotation of the composition gives the same triangle");
}
SX_HARNESS(triangles_offered) { offer_triangle(true); }
SX_HARNESS(triangles_open) { offer_triangle(false); }

static simplex_t<2> dir_face(int k, int nv)   // faces of the tetrahedron 0123 in both orientations
{
    const int f[4][3] = { { 0, 1, 2 }, { 1, 3, 2 }, { 3, 1, 0 }, { 3, 0, 2 } };
    auto & g = f[k / 2];
    return k % 2 ? build<2>({ g[1], g[0], g[2] }) : build<2>({ g[0], g[1], g[2] });
}
static void offer_tetrahedron(bool want_closed)
{
    make_vertices(4);
    int k[4];
    for (int i = 0; i < 4; i++) k[i] = sx_concretize(sx_choose("face", 8));
    bool good = true;
    for (int i = 0; i < 4; i++) {
        good = good && k[i] % 2 == k[0] % 2;
        for (int j = 0; j < i; j++) good = good && k[i] / 2 != k[j] / 2;
    }
    if (good != want_closed) sx_stop();
    std::array<simplex_t<2>, 4> c = { dir_face(k[0], 4), dir_face(k[1], 4), dir_face(k[2], 4), dir_face(k[3], 4) };
    if (!want_closed) sx_expect_reject();
    auto t = topology::topology().tetrahedron({ c[0], c[1], c[2], c[3] });
    closed<3>(t);
    std::map<int, int> b, w;
    chain<3>(t, b);
    chain(k[0] % 2 ? std::array<int, 4>{ 1, 0, 2, 3 } : std::array<int, 4>{ 0, 1, 2, 3 }, w);
    sx_check(equal_chains(b, w, -1), "its boundary consists of the offered faces");
    for (int i = 0; i < 4; i++) {
        std::map<int, int> one;
        auto n = nums<2>(c[i]);
        int mask = (1 << n[0]) | (1 << n[1]) | (1 << n[2]);
        int inv = (n[1] < n[0]) + (n[2] < n[0]) + (n[2] < n[1]);
        sx_check(b[mask] == (inv % 2 ? -1 : 1), "each face with the orientation offered");
    }
    auto again = topology::topology().tetrahedron({ c[1], c[2], c[0], c[3] });
    sx_check(again.id() == t.id(), "an even permutation of the composition gives the same tetrahedron");
}
SX_HARNESS(tetrahedra_offered) { offer_tetrahedron(true); }
SX_HARNESS(tetrahedra_open) { offer_tetrahedron(false); }
SX_HARNESS(segments_offered)
{
    make_vertices(2);
    auto & T = topology::topology();
    int a = sx_choose("tail", 2), b = sx_choose("head", 2);
    int oa = sx_choose("tail sign", 2) ? 1 : -1, ob = sx_choose("head sign", 2) ? 1 : -1;
    if (a != b && oa == -1 && ob == 1) {
        auto s = T.segment({ T.simplex(V[a], -1), T.simplex(V[b], 1) });
        closed<1>(s);
        sx_check(vnum(topology::tail(s)) == a && vnum(topology::head(s)) == b, "runs from tail to head");
        return;
    }
    if (a != b && oa != ob) sx_stop();   // see DESIGN: tail given with the sign of a head
    sx_expect_reject();
    sx_use(T.segment({ T.simplex(V[a], oa), T.simplex(V[b], ob) }));
}
