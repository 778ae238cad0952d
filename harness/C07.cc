// Flipping an orientation is an involution that keeps everything else.
// @run segments
// @run triangles
// @run tetrahedra
// @run held
// @run erased quick:steps=3 thorough:steps=5
// @run erased_down quick:steps=2 thorough:steps=4 opt:--heap-down
// @run interleaved quick:steps=3 thorough:steps=4
// @run interleaved_down quick:steps=2 thorough:steps=3 opt:--heap-down
#include "topo.h"

template <int N>
static void flipped(const simplex_t<N> & s)
{
    auto & T = topology::topology();
    auto n = nums<N>(s);
    bool existed = T.exists_flipped(s);
    int before = T.n_simplices<N>();
    auto f = T.flip(s);
    sx_check(T.exists_flipped(s) && T.exists_flipped(f), "after flipping both orientations exist");
    sx_check(T.n_simplices<N>() == before + !existed, "flipping creates the opposite simplex exactly if it did not exist");
    sx_check(f->orientation() == -s->orientation(), "sign is reversed");
    sx_check(f.id() != s.id(), "the flipped simplex is another one");
    sx_check(f->footprint().id() == s->footprint().id(), "same footprint");
    sx_check(parity(n, nums<N>(f)) == 1, "vertices are an odd permutation");
    sx_check(f->sanityCheck(), "sanity");
    std::map<int, int> a, b;
    chain<N>(s, a);
    chain<N>(f, b);
    sx_check(equal_chains(a, b, -1), "the boundary is negated");
    auto ff = topology::flip(f);
    sx_check(ff.id() == s.id() && ff == s, "flipping twice gives back the same simplex");
    sx_check(T.flip(s).id() == f.id(), "flipping again yields the same flipped simplex");
    sx_check(T.n_simplices<N>() == before + !existed, "repeated flips create nothing");
    sx_check(parity(n, nums<N>(s)) == 0, "the original is unchanged");
    auto odd = n;
    std::swap(odd[0], odd[1]);
    sx_check(build<N>(odd).id() == f.id(), "the flip is the simplex on the odd vertex order");
}
template <int N>
static void one(int nv)
{
    make_vertices(nv);
    auto a = pick<N + 1>("vertex", nv);
    auto s = build<N>(a);
    sx_check(!topology::topology().exists_flipped(s), "the opposite orientation does not exist yet");
    flipped<N>(s);
    if constexpr (N > 1)
        for (auto & f : s->composition()) flipped<N - 1>(f);
    flipped<N>(s);
    sx_check(s.id() == build<N>(a).id(), "still the same simplex");
}
SX_HARNESS(segments) { one<1>(3); }
SX_HARNESS(triangles) { one<2>(4); }
SX_HARNESS(tetrahedra) { one<3>(4); }

// flips of triangles interleaved with construction of triangles that share edges
static void run(int steps)
{
    make_vertices(4);
    std::vector<std::array<int, 3>> tup;
    std::vector<simplex_t<2>> s;
    for (int k = 0; k < steps; k++) {
        if (k > 0 && sx_choose("flip", 2)) {
            int i = sx_choose("which", (int)s.size());
            s.push_back(topology::topology().flip(s[i]));
            auto a = tup[i];
            std::swap(a[1], a[2]);
            tup.push_back(a);
        } else {
            tup.push_back(k ? pick<3>("vertex", 4) : pick<3>("vertex", 3));
            s.push_back(build<2>(tup.back()));
        }
    }
    int distinct = 0;
    for (int i = 0; i < steps; i++) {
        sx_check(parity(tup[i], nums<2>(s[i])) == 0, "vertex order");
        bool dup = false;
        for (int j = 0; j < i; j++) {
            int p = parity(tup[i], tup[j]);
            dup = dup || p == 0;
            sx_check((s[i].id() == s[j].id()) == (p == 0), "one simplex per orientation");
            sx_check((s[i]->footprint().id() == s[j]->footprint().id()) == (p >= 0), "one footprint for both orientations");
        }
        distinct += !dup;
        bool ex = false;
        for (int j = 0; j < steps; j++) ex = ex || parity(tup[i], tup[j]) == 1;
        sx_check(topology::topology().exists_flipped(s[i]) == ex, "existence of the opposite orientation");
    }
    sx_check(topology::topology().n_simplices<2>() == distinct, "number of triangles");
    sx_observe_i("n", distinct);
}
SX_HARNESS(interleaved) { run(sx_bound("steps", 3)); }
SX_HARNESS(interleaved_down) { run(sx_bound("steps", 2)); }
// other handles on the simplex, on the footprint and on the parts make no difference
template <int N> static void held_one()
{
    make_vertices(4);
    auto & T = topology::topology();
    auto s = build<N>(pick<N + 1>("vertex", N + 1));
    const auto fp = s->footprint();
    const auto also = fp;
    const auto copy = s;
    const auto parts = s->composition();
    sx_check(!T.exists_flipped(s), "the opposite orientation does not exist yet");
    simplex_t<N> f;
    if (sx_choose("flip", 2)) { f = T.flip(s); sx_check(T.exists_flipped(s) && T.exists_flipped(f), "after flipping both orientations exist"); if (sx_choose("drop", 2)) { T.erase(f); f = simplex_t<N>(); sx_check(!T.exists_flipped(s), "the opposite orientation is gone once it is erased"); } }
    flipped<N>(s);
    sx_check(fp.id() == s->footprint().id() && copy.id() == s.id(), "same footprint");
}
SX_HARNESS(held) { switch (sx_choose("dimension", 3)) { case 0: held_one<1>(); break; case 1: held_one<2>(); break; default: held_one<3>(); } }
// flips, erasures and constructions: what is erased does not come back
template <int N> static void churn(int steps)
{
    make_vertices(N + 2);
    auto & T = topology::topology();
    std::array<int, N + 1> v;
    for (int i = 0; i <= N; i++) v[i] = i;
    simplex_t<N> s[2];                       // the positive and the negative simplex, if they exist
    s[0] = build<N>(v);
    for (int k = 0; k < steps; k++) {
        const int side = sx_choose("side", 2);
        switch (sx_choose("operation", 4)) {
            case 0:                           // flip
                if (s[side].is_nullptr()) sx_stop();
                { auto f = T.flip(s[side]); sx_check(s[1 - side].is_nullptr() || f.id() == s[1 - side].id(), "the opposite simplex is unique"); s[1 - side] = f; }
                break;
            case 1:                           // erase
                if (s[side].is_nullptr()) sx_stop();
                T.erase(s[side]); s[side] = simplex_t<N>();
                break;
            case 2:                           // build
                { auto w = v; if (side) std::swap(w[0], w[1]); auto f = build<N>(w); sx_check(s[side].is_nullptr() || f.id() == s[side].id(), "the simplex is unique"); s[side] = f; }
                break;
            default: { auto w = v; w[N] = N + 1; if (side) std::swap(w[0], w[1]); auto f = build<N>(w); T.erase(f); }   // a neighbour comes and goes
        }
        int n = 0;
        for (int i = 0; i < 2; i++) {
            if (s[i].is_nullptr()) continue;
            n++;
            sx_check(T.exists_flipped(s[i]) == !s[1 - i].is_nullptr(), "existence of the opposite orientation");
            auto w = v;
            if (i) std::swap(w[0], w[1]);
            sx_check(s[i]->sanityCheck() && parity(w, nums<N>(s[i])) == 0, "vertex order");
        }
        if (n == 2) sx_check(s[0]->orientation() == -s[1]->orientation() && s[0]->footprint().id() == s[1]->footprint().id(), "same footprint, opposite sign");
        sx_check(T.n_simplices<N>() == n, "number of simplices");
    }
}
static void churn_any(int steps) { switch (sx_choose("dimension", 3)) { case 0: churn<1>(steps); break; case 1: churn<2>(steps); break; default: churn<3>(steps); } }
SX_HARNESS(erased) { churn_any(sx_bound("steps", 3)); }
SX_HARNESS(erased_down) { churn_any(sx_bound("steps", 2)); }
