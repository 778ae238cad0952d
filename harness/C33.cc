// Elementary blocks equal the integrals they stand for.
// @flags -include cassert -fdelete-null-pointer-checks
// @run mass
// @run stiffness
// @run source
// @run norm
// @run weakform
// @run scales
#include "fem.h"
template <class ref, int r> using rule_t = quadrature::quadrature_rule_t<quadrature::GAUSS, ref, r>;
template <int degree, class cellT, int D, class F> static void element(F f)
{
    using element_t = fem::isoparametric_simplex_t<degree, cellT>;
    Nodes<D, 4> S;
    S.add_free(D + 1);
    const auto a = ordered<D + 1>("node", D + 1);
    sx_assume(signed_measure<D>(S, a) > 0.25);
    auto cell = simplex<D, D>(S, a);
    const element_t e(cell, S.cs, typename element_t::connectivity_type{});
    f.template operator()<element_t, D>(e, S, a);
}
template <class F> static void every_element(F f)
{
    switch (sx_choose("element", 3)) {
        case 0: element<1, geometry::segment_t<1>, 1>(f); break;
        case 1: element<1, geometry::triangle_t<2>, 2>(f); break;
        default: element<2, geometry::triangle_t<2>, 2>(f);
    }
}
template <class ref, int r, class F> static void one_rule(F &f) { f.template operator()<rule_t<ref, r>>(); }
// f for every rule that is exact for the degree r at least
template <class ref, int r, class F> static void exact_rules(F f)
{
    constexpr int top = ref::order == 1 ? 2 : 4;
    static_assert(r <= top);
    const int c = sx_choose("rule", top - r + 1);
    tensor::constexpr_for_1<top - r + 1>([&]<int i>() { if (c == i) one_rule<ref, r + i>(f); });
}
template <int n, class M> static double entry(const M &m, int a, int b) { return m[{ a, b }]; }
SX_HARNESS(mass)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a) {
        using ref = typename E::canonical_element_type;
        const double vol = signed_measure<D>(S, a) / fem_fact(D);
        exact_rules<ref, 2 * E::degree>([&]<class Q>() {
            const auto block = fem::blocks::mass_block<E, Q>();
            const auto m = block.compute(e), again = block.compute(e);
            double total = 0;
            for (int i = 0; i < E::n_nodes; i++) for (int j = 0; j < E::n_nodes; j++) {
                sx_eq("mass block", entry<E::n_nodes>(m, i, j), vol * (lagrange<D, E::degree>(i) * lagrange<D, E::degree>(j)).template mean<D>());
                sx_eq("computed twice", entry<E::n_nodes>(again, i, j), entry<E::n_nodes>(m, i, j));
                total += entry<E::n_nodes>(m, i, j);
            }
            sx_eq("mass block sums to the volume", total, vol);
        });
    });
}
SX_HARNESS(stiffness)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a) {
        using ref = typename E::canonical_element_type;
        const double vol = signed_measure<D>(S, a) / fem_fact(D);
        vec_t<D> g[D + 1];
        barycentric_gradients<D>(S, a, g);
        exact_rules<ref, E::degree == 1 ? 1 : 2>([&]<class Q>() {
            const auto block = fem::blocks::grad_grad_block<E, Q>();
            const auto m = block.compute(e);
            for (int i = 0; i < E::n_nodes; i++) {
                double row = 0;
                for (int j = 0; j < E::n_nodes; j++) {
                    double k = 0;
                    for (int p = 0; p <= D; p++) for (int q = 0; q <= D; q++) {
                        double dot = 0;
                        for (int c = 0; c < D; c++) dot += g[p][c] * g[q][c];
                        k += (lagrange<D, E::degree>(i).d(p) * lagrange<D, E::degree>(j).d(q)).template mean<D>() * dot;
                    }
                    sx_close("stiffness block", entry<E::n_nodes>(m, i, j), vol * k, 1e-7);
                    sx_close("symmetric", entry<E::n_nodes>(m, i, j), entry<E::n_nodes>(m, j, i), 1e-7);
                    row += entry<E::n_nodes>(m, i, j);
                }
                sx_close("annihilates constants", row, 0, 1e-7);
            }
            if constexpr (E::degree == 1) {
                // energy of a linear function: volume times the square of its gradient, never negative
                double u[D + 1], energy = 0, square = 0;
                for (double &x : u) x = sx_real("u", -1, 1);
                for (int i = 0; i <= D; i++) for (int j = 0; j <= D; j++) energy += u[i] * u[j] * entry<D + 1>(m, i, j);
                for (int c = 0; c < D; c++) { double d = 0; for (int i = 0; i <= D; i++) d += u[i] * g[i][c]; square += d * d; }
                sx_close("positive semidefinite", energy, vol * square, 1e-6);
            }
        });
    });
}
// polynomial source of degree s with arbitrary coefficients, in physical and in barycentric coordinates
template <int D, int s, class S> struct Source {
    double c[6];
    Source() { for (double &q : c) q = sx_real("coefficient", -3, 3); }
    double value(const cart_t<D> &x) const
    {
        double p = c[0];
        if constexpr (s >= 1) for (int k = 0; k < D; k++) p += c[1 + k] * x[k];
        if constexpr (s >= 2) { p += c[3] * x[0] * x[0]; if constexpr (D > 1) p += c[4] * x[0] * x[1] + c[5] * x[1] * x[1]; }
        return p;
    }
    BPoly barycentric(const S &n, const std::array<int, D + 1> &a) const
    {
        BPoly x[D], p = BPoly::one(c[0]);
        for (int k = 0; k < D; k++) { for (int i = 0; i <= D; i++) x[k] = x[k] + BPoly::lambda(i) * n.p[a[i]][k]; }
        if constexpr (s >= 1) for (int k = 0; k < D; k++) p = p + x[k] * c[1 + k];
        if constexpr (s >= 2) { p = p + x[0] * x[0] * c[3]; if constexpr (D > 1) p = p + x[0] * x[1] * c[4] + x[1] * x[1] * c[5]; }
        return p;
    }
};
template <class E, int D, int s, class S> static void source_of_degree(const E &e, const S &n, const std::array<int, D + 1> &a)
{
    using ref = typename E::canonical_element_type;
    const double vol = signed_measure<D>(n, a) / fem_fact(D);
    const Source<D, s, S> src;
    const auto f = functions::function([&](const cart_t<D> &x) -> double { return src.value(x); });
    const BPoly p = src.barycentric(n, a);
    exact_rules<ref, E::degree + s>([&]<class Q>() {
        const auto block = fem::blocks::source_term_block<E, Q>(f);
        const auto v = block.compute(e);
        for (int i = 0; i < E::n_nodes; i++) sx_close("source block", v[i], vol * (p * lagrange<D, E::degree>(i)).template mean<D>(), 1e-7);
    });
}
SX_HARNESS(source)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a) {
        if constexpr (D == 1) { if (sx_choose("degree of the source", 2)) source_of_degree<E, D, 1>(e, S, a); else source_of_degree<E, D, 0>(e, S, a); }
        else switch (sx_choose("degree of the source", 3)) {
            case 0: source_of_degree<E, D, 0>(e, S, a); break;
            case 1: source_of_degree<E, D, 1>(e, S, a); break;
            default: source_of_degree<E, D, 2>(e, S, a);
        }
    });
}
SX_HARNESS(norm)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a) {
        using ref = typename E::canonical_element_type;
        using par = typename ref::parametric_coordinates_type;
        constexpr int s = D == 1 ? 1 : 2;
        const double vol = signed_measure<D>(S, a) / fem_fact(D);
        double c[6];
        for (double &q : c) q = sx_real("coefficient", -3, 3);
        // a function of the parametric coordinates; in barycentric coordinates of the corners of the reference element
        BPoly x[2];
        if constexpr (D == 1) x[0] = BPoly::lambda(1); else { x[0] = BPoly::lambda(0); x[1] = BPoly::lambda(1); }
        BPoly p = BPoly::one(c[0]);
        for (int k = 0; k < D; k++) p = p + x[k] * c[1 + k];
        if constexpr (s == 2) p = p + x[0] * x[0] * c[3] + x[0] * x[1] * c[4] + x[1] * x[1] * c[5];
        exact_rules<ref, 2 * s>([&]<class Q>() {
            const auto f = functions::function([&](const par &u) -> double {
                double r = c[0];
                for (int k = 0; k < D; k++) r += c[1 + k] * u[k];
                if constexpr (s == 2) r += c[3] * u[0] * u[0] + c[4] * u[0] * u[1] + c[5] * u[1] * u[1];
                return r;
            });
            const auto block = fem::blocks::l2_norm_block<E, Q>(f);
            sx_close("norm block", block.compute(e), vol * (p * p).template mean<D>(), 1e-7);
            // of a vector valued function
            const auto g = functions::function([&](const par &u) -> vec_t<2> {
                vec_t<2> r;
                r[0] = c[0] + c[1] * u[0]; r[1] = c[2] + c[3] * u[0];
                return r;
            });
            const auto vblock = fem::blocks::l2_norm_block<E, Q>(g);
            const BPoly r0 = BPoly::one(c[0]) + x[0] * c[1], r1 = BPoly::one(c[2]) + x[0] * c[3];
            sx_close("norm block of a vector", vblock.compute(e), vol * (r0 * r0 + r1 * r1).template mean<D>(), 1e-7);
        });
    });
}
// a weak form adds up its blocks, in any number
SX_HARNESS(weakform)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a) {
        using ref = typename E::canonical_element_type;
        using Q = rule_t<ref, 2>;
        const double c = sx_real("source", -3, 3), d = sx_real("source", -3, 3);
        const auto f = functions::constant<cart_t<D>>(c), g = functions::constant<cart_t<D>>(d);
        const auto stiff = fem::blocks::grad_grad_block<E, Q>();
        const auto mass = fem::blocks::mass_block<E, Q>();
        const auto s0 = fem::blocks::source_term_block<E, Q>(f);
        const auto s1 = fem::blocks::source_term_block<E, Q>(g);
        auto w = fem::weakform<E>();
        int nk = 0, nm = 0, n0 = 0, n1 = 0;
        const int count = sx_choose("blocks", 4);
        for (int i = 0; i < count; i++) switch (sx_choose("block", 4)) {
            case 0: w.add_block(stiff); nk++; break;
            case 1: w.add_block(mass); nm++; break;
            case 2: w.add_block(s0); n0++; break;
            default: w.add_block(s1); n1++;
        }
        const auto [m, v] = w.compute_blocks(e);
        const auto k = stiff.compute(e), mm = mass.compute(e);
        const auto v0 = s0.compute(e), v1 = s1.compute(e);
        for (int i = 0; i < E::n_nodes; i++) {
            for (int j = 0; j < E::n_nodes; j++) sx_close("sum of the matrix blocks", entry<E::n_nodes>(m, i, j), nk * entry<E::n_nodes>(k, i, j) + nm * entry<E::n_nodes>(mm, i, j), 1e-7);
            sx_close("sum of the right hand side blocks", v[i], n0 * v0[i] + n1 * v1[i], 1e-7);
        }
    });
}
// elements and sources from tiny to huge
template <int degree, class cellT, int D> static void scaled()
{
    using E = fem::isoparametric_simplex_t<degree, cellT>;
    using Q = rule_t<typename E::canonical_element_type, 2>;
    static const double size[] = { 1e-8, 1e-4, 1e8 };
    const double u = size[sx_concretize(sx_choose("size", 3))], s = size[sx_concretize(sx_choose("size of the source", 3))];
    Nodes<D, 4> S, T;
    S.add_free(D + 1);
    for (int i = 0; i <= D; i++) T.add(vec_t<D>(u * S.p[i]));
    std::array<int, D + 1> a;
    for (int i = 0; i <= D; i++) a[i] = i;
    sx_assume(signed_measure<D>(S, a) > 0.25);
    auto c = simplex<D, D>(S, a), d = simplex<D, D>(T, a);
    const E e(c, S.cs, typename E::connectivity_type{}), f(d, T.cs, typename E::connectivity_type{});
    double un = 1;
    for (int i = 0; i < D; i++) un *= u;
    const double k = sx_real("source", -1, 1), l = s * k;
    const auto one = functions::constant<cart_t<D>>(k), source = functions::constant<cart_t<D>>(l);
    const auto stiff = fem::blocks::grad_grad_block<E, Q>();
    const auto mass = fem::blocks::mass_block<E, Q>();
    const auto s0 = fem::blocks::source_term_block<E, Q>(one);
    const auto s1 = fem::blocks::source_term_block<E, Q>(source);
    const auto A = stiff.compute(e), B = stiff.compute(f), M = mass.compute(e), N = mass.compute(f);
    const auto p = s0.compute(e), q = s1.compute(f);
    const double du = un / u / u;
    for (int i = 0; i < E::n_nodes; i++) {
        sx_eq("the source block scales", q[i] / un / s, p[i]);
        for (int j = 0; j < E::n_nodes; j++) {
            sx_close("the stiffness block scales", entry<E::n_nodes>(B, i, j) / du, entry<E::n_nodes>(A, i, j), 1e-7);
            sx_eq("the mass block scales", entry<E::n_nodes>(N, i, j) / un, entry<E::n_nodes>(M, i, j));
        }
    }
    using par = typename E::canonical_element_type::parametric_coordinates_type;
    const auto g = functions::function([&](const par &) -> double { return k; }), h = functions::function([&](const par &) -> double { return l; });
    const auto n0 = fem::blocks::l2_norm_block<E, Q>(g);
    const auto n1 = fem::blocks::l2_norm_block<E, Q>(h);
    sx_eq("the norm block scales", n1.compute(f) / un / s / s, n0.compute(e));
}
SX_HARNESS(scales)
{
    switch (sx_concretize(sx_choose("element", 3))) {
        case 0: scaled<1, geometry::segment_t<1>, 1>(); break;
        case 1: scaled<1, geometry::triangle_t<2>, 2>(); break;
        default: scaled<2, geometry::triangle_t<2>, 2>();
    }
}
