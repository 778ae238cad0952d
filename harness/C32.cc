// Isoparametric elements map and differentiate consistently with their nodes.
// @flags -include cassert -fdelete-null-pointer-checks
// @run mapping
// @run gradients
// @run relabel
// @run scales
#include "geo.h"
#include <mito/fem.h>
template <int N, class G> static double comp(const G &g, int k)
{
    if constexpr (requires { g[k]; }) return g[k];
    else return g;
}
template <class ref, int N> static auto at(const double *v)
{
    tensor::vector_t<N> p;
    for (int k = 0; k < N; k++) p[k] = v[k];
    return typename ref::parametric_coordinates_type(p);
}
// reference coordinates of the nodes: vertices, then midpoints of the edges 01, 12, 20
template <int N> static void node(int b, double *v)
{
    for (int k = 0; k < N; k++) v[k] = 0;
    if constexpr (N == 1) v[0] = b;
    else {
        auto corner = [](int c, double *u, double f) { if (c < 2) u[c] += f; };
        if (b < 3) corner(b, v, 1);
        else { corner(b - 3, v, 0.5); corner((b - 2) % 3, v, 0.5); }
    }
}
template <int D, class S> static vec_t<D> position(const S &s, const std::array<int, D + 1> &a, int b)
{
    if (b <= D) return s.p[a[b]];
    vec_t<D> r;
    for (int k = 0; k < D; k++) r[k] = 0.5 * (s.p[a[b - 3]][k] + s.p[a[(b - 2) % 3]][k]);
    return r;
}
template <int degree, class cellT, int D, class F> static void element(F f, bool regular)
{
    using element_t = fem::isoparametric_simplex_t<degree, cellT>;
    Nodes<D, 4> S;
    S.add_free(D + 1);
    const auto a = ordered<D + 1>("node", D + 1);
    if (regular) { const double d = signed_measure<D>(S, a); sx_assume(d > 0.25 || d < -0.25); }
    auto cell = simplex<D, D>(S, a);
    element_t e(cell, S.cs, typename element_t::connectivity_type{});
    double v[D];
    for (int k = 0; k < D; k++) v[k] = sx_real("xi", -1, 2);
    f.template operator()<element_t, D>(e, S, a, v);
}
template <class F> static void every_element(F f, bool regular)
{
    switch (sx_choose("element", 3)) {
        case 0: element<1, geometry::segment_t<1>, 1>(f, regular); break;
        case 1: element<1, geometry::triangle_t<2>, 2>(f, regular); break;
        default: element<2, geometry::triangle_t<2>, 2>(f, regular);
    }
}
SX_HARNESS(mapping)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a, const double *v) {
        using ref = typename E::canonical_element_type;
        const auto map = e.parametrization();
        for (int b = 0; b < E::n_nodes; b++) {
            double w[D];
            node<D>(b, w);
            const auto x = map(at<ref, D>(w));
            for (int k = 0; k < D; k++) sx_eq("reference nodes are mapped to the nodes", comp<D>(x, k), position<D>(S, a, b)[k]);
        }
        // isoparametric: the map is the interpolation of the node positions with the shape functions
        const auto x = map(at<ref, D>(v));
        double sum[D] = {};
        tensor::constexpr_for_1<E::n_nodes>([&]<int c>() {
            const double f = e.template shape<c>()(at<ref, D>(v));
            for (int k = 0; k < D; k++) sum[k] += f * position<D>(S, a, c)[k];
        });
        const auto J = e.jacobian()(at<ref, D>(v));
        for (int k = 0; k < D; k++) {
            sx_eq("the map interpolates the nodes", comp<D>(x, k), sum[k]);
            for (int j = 0; j < D; j++) {
                const double d = sx_ddx([&](double t) { double w[D]; for (int i = 0; i < D; i++) w[i] = v[i]; w[j] = t; return comp<D>(e.parametrization()(at<ref, D>(w)), k); }, v[j]);
                sx_deq("the jacobian is the derivative of the map", J[{ k, j }], d);
            }
        }
        // twice the signed area up to the orientation of the reference element, which lists its last corner at the origin
        sx_eq("determinant of the jacobian", tensor::determinant(J), signed_measure<D>(S, a));
    }, false);
}
SX_HARNESS(gradients)
{
    every_element([]<class E, int D>(const E &e, const auto &S, const auto &a, const double *v) {
        using ref = typename E::canonical_element_type;
        // a polynomial of the degree of the element in physical coordinates
        double c[6];
        for (double &q : c) q = sx_real("coefficient", -5, 5);
        auto poly = [&](const vec_t<D> &x) {
            double p = c[0];
            for (int k = 0; k < D; k++) p += c[1 + k] * x[k];
            if constexpr (E::degree == 2) p += c[3] * x[0] * x[0] + c[4] * x[0] * x[1] + c[5] * x[1] * x[1];
            return p;
        };
        vec_t<D> x;
        const auto y = e.parametrization()(at<ref, D>(v));
        for (int k = 0; k < D; k++) x[k] = comp<D>(y, k);
        const auto J = e.jacobian()(at<ref, D>(v));
        double g[D] = {}, total[D] = {};
        tensor::constexpr_for_1<E::n_nodes>([&]<int b>() {
            const auto gb = e.template gradient<b>()(at<ref, D>(v));
            const double pb = poly(position<D>(S, a, b));
            for (int k = 0; k < D; k++) { g[k] += pb * comp<D>(gb, k); total[k] += comp<D>(gb, k); }
            const auto db = e.shape_functions.template dshape<b>()(at<ref, D>(v));
            for (int j = 0; j < D; j++) {
                double s = 0;
                for (int k = 0; k < D; k++) s += comp<D>(gb, k) * J[{ k, j }];
                sx_close("chain rule", s, comp<D>(db, j), 1e-7);
            }
        });
        for (int k = 0; k < D; k++) {
            double p = c[1 + k];
            if constexpr (E::degree == 2) p += k == 0 ? 2 * c[3] * x[0] + c[4] * x[1] : c[4] * x[0] + 2 * c[5] * x[1];
            sx_close("gradient of a polynomial of the degree of the element", g[k], p, 1e-6);
            sx_close("gradient of a constant", total[k], 0, 1e-7);
        }
    }, true);
}
// elements on the same nodes in another order: the same shape function at the same place
SX_HARNESS(relabel)
{
    const bool quadratic = sx_choose("degree", 2);
    Nodes<2, 4> S;
    S.add_free(3);
    const std::array<int, 3> a{ 0, 1, 2 };
    const auto p = ordered<3>("node", 3);
    { const double d = signed_measure<2>(S, a); sx_assume(d > 0.25 || d < -0.25); }
    auto c0 = simplex<2, 2>(S, a), c1 = simplex<2, 2>(S, p);
    double l[3] = { sx_real("xi", -1, 2), sx_real("xi", -1, 2), 0 };
    l[2] = 1 - l[0] - l[1];
    double m[3] = { l[p[0]], l[p[1]], l[p[2]] };
    auto run = [&]<class E>() {
        using ref = typename E::canonical_element_type;
        E e0(c0, S.cs, {}), e1(c1, S.cs, {});
        const auto x0 = e0.parametrization()(at<ref, 2>(l)), x1 = e1.parametrization()(at<ref, 2>(m));
        for (int k = 0; k < 2; k++) sx_eq("same place", x0[k], x1[k]);
        tensor::constexpr_for_1<E::n_nodes>([&]<int i>() {
            const auto g1 = e1.template gradient<i>()(at<ref, 2>(m));
            const double f1 = e1.template shape<i>()(at<ref, 2>(m));
            // the number of this node in the first element
            int j;
            if (i < 3) j = p[i];
            else { const int u = p[i - 3], w = p[(i - 2) % 3]; j = u + w == 1 ? 3 : u + w == 3 ? 4 : 5; }
            tensor::constexpr_for_1<E::n_nodes>([&]<int k>() {
                if (k != j) return;
                const auto g0 = e0.template gradient<k>()(at<ref, 2>(l));
                sx_eq("same shape function", f1, e0.template shape<k>()(at<ref, 2>(l)));
                for (int d = 0; d < 2; d++) sx_close("same gradient", g1[d], g0[d], 1e-7);
            });
        });
    };
    if (quadratic) run.template operator()<fem::isoparametric_simplex_t<2, geometry::triangle_t<2>>>();
    else run.template operator()<fem::isoparametric_simplex_t<1, geometry::triangle_t<2>>>();
}
// elements from tiny to huge
template <int degree, class cellT, int D> static void scaled()
{
    using E = fem::isoparametric_simplex_t<degree, cellT>;
    using ref = typename E::canonical_element_type;
    static const double size[] = { 1e-9, 1e-4, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    Nodes<D, 4> S, T;
    S.add_free(D + 1);
    for (int i = 0; i <= D; i++) T.add(vec_t<D>(u * S.p[i]));
    std::array<int, D + 1> a;
    for (int i = 0; i <= D; i++) a[i] = i;
    { const double d = signed_measure<D>(S, a); sx_assume(d > 0.25 || d < -0.25); }
    auto c = simplex<D, D>(S, a), d = simplex<D, D>(T, a);
    const E e(c, S.cs, typename E::connectivity_type{}), f(d, T.cs, typename E::connectivity_type{});
    double v[D];
    for (int k = 0; k < D; k++) v[k] = sx_real("xi", 0, 1);
    const auto at0 = at<ref, D>(v);
    const auto x = e.parametrization()(at0), y = f.parametrization()(at0);
    const auto J = e.jacobian()(at0), K = f.jacobian()(at0);
    for (int k = 0; k < D; k++) {
        sx_eq("the map scales with the element", comp<D>(y, k) / u, comp<D>(x, k));
        for (int j = 0; j < D; j++) sx_eq("the jacobian scales with the element", K[{ k, j }] / u, J[{ k, j }]);
    }
    tensor::constexpr_for_1<E::n_nodes>([&]<int b>() {
        const auto g = e.template gradient<b>()(at0), h = f.template gradient<b>()(at0);
        for (int k = 0; k < D; k++) sx_eq("the gradients scale with the element", comp<D>(h, k) * u, comp<D>(g, k));
    });
}
SX_HARNESS(scales)
{
    switch (sx_concretize(sx_choose("element", 3))) {
        case 0: scaled<1, geometry::segment_t<1>, 1>(); break;
        case 1: scaled<1, geometry::triangle_t<2>, 2>(); break;
        default: scaled<2, geometry::triangle_t<2>, 2>();
    }
}
