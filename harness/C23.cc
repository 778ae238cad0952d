// Metric, dual basis, volume form and musical isomorphisms of every coordinate system.
// @run cartesian
// @run polar
// @run spherical
// @run field_products
// @run scales
#include "pyre_shim.h"
#include <mito/geometry.h>
#include "sx.h"
using namespace mito;
using polar_t = geometry::polar_coordinates_t;
using sph_t = geometry::spherical_coordinates_t;
template <int D> using cart_t = geometry::cartesian_coordinates_t<D>;
template <int D> static tensor::vector_t<D> vec(const char *n, double b = 2) { tensor::vector_t<D> v; for (int i = 0; i < D; i++) v[i] = sx_real(n, -b, b); return v; }
template <class V> static double dot(const V &a, const V &b, int D) { double r = 0; for (int i = 0; i < D; i++) r += a[i] * b[i]; return r; }
template <int D> static double det(const tensor::vector_t<D> *v)
{
    if constexpr (D == 1) return v[0][0];
    else if constexpr (D == 2) return v[0][0] * v[1][1] - v[0][1] * v[1][0];
    else return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
}
// E: the basis vectors expected at x, on the orthonormal frame at x
template <class coordT, int D> static void metric_checks(const coordT &x, const tensor::vector_t<D> *E)
{
    using M = geometry::metric_space<coordT>;
    const auto g = M::g(x);
    const auto gi = M::g_inv(x);
    const auto gf = geometry::metric<coordT>::field()(x);
    auto basis = [&]<int... I>(std::integer_sequence<int, I...>) { return std::array<tensor::vector_t<D>, D>{ M::template e<I>(x)... }; }(std::make_integer_sequence<int, D>{});
    auto dx = [&]<int... I>(std::integer_sequence<int, I...>, const tensor::vector_t<D> &v) { return std::array<double, D>{ M::template dx<I>(x)(v)... }; };
    constexpr auto seq = std::make_integer_sequence<int, D>{};
    const auto v = vec<D>("v"), u = vec<D>("u");
    double rebuilt[3] = { 0, 0, 0 };
    const auto dv = dx(seq, v);
    for (int i = 0; i < D; i++) {
        const auto di = dx(seq, basis[i]);
        for (int j = 0; j < D; j++) {
            sx_eq("basis vector", basis[i][j], E[i][j]);
            sx_eq("metric holds the inner products of the basis", g[{ i, j }], dot(E[i], E[j], D));
            sx_eq("metric field", gf[{ i, j }], g[{ i, j }]);
            double p = 0;
            for (int k = 0; k < D; k++) p += g[{ i, k }] * gi[{ k, j }];
            sx_eq("inverse metric", p, i == j ? 1.0 : 0.0);
            sx_eq("dual basis", di[j], i == j ? 1.0 : 0.0);
            rebuilt[j] += dv[i] * E[i][j];
        }
    }
    for (int j = 0; j < D; j++) sx_eq("a vector is the sum of its components times the basis", rebuilt[j], v[j]);
    // volume form
    const auto w = M::w(x);
    double vol = 0, other = 0, dg = 0;
    tensor::vector_t<D> vs[D];
    vs[0] = v;
    if constexpr (D > 1) vs[1] = u;
    if constexpr (D > 2) vs[2] = vec<D>("t");
    if constexpr (D == 1) { vol = w(basis[0]); other = w(vs[0]); dg = g[{ 0, 0 }]; }
    if constexpr (D == 2) { vol = w(basis[0], basis[1]); other = w(vs[0], vs[1]); dg = g[{ 0, 0 }] * g[{ 1, 1 }] - g[{ 0, 1 }] * g[{ 1, 0 }]; }
    if constexpr (D == 3) { vol = w(basis[0], basis[1], basis[2]); other = w(vs[0], vs[1], vs[2]); dg = det<3>(E) * det<3>(E); }
    sx_check(vol > 0, "volume of the basis is positive");
    sx_eq("volume of the basis is the root of the metric's determinant", vol * vol, dg);
    sx_eq("volume form is the signed volume", other, det<D>(vs));
    // vectors and one-forms related by the metric
    tensor::vector_t<D> c = vec<D>("c");
    const auto form = functions::function([c](const coordT &) { return tensor::one_form(c); });
    const auto vector = functions::function([u](const coordT &) { return u; });
    const auto sharp = M::metric_equivalent(form)(x);
    sx_eq("metric equivalent vector of a one-form", dot(sharp, v, D), dot(c, v, D));
    sx_eq("metric equivalent one-form of a vector", M::metric_equivalent(vector)(x)(v), dot(u, v, D));
    const auto back = M::metric_equivalent(M::metric_equivalent(vector))(x);
    for (int i = 0; i < D; i++) sx_eq("metric equivalents undo each other", back[i], u[i]);
}
SX_HARNESS(cartesian)
{
    const double a = sx_real("x", -4, 4), b = sx_real("y", -4, 4), c = sx_real("z", -4, 4);
    tensor::vector_t<1> E1[1]; E1[0][0] = 1;
    tensor::vector_t<2> E2[2]; tensor::vector_t<3> E3[3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { E3[i][j] = i == j; if (i < 2 && j < 2) E2[i][j] = i == j; }
    metric_checks<cart_t<2>, 2>(cart_t<2>({ a, b }), E2);
    metric_checks<cart_t<3>, 3>(cart_t<3>({ a, b, c }), E3);
    for (int i = 0; i < 3; i++) {
        sx_eq("e_0", geometry::cartesian::e_0<3>(cart_t<3>({ a, b, c }))[i], E3[0][i]);
        sx_eq("e_1", geometry::cartesian::e_1<3>(cart_t<3>({ a, b, c }))[i], E3[1][i]);
        sx_eq("e_2", geometry::cartesian::e_2<3>(cart_t<3>({ a, b, c }))[i], E3[2][i]);
        for (int j = 0; j < 3; j++) sx_eq("cartesian metric", geometry::cartesian::metric<3>(cart_t<3>({ a, b, c }))[{ i, j }], i == j ? 1.0 : 0.0);
    }
}
SX_HARNESS(polar)
{
    const double r = sx_real("r", 0.1, 4), t = sx_real("theta", -3, 3);
    const polar_t x({ r, t });
    // position and its derivatives, resolved on the local frame
    const auto position = [](double a, double b) { return geometry::transform_coordinates<cart_t<2>>(polar_t({ a, b })); };
    const double F[2][2] = { { std::cos(t), std::sin(t) }, { -std::sin(t), std::cos(t) } };
    tensor::vector_t<2> E[2];
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) {
            double q[2];
            for (int m = 0; m < 2; m++) q[m] = sx_ddx([&](double s) { return position(i == 0 ? s : r, i == 1 ? s : t)[m]; }, i == 0 ? r : t);
            E[i][k] = q[0] * F[k][0] + q[1] * F[k][1];
            sx_deq("basis vectors are the derivatives of the position", E[i][k], i != k ? 0.0 : i == 0 ? 1.0 : r);
        }
    for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) E[i][k] = i != k ? 0.0 : i == 0 ? 1.0 : r;
    metric_checks<polar_t, 2>(x, E);
    for (int i = 0; i < 2; i++) {
        sx_eq("e_r", geometry::polar::e_r(x)[i], E[0][i]);
        sx_eq("e_theta", geometry::polar::e_theta(x)[i], E[1][i]);
        for (int j = 0; j < 2; j++) sx_eq("polar metric", geometry::polar::metric(x)[{ i, j }], dot(E[i], E[j], 2));
    }
}
SX_HARNESS(spherical)
{
    const double r = sx_real("r", 0.1, 4), t = sx_real("theta", 0.1, 3), f = sx_real("phi", -3, 3);
    const sph_t x({ r, t, f });
    const auto position = [](double a, double b, double c) { return geometry::transform_coordinates<cart_t<3>>(sph_t({ a, b, c })); };
    const double st = std::sin(t), ct = std::cos(t), sp = std::sin(f), cp = std::cos(f);
    const double F[3][3] = { { st * cp, st * sp, ct }, { ct * cp, ct * sp, -st }, { -sp, cp, 0 } };
    tensor::vector_t<3> E[3];
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 3; k++) {
            E[i][k] = i != k ? 0.0 : i == 0 ? 1.0 : i == 1 ? r : r * st;
            const double q = i == 0 ? r : i == 1 ? t : f;
            double s = 0;
            for (int m = 0; m < 3; m++) s += sx_ddx([&](double z) { return position(i == 0 ? z : r, i == 1 ? z : t, i == 2 ? z : f)[m]; }, q) * F[k][m];
            sx_deq("basis vectors are the derivatives of the position", s, E[i][k]);
        }
    metric_checks<sph_t, 3>(x, E);
    for (int i = 0; i < 3; i++) {
        sx_eq("e_r", geometry::spherical::e_r(x)[i], E[0][i]);
        sx_eq("e_theta", geometry::spherical::e_theta(x)[i], E[1][i]);
        sx_eq("e_phi", geometry::spherical::e_phi(x)[i], E[2][i]);
        for (int j = 0; j < 3; j++) sx_eq("spherical metric", geometry::spherical::metric(x)[{ i, j }], dot(E[i], E[j], 3));
    }
}
// products of form fields act pointwise
SX_HARNESS(field_products)
{
    const double r = sx_real("r", 0.1, 4), t = sx_real("theta", 0.1, 3), f = sx_real("phi", -3, 3);
    const sph_t x({ r, t, f });
    using M = geometry::metric_space<sph_t>;
    const auto u = vec<3>("u"), v = vec<3>("v"), w = vec<3>("w");
    const auto d0 = M::dx<0>; const auto d1 = M::dx<1>; const auto d2 = M::dx<2>;
    double m[3][3];
    const tensor::vector_t<3> *vs[3] = { &u, &v, &w };
    for (int j = 0; j < 3; j++) { m[0][j] = d0(x)(*vs[j]); m[1][j] = d1(x)(*vs[j]); m[2][j] = d2(x)(*vs[j]); }
    sx_eq("tensor product of two fields", fields::tensor(d0, d2)(x)(u, v), m[0][0] * m[2][1]);
    sx_eq("tensor product of three fields", fields::tensor(d1, d0, d2)(x)(u, v, w), m[1][0] * m[0][1] * m[2][2]);
    sx_eq("wedge of one field", fields::wedge(d1)(x)(u), m[1][0]);
    sx_eq("wedge of two fields", fields::wedge(d1, d2)(x)(u, v), m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    sx_eq("wedge of three fields", fields::wedge(d0, d1, d2)(x)(u, v, w), m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]));
}
// from tiny to huge distances from the origin, and close to the axis
template <class coordT, int D> static void scaled(const coordT &x, const double *value, const double *size)
{
    using M = geometry::metric_space<coordT>;
    const auto g = M::g(x);
    const auto gi = M::g_inv(x);
    auto basis = [&]<int... I>(std::integer_sequence<int, I...>) { return std::array<tensor::vector_t<D>, D>{ M::template e<I>(x)... }; }(std::make_integer_sequence<int, D>{});
    auto dx = [&]<int... I>(std::integer_sequence<int, I...>, const tensor::vector_t<D> &v) { return std::array<double, D>{ M::template dx<I>(x)(v)... }; };
    constexpr auto seq = std::make_integer_sequence<int, D>{};
    const auto v = vec<D>("v"), u = vec<D>("u"), c = vec<D>("c");
    const auto dv = dx(seq, v);
    for (int i = 0; i < D; i++) {
        sx_eq("dual basis", dv[i] * size[i] * value[i], v[i]);
        for (int j = 0; j < D; j++) {
            sx_eq("basis vector", basis[i][j] / size[i], i == j ? value[i] : 0.0);
            sx_eq("metric holds the inner products of the basis", g[{ i, j }] / size[i] / size[j], i == j ? value[i] * value[i] : 0.0);
            sx_eq("inverse metric", gi[{ i, j }] * size[i] * value[i] * size[j] * value[j], i == j ? 1.0 : 0.0);
        }
    }
    const auto w = M::w(x);
    double vol = 0, other = 0, exact = 1;
    tensor::vector_t<D> vs[D];
    vs[0] = v; vs[1] = u;
    if constexpr (D > 2) vs[2] = c;
    for (int i = 0; i < D; i++) exact *= value[i];
    if constexpr (D == 2) { vol = w(basis[0], basis[1]); other = w(vs[0], vs[1]); }
    if constexpr (D == 3) { vol = w(basis[0], basis[1], basis[2]); other = w(vs[0], vs[1], vs[2]); }
    for (int i = 0; i < D; i++) vol /= size[i];
    sx_eq("volume of the basis", vol, exact);
    sx_eq("volume form is the signed volume", other, det<D>(vs));
    const auto form = functions::function([c](const coordT &) { return tensor::one_form(c); });
    const auto vector = functions::function([u](const coordT &) { return u; });
    sx_eq("metric equivalent vector of a one-form", dot(M::metric_equivalent(form)(x), v, D), dot(c, v, D));
    sx_eq("metric equivalent one-form of a vector", M::metric_equivalent(vector)(x)(v), dot(u, v, D));
}
SX_HARNESS(scales)
{
    static const double size[] = { 1e-9, 1e-4, 1e8 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    const double q = sx_real("r", 0.5, 2), t = sx_real("theta", 0.5, 2);
    switch (sx_concretize(sx_choose("where", 4))) {
        case 0: { const double value[] = { 1, q }, s[] = { 1, u }; scaled<polar_t, 2>(polar_t({ u * q, t }), value, s); break; }
        case 1: { const double value[] = { 1, q, q * std::sin(t) }, s[] = { 1, u, u }; scaled<sph_t, 3>(sph_t({ u * q, t, sx_real("phi", -3, 3) }), value, s); break; }
        case 2: { const double value[] = { 1, 1 }, s[] = { 1, 1 }; scaled<cart_t<2>, 2>(cart_t<2>({ u * q, u * t }), value, s); break; }
        default: { const double value[] = { 1, 1, 1 }, s[] = { 1, 1, 1 }; scaled<cart_t<3>, 3>(cart_t<3>({ u * q, u * t, q }), value, s); }
    }
}
