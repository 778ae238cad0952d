// The tensor product of forms factors over its arguments.
// @run two
// @run three
// @run partial
// @run not_commutative
// @run scales
#include "forms.h"
template <int D> static void two_factors()
{
    const auto a = vec<D>("a"), b = vec<D>("b"), x = vec<D>("x"), y = vec<D>("y"), u = vec<D>("u");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b);
    auto t = tensor::tensor(A, B);
    sx_eq("product of the evaluations", t(x, y), dot<D>(a, x) * dot<D>(b, y));
    sx_eq("operator form", (A * B)(x, y), dot<D>(a, x) * dot<D>(b, y));
    sx_eq("linear in the first argument", t(s * x + u, y), s * t(x, y) + t(u, y));
    sx_eq("linear in the second argument", t(x, s * y + u), s * t(x, y) + t(x, u));
    sx_eq("linear in the first factor", tensor::tensor(A * s + B, B)(x, y), s * t(x, y) + dot<D>(b, x) * dot<D>(b, y));
    sx_eq("linear in the second factor", tensor::tensor(A, s * B - A)(x, y), s * t(x, y) - dot<D>(a, x) * dot<D>(a, y));
    tensor::symmetric_matrix_t<D> g;
    for (int i = 0; i < D; i++)
        for (int j = i; j < D; j++) g[{ i, j }] = sx_real("g", -2, 2);
    auto G = tensor::one_form(a, g);
    sx_eq("with a metric", tensor::tensor(G, B)(x, y), G(x) * dot<D>(b, y));
    sx_eq("with a metric in the second factor", tensor::tensor(B, G)(x, y), dot<D>(b, x) * G(y));
}
SX_HARNESS(two) { two_factors<2>(); two_factors<3>(); }
template <int D> static void three_factors()
{
    const auto a = vec<D>("a"), b = vec<D>("b"), c = vec<D>("c"), x = vec<D>("x"), y = vec<D>("y"), z = vec<D>("z"), u = vec<D>("u");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    auto t = tensor::tensor(A, B, C);
    sx_eq("product of the evaluations", t(x, y, z), dot<D>(a, x) * dot<D>(b, y) * dot<D>(c, z));
    sx_eq("linear in the first argument", t(s * x + u, y, z), s * t(x, y, z) + t(u, y, z));
    sx_eq("linear in the second argument", t(x, s * y + u, z), s * t(x, y, z) + t(x, u, z));
    sx_eq("linear in the third argument", t(x, y, s * z + u), s * t(x, y, z) + t(x, y, u));
    sx_eq("linear in the first factor", tensor::tensor(A * s + B, B, C)(x, y, z), s * t(x, y, z) + B(x) * B(y) * C(z));
    sx_eq("linear in the second factor", tensor::tensor(A, s * B + C, C)(x, y, z), s * t(x, y, z) + A(x) * C(y) * C(z));
    sx_eq("linear in the third factor", tensor::tensor(A, B, s * C - A)(x, y, z), s * t(x, y, z) - A(x) * B(y) * A(z));
}
SX_HARNESS(three) { three_factors<2>(); three_factors<3>(); }
// contraction of any subset of slots, the rest later
template <int D> static void slots()
{
    const auto a = vec<D>("a"), b = vec<D>("b"), c = vec<D>("c"), x = vec<D>("x"), y = vec<D>("y"), z = vec<D>("z");
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    auto t2 = tensor::tensor(A, B);
    double w2 = dot<D>(a, x) * dot<D>(b, y);
    sx_eq("two factors: first slot", t2(x, _)(y), w2);
    sx_eq("two factors: second slot", t2(_, y)(x), w2);
    sx_eq("two factors: no slot", t2(_, _)(x, y), w2);
    auto t = tensor::tensor(A, B, C);
    double w = dot<D>(a, x) * dot<D>(b, y) * dot<D>(c, z);
    sx_eq("three factors: slot 0", t(x, _, _)(y, z), w);
    sx_eq("three factors: slot 1", t(_, y, _)(x, z), w);
    sx_eq("three factors: slot 2", t(_, _, z)(x, y), w);
    sx_eq("three factors: slots 0 1", t(x, y, _)(z), w);
    sx_eq("three factors: slots 0 2", t(x, _, z)(y), w);
    sx_eq("three factors: slots 1 2", t(_, y, z)(x), w);
    auto p = t(_, y, _);
    sx_eq("a stored partial contraction can be reused", p(x, z) + p(z, x), w + dot<D>(a, z) * dot<D>(b, y) * dot<D>(c, x));
}
SX_HARNESS(partial) { slots<2>(); slots<3>(); }
SX_HARNESS(not_commutative)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), x = vec<3>("x"), y = vec<3>("y");
    auto A = tensor::one_form(a), B = tensor::one_form(b);
    sx_eq("exchanging factors exchanges arguments", tensor::tensor(A, B)(x, y), tensor::tensor(B, A)(y, x));
    sx_eq("symmetric and alternating part", 2 * tensor::tensor(A, B)(x, y), (tensor::tensor(A, B) + tensor::tensor(B, A))(x, y) + tensor::wedge(A, B)(x, y));
}
// from tiny to huge factors and arguments
SX_HARNESS(scales)
{
    static const double size[] = { 1e-12, 1e-6, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    const int where = sx_concretize(sx_choose("where", 6));
    tensor::vector_t<3> a[3], x[3], A[3], X[3];
    double m[3][3];
    for (int i = 0; i < 3; i++) {
        a[i] = vec<3>("a"); x[i] = vec<3>("x");
        for (int k = 0; k < 3; k++) { A[i][k] = where == i ? u * a[i][k] : a[i][k]; X[i][k] = where == 3 + i ? u * x[i][k] : x[i][k]; }
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = dot<3>(a[i], x[j]);
    const tensor::vector_t<3> A0 = A[0];
    const auto f = tensor::one_form(A0);
    const tensor::vector_t<3> A1 = A[1];
    const auto g = tensor::one_form(A1);
    const tensor::vector_t<3> A2 = A[2];
    const auto h = tensor::one_form(A2);
    const tensor::vector_t<3> X0 = X[0], X1 = X[1], X2 = X[2];
    if (where != 2 && where != 5) sx_eq("two factors", tensor::tensor(f, g)(X0, X1) / u, m[0][0] * m[1][1]);
    sx_eq("three factors", tensor::tensor(f, g, h)(X0, X1, X2) / u, m[0][0] * m[1][1] * m[2][2]);
}
