// The wedge product is alternating and equals the determinant of the pairings.
// @run two
// @run three
// @run stepwise
// @run one_with_two
// @run scalars
// @run scales
#include "forms.h"
template <int D> static void two_forms()
{
    const auto a = vec<D>("a"), b = vec<D>("b"), x = vec<D>("x"), y = vec<D>("y");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b);
    auto w = tensor::wedge(A, B);
    sx_eq("determinant of the pairings", w(x, y), dot<D>(a, x) * dot<D>(b, y) - dot<D>(a, y) * dot<D>(b, x));
    sx_eq("exchanged arguments", w(y, x), -w(x, y));
    sx_eq("exchanged factors", tensor::wedge(B, A)(x, y), -w(x, y));
    sx_eq("coinciding arguments", w(x, x), 0);
    sx_eq("coinciding factors", tensor::wedge(A, A)(x, y), 0);
    sx_eq("dependent arguments", w(x, s * x), 0);
    sx_eq("linear in a factor", tensor::wedge(A + s * B, A)(x, y), -s * w(x, y));
    sx_eq("wedge of one factor", tensor::wedge(A)(x), A(x));
}
SX_HARNESS(two) { two_forms<2>(); two_forms<3>(); }
static double det3(const tensor::vector_t<3> & a, const tensor::vector_t<3> & b, const tensor::vector_t<3> & c, const tensor::vector_t<3> & x, const tensor::vector_t<3> & y, const tensor::vector_t<3> & z)
{
    double m[3][3] = { { dot<3>(a, x), dot<3>(a, y), dot<3>(a, z) }, { dot<3>(b, x), dot<3>(b, y), dot<3>(b, z) }, { dot<3>(c, x), dot<3>(c, y), dot<3>(c, z) } };
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
SX_HARNESS(three)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    auto w = tensor::wedge(A, B, C);
    double d = det3(a, b, c, x, y, z);
    sx_eq("determinant of the pairings", w(x, y, z), d);
    sx_eq("exchanged arguments 0 1", w(y, x, z), -d);
    sx_eq("exchanged arguments 1 2", w(x, z, y), -d);
    sx_eq("exchanged arguments 0 2", w(z, y, x), -d);
    sx_eq("exchanged factors 0 1", tensor::wedge(B, A, C)(x, y, z), -d);
    sx_eq("exchanged factors 1 2", tensor::wedge(A, C, B)(x, y, z), -d);
    sx_eq("exchanged factors 0 2", tensor::wedge(C, B, A)(x, y, z), -d);
    sx_eq("coinciding arguments", w(x, y, x), 0);
    sx_eq("coinciding arguments, last two", w(x, y, y), 0);
    sx_eq("coinciding arguments, first two", w(x, x, y), 0);
    sx_eq("coinciding factors", tensor::wedge(A, B, A)(x, y, z), 0);
    sx_eq("dependent arguments", w(x, y, s * x + y), 0);
    sx_eq("linear in a factor", tensor::wedge(A + s * B, B, C)(x, y, z), d);
}
// in two dimensions every wedge of three one-forms vanishes
SX_HARNESS(stepwise)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z");
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    double d = det3(a, b, c, x, y, z);
    auto w = tensor::wedge(A, tensor::wedge(B, C));
    sx_eq("wedging step by step", w(x, y, z), d);
    sx_eq("alternating 0 1", w(y, x, z), -d);
    sx_eq("alternating 1 2", w(x, z, y), -d);
    sx_eq("alternating 0 2", w(z, y, x), -d);
    const auto p = vec<2>("p"), q = vec<2>("q"), r = vec<2>("r"), u = vec<2>("u"), v = vec<2>("v"), t = vec<2>("t");
    sx_eq("three factors in the plane", tensor::wedge(tensor::one_form(p), tensor::one_form(q), tensor::one_form(r))(u, v, t), 0);
    sx_eq("three factors in the plane, step by step", tensor::wedge(tensor::one_form(p), tensor::wedge(tensor::one_form(q), tensor::one_form(r)))(u, v, t), 0);
}
// a one-form with an arbitrary alternating two-form
SX_HARNESS(one_with_two)
{
    const auto a = vec<3>("a"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z"), u = vec<3>("u"), v = vec<3>("v"), p = vec<3>("p"), q = vec<3>("q");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a);
    auto w = tensor::wedge(tensor::one_form(u), tensor::one_form(v)) * s + tensor::wedge(tensor::one_form(p), tensor::one_form(q));
    auto f = tensor::wedge(A, w);
    sx_eq("cyclic sum", f(x, y, z), A(x) * w(y, z) + A(y) * w(z, x) + A(z) * w(x, y));
    sx_eq("alternating", f(x, y, z), -f(x, z, y));
    sx_eq("alternating, first two", f(x, y, z), -f(y, x, z));
    sx_eq("additive", f(x, y, z), s * det3(a, u, v, x, y, z) + det3(a, p, q, x, y, z));
}
SX_HARNESS(scalars)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    sx_eq("scalar wedge one-form", tensor::wedge(s, A)(x), s * A(x));
    sx_eq("one-form wedge scalar", tensor::wedge(A, s)(x), s * A(x));
    sx_eq("scalar wedge two-form", tensor::wedge(s, tensor::wedge(A, B))(x, y), s * tensor::wedge(A, B)(x, y));
    sx_eq("two-form wedge scalar", tensor::wedge(tensor::wedge(A, B), s)(x, y), s * tensor::wedge(A, B)(x, y));
    sx_eq("scalar wedge three-form", tensor::wedge(s, tensor::wedge(A, B, C))(x, y, z), s * det3(a, b, c, x, y, z));
    sx_eq("scalar in the first factor", tensor::wedge(s * A, B)(x, y), s * tensor::wedge(A, B)(x, y));
    sx_eq("scalar in the second factor", tensor::wedge(A, B * s)(x, y), s * tensor::wedge(A, B)(x, y));
    sx_eq("scalar in a factor of three", tensor::wedge(A, s * B, C)(x, y, z), s * det3(a, b, c, x, y, z));
}
// from tiny to huge factors and arguments
SX_HARNESS(scales)
{
    static const double size[] = { 1e-12, 1e-6, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    const int where = sx_concretize(sx_choose("where", 6));
    tensor::vector_t<3> a[3], x[3], A[3], X[3];
    double m[3][3];
    for (int i = 0; i < 3; i++) {
        a[i] = vec<3>("a"); x[i] = vec<3>("x");
        for (int k = 0; k < 3; k++) { A[i][k] = where == i ? u * a[i][k] : a[i][k]; X[i][k] = where == 3 + i ? u * x[i][k] : x[i][k]; }
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = dot<3>(a[i], x[j]);
    const tensor::vector_t<3> A0 = A[0];
    const auto f = tensor::one_form(A0);
    const tensor::vector_t<3> A1 = A[1];
    const auto g = tensor::one_form(A1);
    const tensor::vector_t<3> A2 = A[2];
    const auto h = tensor::one_form(A2);
    const tensor::vector_t<3> X0 = X[0], X1 = X[1], X2 = X[2];
    if (where != 2 && where != 5) sx_eq("two factors", tensor::wedge(f, g)(X0, X1) / u, m[0][0] * m[1][1] - m[0][1] * m[1][0]);
    sx_eq("three factors", tensor::wedge(f, g, h)(X0, X1, X2) / u, m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]));
}
