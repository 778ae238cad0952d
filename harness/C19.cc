// Symbolic derivatives of functions are the true derivatives.
// @run library
// @run scalar_rules
// @run second_derivatives
// @run combinations
// @run partials
// @run partials_of_compositions
// @run curves
// @run curves3
// @run curves4
// @run jacobians
// @run matrix_functions
// @run matrix_functions3
// @run nesting
// @run scales
#include "functions.h"
// the derivative returned by the library against the derivative of the evaluation itself
template <class F> static void d1(const char *label, const F &f, double x)
{
    const auto d = fn::derivative(f);
    sx_deq(label, d(x), sx_ddx([&](double y) { return f(y); }, x));
}
template <class F> static void d2(const char *label, const F &f, double x)
{
    const auto d = fn::derivative(f);
    const auto dd = fn::derivative(d);
    sx_deq(label, dd(x), sx_ddx([&](double y) { return d(y); }, x));
}
template <class F> static void both(const char *label, const F &f, double x) { d1(label, f, x); d2(label, f, x); }
// partial derivatives of a scalar function of a vector
template <int I, class V> static V with(V v, double y) { v[I] = y; return v; }
template <int I, class F, class V> static void dI(const char *label, const F &f, const V &x)
{
    sx_deq(label, fn::derivative<I>(f)(x), sx_ddx([&](double y) { return f(with<I>(x, y)); }, x[I]));
}
template <int I, int J, class F, class V> static void dIJ(const char *label, const F &f, const V &x)
{
    const auto d = fn::derivative<I>(f);
    sx_deq(label, fn::derivative<J>(d)(x), sx_ddx([&](double y) { return d(with<J>(x, y)); }, x[J]));
}
template <class F> static void grad2(const char *label, const F &f, const v2 &x) { dI<0>(label, f, x); dI<1>(label, f, x); }

SX_HARNESS(library)
{
    const double x = sx_real("x", -3, 3), p = sx_real("p", 0.3, 4), u = sx_real("u", -0.9, 0.9), n = sx_real("n", -4, -0.3);
    both("sin", fn::sin, x);
    both("cos", fn::cos, x);
    both("tan", fn::tan, u);
    both("exp", fn::exp, x);
    both("log", fn::log, p);
    both("sqrt", fn::sqrt, p);
    d1("cbrt", fn::cbrt, p); d2("cbrt", fn::cbrt, p);
    d1("cbrt of a negative number", fn::cbrt, n);
    both("asin", fn::asin, u);
    both("acos", fn::acos, u);
    both("atan", fn::atan, x);
    d1("pow 1", fn::pow<1>, x);
    both("pow 2", fn::pow<2>, x);
    both("pow 3", fn::pow<3>, x);
    both("pow 5", fn::pow<5>, x);
    both("pow 8", fn::pow<8>, x);
    both("constant", fn::constant<double>(x), p);
    both("one", fn::one<double>, p);
    both("zero", fn::zero<double>, p);
    // third and fourth derivatives
    const auto s3 = fn::derivative(fn::derivative(fn::derivative(fn::sin)));
    d1("sin, fourth", s3, x);
    const auto e3 = fn::derivative(fn::derivative(fn::derivative(fn::log)));
    d1("log, fourth", e3, p);
}
SX_HARNESS(scalar_rules)
{
    const double x = sx_real("x", -2, 2), k = sx_real("k", -2, 2), n = nonzero();
    const auto f = scalar_f(); const auto g = scalar_g(); const auto p = positive();
    d1("f", f, x); d1("g", g, x); d1("p", p, x);
    d1("f + g", f + g, x);
    d1("f - g", f - g, x);
    d1("-f", -f, x);
    d1("f * g", f * g, x);
    d1("f / p", f / p, x);
    d1("k + f", k + f, x);
    d1("f + k", f + k, x);
    d1("k - f", k - f, x);
    d1("f - k", f - k, x);
    d1("k * f", k * f, x);
    d1("f * k", f * k, x);
    d1("f / n", f / n, x);
    d1("k / p", k / p, x);
    d1("f(g)", f(g), x);
    d1("g(f)", g(f), x);
    d1("pow", fn::pow<3>(f), x);
    d1("sin", fn::sin(g), x);
    d1("cos", fn::cos(f), x);
    d1("sqrt", fn::sqrt(p), x);
    d1("exp", fn::exp(f), x);
    d1("log", fn::log(p), x);
    d1("atan", fn::atan(g), x);
    d1("tan of atan", fn::tan(fn::atan(g)), x);
    d1("composition of a product", (f * g)(p), x);
    d1("composition of a quotient", (g / p)(f), x);
    d1("composition of a scaling", (k * f)(g), x);
    d1("composition of a shift", (k + f)(g), x);
    d1("composition of compositions", f(g(p)), x);
    d1("function of a constant", f(fn::constant<double>(k)), x);
    d1("constant of a function", fn::constant<double>(k)(f), x);
}
SX_HARNESS(second_derivatives)
{
    const double x = sx_real("x", -2, 2), k = sx_real("k", -2, 2), n = sx_real("n", 0.5, 3);
    const auto f = scalar_f(); const auto g = scalar_g(); const auto p = positive();
    d2("f + g", f + g, x);
    d2("f - g", f - g, x);
    d2("f * g", f * g, x);
    d2("f / p", f / p, x);
    d2("k - f", k - f, x);
    d2("f * k", f * k, x);
    d2("f / n", f / n, x);
    d2("k / p", k / p, x);
    d2("pow", fn::pow<3>(f), x);
    d2("sin", fn::sin(g), x);
    d2("exp", fn::exp(f), x);
    d2("log", fn::log(p), x);
    d2("sqrt", fn::sqrt(p), x);
    d2("composition", fn::cos(f * g), x);
}
SX_HARNESS(combinations)
{
    const double x = sx_real("x", -2, 2), a = coef("ca"), b = coef("cb"), c = coef("cc");
    const auto f = scalar_f(); const auto g = scalar_g(); const auto p = positive();
    both("summation of one", fn::summation(f), x);
    both("summation of two", fn::summation(f, g), x);
    both("summation of three", fn::summation(f, g, p), x);
    d1("linear combination of one", fn::linear_combination(std::array{ a }, g), x);
    d1("linear combination of two", fn::linear_combination(std::array{ a, b }, f, g), x);
    d1("linear combination of three", fn::linear_combination(std::array{ a, b, c }, f, g, p), x);
    d1("composition of a linear combination", fn::linear_combination(std::array{ a, b }, f, g)(p), x);
    d1("composition of a summation", fn::summation(f, g)(p), x);
    d1("product of linear combinations", fn::linear_combination(std::array{ a, b }, f, g) * fn::linear_combination(std::array{ c, a }, g, p), x);
}
SX_HARNESS(partials)
{
    const v2 x = vec2("x");
    const double k = sx_real("k", -2, 2);
    const auto f = vf<v2>(); const auto g = vg<v2>(); const auto s = scalar_g();
    grad2("f", f, x);
    grad2("g", g, x);
    grad2("f + g", f + g, x);
    grad2("f - g", f - g, x);
    grad2("f * g", f * g, x);
    grad2("k * f", k * f, x);
    grad2("k - f", k - f, x);
    grad2("f / k2", g / (fn::pow<2>(f) + 0.5), x);
    grad2("scalar of a field", s(f), x);
    grad2("sin of a field", fn::sin(f), x);
    grad2("power of a field", fn::pow<3>(f), x);
    grad2("summation", fn::summation(f, g), x);
    const double c0 = coef("c0"), c1 = coef("c1"), c2 = coef("c2"), c3 = coef("c3");
    grad2("linear combination of two", fn::linear_combination(std::array{ c0, c1 }, f, g), x);
    grad2("linear combination of three", fn::linear_combination(std::array{ c0, c1, c2 }, f, g, f * g), x);
    grad2("linear combination of four", fn::linear_combination(std::array{ c0, c1, c2, c3 }, f, g, f * g, fn::sin(f)), x);
    grad2("summation of three", fn::summation(f, g, fn::pow<2>(f)), x);
    grad2("summation of four", fn::summation(f, g, f, fn::pow<2>(f)), x);
    grad2("quotient by a constant", f / -1.5, x);
    dIJ<0, 0>("xx", f * g, x); dIJ<0, 1>("xy", f * g, x); dIJ<1, 0>("yx", f * g, x); dIJ<1, 1>("yy", f * g, x);
    // mixed derivatives commute
    sx_deq("xy and yx", fn::derivative<1>(fn::derivative<0>(s(f)))(x), fn::derivative<0>(fn::derivative<1>(s(f)))(x));
    const v3 z = vec3("z");
    const auto h = vf<v3>() * fn::component<v3, 2> + fn::sin(fn::component<v3, 2>) * vg<v3>();
    dI<0>("three variables", h, z); dI<1>("three variables", h, z); dI<2>("three variables", h, z);
    const auto h3 = fn::linear_combination(std::array{ c0, c1, c2 }, h, fn::component<v3, 2>, vg<v3>());
    dI<0>("three variables", h3, z); dI<1>("three variables", h3, z); dI<2>("three variables", h3, z);
    const auto w = vecN<4>("w");
    const auto h4 = vf<tensor::vector_t<4>>() * fn::component<tensor::vector_t<4>, 3> - fn::sin(fn::component<tensor::vector_t<4>, 2>) * vg<tensor::vector_t<4>>();
    dI<0>("four variables", h4, w); dI<1>("four variables", h4, w); dI<2>("four variables", h4, w); dI<3>("four variables", h4, w);
    const m2 A = mat2("A");
    const auto det = fn::component<m2, 0> * fn::component<m2, 3> - fn::component<m2, 1> * fn::component<m2, 2>;
    sx_deq("matrix argument", fn::derivative<0>(det)(A), A[3]);
    sx_deq("matrix argument", fn::derivative<1>(det)(A), -A[2]);
    sx_deq("matrix argument", fn::derivative<2>(det)(A), -A[1]);
    sx_deq("matrix argument", fn::derivative<3>(det)(A), A[0]);
}
SX_HARNESS(partials_of_compositions)
{
    const v2 x = vec2("x");
    const auto f = vf<v2>(); const auto g = vg<v2>();
    const v2 a = vec2("a_"), b = vec2("b_");
    const auto F = f * a + g * b;
    grad2("through vectors", f(F), x);
    grad2("product through vectors", (f * g)(F), x);
    grad2("component of a vector function", fn::component<v2, 1>(F), x);
    grad2("subscript of a vector function", F[0], x);
    grad2("subscript of a vector function", F[1], x);
    grad2("subscript of a composition", F(F)[1], x);
    grad2("inner product of vector functions", F * fn::constant<v2>(a), x);
}
template <int D> static void curves()
{
    const double x = sx_real("x", -2, 2), k = sx_real("k", -2, 2);
    const auto s = scalar_g(); const auto p = positive();
    using V = tensor::vector_t<D>;
    const V a = vecN<D>("va"), b = vecN<D>("vb"), c = vecN<D>("vc"), d = vecN<D>("vd");
    const auto A = matN<D>("A");
    const auto f = fn::pow<2> * a + fn::constant<double>(b);
    const auto g = fn::sin * c + d;
    auto check = [&](const char *label, const auto &h) {
        for (int i = 0; i < D; i++) {
            const double expected = sx_ddx([&](double y) { return h(y)[i]; }, x);
            sx_deq(label, fn::derivative<0>(h)(x)[i], expected);
            sx_deq(label, fn::derivative<0>(h[i])(x), expected);
        }
    };
    check("f", f); check("g", g);
    check("f + g", f + g); check("f - g", f - g); check("-f", -f);
    check("k * f", k * f); check("f * k", f * k);
    check("s * f", s * f); check("f * s", f * s); check("f / p", f / p);
    check("v + f", b + f); check("f - v", f - b);
    check("A * f", A * f); check("f * A", f * A);
    check("v / p", a / p);
    check("composition", f(s));
    check("constant", fn::constant<double>(a));
    d1("f . g", f * g, x);
    d1("v . f", a * f, x);
    // the matrix of derivatives of a curve
    const auto J = fn::derivative(f)(x);
    for (int i = 0; i < D; i++) sx_deq("column", J[{ i, 0 }], 2 * x * a[i]);
    sx_check(std::remove_cvref_t<decltype(J)>::size == D, "one column");
    const auto dd = fn::derivative<0>(fn::derivative<0>(s * f));
    for (int i = 0; i < D; i++)
        sx_deq("second derivative", dd(x)[i], sx_ddx([&](double y) { return fn::derivative<0>(s * f)(y)[i]; }, x));
}
SX_HARNESS(curves) { curves<2>(); }
SX_HARNESS(curves3) { curves<3>(); }
SX_HARNESS(curves4) { curves<4>(); }
SX_HARNESS(jacobians)
{
    const v2 x = vec2("x");
    const auto f = vf<v2>(); const auto g = vg<v2>();
    const v2 a = vec2("a_"), b = vec2("b_");
    const auto F = f * a + g * b;
    const auto J = fn::derivative(F)(x);
    for (int i = 0; i < 2; i++) {
        sx_deq("jacobian", J[{ i, 0 }], sx_ddx([&](double y) { return F(with<0>(x, y))[i]; }, x[0]));
        sx_deq("jacobian", J[{ i, 1 }], sx_ddx([&](double y) { return F(with<1>(x, y))[i]; }, x[1]));
    }
    const auto G = fn::derivative(f * g)(x);
    sx_deq("row of derivatives", G[{ 0, 0 }], sx_ddx([&](double y) { return (f * g)(with<0>(x, y)); }, x[0]));
    sx_deq("row of derivatives", G[{ 0, 1 }], sx_ddx([&](double y) { return (f * g)(with<1>(x, y)); }, x[1]));
    // the chain rule for the jacobians of F and of F after F
    const auto K = fn::derivative(F(F))(x);
    const auto L = fn::derivative(F)(F(x));
    for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++)
        sx_deq("jacobian of a composition", K[{ i, k }], L[{ i, 0 }] * J[{ 0, k }] + L[{ i, 1 }] * J[{ 1, k }]);
    // not square: three components of two variables
    const v3 c = vec3("c_"), d = vec3("d_");
    const auto H = f * c + g * d;
    const auto M = fn::derivative(H)(x);
    for (int i = 0; i < 3; i++) {
        sx_deq("not square", M[{ i, 0 }], sx_ddx([&](double y) { return H(with<0>(x, y))[i]; }, x[0]));
        sx_deq("not square", M[{ i, 1 }], sx_ddx([&](double y) { return H(with<1>(x, y))[i]; }, x[1]));
    }
    // three variables
    const v3 y3 = vec3("y3");
    const auto P = vf<v3>() * c + (fn::component<v3, 2> * vg<v3>()) * d;
    const auto N = fn::derivative(P)(y3);
    for (int i = 0; i < 3; i++) {
        sx_deq("three variables", N[{ i, 0 }], sx_ddx([&](double y) { return P(with<0>(y3, y))[i]; }, y3[0]));
        sx_deq("three variables", N[{ i, 1 }], sx_ddx([&](double y) { return P(with<1>(y3, y))[i]; }, y3[1]));
        sx_deq("three variables", N[{ i, 2 }], sx_ddx([&](double y) { return P(with<2>(y3, y))[i]; }, y3[2]));
    }
    const auto PP = P(P);
    sx_deq("composition of three variables", fn::derivative<2>(PP[1])(y3), sx_ddx([&](double y) { return PP(with<2>(y3, y))[1]; }, y3[2]));
    // constants have no derivative
    const auto Z = fn::derivative(fn::constant<v2>(c))(x);
    for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) sx_deq("constant", Z[{ i, k }], 0.0);
}
template <int D> static void matrix_functions()
{
    const double x = sx_real("x", -1, 1), k = sx_real("k", -2, 2);
    const auto s = scalar_f();
    const auto A = matN<D>("A"), B = matN<D>("B");
    const auto a = vecN<D>("va"), b = vecN<D>("vb");
    const auto F = s * A + B;
    const auto G = fn::pow<3> * B;
    const auto f = fn::pow<2> * a + b;
    auto check = [&](const char *label, const auto &h) {
        const auto dh = fn::derivative<0>(h)(x);
        for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) {
            const double expected = sx_ddx([&](double y) { return h(y)[{ i, j }]; }, x);
            sx_deq(label, dh[{ i, j }], expected);
            sx_deq(label, fn::derivative<0>(h[{ i, j }])(x), expected);
        }
    };
    check("F", F); check("F + G", F + G); check("F - G", F - G); check("k * F", k * F); check("F * s", F * s);
    check("F * G", F * G); check("F * B", F * B); check("B * F", B * F);
    check("transpose", fn::transpose(F)); check("transpose of a product", fn::transpose(F * G));
    check("composition", F(s));
    check("constant", fn::constant<double>(A));
    const auto Ff = F * f;
    for (int i = 0; i < D; i++)
        sx_deq("F * f", fn::derivative<0>(Ff)(x)[i], sx_ddx([&](double y) { return Ff(y)[i]; }, x));
    // all components as a column of derivatives
    const auto J = fn::derivative(F)(x);
    for (int i = 0; i < D * D; i++) sx_deq("column of components", J[{ i, 0 }], sx_ddx([&](double y) { return F(y)[i]; }, x));
}
SX_HARNESS(matrix_functions) { matrix_functions<2>(); }
SX_HARNESS(matrix_functions3) { matrix_functions<3>(); }
SX_HARNESS(nesting)
{
    const double x = sx_real("x", -1.5, 1.5), k = sx_real("k", 0.5, 2), n = sx_real("n", -2, 2);
    const auto f = scalar_f(); const auto p = positive();
    d1("nested expression", (k * fn::sin(f) - f / p) * (n + fn::pow<3>) + (1.0 - f) / k - (-p) * f, x);
    d1("nested expression", (n / p) / p + (f + f + f) - 3.0 * f, x);
    d2("nested expression", (k * fn::sin(fn::pow<2>) - fn::pow<1> / p) * (n + fn::pow<3>), x);
    // cancellations
    const auto one = fn::pow<2>(fn::sin(f)) + fn::pow<2>(fn::cos(f));
    sx_deq("constant expression", fn::derivative(one)(x), 0.0);
    const auto id = fn::exp(fn::log(p)) - p;
    sx_deq("identity expression", fn::derivative(id)(x), 0.0);
    const auto q = (f * p) / p - f;
    sx_deq("quotient rule", fn::derivative(q)(x), 0.0);
}
// arguments and values from tiny to huge
SX_HARNESS(scales)
{
    static const double size[] = { 1e-9, 1e-4, 1e8 };
    const double u = size[sx_concretize(sx_choose("size", 3))], s = size[sx_concretize(sx_choose("size of the value", 3))];
    if (sx_concretize(sx_choose("kind", 2)) == 0) {
        const double t = sx_real("t", 0.5, 3), k = sx_real("k", 0.5, 3), y = u * t;
        sx_eq("pow 1", fn::derivative(fn::pow<1>)(y), 1.0);
        sx_eq("pow 2", fn::derivative(fn::pow<2>)(y) / u, 2 * t);
        sx_eq("pow 3", fn::derivative(fn::pow<3>)(y) / u / u, 3 * t * t);
        sx_eq("second derivative of pow 3", fn::derivative(fn::derivative(fn::pow<3>))(y) / u, 6 * t);
        sx_eq("log", fn::derivative(fn::log)(y) * u, 1 / t);
        const double r = fn::derivative(fn::sqrt)(u * y) * u, c = fn::derivative(fn::cbrt)(u * u * y) * u * u;
        sx_eq("sqrt", r * r * t, 0.25);
        sx_eq("cbrt", c * c * c * t * t, 1.0 / 27);
        sx_eq("a scaled function", fn::derivative((s * k) * fn::pow<2>)(y) / s / u, 2 * k * t);
        sx_eq("a product", fn::derivative(((s * k) * fn::pow<1>) * fn::pow<2>)(y) / s / u / u, 3 * k * t * t);
        sx_eq("a quotient", fn::derivative((k * fn::pow<2>) / (s * fn::pow<1>))(y) * s, k);
        sx_eq("a constant over a function", fn::derivative((s * k) / fn::pow<1>)(y) / s * u * u, -k / t / t);
        sx_eq("a composition", fn::derivative(fn::pow<2>(s * fn::pow<1>))(y) / s / s / u, 2 * t);
        sx_eq("a sum", fn::derivative(s * fn::pow<1> + (s * k) * fn::pow<1>)(y) / s, 1 + k);
        sx_eq("a difference", fn::derivative(s * fn::pow<1> - (s * k) * fn::pow<1>)(y) / s, 1 - k);
        sx_eq("a negation", fn::derivative(-(s * fn::pow<1>))(y) / s, -1.0);
        return;
    }
    const v2 t = vec2("t"), a = vec2("a");
    v2 y;
    for (int i = 0; i < 2; i++) y[i] = u * t[i];
    auto x0 = fn::component<v2, 0>; auto x1 = fn::component<v2, 1>;
    const auto f = (s * a[0]) * x0 * x1 + (s * a[1]) * x0 * x0;
    sx_eq("partial derivative", fn::derivative<0>(f)(y) / s / u, a[0] * t[1] + 2 * a[1] * t[0]);
    sx_eq("partial derivative", fn::derivative<1>(f)(y) / s / u, a[0] * t[0]);
    sx_eq("second partial derivative", fn::derivative<0>(fn::derivative<1>(f))(y) / s, a[0]);
    sx_eq("partial derivative of a composition", fn::derivative<1>(fn::pow<2>(f))(y) / s / s / u / u / u, 2 * (a[0] * t[0] * t[1] + a[1] * t[0] * t[0]) * a[0] * t[0]);
}
