// Function arithmetic is pointwise.
// @run library
// @run scalar_operations
// @run combinations
// @run vector_valued
// @run vector_valued3
// @run vector_valued4
// @run matrix_valued
// @run matrix_valued3
// @run inverses
// @run vector_domain
// @run nesting
// @run scales
#include "functions.h"
SX_HARNESS(library)
{
    const double x = sx_real("x", -3, 3), p = sx_real("p", 0.1, 4), u = sx_real("u", -0.9, 0.9);
    sx_eq("sin", fn::sin(x), std::sin(x));
    sx_eq("cos", fn::cos(x), std::cos(x));
    sx_eq("tan", fn::tan(u), std::tan(u));
    sx_eq("exp", fn::exp(x), std::exp(x));
    sx_eq("log", fn::log(p), std::log(p));
    sx_eq("sqrt", fn::sqrt(p), std::sqrt(p));
    sx_eq("sqrt squared", fn::sqrt(p) * fn::sqrt(p), p);
    const double k = fn::cbrt(x);
    sx_eq("cbrt cubed", k * k * k, x);
    sx_eq("sin of asin", std::sin(fn::asin(u)), u);
    sx_eq("cos of acos", std::cos(fn::acos(u)), u);
    sx_eq("asin", fn::asin(u), std::asin(u));
    sx_eq("acos", fn::acos(u), std::acos(u));
    sx_eq("atan", fn::atan(x), std::atan(x));
    sx_eq("pow 1", fn::pow<1>(x), x);
    sx_eq("pow 2", fn::pow<2>(x), x * x);
    sx_eq("pow 3", fn::pow<3>(x), x * x * x);
    sx_eq("pow 4", fn::pow<4>(x), x * x * x * x);
    sx_eq("pow 7", fn::pow<7>(x), x * x * x * x * x * x * x);
    sx_eq("zero", fn::zero<double>(x), 0.0);
    sx_eq("one", fn::one<double>(x), 1.0);
    sx_eq("constant", fn::constant<double>(p)(x), p);
    sx_eq("constant value", fn::constant<double>(p).constant(), p);
    const v3 v = vec3("v");
    sx_eq("component 0", fn::component<v3, 0>(v), v[0]);
    sx_eq("component 1", fn::component<v3, 1>(v), v[1]);
    sx_eq("component 2", fn::component<v3, 2>(v), v[2]);
    const m2 A = mat2("A");
    sx_eq("matrix component", fn::component<m2, 2>(A), A[2]);
    const auto id = fn::identity<v3, 3>()(v);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_eq("identity", id[{ i, j }], i == j ? 1.0 : 0.0);
    const auto wrapped = fn::function([p](const double &y) { return p * y; });
    sx_eq("function from functor", wrapped(x), p * x);
}
SX_HARNESS(scalar_operations)
{
    const double x = sx_real("x", -3, 3), k = sx_real("k", -2, 2), n = nonzero();
    const auto f = scalar_f(); const auto g = scalar_g(); const auto p = positive();
    const double fx = f(x), gx = g(x), px = p(x);
    sx_eq("f + g", (f + g)(x), fx + gx);
    sx_eq("f - g", (f - g)(x), fx - gx);
    sx_eq("-f", (-f)(x), -fx);
    sx_eq("f * g", (f * g)(x), fx * gx);
    sx_eq("f / p", (f / p)(x), fx / px);
    sx_eq("k + f", (k + f)(x), k + fx);
    sx_eq("f + k", (f + k)(x), fx + k);
    sx_eq("k - f", (k - f)(x), k - fx);
    sx_eq("f - k", (f - k)(x), fx - k);
    sx_eq("k * f", (k * f)(x), k * fx);
    sx_eq("f * k", (f * k)(x), fx * k);
    sx_eq("f / n", (f / n)(x), fx / n);
    sx_eq("k / p", (k / p)(x), k / px);
    sx_eq("composition", f(g)(x), f(gx));
    sx_eq("composition the other way", g(f)(x), g(fx));
    sx_eq("power of a function", fn::pow<3>(f)(x), fx * fx * fx);
    sx_eq("library function of a function", fn::sin(g)(x), std::sin(gx));
    sx_eq("root of a function", fn::sqrt(p)(x), std::sqrt(px));
    sx_eq("exponential of a function", fn::exp(f)(x), std::exp(fx));
    sx_eq("composition of a product", (f * g)(p)(x), f(px) * g(px));
    sx_eq("composition of a sum", (f + g)(p)(x), f(px) + g(px));
    sx_eq("composition of a quotient", (g / p)(f)(x), g(fx) / p(fx));
    sx_eq("composition of a scaling", (k * f)(g)(x), k * f(gx));
    sx_eq("composition of a scaling", (f * k)(g)(x), k * f(gx));
    sx_eq("composition of a shift", (k + f)(g)(x), k + f(gx));
    sx_eq("composition of compositions", f(g(p))(x), f(g(px)));
    sx_eq("composition with a constant", fn::constant<double>(k)(f)(x), k);
}
SX_HARNESS(combinations)
{
    const double x = sx_real("x", -3, 3), a = coef("ca"), b = coef("cb"), c = coef("cc");
    const auto f = scalar_f(); const auto g = scalar_g(); const auto p = positive();
    sx_eq("summation of one", fn::summation(f)(x), f(x));
    sx_eq("summation of two", fn::summation(f, g)(x), f(x) + g(x));
    sx_eq("summation of three", fn::summation(f, g, p)(x), f(x) + g(x) + p(x));
    sx_eq("linear combination of one", fn::linear_combination(std::array{ a }, g)(x), a * g(x));
    sx_eq("linear combination of two", fn::linear_combination(std::array{ a, b }, f, g)(x), a * f(x) + b * g(x));
    sx_eq("linear combination of three", fn::linear_combination(std::array{ a, b, c }, f, g, p)(x), a * f(x) + b * g(x) + c * p(x));
    sx_eq("linear combination of four", fn::linear_combination(std::array{ a, b, c, a * b }, f, g, p, f * g)(x), a * f(x) + b * g(x) + c * p(x) + a * b * f(x) * g(x));
    sx_eq("linear combination of one function twice", fn::linear_combination(std::array{ a, b, c }, f, g, f)(x), (a + c) * f(x) + b * g(x));
    sx_eq("summation of five", fn::summation(f, g, p, f, g)(x), 2 * f(x) + 2 * g(x) + p(x));
    const auto lc = fn::linear_combination(std::array{ a, b }, f, g);
    sx_eq("composition of a linear combination", lc(p)(x), a * f(p(x)) + b * g(p(x)));
    sx_eq("composition of a summation", fn::summation(f, g)(p)(x), f(p(x)) + g(p(x)));
    // vector coefficients
    const v2 u = vec2("u"), v = vec2("v");
    const auto vc = fn::linear_combination(std::array{ u, v }, f, g)(x);
    for (int i = 0; i < 2; i++) sx_eq("linear combination of vectors", vc[i], u[i] * f(x) + v[i] * g(x));
}
template <int D> static void vector_valued()
{
    const double x = sx_real("x", -3, 3), k = sx_real("k", -2, 2), n = nonzero();
    const auto s = scalar_f(); const auto p = positive();
    using V = tensor::vector_t<D>;
    const V a = vecN<D>("va"), b = vecN<D>("vb"), c = vecN<D>("vc"), d = vecN<D>("vd");
    const auto A = matN<D>("A");
    const auto f = fn::pow<2> * a + fn::constant<double>(b);
    const auto g = s * c + d;
    const V fx = f(x), gx = g(x);
    const double sx = s(x), px = p(x);
    const auto sum = (f + g)(x), dif = (f - g)(x), neg = (-f)(x), kf = (k * f)(x), fk = (f * k)(x), fn_ = (f / n)(x), fp = (f / p)(x), sf = (s * f)(x), fs = (f * s)(x), bf = (b + f)(x), fb = (f + b)(x), mb = (b - f)(x), fm = (f - b)(x), Af = (A * f)(x), fA = (f * A)(x), ap = (a / p)(x), fc = f(s)(x);
    for (int i = 0; i < D; i++) {
        sx_eq("value", fx[i], x * x * a[i] + b[i]);
        sx_eq("value", gx[i], sx * c[i] + d[i]);
        sx_eq("f + g", sum[i], fx[i] + gx[i]);
        sx_eq("f - g", dif[i], fx[i] - gx[i]);
        sx_eq("-f", neg[i], -fx[i]);
        sx_eq("k * f", kf[i], k * fx[i]);
        sx_eq("f * k", fk[i], k * fx[i]);
        sx_eq("f / n", fn_[i], fx[i] / n);
        sx_eq("f / p", fp[i], fx[i] / px);
        sx_eq("s * f", sf[i], sx * fx[i]);
        sx_eq("f * s", fs[i], sx * fx[i]);
        sx_eq("v + f", bf[i], b[i] + fx[i]);
        sx_eq("f + v", fb[i], b[i] + fx[i]);
        sx_eq("v - f", mb[i], b[i] - fx[i]);
        sx_eq("f - v", fm[i], fx[i] - b[i]);
        double right = 0, left = 0;
        for (int j = 0; j < D; j++) { right += A[{ i, j }] * fx[j]; left += fx[j] * A[{ j, i }]; }
        sx_eq("A * f", Af[i], right);
        sx_eq("f * A", fA[i], left);
        sx_eq("v / p", ap[i], a[i] / px);
        sx_eq("composition", fc[i], sx * sx * a[i] + b[i]);
        sx_eq("subscript", f[i](x), fx[i]);
        sx_eq("subscript of a sum", (f + g)[i](x), fx[i] + gx[i]);
        sx_eq("subscript of a scaling", (k * f)[i](x), k * fx[i]);
        sx_eq("subscript of a composition", f(s)[i](x), fc[i]);
        sx_eq("composition of a subscript", f[i](s)(x), fc[i]);
        sx_eq("subscript of a constant", fn::constant<double>(a)[i](x), a[i]);
    }
    double fg = 0, af = 0;
    for (int i = 0; i < D; i++) { fg += fx[i] * gx[i]; af += a[i] * fx[i]; }
    sx_eq("f . g", (f * g)(x), fg);
    sx_eq("v . f", (a * f)(x), af);
    sx_eq("f . v", (f * a)(x), af);
    const auto dy = fn::dyadic(f, g)(x);
    for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) sx_eq("dyadic", dy[{ i, j }], fx[i] * gx[j]);
}
SX_HARNESS(vector_valued) { vector_valued<2>(); }
SX_HARNESS(vector_valued3) { vector_valued<3>(); }
SX_HARNESS(vector_valued4) { vector_valued<4>(); }
template <int D> static void matrix_valued()
{
    const double x = sx_real("x", -1, 1), k = sx_real("k", -2, 2);
    const auto s = scalar_f();
    using M = tensor::matrix_t<D>;
    using V = tensor::vector_t<D>;
    const M A = matN<D>("A"), B = matN<D>("B");
    const V a = vecN<D>("va"), b = vecN<D>("vb");
    const auto F = s * A + B;
    const auto G = fn::pow<1> * B;
    const auto f = fn::pow<2> * a + b;
    const M Fx = F(x), Gx = G(x);
    const V fx = f(x);
    const auto sum = (F + G)(x), dif = (F - G)(x), prod = (F * G)(x), kF = (k * F)(x), FB = (F * B)(x), BF = (B * F)(x), tr = fn::transpose(F)(x);
    const auto Ff = (F * f)(x), Fa = (F * a)(x);
    for (int i = 0; i < D; i++) {
        for (int j = 0; j < D; j++) {
            const double fij = Fx[{ i, j }];
            sx_eq("value", fij, s(x) * A[{ i, j }] + B[{ i, j }]);
            sx_eq("F + G", sum[{ i, j }], fij + Gx[{ i, j }]);
            sx_eq("F - G", dif[{ i, j }], fij - Gx[{ i, j }]);
            sx_eq("k * F", kF[{ i, j }], k * fij);
            double fg = 0, fb = 0, bf = 0;
            for (int k = 0; k < D; k++) { fg += Fx[{ i, k }] * Gx[{ k, j }]; fb += Fx[{ i, k }] * B[{ k, j }]; bf += B[{ i, k }] * Fx[{ k, j }]; }
            sx_eq("F * G", prod[{ i, j }], fg);
            sx_eq("F * B", FB[{ i, j }], fb);
            sx_eq("B * F", BF[{ i, j }], bf);
            sx_eq("transpose", tr[{ j, i }], fij);
            sx_eq("subscript", F[{ i, j }](x), fij);
            sx_eq("subscript of a transpose", fn::transpose(F)[{ j, i }](x), fij);
        }
        double ff = 0, fa = 0;
        for (int k = 0; k < D; k++) { ff += Fx[{ i, k }] * fx[k]; fa += Fx[{ i, k }] * a[k]; }
        sx_eq("F * f", Ff[i], ff);
        sx_eq("F * v", Fa[i], fa);
    }
    double det = Fx[{ 0, 0 }] * Fx[{ 1, 1 }] - Fx[{ 0, 1 }] * Fx[{ 1, 0 }];
    if constexpr (D == 3) {
        auto minor = [&](int i, int j) { return Fx[{ (i + 1) % 3, (j + 1) % 3 }] * Fx[{ (i + 2) % 3, (j + 2) % 3 }] - Fx[{ (i + 1) % 3, (j + 2) % 3 }] * Fx[{ (i + 2) % 3, (j + 1) % 3 }]; };
        det = Fx[{ 0, 0 }] * minor(0, 0) + Fx[{ 0, 1 }] * minor(0, 1) + Fx[{ 0, 2 }] * minor(0, 2);
    }
    sx_eq("determinant", fn::determinant(F)(x), det);
    sx_eq("determinant in composition", fn::determinant(F)(s)(x), fn::determinant(F)(s(x)));
}
SX_HARNESS(matrix_valued) { matrix_valued<2>(); }
SX_HARNESS(matrix_valued3) { matrix_valued<3>(); }
SX_HARNESS(inverses)
{
    const double x = sx_real("x", -1, 1);
    // an invertible matrix function
    m2 D = mat2("D");
    D[0] = sx_real("D0", 3, 5); D[3] = sx_real("D3", 3, 5);
    const auto H = fn::constant<double>(D) + fn::pow<2> * tensor::identity<2>;
    const auto Hx = H(x);
    const auto I = fn::inverse(H)(x);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx_eq("inverse", I[{ i, 0 }] * Hx[{ 0, j }] + I[{ i, 1 }] * Hx[{ 1, j }], i == j ? 1.0 : 0.0);
    // three by three: diagonally dominant
    auto E = matN<3>("E");
    for (int i = 0; i < 3; i++) E[{ i, i }] = sx_real("Ed", 5, 7);
    const auto K = fn::constant<double>(E) + fn::pow<2> * tensor::identity<3>;
    const auto Kx = K(x);
    const auto J = fn::inverse(K)(x);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_eq("inverse", J[{ i, 0 }] * Kx[{ 0, j }] + J[{ i, 1 }] * Kx[{ 1, j }] + J[{ i, 2 }] * Kx[{ 2, j }], i == j ? 1.0 : 0.0);
}
SX_HARNESS(vector_domain)
{
    const v2 x = vec2("x");
    const double k = sx_real("k", -2, 2);
    const auto f = vf<v2>(); const auto g = vg<v2>(); const auto s = scalar_g();
    const double fx = f(x), gx = g(x);
    sx_eq("f + g", (f + g)(x), fx + gx);
    sx_eq("f - g", (f - g)(x), fx - gx);
    sx_eq("f * g", (f * g)(x), fx * gx);
    sx_eq("k * f - g", (k * f - g)(x), k * fx - gx);
    sx_eq("scalar of a field", s(f)(x), s(fx));
    sx_eq("sin of a field", fn::sin(g)(x), std::sin(gx));
    const auto p = fn::pow<2>(f) + 0.5;
    sx_eq("quotient", (g / p)(x), gx / (fx * fx + 0.5));
    const v2 a = vec2("a_"), b = vec2("b_");
    const auto F = f * a + g * b;    // vector to vector
    const v2 y = F(x);
    for (int i = 0; i < 2; i++) sx_eq("vector valued", y[i], fx * a[i] + gx * b[i]);
    sx_eq("composition through vectors", f(F)(x), f(y));
    sx_eq("composition through vectors", (f * g)(F)(x), f(y) * g(y));
    sx_eq("component of a composition", fn::component<v2, 1>(F)(x), y[1]);
    const auto FF = F(F)(x);
    const v2 z = F(y);
    for (int i = 0; i < 2; i++) sx_eq("vector composition", FF[i], z[i]);
    sx_eq("inner product of fields", (F * fn::constant<v2>(a))(x), y[0] * a[0] + y[1] * a[1]);
    const m2 A = mat2("A");
    const auto tr = fn::component<m2, 0> + fn::component<m2, 3>;
    sx_eq("matrix argument", tr(A), A[0] + A[3]);
    sx_eq("matrix argument of a composition", fn::pow<2>(tr)(A), (A[0] + A[3]) * (A[0] + A[3]));
}
SX_HARNESS(nesting)
{
    const double x = sx_real("x", -2, 2), k = sx_real("k", 0.5, 2), n = sx_real("n", -2, 2);
    const auto f = scalar_f(); const auto p = positive();
    const auto h = (k * fn::sin(f) - f / p) * (n + fn::pow<3>) + (1.0 - f) / k - (-p) * f;
    const double fx = f(x), px = p(x);
    sx_eq("nested expression", h(x), (k * std::sin(fx) - fx / px) * (n + x * x * x) + (1.0 - fx) / k + px * fx);
    const auto q = (n / p) / p + (f + f + f) - 3.0 * f;
    sx_eq("nested expression", q(x), n / (px * px));
    // copies and temporaries keep their operands
    auto make = [&] { auto local = f * p; return local + fn::cos(local); };
    const auto kept = make();
    sx_eq("expression made of temporaries", kept(x), fx * px + std::cos(fx * px));
    const auto copy = kept;
    sx_eq("copied expression", copy(x), kept(x));
}
// from tiny to huge numbers
SX_HARNESS(scales)
{
    static const double size[] = { 1e-13, 1e-6, 1e12 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    const double x = sx_real("x", 1, 3), a = sx_real("a", 0.5, 2), s = sx_choose("sign", 2) ? -u * a : u * a, t = s / u;
    const auto f = fn::pow<2>;
    const auto small = s * fn::pow<1>;    // takes values of size u
    sx_eq("times a constant", (s * f)(x) / u, t * x * x);
    sx_eq("divided by a constant", (f / s)(x) * u, x * x / t);
    sx_eq("a constant divided", (s / f)(x) / u, t / (x * x));
    sx_eq("divided by a function", (f / small)(x) * u, x / t);
    sx_eq("a constant divided by a function", (1.0 / small)(x) * u, 1 / (t * x));
    sx_eq("sum", (small + small)(x) / u, 2 * t * x);
    sx_eq("sum with a constant", (small + s)(x) / u, t * x + t);
    sx_eq("difference", (s - small)(x) / u, t - t * x);
    sx_eq("negative", (-small)(x) / u, -t * x);
    sx_eq("product", (small * small)(x) / u / u, t * t * x * x);
    sx_eq("composition", f(small)(x) / u / u, t * t * x * x);
    sx_eq("constant", fn::constant<double>(s)(x) / u, t);
    const v3 v = vec3("v");
    const auto g = fn::constant<double>(v3(u * v)) * fn::pow<1>;
    for (int i = 0; i < 3; i++) sx_eq("vector valued", g(x)[i] / u, v[i] * x);
}
