// Field arithmetic, gradients and divergences are pointwise and exact.
// @run scalar_fields
// @run vector_fields
// @run tensor_fields
// @run not_square
// @run calculus_identities
// @run one_forms
// @run scales
#include "functions.h"
#include <mito/fields.h>
#include <mito/geometry.h>
using c2 = geometry::coordinates_t<2, geometry::CARTESIAN>;
using c3 = geometry::coordinates_t<3, geometry::CARTESIAN>;
using polar_t = geometry::polar_coordinates_t;
using sph_t = geometry::spherical_coordinates_t;
template <class X, class A> static X at(const A &a) { if constexpr (X::dim == 2) return X({ a[0], a[1] }); else return X({ a[0], a[1], a[2] }); }
static std::array<double, 3> point() { return { sx_real("x0", 0.2, 3), sx_real("x1", -2, 2), sx_real("x2", -2, 2) }; }
template <class A> static A moved(A a, int i, double y) { a[i] = y; return a; }
// partial derivative of an evaluation with respect to coordinate k
template <class X, class F, class A> static double partial(const F &f, const A &a, int k) { return sx_ddx([&](double y) { return f(at<X>(moved(a, k, y))); }, a[k]); }

template <class X> static auto field_a() { auto x = fn::component<X, 0>; auto y = fn::component<X, 1>; return coef("a") * x * y + coef("b") * fn::sin(y) + coef("c") * fn::pow<2>(x); }
template <class X> static auto field_b() { auto x = fn::component<X, 0>; auto y = fn::component<X, X::dim - 1>; return coef("d") * fn::cos(x * y) + coef("e") * y; }
template <class X> static auto field_p() { auto x = fn::component<X, 0>; return sx_real("p", 0.5, 2) * fn::pow<2>(x) + sx_real("q", 0.5, 2); }

template <class X> static void scalars()
{
    constexpr int D = X::dim;
    const auto a = point();
    const X x = at<X>(a);
    const double k = sx_real("k", -2, 2);
    const auto f = field_a<X>(); const auto g = field_b<X>(); const auto p = field_p<X>();
    sx_eq("field", f(x), f(x));
    const double fx = f(x), gx = g(x), px = p(x);
    sx_eq("f + g", (f + g)(x), fx + gx);
    sx_eq("f - g", (f - g)(x), fx - gx);
    sx_eq("f * g", (f * g)(x), fx * gx);
    sx_eq("f / p", (f / p)(x), fx / px);
    sx_eq("k * f", (k * f)(x), k * fx);
    sx_eq("k - f", (k - f)(x), k - fx);
    sx_eq("f + k", (f + k)(x), fx + k);
    sx_eq("root of a field", fn::sqrt(p)(x), std::sqrt(px));
    sx_eq("coordinate", fn::component<X, 0>(x), a[0]);
    sx_eq("coordinate", fn::component<X, D - 1>(x), a[D - 1]);
    auto check = [&](const char *label, const auto &h) {
        const auto G = fields::gradient(h)(x);
        for (int i = 0; i < D; i++) sx_deq(label, G[i], partial<X>(h, a, i));
    };
    check("gradient", f); check("gradient", g); check("gradient of a sum", f + g); check("gradient of a product", f * g); check("gradient of a quotient", f / p); check("gradient of a composition", fn::sin(f)); check("gradient of a root", fn::sqrt(p)); check("gradient of a constant", fn::constant<X>(k));
    // the directional derivative
    tensor::vector_t<D> v; for (int i = 0; i < D; i++) v[i] = sx_real("v", -2, 2);
    const auto h = f * g;
    const double t = sx_real("t", -0.5, 0.5);
    auto along = [&](double s) { auto b = a; for (int i = 0; i < D; i++) b[i] = a[i] + s * v[i]; return at<X>(b); };
    sx_deq("directional derivative", fields::gradient(h)(along(t)) * v, sx_ddx([&](double s) { return h(along(s)); }, t));
}
template <class X> static void vectors()
{
    constexpr int D = X::dim;
    using V = tensor::vector_t<D>;
    const auto a = point();
    const X x = at<X>(a);
    const double k = sx_real("k", -2, 2);
    V u, w; for (int i = 0; i < D; i++) { u[i] = sx_real("u", -2, 2); w[i] = sx_real("w", -2, 2); }
    const auto f = field_a<X>(); const auto g = field_b<X>();
    const auto F = f * u + g * w; const auto G = g * u;
    const V Fx = F(x), Gx = G(x);
    const auto sum = (F + G)(x), dif = (F - G)(x), kF = (k * F)(x), fF = (f * F)(x), Ff = (F * f)(x), Fu = (F + u)(x);
    for (int i = 0; i < D; i++) {
        sx_eq("value", Fx[i], f(x) * u[i] + g(x) * w[i]);
        sx_eq("F + G", sum[i], Fx[i] + Gx[i]);
        sx_eq("F - G", dif[i], Fx[i] - Gx[i]);
        sx_eq("k * F", kF[i], k * Fx[i]);
        sx_eq("f * F", fF[i], f(x) * Fx[i]);
        sx_eq("F * f", Ff[i], f(x) * Fx[i]);
        sx_eq("F + u", Fu[i], Fx[i] + u[i]);
        sx_eq("component of a field", F[i](x), Fx[i]);
    }
    double d = 0; for (int i = 0; i < D; i++) d += Fx[i] * Gx[i];
    sx_eq("F . G", (F * G)(x), d);
    auto check = [&](const char *label, const auto &H) {
        const auto M = fields::gradient(H)(x);
        double trace = 0;
        for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) {
            const double e = partial<X>([&](const X &z) { return H(z)[i]; }, a, j);
            sx_deq(label, M[{ i, j }], e);
            if (i == j) trace += e;
        }
        sx_deq("divergence", fields::divergence(H)(x), trace);
    };
    check("gradient", F); check("gradient of a sum", F + G); check("gradient of a scaling", k * F - G); check("gradient of a product", f * F);
    check("gradient of a gradient", fields::gradient(f));
}
template <class X> static void tensors()
{
    constexpr int D = X::dim;
    using M = tensor::matrix_t<D>; using V = tensor::vector_t<D>;
    const auto a = point();
    const X x = at<X>(a);
    M A, B; for (int i = 0; i < D * D; i++) { A[i] = sx_real("A", -2, 2); B[i] = sx_real("B", -2, 2); }
    V u; for (int i = 0; i < D; i++) u[i] = sx_real("u", -2, 2);
    const auto f = field_a<X>(); const auto g = field_b<X>();
    const auto F = f * A + g * B; const auto G = g * A;
    const M Fx = F(x), Gx = G(x);
    const auto sum = (F + G)(x), prod = (F * G)(x), t = fn::transpose(F)(x);
    const V Fu = (F * (f * u))(x);
    for (int i = 0; i < D; i++) {
        double s = 0;
        for (int j = 0; j < D; j++) {
            double p = 0; for (int k = 0; k < D; k++) p += Fx[{ i, k }] * Gx[{ k, j }];
            sx_eq("value", Fx[{ i, j }], f(x) * A[{ i, j }] + g(x) * B[{ i, j }]);
            sx_eq("F + G", sum[{ i, j }], Fx[{ i, j }] + Gx[{ i, j }]);
            sx_eq("F G", prod[{ i, j }], p);
            sx_eq("transpose", t[{ j, i }], Fx[{ i, j }]);
            s += Fx[{ i, j }] * u[j];
        }
        sx_eq("F f u", Fu[i], s * f(x));
    }
    const auto d = fields::divergence(F)(x);
    for (int i = 0; i < D; i++) {
        double e = 0; for (int j = 0; j < D; j++) e += partial<X>([&](const X &z) { return F(z)[{ i, j }]; }, a, j);
        sx_deq("divergence of a tensor field", d[i], e);
    }
    const auto dt = fields::divergence(fn::transpose(F))(x);
    for (int i = 0; i < D; i++) {
        double e = 0; for (int j = 0; j < D; j++) e += partial<X>([&](const X &z) { return F(z)[{ j, i }]; }, a, j);
        sx_deq("divergence of a transposed tensor field", dt[i], e);
    }
}
SX_HARNESS(scalar_fields) { switch (sx_choose("coordinates", 4)) { case 0: scalars<c2>(); break; case 1: scalars<c3>(); break; case 2: scalars<polar_t>(); break; default: scalars<sph_t>(); } }
SX_HARNESS(vector_fields) { switch (sx_choose("coordinates", 3)) { case 0: vectors<c2>(); break; case 1: vectors<c3>(); break; default: vectors<polar_t>(); } }
SX_HARNESS(tensor_fields) { switch (sx_choose("coordinates", 3)) { case 0: tensors<c2>(); break; case 1: tensors<c3>(); break; default: tensors<polar_t>(); } }
// fields with fewer or more components than coordinates
SX_HARNESS(not_square)
{
    const auto a = point();
    const c3 x = at<c3>(a); const c2 y = at<c2>(a);
    const v2 u = vec2("u"), w = vec2("w");
    const v3 r = vec3("r"), s = vec3("s");
    const auto F = field_a<c3>() * u + field_b<c3>() * w;
    const auto G = field_a<c2>() * r + field_b<c2>() * s;
    const auto MF = fields::gradient(F)(x);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) sx_deq("two components in space", MF[{ i, j }], partial<c3>([&](const c3 &z) { return F(z)[i]; }, a, j));
    const auto MG = fields::gradient(G)(y);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) sx_deq("three components in the plane", MG[{ i, j }], partial<c2>([&](const c2 &z) { return G(z)[i]; }, a, j));
}
template <class X> static void identities()
{
    constexpr int D = X::dim;
    using V = tensor::vector_t<D>;
    const auto a = point();
    const X x = at<X>(a);
    V u, w; for (int i = 0; i < D; i++) { u[i] = sx_real("u", -2, 2); w[i] = sx_real("w", -2, 2); }
    const auto f = field_a<X>(); const auto g = field_b<X>();
    const auto F = f * u + g * w;
    // second derivatives commute
    const auto H = fields::gradient(fields::gradient(f * g))(x);
    for (int i = 0; i < D; i++) for (int j = 0; j < i; j++) sx_deq("the hessian is symmetric", H[{ i, j }], H[{ j, i }]);
    const auto p = fields::divergence(fn::transpose(fields::gradient(F)))(x), q = fields::gradient(fields::divergence(F))(x);
    for (int i = 0; i < D; i++) sx_deq("divergence of the transposed gradient", p[i], q[i]);
    // product rules
    const auto gf = fields::gradient(f)(x), gg = fields::gradient(g)(x);
    const double lap_f = fields::divergence(fields::gradient(f))(x), lap_g = fields::divergence(fields::gradient(g))(x);
    sx_deq("laplacian of a product", fields::divergence(fields::gradient(f * g))(x), lap_f * g(x) + f(x) * lap_g + 2 * (gf * gg));
    sx_deq("divergence of a scaled field", fields::divergence(g * F)(x), gg * F(x) + g(x) * fields::divergence(F)(x));
}
SX_HARNESS(calculus_identities) { if (sx_choose("space", 2)) identities<c3>(); else identities<c2>(); }
SX_HARNESS(one_forms)
{
    const auto a = point();
    const c3 x = at<c3>(a);
    const v3 r = vec3("r"), s = vec3("s"), t = vec3("t"), v = vec3("v_"), w = vec3("w_"), z = vec3("z_");
    const auto f = field_a<c3>();
    auto form = [&](const auto &g, const v3 &c) { return fn::function([g, c](const c3 &y) { return tensor::one_form(c) * g(y); }); };
    auto dot = [](const v3 &p, const v3 &q) { return p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; };
    const auto fb = field_b<c3>(); const auto fp = field_p<c3>();
    const auto A = form(f, r); const auto B = form(fb, s); const auto C = form(fp, t);
    const double fx = f(x);
    const double av = fx * dot(r, v), aw = fx * dot(r, w), az = fx * dot(r, z), bv = B(x)(v), bw = B(x)(w), bz = B(x)(z), cv = C(x)(v), cw = C(x)(w), cz = C(x)(z);
    sx_eq("one-form field", A(x)(v), av);
    sx_eq("tensor product", fields::tensor(A, B)(x)(v, w), av * bw);
    sx_eq("tensor product of three", fields::tensor(A, B, C)(x)(v, w, z), av * bw * cz);
    sx_eq("wedge of one", fields::wedge(A)(x)(v), av);
    sx_eq("wedge of two", fields::wedge(A, B)(x)(v, w), av * bw - aw * bv);
    sx_eq("wedge of three", fields::wedge(A, B, C)(x)(v, w, z), av * (bw * cz - bz * cw) - aw * (bv * cz - bz * cv) + az * (bv * cw - bw * cv));
    sx_eq("sum of one-form fields", (A + B)(x)(v), av + bv);
    sx_eq("scalar field times one-form field", (f * A)(x)(v), fx * av);
}
// points and fields from tiny to huge
SX_HARNESS(scales)
{
    static const double size[] = { 1e-9, 1e-4, 1e8 };
    const double u = size[sx_concretize(sx_choose("size", 3))], s = size[sx_concretize(sx_choose("size of the field", 3))];
    double t[2], a[2], b[2];
    for (int i = 0; i < 2; i++) { t[i] = sx_real("t", -2, 2); a[i] = sx_real("a", -2, 2); b[i] = sx_real("b", -2, 2); }
    const c2 y({ u * t[0], u * t[1] });
    const auto x0 = fn::component<c2, 0>; const auto x1 = fn::component<c2, 1>;
    const auto f = (s * a[0]) * x0 * x1 + (s * a[1]) * x1 * x1;
    const double f0 = a[0] * t[0] * t[1] + a[1] * t[1] * t[1], fx = a[0] * t[1], fy = a[0] * t[0] + 2 * a[1] * t[1];
    sx_eq("field", f(y) / s / u / u, f0);
    const auto g = fields::gradient(f)(y);
    sx_eq("gradient", g[0] / s / u, fx);
    sx_eq("gradient", g[1] / s / u, fy);
    tensor::vector_t<2> v; for (int i = 0; i < 2; i++) v[i] = b[i];
    const auto F = f * v;
    sx_eq("component", F(y)[0] / s / u / u, f0 * b[0]);
    sx_eq("component", F(y)[1] / s / u / u, f0 * b[1]);
    sx_eq("inner product", (F * F)(y) / s / s / u / u / u / u, f0 * f0 * (b[0] * b[0] + b[1] * b[1]));
    sx_eq("divergence", fields::divergence(F)(y) / s / u, fx * b[0] + fy * b[1]);
    const auto G = fields::gradient(F)(y);
    for (int i = 0; i < 2; i++) { sx_eq("gradient of a vector field", G[{ i, 0 }] / s / u, b[i] * fx); sx_eq("gradient of a vector field", G[{ i, 1 }] / s / u, b[i] * fy); }
    sx_eq("divergence of the gradient", fields::divergence(fields::gradient(f))(y) / s, 2 * a[1]);
    tensor::matrix_t<2> A; for (int i = 0; i < 4; i++) A[i] = sx_real("A", -2, 2);
    const auto d = fields::divergence(f * A)(y);
    for (int i = 0; i < 2; i++) sx_eq("divergence of a tensor field", d[i] / s / u, A[{ i, 0 }] * fx + A[{ i, 1 }] * fy);
}
