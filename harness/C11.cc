// Forms are multilinear and obey vector-space arithmetic.
// @run one_forms
// @run metrics
// @run linearity
// @run arithmetic
// @run arithmetic2
// @run partial2
// @run partial3
// @run generic
// @run basis
// @run scales
#include "forms.h"

template <int D> static void one_form_values()
{
    const auto a = vec<D>("a"), v = vec<D>("v"), w = vec<D>("w");
    auto f = tensor::one_form(a);
    sx_eq("one-form is the inner product", f(v), dot<D>(a, v));
    double s = sx_real("s", -3, 3);
    sx_eq("linear in the argument", f(s * v + w), s * f(v) + f(w));
    const auto aw = s * a + w;
    auto g = tensor::one_form(aw);
    sx_eq("linear in the vector it is built from", g(v), s * f(v) + tensor::one_form(w)(v));
    sx_eq("contracting with a placeholder changes nothing", f(_)(v), f(v));
}
SX_HARNESS(one_forms) { one_form_values<2>(); one_form_values<3>(); }
template <int D> static void metric_values()
{
    const auto a = vec<D>("a"), v = vec<D>("v");
    tensor::symmetric_matrix_t<D> g;
    tensor::diagonal_matrix_t<D> d;
    double G[D][D];
    for (int i = 0; i < D; i++)
        for (int j = i; j < D; j++) G[i][j] = G[j][i] = g[{ i, j }] = sx_real("g", -2, 2);
    double e = 0, ed = 0;
    for (int i = 0; i < D; i++) d[{ i, i }] = G[i][i];
    for (int i = 0; i < D; i++) {
        ed += a[i] * G[i][i] * v[i];
        for (int j = 0; j < D; j++) e += a[i] * G[i][j] * v[j];
    }
    auto f = tensor::one_form(a, g);
    sx_eq("product with a symmetric metric", f(v), e);
    sx_eq("symmetric metrics are symmetric", f(v), tensor::one_form(v, g)(a));
    sx_eq("product with a diagonal metric", tensor::one_form(a, d)(v), ed);
    const auto w = vec<D>("w");
    double s = sx_real("s", -3, 3);
    sx_eq("linear in the argument", f(v + s * w), f(v) + s * f(w));
}
SX_HARNESS(metrics) { metric_values<2>(); metric_values<3>(); }

template <int D> static void arithmetic1()
{
    const auto a = vec<D>("a"), b = vec<D>("b"), v = vec<D>("v"), w = vec<D>("w");
    double s = sx_real("s", -3, 3), t = sx_real("t", -3, 3);
    auto f = tensor::one_form(a), g = tensor::one_form(b);
    double F = dot<D>(a, v), G = dot<D>(b, v), F2 = dot<D>(a, w), G2 = dot<D>(b, w);
    sx_eq("sum", (f + g)(v), F + G);
    sx_eq("difference", (f - g)(v), F - G);
    sx_eq("negation", (-f)(v), -F);
    sx_eq("scaling from the left", (s * f)(v), s * F);
    sx_eq("scaling from the right", (f * s)(v), s * F);
    sx_eq("combination", (s * f - t * g + f)(v), s * F - t * G + F);
    sx_eq("nested", (s * (f + t * (g - f)))(v), s * (F + t * (G - F)));
    sx_eq("product of one-forms", (f * g)(v, w), F * G2);
    auto h = s * f + g * t;
    sx_eq("combinations stay linear", h(v + s * w), h(v) + s * h(w));
    sx_eq("operands are unchanged", f(v) + g(w), F + G2);
    (void)F2;
}
SX_HARNESS(arithmetic) { arithmetic1<2>(); arithmetic1<3>(); }
SX_HARNESS(arithmetic2)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z");
    double s = sx_real("s", -3, 3);
    auto f = tensor::tensor(tensor::one_form(a), tensor::one_form(b));
    auto g = tensor::wedge(tensor::one_form(b), tensor::one_form(c));
    sx_eq("sum of two-forms", (f + g)(x, y), f(x, y) + g(x, y));
    sx_eq("difference of two-forms", (f - g)(x, y), f(x, y) - g(x, y));
    sx_eq("negated two-form", (-f)(x, y), -f(x, y));
    sx_eq("scaled two-form", (s * f + g * s)(x, y), s * f(x, y) + s * g(x, y));
    auto h = tensor::tensor(tensor::one_form(a), tensor::one_form(b), tensor::one_form(c));
    auto k = tensor::wedge(tensor::one_form(a), tensor::one_form(b), tensor::one_form(c));
    sx_eq("combination of three-forms", (h - s * k + (-h) * s)(x, y, z), h(x, y, z) - s * k(x, y, z) - s * h(x, y, z));
}
// every p-form is linear in each of its arguments
SX_HARNESS(linearity)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z"), u = vec<3>("u");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    int which = sx_choose("form", 4);
    if (which == 0) {
        auto f = tensor::tensor(A, B) + s * tensor::wedge(B, C);
        sx_eq("first slot of a two-form", f(x + s * u, y), f(x, y) + s * f(u, y));
        sx_eq("second slot of a two-form", f(x, y + s * u), f(x, y) + s * f(x, u));
    } else {
        auto test = [&](const auto & f) {
            sx_eq("first slot of a three-form", f(x + s * u, y, z), f(x, y, z) + s * f(u, y, z));
            sx_eq("second slot of a three-form", f(x, y + s * u, z), f(x, y, z) + s * f(x, u, z));
            sx_eq("third slot of a three-form", f(x, y, z + s * u), f(x, y, z) + s * f(x, y, u));
        };
        if (which == 1) test(tensor::tensor(A, B, C));
        if (which == 2) test(tensor::wedge(A, B, C));
        if (which == 3) test(tensor::wedge(A, tensor::wedge(B, C)));
    }
}
template <class F> static void partials2(const F & f, const tensor::vector_t<3> & x, const tensor::vector_t<3> & y, double want)
{
    sx_eq("all at once", f(x, y), want);
    sx_eq("first slot first", f(x, _)(y), want);
    sx_eq("second slot first", f(_, y)(x), want);
    sx_eq("placeholders only", f(_, _)(x, y), want);
    sx_eq("twice deferred", f(_, _)(x, _)(y), want);
}
SX_HARNESS(partial2)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), x = vec<3>("x"), y = vec<3>("y");
    double s = sx_real("s", -3, 3);
    auto A = tensor::one_form(a), B = tensor::one_form(b);
    double ab = dot<3>(a, x) * dot<3>(b, y), ba = dot<3>(b, x) * dot<3>(a, y);
    switch (sx_choose("form", 6)) {
    case 0: partials2(tensor::tensor(A, B), x, y, ab); break;
    case 1: partials2(tensor::wedge(A, B), x, y, ab - ba); break;
    case 2: partials2(s * tensor::tensor(A, B) + tensor::tensor(B, A), x, y, s * ab + ba); break;
    case 3: partials2(tensor::wedge(A, B) * s, x, y, s * (ab - ba)); break;
    case 4: partials2(-tensor::tensor(B, A), x, y, -ba); break;
    case 5: partials2((A + B * s) * (A - B), x, y, (dot<3>(a, x) + s * dot<3>(b, x)) * (dot<3>(a, y) - dot<3>(b, y))); break;
    }
}
SX_HARNESS(partial3)
{
    const auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), x = vec<3>("x"), y = vec<3>("y"), z = vec<3>("z");
    auto A = tensor::one_form(a), B = tensor::one_form(b), C = tensor::one_form(c);
    double det = 0;
    {
        double m[3][3] = { { dot<3>(a, x), dot<3>(a, y), dot<3>(a, z) }, { dot<3>(b, x), dot<3>(b, y), dot<3>(b, z) }, { dot<3>(c, x), dot<3>(c, y), dot<3>(c, z) } };
        det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    }
    auto test = [&](const auto & f, double want) {
        sx_eq("all at once", f(x, y, z), want);
        sx_eq("first slot first", f(x, _, _)(y, z), want);
        sx_eq("second slot first", f(_, y, _)(x, z), want);
        sx_eq("third slot first", f(_, _, z)(x, y), want);
        sx_eq("first and second slot first", f(x, y, _)(z), want);
        sx_eq("first and third slot first", f(x, _, z)(y), want);
        sx_eq("second and third slot first", f(_, y, z)(x), want);
        sx_eq("one after the other", f(x, _, _)(y, _)(z), want);
        sx_eq("one after the other, backwards", f(_, _, z)(_, y)(x), want);
        sx_eq("one after the other, middle first", f(_, y, _)(_, z)(x), want);
    };
    double t = dot<3>(a, x) * dot<3>(b, y) * dot<3>(c, z), s = sx_real("s", -3, 3);
    switch (sx_choose("form", 4)) {
    case 2: test(s * tensor::tensor(A, B, C) - tensor::wedge(A, B, C), s * t - det); break;
    case 3: test((-tensor::wedge(A, B, C)) * s + tensor::tensor(A, B, C), t - s * det); break;
    case 0: test(tensor::tensor(A, B, C), dot<3>(a, x) * dot<3>(b, y) * dot<3>(c, z)); break;
    case 1: test(tensor::wedge(A, B, C), det); break;
    }
}
// forms made from arbitrary callables
SX_HARNESS(generic)
{
    double p = sx_real("p", -2, 2), q = sx_real("q", -2, 2), s = sx_real("s", -3, 3);
    const auto x = vec<2>("x"), y = vec<2>("y");
    auto f = tensor::one_form([p, q](const tensor::vector_t<2> & v) { return p * v[0] + q * v[1]; });
    auto g = tensor::form<2>([p, q]<class X, class Y>(const X & u, const Y & v) { return p * u[0] * v[1] + q * u[1] * v[1]; });
    sx_eq("one-form of a callable", f(x), p * x[0] + q * x[1]);
    sx_eq("two-form of a callable", g(x, y), p * x[0] * y[1] + q * x[1] * y[1]);
    sx_eq("arithmetic", (f * s + f - s * f)(x), f(x));
    sx_eq("arithmetic of two-forms", (g * s - g)(x, y), (s - 1) * g(x, y));
    sx_eq("product", (f * f)(x, y), f(x) * f(y));
}
// the named elements of the standard basis
template <class V> static void unit_vector(const V & v, int i) { for (int k = 0; k < V::size; k++) sx_eq("basis vector", v[k], k == i ? 1 : 0); }
template <int D1, int D2, class M> static void unit_matrix(const M & m, int i, int j)
{
    for (int k = 0; k < D1; k++) for (int l = 0; l < D2; l++) sx_eq("basis matrix", std::as_const(m)[{ k, l }], k == i && l == j ? 1 : 0);
}
SX_HARNESS(basis)
{
    unit_vector(tensor::e_0<1>, 0);
    unit_vector(tensor::e_0<2>, 0); unit_vector(tensor::e_1<2>, 1);
    unit_vector(tensor::e_0<3>, 0); unit_vector(tensor::e_1<3>, 1); unit_vector(tensor::e_2<3>, 2);
    unit_vector(tensor::e<0, 3>, 0); unit_vector(tensor::e<1, 3>, 1); unit_vector(tensor::e<2, 3>, 2); unit_vector(tensor::e<3, 4>, 3);
    unit_matrix<2, 2>(tensor::e_00<2>, 0, 0); unit_matrix<2, 2>(tensor::e_01<2>, 0, 1); unit_matrix<2, 2>(tensor::e_10<2>, 1, 0); unit_matrix<2, 2>(tensor::e_11<2>, 1, 1);
    unit_matrix<3, 3>(tensor::e_00<3>, 0, 0); unit_matrix<3, 3>(tensor::e_01<3>, 0, 1); unit_matrix<3, 3>(tensor::e_02<3>, 0, 2);
    unit_matrix<3, 3>(tensor::e_10<3>, 1, 0); unit_matrix<3, 3>(tensor::e_11<3>, 1, 1); unit_matrix<3, 3>(tensor::e_12<3>, 1, 2);
    unit_matrix<3, 3>(tensor::e_20<3>, 2, 0); unit_matrix<3, 3>(tensor::e_21<3>, 2, 1); unit_matrix<3, 3>(tensor::e_22<3>, 2, 2);
    unit_matrix<2, 3>(tensor::e_02<2, 3>, 0, 2); unit_matrix<2, 3>(tensor::e_12<2, 3>, 1, 2); unit_matrix<3, 2>(tensor::e_20<3, 2>, 2, 0); unit_matrix<3, 2>(tensor::e_21<3, 2>, 2, 1);
    // every vector is the sum of its components on the basis
    const auto v = vec<3>("v");
    const tensor::vector_t<3> s = v[0] * tensor::e_0<3> + v[1] * tensor::e_1<3> + v[2] * tensor::e_2<3>;
    for (int i = 0; i < 3; i++) sx_eq("sum of components", s[i], v[i]);
}
// from tiny to huge components
SX_HARNESS(scales)
{
    static const double size[] = { 1e-12, 1e-6, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    const int where = sx_concretize(sx_choose("where", 4));    // the vector the form is made from, the argument, the metric, or the factor
    const auto a = vec<3>("a"), b = vec<3>("b"), v = vec<3>("v"), w = vec<3>("w");
    const double k = sx_real("k", -3, 3), s = where == 3 ? u * k : k;
    tensor::vector_t<3> A_, V_;
    tensor::symmetric_matrix_t<3> g_;
    double G = 0;
    for (int i = 0; i < 3; i++) { A_[i] = where == 0 ? u * a[i] : a[i]; V_[i] = where == 1 ? u * v[i] : v[i]; }
    for (int i = 0; i < 3; i++)
        for (int j = i; j < 3; j++) { const double c = sx_real("g", -2, 2); g_[{ i, j }] = where == 2 ? u * c : c; G += c * (i == j ? a[i] * v[i] : a[i] * v[j] + a[j] * v[i]); }
    const tensor::vector_t<3> A = A_, V = V_;
    const tensor::symmetric_matrix_t<3> g = g_;
    const double p = where == 0 || where == 1 ? u : 1;
    const auto f = tensor::one_form(A);
    const auto h = tensor::one_form(b);
    const double av = dot<3>(a, v), bv = dot<3>(b, v), q = where == 1 ? u : 1, F = where == 0 ? u : 1;
    sx_eq("one-form is the inner product", f(V) / p, av);
    sx_eq("product with a metric", tensor::one_form(A, g)(V) / (where == 3 ? 1 : u), G);
    sx_eq("scaling from the left", (s * f)(V) / (where == 2 ? 1 : u), k * av);
    sx_eq("scaling from the right", (f * s)(V) / (where == 2 ? 1 : u), k * av);
    sx_eq("negation", (-f)(V) / p, -av);
    sx_eq("sum", (f + F * h)(V) / q / F, av + bv);
    sx_eq("difference", (f - F * h)(V) / q / F, av - bv);
    sx_eq("product of one-forms", (f * h)(V, w) / p, av * dot<3>(b, w));
}
