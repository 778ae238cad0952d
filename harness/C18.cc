// The consistency test accepts consistent materials and rejects inconsistent ones.
// @run stress
// @run tangents
// @run temporaries
// @run library
// @run two_errors
#include "materials.h"
// quadratic energy with errors added to the analytical derivatives
struct Model {
    using scalar_type = tensor::scalar_t;
    using deformation_gradient_type = mat;
    using stress_type = mat;
    using tangents_type = tensor::fourth_order_tensor_t<3>;
    double a[9], b[9], se[9], te[81];
    double energy(const mat & F) const { double s = 0; for (int k = 0; k < 9; k++) { double x = F[{ k / 3, k % 3 }]; s += a[k] * x + 0.5 * b[k] * x * F[{ (k + 4) % 9 / 3, (k + 4) % 9 % 3 }]; } return s; }
    mat stress(const mat & F) const
    {
        mat P;
        for (int k = 0; k < 9; k++) P[{ k / 3, k % 3 }] = a[k] + se[k];
        for (int k = 0; k < 9; k++) { int l = (k + 4) % 9; P[{ k / 3, k % 3 }] += 0.5 * b[k] * F[{ l / 3, l % 3 }]; P[{ l / 3, l % 3 }] += 0.5 * b[k] * F[{ k / 3, k % 3 }]; }
        return P;
    }
    tangents_type tangents(const mat &) const
    {
        tangents_type C;
        for (int k = 0; k < 81; k++) C[{ k / 27, k / 9 % 3, k / 3 % 3, k % 3 }] = te[k];
        for (int k = 0; k < 9; k++) { int l = (k + 4) % 9; C[{ k / 3, k % 3, l / 3, l % 3 }] += 0.5 * b[k]; C[{ l / 3, l % 3, k / 3, k % 3 }] += 0.5 * b[k]; }
        return C;
    }
};
static Model model()
{
    Model m {};
    for (int k = 0; k < 9; k++) { m.a[k] = sx_real("a", -2, 2); m.b[k] = sx_real("b", -2, 2); m.se[k] = 0; }
    for (double & x : m.te) x = 0;
    return m;
}
SX_HARNESS(stress)
{
    Model m = model();
    mat F = deformation(1), G = F;
    double h = sx_real("perturbation", 0.001, 0.1), tol = sx_real("tolerance", 0.001, 0.5);
    auto t = materials::consistency_test(m, h, tol);
    sx_check(t.test_stress(F), "consistent stress is accepted");
    int k = sx_concretize(sx_choose("component", 9));
    m.se[k] = sx_real("error", -20, 20);
    bool ok = materials::consistency_test(m, h, tol).test_stress(F);
    double e = 2 * h * m.se[k];
    if (ok) sx_check(e * e < tol * tol, "accepted only within the tolerance");
    else sx_check(e * e >= tol * tol, "rejected only outside the tolerance");
    for (int i = 0; i < 9; i++) sx_eq("input unchanged", F[{ i / 3, i % 3 }], G[{ i / 3, i % 3 }]);
}
SX_HARNESS(tangents)
{
    Model m = model();
    mat F = deformation(1), G = F;
    double h = sx_real("perturbation", 0.001, 0.1), tol = sx_real("tolerance", 0.001, 0.5);
    auto t = materials::consistency_test(m, h, tol);
    sx_check(t.test_tangents(F), "consistent tangents are accepted");
    int k = sx_concretize(sx_choose("component", 81));
    m.te[k] = sx_real("error", -20, 20);
    bool ok = materials::consistency_test(m, h, tol).test_tangents(F);
    double e = 2 * h * m.te[k];
    if (ok) sx_check(e * e < tol * tol, "accepted only within the tolerance");
    else sx_check(e * e >= tol * tol, "rejected only outside the tolerance");
    for (int i = 0; i < 9; i++) sx_eq("input unchanged", F[{ i / 3, i % 3 }], G[{ i / 3, i % 3 }]);
}
// the test outlives the temporaries it was made from
__attribute__((noinline)) static auto make(double se) { Model m {}; m.se[4] = se; return materials::consistency_test(m, 0.5, 0.25); }
__attribute__((noinline)) static void clobber() { volatile double x[400]; for (auto & v : x) v = 1e3; }
SX_HARNESS(temporaries)
{
    double e = sx_real("error", -1, 1);
    auto t = make(e);
    clobber();
    bool ok = t.test_stress(deformation(1));
    if (ok) sx_check(e * e <= 0.0625, "accepted only within the tolerance");
    else sx_check(e * e >= 0.0625, "rejected only outside the tolerance");
}
SX_HARNESS(library)
{
    double E = sx_real("E", 0.5, 10), nu = sx_real("nu", -0.9, 0.49);
    auto t = materials::consistency_test(materials::linear_elastic(1.0, E, nu), sx_real("perturbation", 0.001, 0.1), sx_real("tolerance", 1e-9, 1));
    mat F = deformation(1);
    sx_check(t.test_stress(F), "linear elastic stress is accepted");
    sx_check(t.test_tangents(F), "linear elastic tangent is accepted");
}
// errors in two components add up in the norm
SX_HARNESS(two_errors)
{
    Model m = model();
    mat F = deformation(1);
    double h = sx_real("perturbation", 0.001, 0.1), tol = sx_real("tolerance", 0.001, 0.5), x = sx_real("error", -20, 20), y = sx_real("other error", -20, 20), e = 4 * h * h * (x * x + y * y);
    bool ok;
    if (sx_concretize(sx_choose("tangents", 2))) {
        int k = sx_concretize(sx_choose("component", 27)) * 3, l = (k * 7 + 13) % 81;
        m.te[k] = x;
        m.te[l == k ? l + 1 : l] = y;
        ok = materials::consistency_test(m, h, tol).test_tangents(F);
    } else {
        int k = sx_concretize(sx_choose("component", 9)), l = sx_concretize(sx_choose("other component", 9));
        if (k == l) return;
        m.se[k] = x;
        m.se[l] = y;
        ok = materials::consistency_test(m, h, tol).test_stress(F);
    }
    if (ok) sx_check(e < tol * tol, "accepted only within the tolerance");
    else sx_check(e >= tol * tol, "rejected only outside the tolerance");
}
