// Hyperelastic response is independent of the observer and of material axes.
// @run observer_energy
// @run observer_stress
// @run observer_tangent
// @run isotropy
// @run balance
#include "materials.h"
static auto material() { double kappa = sx_real("kappa", 0.1, 100), mu = sx_real("mu", 0.1, 100), Jm = sx_real("Jm", 70, 100), rho = sx_real("rho", 0.1, 2); return materials::gent(rho, kappa, mu, Jm); }
static mat any_deformation() { if (sx_concretize(sx_choose("sheared", 2))) return sheared_deformation(); mat F; for (int k = 0; k < 9; k++) F[{ k / 3, k % 3 }] = k % 4 == 0 ? sx_real("F", 0.8, 2) : sx_real("F", -0.3, 0.3); return F; }
// rotation by an arbitrary angle about one of the axes
static mat axis()
{
    int k = sx_concretize(sx_choose("axis", 3));
    double t = sx_real("angle", -4, 4), c = std::cos(t), s = std::sin(t);
    mat Q = tensor::identity<3> * 1.0;
    int i = (k + 1) % 3, j = (k + 2) % 3;
    Q[{ i, i }] = c; Q[{ j, j }] = c; Q[{ i, j }] = -s; Q[{ j, i }] = s;
    return Q;
}
SX_HARNESS(observer_energy) { auto m = material(); mat F = any_deformation(), Q = axis(); sx_eq("energy seen by a rotated observer", m.energy(mat(Q * F)), m.energy(F)); }
SX_HARNESS(isotropy)
{
    auto m = material();
    mat F = any_deformation(), Q = axis();
    sx_eq("energy of rotated axes", m.energy(mat(F * Q)), m.energy(F));
}
SX_HARNESS(observer_stress)
{
    auto m = material();
    mat F = any_deformation(), Q = axis(), A = m.stress(mat(Q * F)), P = m.stress(F);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            double s = 0;
            for (int k = 0; k < 3; k++) s += Q[{ i, k }] * P[{ k, j }];
            sx_eq("stress seen by a rotated observer", A[{ i, j }], s);
        }
}
SX_HARNESS(balance)
{
    auto m = material();
    mat F = any_deformation(), P = m.stress(F);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < i; j++) {
            double a = 0, b = 0;
            for (int k = 0; k < 3; k++) { a += P[{ i, k }] * F[{ j, k }]; b += P[{ j, k }] * F[{ i, k }]; }
            sx_eq("true stress is symmetric", a, b);
        }
}
SX_HARNESS(observer_tangent)
{
    auto m = material();
    mat F = any_deformation(), Q = axis();
    auto A = m.tangents(mat(Q * F)), C = m.tangents(F);
    for (int n = 0; n < 81; n++) {
        int i = n / 27, J = n / 9 % 3, k = n / 3 % 3, L = n % 3;
        double s = 0;
        for (int p = 0; p < 3; p++)
            for (int q = 0; q < 3; q++) s += Q[{ i, p }] * Q[{ k, q }] * C[{ p, J, q, L }];
        sx_eq("tangent seen by a rotated observer", A[{ i, J, k, L }], s);
    }
}
