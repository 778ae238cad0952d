// The stress of every material is the derivative of its energy.
// @run linear_elastic
// @run gent tq:100
// @run undeformed
// @run gent_sheared tq:200 tt:800
// @run scales
#include "materials.h"
template <class M> static void stress_is_gradient(const M & m, mat F)
{
    auto P = m.stress(F);
    for (int k = 0; k < 9; k++) {
        double d = sx_ddx([&](double v) { mat G = F; G[{ k / 3, k % 3 }] = v; return m.energy(G); }, F[{ k / 3, k % 3 }]);
        sx_deq("stress component is the derivative of the energy", P[{ k / 3, k % 3 }], d);
    }
}
SX_HARNESS(linear_elastic)
{
    double E = sx_real("E", 0.01, 1000), nu = sx_real("nu", -0.99, 0.4999), rho = sx_real("rho", 0.1, 2);
    stress_is_gradient(materials::linear_elastic(rho, E, nu), deformation(1));
}
SX_HARNESS(gent)
{
    double kappa = sx_real("kappa", 0.5, 10), mu = sx_real("mu", 0.5, 10), Jm = sx_real("Jm", 7, 12), rho = sx_real("rho", 0.1, 2);
    stress_is_gradient(materials::gent(rho, kappa, mu, Jm), large_deformation());
}
SX_HARNESS(undeformed)
{
    double E = sx_real("E", 0.01, 1000), nu = sx_real("nu", -0.99, 0.4999), rho = sx_real("rho", 0.1, 2);
    double kappa = sx_real("kappa", 0.5, 10), mu = sx_real("mu", 0.5, 10), Jm = sx_real("Jm", 2, 8);
    mat I = tensor::identity<3> * 1.0;
    auto a = materials::linear_elastic(rho, E, nu);
    auto b = materials::gent(rho, kappa, mu, Jm);
    sx_eq("linear elastic energy at rest", a.energy(I), 0);
    sx_eq("gent energy at rest", b.energy(I), 0);
    auto s = a.stress(I);
    auto P = b.stress(I);
    for (int k = 0; k < 9; k++) {
        sx_eq("linear elastic stress at rest", s[{ k / 3, k % 3 }], 0);
        sx_eq("gent stress at rest", P[{ k / 3, k % 3 }], 0);
    }
}
// shears that are not small, with stretches between a half and two
SX_HARNESS(gent_sheared)
{
    double kappa = sx_real("kappa", 0.1, 100), mu = sx_real("mu", 0.1, 100), Jm = sx_real("Jm", 70, 100), rho = sx_real("rho", 0.1, 2);
    stress_is_gradient(materials::gent(rho, kappa, mu, Jm), sheared_deformation());
}
// strains and moduli from tiny to huge
SX_HARNESS(scales)
{
    static const double strain[] = { 1e-4, 1e-2, 1e6 }, modulus[] = { 1e-6, 1e3, 1e12 };
    const double u = strain[sx_concretize(sx_choose("strain", 3))], s = modulus[sx_concretize(sx_choose("modulus", 3))];
    const mat I = tensor::identity<3> * 1.0;
    const double rho = sx_real("rho", 0.1, 2);
    if (sx_concretize(sx_choose("material", 2))) {
        double kappa = sx_real("kappa", 0.5, 10), mu = sx_real("mu", 0.5, 10), Jm = sx_real("Jm", 7, 12);
        const auto a = materials::gent(rho, kappa, mu, Jm), b = materials::gent(rho, s * kappa, s * mu, Jm);
        const mat F = large_deformation();
        sx_eq("energy and moduli", b.energy(F) / s, a.energy(F));
        const auto P = a.stress(F), Q = b.stress(F);
        for (int k = 0; k < 9; k++) sx_eq("stress and moduli", Q[{ k / 3, k % 3 }] / s, P[{ k / 3, k % 3 }]);
        return;
    }
    double E = sx_real("E", 0.5, 2), nu = sx_real("nu", -0.9, 0.45);
    const auto a = materials::linear_elastic(rho, E, nu), b = materials::linear_elastic(rho, s * E, nu);
    mat H;
    for (int k = 0; k < 9; k++) H[{ k / 3, k % 3 }] = sx_real("H", -1, 1);
    const mat F = I + H, G = I + u * H;
    sx_close("energy and moduli", b.energy(G) / u / u / s, a.energy(F), 1e-7);
    const auto P = a.stress(F), Q = b.stress(G);
    for (int k = 0; k < 9; k++) sx_close("stress and moduli", Q[{ k / 3, k % 3 }] / u / s, P[{ k / 3, k % 3 }], 1e-7);
}
