// The tangent of every material is the derivative of its stress.
// @run linear_elastic
// @run gent tq:300 tt:800
// @run gent_sheared tq:200 tt:800
#include "materials.h"
static double at(const mat & A, int k) { return A[{ k / 3, k % 3 }]; }
static double at(const tensor::symmetric_matrix_t<3> & A, int k) { return A[{ k / 3, k % 3 }]; }
template <class M> static void tangent_is_gradient(const M & m, mat F)
{
    auto C = m.tangents(F);
    for (int b = 0; b < 9; b++)
        for (int a = 0; a < 9; a++) {
            double d = sx_ddx([&](double v) { mat G = F; G[{ b / 3, b % 3 }] = v; return at(m.stress(G), a); }, at(F, b));
            sx_deq("tangent component is the derivative of the stress", C[{ a / 3, a % 3, b / 3, b % 3 }], d);
            if (a > b)
                sx_eq("major symmetry", C[{ a / 3, a % 3, b / 3, b % 3 }], C[{ b / 3, b % 3, a / 3, a % 3 }]);
        }
}
SX_HARNESS(linear_elastic)
{
    double E = sx_real("E", 0.01, 1000), nu = sx_real("nu", -0.99, 0.4999), rho = sx_real("rho", 0.1, 2);
    tangent_is_gradient(materials::linear_elastic(rho, E, nu), deformation(1));
}
SX_HARNESS(gent)
{
    double kappa = sx_real("kappa", 0.5, 10), mu = sx_real("mu", 0.5, 10), Jm = sx_real("Jm", 7, 12), rho = sx_real("rho", 0.1, 2);
    tangent_is_gradient(materials::gent(rho, kappa, mu, Jm), large_deformation());
}
// shears that are not small, with stretches between a half and two
SX_HARNESS(gent_sheared)
{
    double kappa = sx_real("kappa", 0.1, 100), mu = sx_real("mu", 0.1, 100), Jm = sx_real("Jm", 70, 100), rho = sx_real("rho", 0.1, 2);
    tangent_is_gradient(materials::gent(rho, kappa, mu, Jm), sheared_deformation());
}
