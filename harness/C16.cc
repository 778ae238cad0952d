// Linear elasticity is Hooke's law in Young's modulus and Poisson's ratio.
// @run uniaxial
// @run shear
// @run linear
// @run energy
// @run rotations
// @run bulk
// @run scales
#include "materials.h"
static auto material() { double E = sx_real("E", 0.01, 1000), nu = sx_real("nu", -0.99, 0.4999), rho = sx_real("rho", 0.1, 2); return std::tuple(materials::linear_elastic(rho, E, nu), E, nu); }
static const mat & I() { static mat i = tensor::identity<3> * 1.0; return i; }
// stretching along one axis with the lateral contraction of Poisson's ratio: E * strain along the axis, nothing else
SX_HARNESS(uniaxial)
{
    auto [m, E, nu] = material();
    int axis = sx_concretize(sx_choose("axis", 3));
    double e = sx_real("strain", -0.5, 0.5);
    mat F = I();
    for (int i = 0; i < 3; i++) F[{ i, i }] = 1 + (i == axis ? e : -nu * e);
    auto s = m.stress(F);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) sx_eq("uniaxial stress", s[{ i, j }], i == axis && j == axis ? E * e : 0.0);
    sx_eq("uniaxial energy", m.energy(F), 0.5 * E * e * e);
}
// simple shear: only the two shear components, with the shear modulus E / 2 / (1 + nu)
SX_HARNESS(shear)
{
    auto [m, E, nu] = material();
    int i = sx_concretize(sx_choose("i", 3)), j = sx_concretize(sx_choose("j", 3));
    if (i == j) return;
    double g = sx_real("gamma", -0.5, 0.5);
    mat F = I();
    F[{ i, j }] += g;
    auto s = m.stress(F);
    for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) sx_eq("shear stress", s[{ a, b }] * 2 * (1 + nu), (a == i && b == j) || (a == j && b == i) ? E * g : 0.0);
}
SX_HARNESS(bulk)
{
    auto [m, E, nu] = material();
    double e = sx_real("strain", -0.5, 0.5);
    auto s = m.stress(I() * (1 + e));
    for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) sx_eq("pressure", s[{ a, b }] * (1 - 2 * nu), a == b ? E * e : 0.0);
}
SX_HARNESS(linear)
{
    auto [m, E, nu] = material();
    mat F = deformation(1), G = deformation(1);
    double t = sx_real("t", -2, 2);
    auto a = m.stress(F), b = m.stress(G), c = m.stress(mat(I() + (F - I()) + t * (G - I())));
    auto C = m.tangents(F);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            sx_eq("stress is linear in the displacement gradient", c[{ i, j }], a[{ i, j }] + t * b[{ i, j }]);
            sx_eq("stress is symmetric", a[{ i, j }], a[{ j, i }]);
            double s = 0;
            for (int k = 0; k < 3; k++)
                for (int l = 0; l < 3; l++) s += C[{ i, j, k, l }] * (F[{ k, l }] - (k == l ? 1 : 0));
            sx_eq("stress is the tangent applied to the displacement gradient", a[{ i, j }], s);
        }
}
SX_HARNESS(energy)
{
    auto [m, E, nu] = material();
    mat F = deformation(1);
    auto s = m.stress(F);
    double w = 0, W = m.energy(F);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) w += 0.5 * s[{ i, j }] * (F[{ i, j }] - (i == j ? 1 : 0));
    sx_eq("energy is half the stress contracted with the strain", W, w);
    // energy over the two positive moduli is a sum of squares: K/2 tr^2 + G |dev|^2
    double e[3][3], tr = 0, dev = 0;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) e[i][j] = 0.5 * (F[{ i, j }] + F[{ j, i }]) - (i == j ? 1 : 0);
    for (int i = 0; i < 3; i++) tr += e[i][i];
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) { double d = e[i][j] - (i == j ? tr / 3 : 0); dev += d * d; }
    sx_eq("energy is a positive combination of squares", W, E / (1 - 2 * nu) / 6 * tr * tr + E / (1 + nu) / 2 * dev);
    sx_check(E / (1 - 2 * nu) / 6 > 0, "positive bulk modulus");
    sx_check(E / (1 + nu) / 2 > 0, "positive shear modulus");
}
SX_HARNESS(rotations)
{
    auto [m, E, nu] = material();
    mat F = deformation(1);
    double w[3];
    for (auto & x : w) x = sx_real("w", -1, 1);
    mat G = F;
    G[{ 0, 1 }] -= w[2]; G[{ 1, 0 }] += w[2]; G[{ 0, 2 }] += w[1]; G[{ 2, 0 }] -= w[1]; G[{ 1, 2 }] -= w[0]; G[{ 2, 1 }] += w[0];
    auto a = m.stress(F), b = m.stress(G);
    for (int k = 0; k < 9; k++) sx_eq("rotations produce no stress", a[{ k / 3, k % 3 }], b[{ k / 3, k % 3 }]);
    sx_eq("rotations store no energy", m.energy(F), m.energy(G));
}
// tiny strains, soft and stiff materials
SX_HARNESS(scales)
{
    static const double size[] = { 1e-10, 1e-5 }, modulus[] = { 1e-9, 1, 1e12 };
    const double u = size[sx_concretize(sx_choose("strain", 2))], Y = modulus[sx_concretize(sx_choose("modulus", 3))];
    const double E = sx_real("E", 0.5, 10), nu = sx_real("nu", -0.9, 0.49);
    const auto a = materials::linear_elastic(1.0, E, nu), b = materials::linear_elastic(1.0, E * Y, nu);
    mat F = I(), G = I();
    for (int k = 0; k < 9; k++) { const std::array<int, 2> i{ k / 3, k % 3 }; const double h = sx_real("H", -1, 1); F[{ i[0], i[1] }] += h; G[{ i[0], i[1] }] += u * h; }
    const auto s = a.stress(F), t = b.stress(G);
    const auto C = a.tangents(F), D = b.tangents(G);
    // (in floating point the strain has lost some digits)
    for (int k = 0; k < 9; k++) sx_close("stress scales with the strain and the modulus", t[{ k / 3, k % 3 }] / Y / u, s[{ k / 3, k % 3 }], 1e-4);
    for (int n = 0; n < 81; n++) sx_eq("tangent scales with the modulus", D[{ n / 27, n / 9 % 3, n / 3 % 3, n % 3 }] / Y, C[{ n / 27, n / 9 % 3, n / 3 % 3, n % 3 }]);
    sx_close("energy scales with the square of the strain", b.energy(G) / Y / u / u, a.energy(F), 1e-4);
}
