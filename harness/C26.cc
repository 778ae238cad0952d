// Quadrature rules integrate polynomials exactly up to their degree.
// @flags -fdelete-null-pointer-checks
// @run segments
// @run triangles
// @run tetrahedra
// @run tables
#include "geo.h"
#include <mito/quadrature.h>
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
template <class ref, int r> static void rule()
{
    constexpr auto q = quadrature::quadrature_rule<quadrature::GAUSS, ref, r>();
    constexpr int N = ref::parametric_coordinates_type::dim;
    // a polynomial of degree r with arbitrary coefficients
    double sum = 0, exact = 0, num[64], c[64];
    int e[64][3], m = 0;
    for (int i = 0; i <= r; i++)
        for (int j = 0; j <= (N > 1 ? r - i : 0); j++)
            for (int k = 0; k <= (N > 2 ? r - i - j : 0); k++) {
                e[m][0] = i; e[m][1] = j; e[m][2] = k;
                c[m] = sx_real("coefficient", -10, 10);
                // mean value over the reference simplex
                exact += c[m] * fact(i) * fact(j) * fact(k) * fact(N) / fact(i + j + k + N);
                m++;
            }
    double weights = 0;
    for (int p = 0; p < q.npoints; p++) {
        const auto x = q.point(p);
        const double w = q.weight(p);
        double f = 0, last = 1;
        for (int a = 0; a < m; a++) {
            double t = c[a];
            for (int d = 0; d < N; d++) for (int b = 0; b < e[a][d]; b++) t *= x[d];
            f += t;
        }
        for (int d = 0; d < N; d++) { sx_check(x[d] > 0, "the point is inside the element"); last -= x[d]; }
        sx_check(last > 0, "the point is inside the element");
        sx_check(w > 0, "the weights are positive");
        sum += w * f; weights += w;
    }
    (void)num;
    sx_close("weights sum to the measure", weights * ref::area, 1.0 / fact(N), 1e-12);
    sx_close("integral of a polynomial of the degree of exactness", sum, exact, 1e-10);
    // no two points coincide
    for (int p = 0; p < q.npoints; p++) for (int s = 0; s < p; s++) {
        bool same = true;
        for (int d = 0; d < N; d++) same = same && q.point(p)[d] == q.point(s)[d];
        sx_check(!same, "distinct points");
    }
}
SX_HARNESS(segments) { if (sx_choose("degree", 2)) rule<geometry::reference_segment_t, 2>(); else rule<geometry::reference_segment_t, 1>(); }
SX_HARNESS(triangles)
{
    switch (sx_choose("degree", 4)) {
        case 0: rule<geometry::reference_triangle_t, 1>(); break;
        case 1: rule<geometry::reference_triangle_t, 2>(); break;
        case 2: rule<geometry::reference_triangle_t, 3>(); break;
        default: rule<geometry::reference_triangle_t, 4>();
    }
}
SX_HARNESS(tetrahedra) { if (sx_choose("degree", 2)) rule<geometry::reference_tetrahedron_t, 2>(); else rule<geometry::reference_tetrahedron_t, 1>(); }
// a table hands out the pairs it was built from
SX_HARNESS(tables)
{
    using ref = geometry::reference_triangle_t;
    using table = quadrature::Table<ref, 3>;
    using pair = table::point_weight_pair_type;
    double x[3], y[3], w[3];
    for (int i = 0; i < 3; i++) { x[i] = sx_real("x", 0, 1); y[i] = sx_real("y", 0, 1); w[i] = sx_real("w", 0, 1); }
    const table t({ pair({ x[0], y[0] }, w[0]), pair({ x[1], y[1] }, w[1]), pair({ x[2], y[2] }, w[2]) });
    sx_check(t.size() == 3, "size");
    const int q = sx_choose("entry", 3);
    sx_eq("point", t.point(q)[0], x[q]); sx_eq("point", t.point(q)[1], y[q]); sx_eq("weight", t.weight(q), w[q]);
}
