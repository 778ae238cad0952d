// Shape functions are a partition of unity with exact gradients.
// @flags -include cassert -fdelete-null-pointer-checks
// @run segment_p1
// @run triangle_p1
// @run triangle_p2
// @run elements
#include "geo.h"
#include <mito/fem.h>
template <class ref> using par_t = typename ref::parametric_coordinates_type;
template <int N, class G> static double comp(const G &g, int k)
{
    if constexpr (requires { g[k]; }) return g[k];
    else return g;
}
template <class ref, int N> static par_t<ref> at(const double *v)
{
    tensor::vector_t<N> p;
    for (int k = 0; k < N; k++) p[k] = v[k];
    return par_t<ref>(p);
}
// the nodes of the elements in the order of the library: vertices, then midpoints of the edges 01, 12, 20
template <int N, int n> static void node(int b, double *v)
{
    for (int k = 0; k < N; k++) v[k] = 0;
    if constexpr (N == 1) v[0] = b;
    else {
        auto corner = [](int c, double *u, double f) { if (c < 2) u[c] += f; };
        if (b < 3) corner(b, v, 1);
        else { corner(b - 3, v, 0.5); corner((b - 2) % 3, v, 0.5); }
    }
}
template <class shapes, int degree, class S> static void family(const S &s)
{
    using ref = typename shapes::reference_element_type;
    constexpr int N = ref::order, n = shapes::N;
    double v[N];
    for (int k = 0; k < N; k++) v[k] = sx_real("xi", -2, 2);
    // a polynomial of the degree of the element
    double c[6];
    for (double &q : c) q = sx_real("coefficient", -5, 5);
    auto poly = [&](const double *u) {
        double p = c[0];
        for (int k = 0; k < N; k++) p += c[1 + k] * u[k];
        if constexpr (degree == 2) p += c[3] * u[0] * u[0] + c[4] * u[0] * u[1] + c[5] * u[1] * u[1];
        return p;
    };
    double sum = 0, interpolant = 0, grad[N] = {}, dinter[N] = {};
    tensor::constexpr_for_1<n>([&]<int a>() {
        const double f = s.template shape<a>()(at<ref, N>(v));
        double u[N];
        node<N, n>(a, u);
        const double pa = poly(u);
        sum += f;
        interpolant += f * pa;
        const auto g = s.template dshape<a>()(at<ref, N>(v));
        for (int k = 0; k < N; k++) {
            const double d = sx_ddx([&](double x) { double w[N]; for (int i = 0; i < N; i++) w[i] = v[i]; w[k] = x; return s.template shape<a>()(at<ref, N>(w)); }, v[k]);
            sx_deq("gradient is the derivative", comp<N>(g, k), d);
            grad[k] += comp<N>(g, k);
            dinter[k] += comp<N>(g, k) * pa;
        }
        for (int b = 0; b < n; b++) {
            double w[N];
            node<N, n>(b, w);
            sx_eq("one at its own node, zero at the others", s.template shape<a>()(at<ref, N>(w)), a == b);
        }
    });
    sx_eq("partition of unity", sum, 1);
    sx_eq("reproduces polynomials of its degree", interpolant, poly(v));
    for (int k = 0; k < N; k++) {
        sx_eq("gradients sum to zero", grad[k], 0);
        double p = c[1 + k];
        if constexpr (degree == 2) p += k == 0 ? 2 * c[3] * v[0] + c[4] * v[1] : c[4] * v[0] + 2 * c[5] * v[1];
        sx_eq("gradient of the interpolated polynomial", dinter[k], p);
    }
}
SX_HARNESS(segment_p1) { family<fem::ShapeSegmentP1, 1>(fem::ShapeSegmentP1()); }
SX_HARNESS(triangle_p1) { family<fem::ShapeTriangleP1, 1>(fem::ShapeTriangleP1()); }
SX_HARNESS(triangle_p2) { family<fem::ShapeTriangleP2, 2>(fem::ShapeTriangleP2()); }
// the shape functions handed out by the elements are those of their family, at their node
template <int degree, class cellT, int D> static void element()
{
    using element_t = fem::isoparametric_simplex_t<degree, cellT>;
    constexpr int N = D, n = element_t::n_nodes;
    using ref = typename element_t::canonical_element_type;
    sx_check(element_t::degree == degree && element_t::dim == D, "degree and dimension of the element");
    Nodes<D, 4> S;
    S.add_free(N + 1);
    auto cell = simplex<N, D>(S, ordered<N + 1>("node", N + 1));
    typename element_t::connectivity_type con;
    element_t e(cell, S.cs, con);
    sx_check(e.connectivity() == con, "connectivity");
    sx_check(&e.cell() == &cell, "cell of the element");
    double v[N], sum = 0;
    for (int k = 0; k < N; k++) v[k] = sx_real("xi", -2, 2);
    tensor::constexpr_for_1<n>([&]<int a>() {
        sum += e.template shape<a>()(at<ref, N>(v));
        for (int b = 0; b < n; b++) {
            double w[N];
            node<N, n>(b, w);
            sx_eq("element: one at its own node, zero at the others", e.template shape<a>()(at<ref, N>(w)), a == b);
        }
    });
    sx_eq("element: partition of unity", sum, 1);
}
SX_HARNESS(elements)
{
    switch (sx_choose("element", 3)) {
        case 0: element<1, geometry::segment_t<1>, 1>(); break;
        case 1: element<1, geometry::triangle_t<2>, 2>(); break;
        default: element<2, geometry::triangle_t<2>, 2>();
    }
}
