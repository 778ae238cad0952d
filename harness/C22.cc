// Affine structure of coordinates and round trips between coordinate systems.
// @flags -include cassert
// @run cartesian
// @run order
// @run polar
// @run polar_origin
// @run spherical_points
// @run spherical_vector
// @run transformations
// @run distances
// @run components
// @run scales
#include "pyre_shim.h"
#include <mito/geometry.h>
#include "sx.h"
using namespace mito;
using geometry::transform_coordinates;
using polar_t = geometry::polar_coordinates_t;
using sph_t = geometry::spherical_coordinates_t;
using c2_t = geometry::cartesian_coordinates_t<2>;
using c3_t = geometry::cartesian_coordinates_t<3>;
template <int D> using cart_t = geometry::cartesian_coordinates_t<D>;
template <int D> static tensor::vector_t<D> vec(const char *n, double b = 5) { tensor::vector_t<D> v; for (int i = 0; i < D; i++) v[i] = sx_real(n, -b, b); return v; }
template <int D> static cart_t<D> point(const char *n) { return cart_t<D>(vec<D>(n)); }
// angles agree modulo full turns
static void same_angle(const char *l, double a, double b)
{
    sx_eq(l, std::cos(a - b), 1.0);
    sx_eq(l, std::sin(a - b), 0.0);
}
template <int D> static void affine()
{
    const auto A = point<D>("A"), B = point<D>("B");
    const auto v = vec<D>("v"), w = vec<D>("w");
    const double s = sx_real("s", -3, 3);
    const auto BA = B - A;
    const auto B2 = A + BA;
    const auto Av = A + v, Avw = Av + w, Aw = A + w, Awv = Aw + v, Asum = A + (v + w);
    const auto back = Av - A;
    const auto scaled = A + s * v, scaled2 = A + s * (v + w), scaled3 = A + s * v + s * w;
    auto acc = A;
    acc += v;
    auto &ref = (acc += w);
    sx_check(&ref == &acc, "addition in place returns the point");
    double d2 = 0;
    for (int i = 0; i < D; i++) {
        sx_eq("difference", BA[i], B[i] - A[i]);
        sx_eq("adding the difference gives the point", B2[i], B[i]);
        sx_eq("subtracting the point gives the displacement", back[i], v[i]);
        sx_eq("addition", Av[i], A[i] + v[i]);
        sx_eq("displacements add", Avw[i], Asum[i]);
        sx_eq("displacements commute", Avw[i], Awv[i]);
        sx_eq("scaling", scaled[i], A[i] + s * v[i]);
        sx_eq("scaling distributes", scaled2[i], scaled3[i]);
        sx_eq("addition in place", acc[i], Asum[i]);
        d2 += (A[i] - B[i]) * (A[i] - B[i]);
    }
    const double d = geometry::distance(A, B);
    sx_check(d >= 0, "distance is not negative");
    sx_eq("distance", d * d, d2);
    sx_eq("distance is symmetric", geometry::distance(B, A), d);
}
SX_HARNESS(cartesian) { affine<1>(); affine<2>(); affine<3>(); }
// comparisons
template <int D> static void compare(const char *)
{
    double a[3], b[3];
    for (int i = 0; i < D; i++) { a[i] = sx_real("a", -1, 1); b[i] = sx_real("b", -1, 1); }
    tensor::vector_t<D> va, vb;
    for (int i = 0; i < D; i++) { va[i] = a[i]; vb[i] = b[i]; }
    const cart_t<D> A(va), B(vb);
    bool same = true;
    for (int i = 0; i < D; i++)
        if (a[i] != b[i]) { same = false; break; }
    const bool eq = A == B;
    sx_check(eq == same, "equal exactly when all coordinates are equal");
    const bool lt = A < B, gt = B < A;
    sx_check(!(lt && gt), "ordering is asymmetric");
    sx_check(same == (!lt && !gt), "distinct coordinates are ordered one way or the other");
    sx_check(!(A < A), "ordering is irreflexive");
}
SX_HARNESS(order)
{
    switch (sx_choose("dimension", 3)) {
    case 0: compare<1>("1"); break;
    case 1: compare<2>("2"); break;
    default: compare<3>("3"); break;
    }
    // constructors and factory place the numbers in order
    double x = sx_real("x", -5, 5), y = sx_real("y", -5, 5), z = sx_real("z", -5, 5);
    cart_t<3> p({ x, y, z }), q(x, y, z);
    auto r = geometry::coordinates<cart_t<3>>({ x, y, z });
    auto c = geometry::cartesian::coordinates<3>({ x, y, z });
    sph_t s = geometry::spherical::coordinates({ x, y, z });
    polar_t o = geometry::polar::coordinates({ x, y });
    for (int i = 0; i < 3; i++) {
        double e = i == 0 ? x : i == 1 ? y : z;
        sx_eq("from an array", p[i], e); sx_eq("from numbers", q[i], e); sx_eq("factory", r[i], e); sx_eq("cartesian factory", c[i], e); sx_eq("spherical factory", s[i], e);
        if (i < 2) sx_eq("polar factory", o[i], e);
    }
    cart_t<2> zero;
    sx_eq("default is the origin", zero[0], 0.0); sx_eq("default is the origin", zero[1], 0.0);
    cart_t<3> copy(p), assigned; assigned = q;
    for (int i = 0; i < 3; i++) { sx_eq("copy", copy[i], p[i]); sx_eq("assignment", assigned[i], q[i]); }
}
static void polar_pair(double alo, double ahi)
{
    const double ra = sx_real("rA", 0.5, 2), ta = sx_real("thetaA", alo, ahi), rb = sx_real("rB", 0.5, 2), tb = sx_real("thetaB", -3, 3);
    const polar_t A({ ra, ta }), B({ rb, tb });
    const auto d = B - A;
    // displacement in the radial and hoop directions at A
    const double dx = rb * std::cos(tb) - ra * std::cos(ta), dy = rb * std::sin(tb) - ra * std::sin(ta);
    sx_eq("radial displacement", d[0], dx * std::cos(ta) + dy * std::sin(ta));
    sx_eq("hoop displacement", d[1], -dx * std::sin(ta) + dy * std::cos(ta));
    const polar_t C = A + d;
    sx_eq("adding the difference gives the radius", C[0], rb);
    same_angle("adding the difference gives the angle", C[1], tb);
}
SX_HARNESS(polar)
{
    polar_pair(-3, 3);
    // a displacement from A comes back as the difference
    const double ra = sx_real("r", 1, 3), ta = sx_real("theta", -3, 3);
    tensor::vector_t<2> v;
    v[0] = sx_real("v0", -0.9, 2); v[1] = sx_real("v1", -4, 4);
    const polar_t A({ ra, ta });
    const polar_t C = A + v;
    sx_check(C[0] > 0, "radius is positive");
    sx_eq("lands at the displaced abscissa", C[0] * std::cos(C[1]), (ra + v[0]) * std::cos(ta) - v[1] * std::sin(ta));
    sx_eq("lands at the displaced ordinate", C[0] * std::sin(C[1]), (ra + v[0]) * std::sin(ta) + v[1] * std::cos(ta));
    const auto w = C - A;
    sx_eq("the difference is the displacement", w[0], v[0]);
    sx_eq("the difference is the displacement", w[1], v[1]);
    polar_t acc = A;
    acc += v;
    sx_eq("addition in place", acc[0], C[0]); same_angle("addition in place", acc[1], C[1]);
}
SX_HARNESS(polar_origin)
{
    // displacements that pass to the other side of the origin
    const double ra = sx_real("r", 0.5, 1), ta = sx_real("theta", -3, 3);
    tensor::vector_t<2> v;
    v[0] = sx_real("v0", -3, -1.5); v[1] = sx_real("v1", -4, 4);
    const polar_t A({ ra, ta });
    const polar_t C = A + v;
    sx_eq("lands at the displaced abscissa", C[0] * std::cos(C[1]), (ra + v[0]) * std::cos(ta) - v[1] * std::sin(ta));
    sx_eq("lands at the displaced ordinate", C[0] * std::sin(C[1]), (ra + v[0]) * std::sin(ta) + v[1] * std::cos(ta));
}
struct Frame { double e[3][3]; };
static Frame frame(double t, double p)
{
    double st = std::sin(t), ct = std::cos(t), sp = std::sin(p), cp = std::cos(p);
    return { { { st * cp, st * sp, ct }, { ct * cp, ct * sp, -st }, { -sp, cp, 0 } } };
}
SX_HARNESS(spherical_points)
{
    const double ra = sx_real("rA", 0.5, 2), ta = sx_real("thetaA", 0.2, 2.9), pa = sx_real("phiA", -3, 3), rb = sx_real("rB", 0.5, 2), tb = sx_real("thetaB", 0.2, 2.9), pb = sx_real("phiB", -3, 3);
    const sph_t A({ ra, ta, pa }), B({ rb, tb, pb });
    const auto d = B - A;
    const Frame F = frame(ta, pa), G = frame(tb, pb);
    for (int k = 0; k < 3; k++) {
        double e = 0;
        for (int i = 0; i < 3; i++) e += F.e[k][i] * (rb * G.e[0][i] - ra * F.e[0][i]);
        sx_eq("displacement in the local frame", d[k], e);
    }
    const sph_t C = A + d;
    sx_eq("adding the difference gives the radius", C[0], rb);
    same_angle("adding the difference gives the polar angle", C[1], tb);
    same_angle("adding the difference gives the azimuth", C[2], pb);
}
SX_HARNESS(spherical_vector)
{
    const double ra = sx_real("r", 1, 3), ta = sx_real("theta", 0.2, 2.9), pa = sx_real("phi", -3, 3);
    tensor::vector_t<3> v;
    for (int i = 0; i < 3; i++) v[i] = sx_real("v", -0.5, 0.5);
    const sph_t A({ ra, ta, pa });
    const sph_t C = A + v;
    const Frame F = frame(ta, pa), G = frame(C[1], C[2]);
    for (int i = 0; i < 3; i++) sx_eq("lands at the displaced position", C[0] * G.e[0][i], (ra + v[0]) * F.e[0][i] + v[1] * F.e[1][i] + v[2] * F.e[2][i]);
    const auto w = C - A;
    for (int i = 0; i < 3; i++) sx_eq("the difference is the displacement", w[i], v[i]);
}
SX_HARNESS(transformations)
{
    {
        const double x = sx_real("x", -3, 3), y = sx_real("y", -3, 3);
        const auto p = transform_coordinates<polar_t>(c2_t({ x, y }));
        const auto c = transform_coordinates<c2_t>(p);
        sx_check(p[0] >= 0, "radius is not negative");
        sx_eq("radius", p[0] * p[0], x * x + y * y);
        sx_eq("cartesian to polar and back", c[0], x);
        sx_eq("cartesian to polar and back", c[1], y);
    }
    {
        const double r = sx_real("r", 0.1, 3), t = sx_real("theta", -3, 3);
        const auto c = transform_coordinates<c2_t>(polar_t({ r, t }));
        sx_eq("polar to cartesian", c[0], r * std::cos(t));
        sx_eq("polar to cartesian", c[1], r * std::sin(t));
        const auto p = transform_coordinates<polar_t>(c);
        sx_eq("polar to cartesian and back", p[0], r);
        same_angle("polar to cartesian and back", p[1], t);
        sx_check(p[1] <= 3.1416, "angle within a turn");
        sx_check(p[1] >= -3.1416, "angle within a turn");
    }
    {
        const double x = sx_real("X", -3, 3), y = sx_real("Y", -3, 3), z = sx_real("Z", -3, 3);
        const auto s = transform_coordinates<sph_t>(c3_t({ x, y, z }));
        const auto c = transform_coordinates<c3_t>(s);
        sx_check(s[0] >= 0, "radius is not negative");
        sx_check(s[1] >= 0, "polar angle is not negative");
        sx_check(s[1] <= 3.1416, "polar angle at most half a turn");
        sx_eq("radius", s[0] * s[0], x * x + y * y + z * z);
        sx_eq("cartesian to spherical and back", c[0], x);
        sx_eq("cartesian to spherical and back", c[1], y);
        sx_eq("cartesian to spherical and back", c[2], z);
    }
    {
        const double r = sx_real("R", 0.1, 3), t = sx_real("Theta", 0.1, 3.0), p = sx_real("Phi", -3, 3);
        const auto c = transform_coordinates<c3_t>(sph_t({ r, t, p }));
        const Frame F = frame(t, p);
        for (int i = 0; i < 3; i++) sx_eq("spherical to cartesian", c[i], r * F.e[0][i]);
        const auto s = transform_coordinates<sph_t>(c);
        sx_eq("spherical to cartesian and back", s[0], r);
        same_angle("spherical to cartesian and back", s[1], t);
        same_angle("spherical to cartesian and back", s[2], p);
    }
}
SX_HARNESS(distances)
{
    const double ra = sx_real("rA", 0.5, 2), ta = sx_real("thetaA", 0.2, 2.9), pa = sx_real("phiA", -3, 3), rb = sx_real("rB", 0.5, 2), tb = sx_real("thetaB", 0.2, 2.9), pb = sx_real("phiB", -3, 3);
    {
        const polar_t A({ ra, pa }), B({ rb, pb });
        const double d = geometry::distance(A, B), c = geometry::distance(transform_coordinates<c2_t>(A), transform_coordinates<c2_t>(B));
        sx_check(d >= 0, "polar distance is not negative");
        sx_eq("polar distance", d * d, c * c);
        const double e = geometry::distance(B, A);
        sx_eq("polar distance is symmetric", d * d, e * e);
        sx_eq("law of cosines", d * d, ra * ra + rb * rb - 2 * ra * rb * std::cos(pb - pa));
    }
    {
        const sph_t A({ ra, ta, pa }), B({ rb, tb, pb });
        const double d = geometry::distance(A, B), c = geometry::distance(transform_coordinates<c3_t>(A), transform_coordinates<c3_t>(B));
        sx_check(d >= 0, "spherical distance is not negative");
        sx_eq("spherical distance", d * d, c * c);
        const double e = geometry::distance(B, A);
        sx_eq("spherical distance is symmetric", d * d, e * e);
    }
}
SX_HARNESS(components)
{
    const double a = sx_real("a", -3, 3), b = sx_real("b", -3, 3), c = sx_real("c", -3, 3);
    const cart_t<1> x1({ a });
    const cart_t<2> x2({ a, b });
    const cart_t<3> x3({ a, b, c });
    using namespace geometry;
    sx_eq("x_0 in 1D", cartesian::x_0<1>(x1), a);
    sx_eq("x_0 in 2D", cartesian::x_0<2>(x2), a);
    sx_eq("x_1 in 2D", cartesian::x_1<2>(x2), b);
    sx_eq("x_0 in 3D", cartesian::x_0<3>(x3), a);
    sx_eq("x_1 in 3D", cartesian::x_1<3>(x3), b);
    sx_eq("x_2 in 3D", cartesian::x_2<3>(x3), c);
    sx_eq("polar r", polar::r(polar_t({ a, b })), a);
    sx_eq("polar theta", polar::theta(polar_t({ a, b })), b);
    const sph_t s({ a, b, c });
    sx_eq("spherical r", spherical::r(s), a);
    sx_eq("spherical theta", spherical::theta(s), b);
    sx_eq("spherical phi", spherical::phi(s), c);
}
using vec_t3 = tensor::vector_t<3>;
// from tiny to huge lengths
SX_HARNESS(scales)
{
    static const double size[] = { 1e-13, 1e-6, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    switch (sx_concretize(sx_choose("what", 5))) {
        case 0: {
            const vec_t3 a = vec<3>("a"), v = vec<3>("v");
            const c3_t A(vec_t3(u * a));
            const c3_t B = A + vec_t3(u * v);
            const auto d = B - A;
            double e = 0;
            for (int i = 0; i < 3; i++) { sx_eq("addition", B[i] / u, a[i] + v[i]); sx_eq("difference", d[i] / u, v[i]); e += v[i] * v[i]; }
            const double l = geometry::distance(A, B) / u;
            sx_check(l >= 0, "distance is not negative");
            sx_eq("distance", l * l, e);
            break;
        }
        case 1: {
            const double x = sx_real("x", 0.5, 3), y = sx_real("y", -3, 3);
            const bool other = sx_choose("quadrant", 2);
            const auto p = transform_coordinates<polar_t>(c2_t({ (other ? -x : x) * u, y * u }));
            sx_eq("abscissa", p[0] / u * std::cos(p[1]), other ? -x : x);
            sx_eq("ordinate", p[0] / u * std::sin(p[1]), y);
            break;
        }
        case 2: {
            const double x = sx_real("x", -3, 3), y = sx_real("y", 0.5, 3), z = sx_real("z", -3, 3);
            const auto s = transform_coordinates<sph_t>(c3_t({ x * u, y * u, z * u }));
            const Frame F = frame(s[1], s[2]);
            sx_eq("x", s[0] / u * F.e[0][0], x);
            sx_eq("y", s[0] / u * F.e[0][1], y);
            sx_eq("z", s[0] / u * F.e[0][2], z);
            break;
        }
        case 3: {
            // close to the axis, or far from it
            const double x = sx_real("x", 0.5, 3), y = sx_real("y", -3, 3), z = sx_real("z", 0.5, 3);
            const auto s = transform_coordinates<sph_t>(c3_t({ x * u, y * u, z }));
            sx_eq("distance from the axis", s[0] / u * std::sin(s[1]) * std::cos(s[2]), x);
            sx_eq("distance from the axis", s[0] / u * std::sin(s[1]) * std::sin(s[2]), y);
            break;
        }
        default: {
            const double r = sx_real("r", 1, 2), t = sx_real("theta", -3, 3), q = sx_real("q", 1, 2), w = sx_real("w", -3, 3);
            const polar_t A({ r * u, t }), B({ q * u, w });
            const auto d = B - A;
            sx_eq("radial displacement", d[0] / u, q * std::cos(w - t) - r);
            sx_eq("hoop displacement", d[1] / u, q * std::sin(w - t));
            const auto C = A + d;
            sx_eq("adding the difference gives the radius", C[0] / u, q);
            same_angle("adding the difference gives the angle", C[1], w);
        }
    }
}
