// Geometric simplices agree with their nodes, orientation and parametrization.
// @flags -include cassert
// @run segments
// @run triangles
// @run tetrahedra quick:reverse=0 thorough:reverse=1
// @run flips
// @run diagonals
// @run polar_segments
// @run spherical_segments
// @run reference
// @run scales
#include "geo.h"
template <class P> static P param(const vec_t<P::dim> &xi) { return P(xi); }
template <int N, int D> static void check_simplex(Nodes<D, 5> &S, const geometry::geometric_simplex_t<N, D> &c, const std::array<int, N + 1> &a)
{
    using cell_t = geometry::geometric_simplex_t<N, D>;
    using param_t = typename cell_t::parametric_coordinates_type;
    static_assert(cell_t::n_vertices == N + 1);
    // nodes, in order
    for (int i = 0; i <= N; i++) {
        sx_check(c.nodes()[i] == S.n[a[i]], "node");
        sx_check(c.nodes()[i]->vertex().id() == S.n[a[i]]->vertex().id(), "vertex of the node");
        const auto &x = S.cs.coordinates(c.nodes()[i]->point());
        for (int k = 0; k < D; k++) sx_eq("coordinates of the node", x[k], S.p[a[i]][k]);
    }
    // the oriented simplex has the orientation of the node order
    sx_check(permutation_parity(a, vertex_numbers<N>(S, c)) == 0, "orientation of the simplex");
    // barycenter
    const auto b = geometry::barycenter(c, S.cs);
    for (int k = 0; k < D; k++) {
        double m = 0;
        for (int i = 0; i <= N; i++) m += S.p[a[i]][k];
        sx_eq("barycenter", b[k] * (N + 1), m);
    }
    // directors
    const auto [p0, d] = geometry::directors(c, S.cs);
    for (int k = 0; k < D; k++) {
        sx_eq("directors stem from the first node", p0[k], S.p[a[0]][k]);
        for (int j = 0; j < N; j++) sx_eq("director", d[j][k], S.p[a[j + 1]][k] - S.p[a[0]][k]);
    }
    // parametrization
    const auto phi = c.parametrization(S.cs);
    for (int i = 0; i <= N; i++) {
        vec_t<N> xi; for (int j = 0; j < N; j++) xi[j] = i == j ? 1.0 : 0.0;
        const auto y = phi(param<param_t>(xi));
        for (int k = 0; k < D; k++) sx_eq("the parametrization maps the reference corners to the nodes", y[k], S.p[a[i]][k]);
    }
    const auto xi = rvec<N>("xi", -1, 2), eta = rvec<N>("eta", -1, 2);
    const double t = sx_real("t", -1, 2);
    vec_t<N> mix; for (int j = 0; j < N; j++) mix[j] = t * xi[j] + (1 - t) * eta[j];
    const auto y = phi(param<param_t>(xi)), z = phi(param<param_t>(eta)), m = phi(param<param_t>(mix));
    for (int k = 0; k < D; k++) {
        double e = S.p[a[N]][k];
        for (int j = 0; j < N; j++) e += xi[j] * (S.p[a[j]][k] - S.p[a[N]][k]);
        sx_eq("parametrization", y[k], e);
        sx_eq("the parametrization is affine", m[k], t * y[k] + (1 - t) * z[k]);
    }
}
template <int N, int D> static void build_and_check(int nodes)
{
    Nodes<D, 5> S;
    S.add_free(nodes);
    const auto a = ordered<N + 1>("node", nodes);
    // the topology may already hold the footprint in either orientation
    if (sx_bound("reverse", 1) && sx_choose("already there", 2)) {
        auto r = a;
        std::swap(r[0], r[1]);
        static auto other = simplex<N, D>(S, r);
    }
    const auto c = simplex<N, D>(S, a);
    check_simplex<N, D>(S, c, a);
    // built again on the oriented simplex of the first
    typename geometry::geometric_simplex_t<N, D>::nodes_type same = c.nodes();
    const geometry::geometric_simplex_t<N, D> again(c.simplex(), same);
    sx_check(again.simplex() == c.simplex(), "simplex handed to the constructor");
    for (int i = 0; i <= N; i++) sx_check(again.nodes()[i] == S.n[a[i]], "nodes handed to the constructor");
    // copies
    auto copy = c;
    sx_check(copy.simplex() == c.simplex() && copy.nodes() == c.nodes(), "copy");
    // built from the oriented simplex and a collection of nodes in any order
    std::vector<geometry::node_t<D>> pool(S.n.rbegin(), S.n.rend());
    const auto g = geometry::geometric_simplex<D>(c.simplex(), pool);
    const auto gn = node_numbers<N>(S, g), gv = vertex_numbers<N>(S, g);
    sx_check(permutation_parity(a, gn) == 0 && permutation_parity(a, gv) == 0, "simplex built from a collection of nodes");
}
SX_HARNESS(segments) { switch (sx_choose("dimension", 3)) { case 0: build_and_check<1, 1>(3); break; case 1: build_and_check<1, 2>(3); break; default: build_and_check<1, 3>(3); } }
SX_HARNESS(triangles) { if (sx_choose("dimension", 2)) build_and_check<2, 3>(4); else build_and_check<2, 2>(4); }
SX_HARNESS(tetrahedra) { build_and_check<3, 3>(4); }
template <int N, int D> static void flip()
{
    Nodes<D, 5> S;
    S.add_free(N + 1);
    const auto a = ordered<N + 1>("node", N + 1);
    const auto c = simplex<N, D>(S, a);
    const auto f = geometry::flip(c);
    const auto fn = node_numbers<N>(S, f), fv = vertex_numbers<N>(S, f);
    sx_check(permutation_parity(a, fn) == 1, "flipping reverses the order of the nodes");
    sx_check(permutation_parity(a, fv) == 1, "flipping reverses the orientation of the simplex");
    sx_check(f.simplex()->footprint() == c.simplex()->footprint(), "flipping keeps the footprint");
    sx_check(f.simplex()->orientation() == -c.simplex()->orientation(), "flipping reverses the sign");
    const auto ff = geometry::flip(f);
    sx_check(ff.simplex() == c.simplex(), "flipping twice gives the same simplex");
    const auto b = geometry::barycenter(c, S.cs), fb = geometry::barycenter(f, S.cs);
    for (int k = 0; k < D; k++) sx_eq("flipping keeps the barycenter", fb[k], b[k]);
    if constexpr (N == D) {
        const auto [p, d] = geometry::directors(c, S.cs);
        const auto [q, e] = geometry::directors(f, S.cs);
        sx_eq("flipping reverses the handedness", det<D>(e.data()), -det<D>(d.data()));
    }
}
SX_HARNESS(flips) { switch (sx_choose("kind", 3)) { case 0: flip<1, 2>(); break; case 1: flip<2, 2>(); break; default: flip<3, 3>(); } }
SX_HARNESS(diagonals)
{
    Nodes<2, 5> S;
    S.add_free(4);
    // two triangles on the common edge 0-1 with consistent orientation, nodes rotated arbitrarily
    const int r = sx_choose("rotation of the first", 3), q = sx_choose("rotation of the second", 3), o = sx_choose("orientation", 2);
    const std::array<int, 3> s{ 0, 1, 2 }, t{ 1, 0, 3 };
    std::array<int, 3> a, b;
    for (int i = 0; i < 3; i++) { a[i] = s[(i + r) % 3]; b[i] = t[(i + q) % 3]; }
    if (o) { std::swap(a[0], a[1]); std::swap(b[0], b[1]); }
    const auto A = simplex<2, 2>(S, a);
    const auto B = simplex<2, 2>(S, b);
    const auto [C, E] = geometry::flip_diagonal<2>({ A, B });
    const auto c = node_numbers<2>(S, C), e = node_numbers<2>(S, E);
    sx_check(permutation_parity(c, vertex_numbers<2>(S, C)) == 0 && permutation_parity(e, vertex_numbers<2>(S, E)) == 0, "nodes follow the vertices");
    auto has = [](const std::array<int, 3> &x, int v) { return x[0] == v || x[1] == v || x[2] == v; };
    sx_check(has(c, 2) && has(c, 3) && has(e, 2) && has(e, 3), "the new triangles share the other diagonal");
    sx_check((has(c, 0) && has(e, 1)) || (has(c, 1) && has(e, 0)), "the new triangles keep one end of the old diagonal each");
    sx_eq("the signed area is preserved", signed_measure<2>(S, c) + signed_measure<2>(S, e), signed_measure<2>(S, a) + signed_measure<2>(S, b));
}
// the barycenter and the midpoint do not depend on the coordinate system
SX_HARNESS(polar_segments)
{
    using polar_t = geometry::polar_coordinates_t;
    geometry::coordinate_system_t<polar_t> cs;
    const double r1 = sx_real("r1", 0.5, 2), r2 = sx_real("r2", 0.5, 2), t1 = sx_real("t1", -1, 1), t2 = sx_real("t2", -1, 1);
    const auto n1 = geometry::node(cs, polar_t({ r1, t1 })), n2 = geometry::node(cs, polar_t({ r2, t2 }));
    const auto s = geometry::segment<2>({ n1, n2 });
    const auto b = geometry::barycenter(s, cs), m = cs.midpoint(n1->point(), n2->point());
    sx_eq("barycenter", b[0] * std::cos(b[1]), 0.5 * (r1 * std::cos(t1) + r2 * std::cos(t2)));
    sx_eq("barycenter", b[0] * std::sin(b[1]), 0.5 * (r1 * std::sin(t1) + r2 * std::sin(t2)));
    sx_eq("midpoint", m[0] * std::cos(m[1]), 0.5 * (r1 * std::cos(t1) + r2 * std::cos(t2)));
    sx_eq("midpoint", m[0] * std::sin(m[1]), 0.5 * (r1 * std::sin(t1) + r2 * std::sin(t2)));
}
SX_HARNESS(spherical_segments)
{
    using sph_t = geometry::spherical_coordinates_t;
    geometry::coordinate_system_t<sph_t> cs;
    const double r1 = sx_real("r1", 1, 2), r2 = sx_real("r2", 1, 2), t1 = sx_real("t1", 0.9, 1.7), t2 = sx_real("t2", 0.9, 1.7), f1 = sx_real("f1", -0.5, 0.5), f2 = sx_real("f2", -0.5, 0.5);
    const sph_t a({ r1, t1, f1 }), b({ r2, t2, f2 });
    const auto n1 = geometry::node(cs, a), n2 = geometry::node(cs, b);
    const auto m = cs.midpoint(n1->point(), n2->point());
    const auto x = geometry::transform_coordinates<cart_t<3>>(a), y = geometry::transform_coordinates<cart_t<3>>(b), z = geometry::transform_coordinates<cart_t<3>>(m);
    for (int k = 0; k < 3; k++) sx_eq("midpoint", z[k], 0.5 * (x[k] + y[k]));
}
SX_HARNESS(reference)
{
    auto check = [&]<int N>(std::integral_constant<int, N>) {
        using ref = geometry::reference_simplex_t<N>;
        const auto v = rvec<N>("xi", -1, 2);
        const typename ref::parametric_coordinates_type x(v);
        double sum = 0, last = 1;
        [&]<int... I>(std::integer_sequence<int, I...>) {
            ((sx_eq("barycentric coordinate", ref::template xi<I>(x), v[I]), sum += ref::template xi<I>(x), last -= v[I]), ...);
        }(std::make_integer_sequence<int, N>{});
        sx_eq("last barycentric coordinate", ref::template xi<N>(x), last);
        sx_eq("barycentric coordinates sum to one", sum + ref::template xi<N>(x), 1.0);
        sx_eq("measure of the reference simplex", ref::area, N == 1 ? 1.0 : N == 2 ? 0.5 : 1.0 / 6.0);
    };
    check(std::integral_constant<int, 1>{}); check(std::integral_constant<int, 2>{}); check(std::integral_constant<int, 3>{});
}
// simplices from tiny to huge
template <int N, int D> static void scaled()
{
    static const double size[] = { 1e-12, 1e-6, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    Nodes<D, 5> S;
    vec_t<D> x[N + 1];
    for (int i = 0; i <= N; i++) { x[i] = rvec<D>("x"); S.add(vec_t<D>(u * x[i])); }
    const auto a = ordered<N + 1>("node", N + 1);
    const auto c = simplex<N, D>(S, a);
    for (int i = 0; i <= N; i++) sx_check(c.nodes()[i] == S.n[a[i]], "node");
    sx_check(permutation_parity(a, vertex_numbers<N>(S, c)) == 0, "orientation of the simplex");
    const auto b = geometry::barycenter(c, S.cs);
    const auto [p0, d] = geometry::directors(c, S.cs);
    using param_t = typename geometry::geometric_simplex_t<N, D>::parametric_coordinates_type;
    const auto xi = rvec<N>("xi", -1, 2);
    const auto y = c.parametrization(S.cs)(param<param_t>(xi));
    for (int k = 0; k < D; k++) {
        double m = 0, e = x[a[N]][k];
        for (int i = 0; i <= N; i++) m += x[a[i]][k];
        for (int j = 0; j < N; j++) e += xi[j] * (x[a[j]][k] - x[a[N]][k]);
        sx_eq("barycenter", b[k] / u * (N + 1), m);
        sx_eq("directors stem from the first node", p0[k] / u, x[a[0]][k]);
        for (int j = 0; j < N; j++) sx_eq("director", d[j][k] / u, x[a[j + 1]][k] - x[a[0]][k]);
        sx_eq("parametrization", y[k] / u, e);
    }
    const auto f = geometry::flip(c);
    sx_check(permutation_parity(a, node_numbers<N>(S, f)) == 1, "flipping reverses the order of the nodes");
}
SX_HARNESS(scales) { switch (sx_concretize(sx_choose("kind", 5))) { case 0: scaled<1, 1>(); break; case 1: scaled<1, 3>(); break; case 2: scaled<2, 2>(); break; case 3: scaled<2, 3>(); break; default: scaled<3, 3>(); } }
