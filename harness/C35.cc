// Assembly adds every elementary contribution to the right unknowns; norms of discrete fields.
// @flags -include cassert -fdelete-null-pointer-checks
// @run assembly_segments
// @run assembly_triangles quick:cells=2 thorough:cells=3
// @run assembly_triangles opt:--heap-down
// @run assembly_grid quick:squares=3 thorough:squares=4
// @run assembly_scales
// @run poisson
// @run localize
// @run l2_norm
// @run h1_norm
// @run norm_scales
#include "fem.h"
#include "grid.h"
using scalar = tensor::scalar_t;
// arbitrary elementary contributions
template <class E> struct AnyMatrix : fem::blocks::assembly_block_t<E, tensor::matrix_t<E::n_nodes>> {
    using type = tensor::matrix_t<E::n_nodes>;
    std::map<const void *, type> of;
    auto compute(const E &e) const -> type override { return of.at(&e.cell()); }
};
template <class E> struct AnyVector : fem::blocks::assembly_block_t<E, tensor::vector_t<E::n_nodes>> {
    using type = tensor::vector_t<E::n_nodes>;
    std::map<const void *, type> of;
    auto compute(const E &e) const -> type override { return of.at(&e.cell()); }
};
template <class E, class M, class C> static void check_assembly(const M &mesh, const auto &cs, const C &constraints, double unit = 1)
{
    constexpr int n = E::n_nodes;
    const auto man = manifolds::manifold(mesh, cs);
    const auto space = fem::function_space<E>(man, constraints);
    AnyMatrix<E> a0, a1;
    AnyVector<E> v0, v1;
    auto w = fem::weakform<E>();
    const int blocks = sx_choose("blocks", 3);    // one of each kind, two, or more with one of them repeated
    const bool two = blocks > 0;
    const int again = blocks == 2 ? 3 : 1;
    for (const auto &c : mesh.cells()) {
        tensor::matrix_t<n> m, m1;
        tensor::vector_t<n> v, u;
        for (int i = 0; i < n; i++) {
            v[i] = unit * sx_real("elementary vector", -10, 10);
            u[i] = two ? unit * sx_real("second elementary vector", -10, 10) : 0;
            for (int j = 0; j < n; j++) { m[{ i, j }] = unit * sx_real("elementary matrix", -10, 10); m1[{ i, j }] = two && i == 0 ? unit * sx_real("second elementary matrix", -10, 10) : 0; }
        }
        a0.of.emplace(&c, m); a1.of.emplace(&c, m1);
        v0.of.emplace(&c, v); v1.of.emplace(&c, u);
    }
    w.add_block(a0); w.add_block(v0);
    if (two) { w.add_block(v1); w.add_block(a1); }
    for (int i = 1; i < again; i++) { w.add_block(v0); w.add_block(a0); }
    auto sys = fem::discrete_system<Recorder>("system", space, w);
    auto &ls = sys.linear_system();
    const int N = sys.n_equations();
    sys.assemble();
    // which equation belongs to which node
    for (int i = 0; i < N; i++) ls.u[i] = i + 1;
    sys.read_solution();
    std::vector<std::vector<double>> A(N, std::vector<double>(N, 0.0));
    std::vector<double> b(N, 0.0);
    for (const auto &e : space.elements())
        for (int i = 0; i < n; i++) {
            const int p = (int)sys.solution()(e.connectivity()[i]) - 1;
            if (p < 0) continue;
            b[p] += again * v0.of.at(&e.cell())[i] + v1.of.at(&e.cell())[i];
            for (int j = 0; j < n; j++) {
                const int q = (int)sys.solution()(e.connectivity()[j]) - 1;
                if (q < 0) continue;
                A[p][q] += again * a0.of.at(&e.cell())[{ i, j }] + a1.of.at(&e.cell())[{ i, j }];
            }
        }
    sx_check(!ls.outside, "assembly stays within the system");
    for (int p = 0; p < N; p++) {
        sx_eq("assembled right hand side", ls.b[p] / unit, b[p] / unit);
        for (int q = 0; q < N; q++) sx_eq("assembled matrix", ls.A[p][q] / unit, A[p][q] / unit);
    }
    // the solution takes the solved values at the free nodes and stays zero at the constrained ones
    std::vector<double> x(N);
    std::vector<std::pair<discrete::discretization_node_t, int>> where;
    for (const auto &e : space.elements()) for (const auto &d : e.connectivity()) where.push_back({ d, (int)sys.solution()(d) - 1 });
    for (int p = 0; p < N; p++) ls.u[p] = x[p] = unit * sx_real("solved", -10, 10);
    sys.read_solution();
    for (auto &[d, p] : where) sx_eq("solution field", sys.solution()(d) / unit, p < 0 ? 0 : x[p] / unit);
}
SX_HARNESS(assembly_segments)
{
    using E = fem::isoparametric_simplex_t<1, geometry::segment_t<1>>;
    Nodes<1, 6> S;
    S.add_free(4);
    mesh::mesh_t<geometry::segment_t<1>> m;
    m.insert(simplex<1, 1>(S, std::array<int, 2>{ 0, 1 }));
    const int more = sx_choose("cells", 3);
    for (int i = 0; i < more; i++) m.insert(simplex<1, 1>(S, ordered<2>("node", 4)));
    std::unordered_set<geometry::node_t<1>, utilities::hash_function<geometry::node_t<1>>> domain;
    const int c = sx_choose("constrained", 4);
    if (c & 1) domain.insert(S.n[0]);
    if (c & 2) domain.insert(S.n[1]);
    const auto zero = functions::zero<cart_t<1>>;
    const auto bc = constraints::dirichlet_bc(domain, zero);
    check_assembly<E>(m, S.cs, bc);
}
// contributions and solutions from tiny to huge
SX_HARNESS(assembly_scales)
{
    static const double size[] = { 1e-20, 1e-6, 1e20 };
    using E = fem::isoparametric_simplex_t<1, geometry::segment_t<1>>;
    Nodes<1, 6> S;
    S.add_free(3);
    mesh::mesh_t<geometry::segment_t<1>> m;
    for (int i = 0; i < 2; i++) m.insert(simplex<1, 1>(S, std::array<int, 2>{ i, i + 1 }));
    std::unordered_set<geometry::node_t<1>, utilities::hash_function<geometry::node_t<1>>> domain;
    if (sx_choose("constrained", 2)) domain.insert(S.n[0]);
    const auto zero = functions::zero<cart_t<1>>;
    const auto bc = constraints::dirichlet_bc(domain, zero);
    check_assembly<E>(m, S.cs, bc, size[sx_concretize(sx_choose("size", 3))]);
}
template <int degree> static void triangles(int count)
{
    using E = fem::isoparametric_simplex_t<degree, geometry::triangle_t<2>>;
    Nodes<2, 6> S;
    S.add_free(5);
    mesh::mesh_t<geometry::triangle_t<2>> m;
    m.insert(simplex<2, 2>(S, std::array<int, 3>{ 0, 1, 2 }));
    for (int i = 1; i < count; i++) { const auto t = i == 1 ? triangle_of(5) : std::array<int, 3>{ 4, 1, 0 }; m.insert(simplex<2, 2>(S, t)); }
    const auto zero = functions::zero<cart_t<2>>;
    if (sx_choose("constrained", 2)) {
        auto domain = mesh::boundary(m);
        const auto bc = constraints::dirichlet_bc(domain, zero);
        check_assembly<E>(m, S.cs, bc);
    } else {
        mesh::mesh_t<geometry::segment_t<2>> domain;
        if (sx_choose("constrained edge", 2)) domain.insert(simplex<1, 2>(S, std::array<int, 2>{ 2, 1 }));
        const auto bc = constraints::dirichlet_bc(domain, zero);
        check_assembly<E>(m, S.cs, bc);
    }
}
SX_HARNESS(assembly_triangles) { const int k = sx_bound("cells", 2); if (sx_choose("degree", 2)) triangles<2>(k); else triangles<1>(k); }
// many cells
template <int degree> static void assembly_on_grid()
{
    using E = fem::isoparametric_simplex_t<degree, geometry::triangle_t<2>>;
    const int k = sx_bound("squares", 2);
    Nodes<2, 32> S;
    for (int j = 0; j <= k; j++) for (int i = 0; i <= k; i++) S.add(vec_t<2>{ 1.0 * i, 1.0 * j });
    mesh::mesh_t<geometry::triangle_t<2>> m;
    for (auto &t : grid_triangles(k, k)) m.insert(simplex<2, 2>(S, t));
    const auto zero = functions::zero<cart_t<2>>;
    if (sx_choose("constrained", 2)) {
        auto domain = mesh::boundary(m);
        check_assembly<E>(m, S.cs, constraints::dirichlet_bc(domain, zero));
    } else {
        mesh::mesh_t<geometry::segment_t<2>> domain;
        check_assembly<E>(m, S.cs, constraints::dirichlet_bc(domain, zero));
    }
}
SX_HARNESS(assembly_grid) { if (sx_choose("degree", 2)) assembly_on_grid<2>(); else assembly_on_grid<1>(); }
// the real blocks on a patch of four triangles around one free node
SX_HARNESS(poisson)
{
    using E = fem::isoparametric_simplex_t<1, geometry::triangle_t<2>>;
    using Q = quadrature::quadrature_rule_t<quadrature::GAUSS, geometry::reference_triangle_t, 2>;
    Nodes<2, 6> S;
    // a square with the free node anywhere inside
    S.add(vec_t<2>{ -1.0, -1.0 }); S.add(vec_t<2>{ 1.0, -1.0 }); S.add(vec_t<2>{ 1.0, 1.0 }); S.add(vec_t<2>{ -1.0, 1.0 });
    S.add(rvec<2>("x", -0.75, 0.75));
    mesh::mesh_t<geometry::triangle_t<2>> m;
    for (int i = 0; i < 4; i++) m.insert(simplex<2, 2>(S, std::array<int, 3>{ i, (i + 1) % 4, 4 }));
    const auto man = manifolds::manifold(m, S.cs);
    auto domain = mesh::boundary(m);
    const auto zero = functions::zero<cart_t<2>>;
    const auto bc = constraints::dirichlet_bc(domain, zero);
    const auto space = fem::function_space<E>(man, bc);
    const auto stiff = fem::blocks::grad_grad_block<E, Q>();
    const double c = sx_real("source", -3, 3);
    const auto f = functions::constant<cart_t<2>>(c);
    const auto source = fem::blocks::source_term_block<E, Q>(f);
    auto w = fem::weakform<E>();
    w.add_block(stiff); w.add_block(source);
    auto sys = fem::discrete_system<Recorder>("system", space, w);
    sys.assemble();
    sx_check(sys.n_equations() == 1, "one free node");
    // sum over the cells of edge length squared over four times the area, and a third of the area
    const double x = S.p[4][0], y = S.p[4][1];
    const double k = 4 * (1 / (2 * (1 + y)) + 1 / (2 * (1 - x)) + 1 / (2 * (1 - y)) + 1 / (2 * (1 + x))) / 2;
    sx_close("stiffness at the free node", sys.linear_system().A[0][0], k, 1e-7);
    sx_close("source at the free node", sys.linear_system().b[0], c * 4 / 3, 1e-7);
}
// one or two elements with arbitrary nodal values; positively oriented cells
template <int degree, class cellT, int D, class F> static void on_mesh(F f)
{
    using E = fem::isoparametric_simplex_t<degree, cellT>;
    Nodes<D, 6> S;
    S.add_free(D + 2, 1);
    mesh::mesh_t<cellT> m;
    std::vector<std::array<int, D + 1>> cells;
    std::array<int, D + 1> a, b;
    for (int i = 0; i <= D; i++) { a[i] = i; b[i] = i == 0 ? D == 1 ? 1 : 2 : i == 1 && D == 2 ? 1 : D + 1; }
    cells.push_back(a);
    if (sx_choose("cells", 2)) cells.push_back(b);
    for (auto &c : cells) { sx_assume(signed_measure<D>(S, c) > 0.25); m.insert(simplex<D, D>(S, c)); }
    const auto man = manifolds::manifold(m, S.cs);
    const auto zero = functions::zero<cart_t<D>>;
    auto run = [&](auto &domain) {
        const auto bc = constraints::dirichlet_bc(domain, zero);
        const auto space = fem::function_space<E>(man, bc);
        auto u = space.template fem_field<scalar>("u");
        for (const auto &e : space.elements()) for (const auto &d : e.connectivity()) u(d) = sx_real("nodal value", -3, 3);
        f.template operator()<E, D>(S, space, u);
    };
    if constexpr (D == 1) { std::unordered_set<geometry::node_t<1>, utilities::hash_function<geometry::node_t<1>>> domain; run(domain); }
    else { auto domain = mesh::boundary(m); run(domain); }
}
template <class F> static void every_mesh(F f)
{
    switch (sx_choose("element", 3)) {
        case 0: on_mesh<1, geometry::segment_t<1>, 1>(f); break;
        case 1: on_mesh<1, geometry::triangle_t<2>, 2>(f); break;
        default: on_mesh<2, geometry::triangle_t<2>, 2>(f);
    }
}
template <class E, int D> static BPoly local_poly(const auto &u, const E &e)
{
    BPoly p;
    for (int i = 0; i < E::n_nodes; i++) p = p + lagrange<D, E::degree>(i) * u(e.connectivity()[i]);
    return p;
}
// the barycentric coordinates of the corners at parametric coordinates
template <int D> static void corners(const double *v, double *l)
{
    if constexpr (D == 1) { l[0] = 1 - v[0]; l[1] = v[0]; l[2] = 0; }
    else { l[0] = v[0]; l[1] = v[1]; l[2] = 1 - v[0] - v[1]; }
}
// a linear field in physical coordinates as a polynomial in barycentric ones
template <int D> struct Linear {
    double c[3];
    Linear() { for (double &q : c) q = sx_real("coefficient", -2, 2); }
    double value(const cart_t<D> &x) const { double p = c[0]; for (int k = 0; k < D; k++) p += c[1 + k] * x[k]; return p; }
    BPoly on(const auto &S, const std::array<int, D + 1> &a) const
    {
        BPoly p;
        for (int i = 0; i <= D; i++) { double v = c[0]; for (int k = 0; k < D; k++) v += c[1 + k] * S.p[a[i]][k]; p = p + BPoly::lambda(i) * v; }
        return p;
    }
    auto field() const
    {
        if constexpr (D == 1) return c[0] * functions::one<cart_t<1>> + c[1] * functions::component<cart_t<1>, 0>;
        else return c[0] * functions::one<cart_t<2>> + c[1] * functions::component<cart_t<2>, 0> + c[2] * functions::component<cart_t<2>, 1>;
    }
};
SX_HARNESS(localize)
{
    every_mesh([]<class E, int D>(const auto &S, const auto &space, const auto &u) {
        using ref = typename E::canonical_element_type;
        double v[D], l[3];
        for (int k = 0; k < D; k++) v[k] = sx_real("xi", -1, 2);
        corners<D>(v, l);
        for (const auto &e : space.elements()) {
            const auto p = local_poly<E, D>(u, e);
            sx_eq("localized field", u.localize(e)(at<ref, D>(v)), p(l));
            sx_eq("localize", fem::localize(u, e)(at<ref, D>(v)), p(l));
        }
    });
}
SX_HARNESS(l2_norm)
{
    every_mesh([]<class E, int D>(const auto &S, const auto &space, const auto &u) {
        using ref = typename E::canonical_element_type;
        using Q = quadrature::quadrature_rule_t<quadrature::GAUSS, ref, 2 * E::degree>;
        auto zero = space.template fem_field<scalar>("zero");
        double exact = 0, against = 0;
        const Linear<D> g;
        for (const auto &e : space.elements()) {
            const auto a = node_numbers<D>(S, e.cell());
            const double vol = signed_measure<D>(S, a) / fem_fact(D);
            const auto p = local_poly<E, D>(u, e), q = p + g.on(S, a) * -1;
            exact += vol * (p * p).template mean<D>();
            against += vol * (q * q).template mean<D>();
        }
        const double n = fem::compute_l2_norm<Q>(space, u, zero);
        sx_check(n >= 0, "the norm is not negative");
        sx_close("L2 norm of a discrete field", n * n, exact, 1e-6);
        sx_eq("L2 norm of zero", fem::compute_l2_norm<Q>(space, zero, zero), 0);
        sx_eq("L2 distance to itself", fem::compute_l2_norm<Q>(space, u, u), 0);
        const auto f = g.field();
        const double d = fem::compute_l2_norm<Q>(space, u, f);
        sx_close("L2 norm of the distance to a field", d * d, against, 1e-6);
    });
}
SX_HARNESS(h1_norm)
{
    every_mesh([]<class E, int D>(const auto &S, const auto &space, const auto &u) {
        using ref = typename E::canonical_element_type;
        using Q = quadrature::quadrature_rule_t<quadrature::GAUSS, ref, 2 * E::degree>;
        auto zero = space.template fem_field<scalar>("zero");
        double exact = 0, against = 0;
        const Linear<D> g;
        for (const auto &e : space.elements()) {
            const auto a = node_numbers<D>(S, e.cell());
            const double vol = signed_measure<D>(S, a) / fem_fact(D);
            vec_t<D> dl[D + 1];
            barycentric_gradients<D>(S, a, dl);
            auto sq = [&](const BPoly &p) {
                double s = (p * p).template mean<D>();
                for (int k = 0; k < D; k++) {
                    BPoly d;
                    for (int i = 0; i <= D; i++) d = d + p.d(i) * dl[i][k];
                    s += (d * d).template mean<D>();
                }
                return s * vol;
            };
            const auto p = local_poly<E, D>(u, e);
            exact += sq(p);
            against += sq(p + g.on(S, a) * -1);
        }
        const double n = fem::compute_h1_norm<Q>(space, u, zero);
        sx_check(n >= 0, "the norm is not negative");
        sx_close("H1 norm of a discrete field", n * n, exact, 1e-5);
        sx_eq("H1 distance to itself", fem::compute_h1_norm<Q>(space, u, u), 0);
        const auto f = g.field();
        const double d = fem::compute_h1_norm<Q>(space, u, f);
        sx_close("H1 norm of the distance to a field", d * d, against, 1e-5);
    });
}
// elements and fields from tiny to huge
template <int degree, class cellT, int D> static void scaled_norms()
{
    using E = fem::isoparametric_simplex_t<degree, cellT>;
    using Q = quadrature::quadrature_rule_t<quadrature::GAUSS, typename E::canonical_element_type, 2 * degree>;
    static const double size[] = { 1e-8, 1e-4, 1e8 };
    const double u = size[sx_concretize(sx_choose("size", 3))], s = size[sx_concretize(sx_choose("size of the field", 3))];
    std::vector<double> nodal;
    double n[2], d[2], h[2], f0 = sx_real("field", -2, 2);
    vec_t<D> x[D + 1];
    for (auto & p : x) p = rvec<D>("x", -1, 1);
    for (int k = 0; k < 2; k++) {
        const double U = k ? u : 1, V = k ? s : 1;
        Nodes<D, 4> S;
        for (const auto & p : x) S.add(vec_t<D>(U * p));
        Nodes<D, 4> R;
        std::array<int, D + 1> a;
        for (int i = 0; i <= D; i++) { a[i] = i; R.p[i] = x[i]; }
        sx_assume(signed_measure<D>(R, a) > 0.25);
        mesh::mesh_t<cellT> m;
        m.insert(simplex<D, D>(S, a));
        const auto man = manifolds::manifold(m, S.cs);
        const auto zero = functions::zero<cart_t<D>>;
        auto run = [&](auto &domain) {
            const auto bc = constraints::dirichlet_bc(domain, zero);
            const auto space = fem::function_space<E>(man, bc);
            auto v = space.template fem_field<scalar>("v"), none = space.template fem_field<scalar>("none");
            int i = 0;
            for (const auto &e : space.elements()) for (const auto &c : e.connectivity()) { if (!k) nodal.push_back(sx_real("nodal value", -3, 3)); v(c) = V * nodal[i++]; }
            n[k] = fem::compute_l2_norm<Q>(space, v, none);
            const auto f = functions::constant<cart_t<D>>(V * f0);
            d[k] = fem::compute_l2_norm<Q>(space, v, f);
            // the gradient part of the norm alone scales otherwise
            const double w = fem::compute_h1_norm<Q>(space, v, none);
            h[k] = (w * w - n[k] * n[k]);
        };
        if constexpr (D == 1) { std::unordered_set<geometry::node_t<1>, utilities::hash_function<geometry::node_t<1>>> domain; run(domain); }
        else { auto domain = mesh::boundary(m); run(domain); }
    }
    double un = 1;
    for (int i = 0; i < D; i++) un *= u;
    sx_close("the L2 norm scales", n[1] * n[1] / un / s / s, n[0] * n[0], 1e-6);
    sx_close("the L2 norm of the distance to a field scales", d[1] * d[1] / un / s / s, d[0] * d[0], 1e-6);
    // with the size of the elements only one of the parts can be told apart from rounding
    if (u < 1) sx_close("the H1 norm scales", (h[1] + n[1] * n[1]) / un / s / s * u * u, h[0] + n[0] * n[0] * u * u, 1e-5);
}
SX_HARNESS(norm_scales)
{
    switch (sx_concretize(sx_choose("element", 3))) {
        case 0: scaled_norms<1, geometry::segment_t<1>, 1>(); break;
        case 1: scaled_norms<1, geometry::triangle_t<2>, 2>(); break;
        default: scaled_norms<2, geometry::triangle_t<2>, 2>();
    }
}
