// Integrals over manifolds of affine cells are exact and additive.
// @flags -include cassert -fdelete-null-pointer-checks
// @run segments_1D
// @run segments_2D
// @run segments_3D
// @run triangles_2D
// @run triangles_3D
// @run tetrahedra
// @run volumes
// @run additive
// @run systems
// @run grid quick:squares=5 thorough:squares=9
// @run erased
// @run scales
#include "geo.h"
#include "grid.h"
#include <mito/functions.h>
#include <mito/fields.h>
#include <mito/mesh.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// sum of all monomials of degree r in v[0..n)
static double complete(const double *v, int n, int r)
{
    if (r == 0) return 1;
    if (n == 1) { double p = 1; for (int i = 0; i < r; i++) p *= v[0]; return p; }
    double s = 0, p = 1;
    for (int i = 0; i <= r; i++) { s += p * complete(v + 1, n - 1, r - i); p *= v[0]; }
    return s;
}
template <int r> static double power(double x) { double p = 1; for (int i = 0; i < r; i++) p *= x; return p; }
// mean over the simplex of (w . x + b)^r : the powers of linear functions span the polynomials of degree r
template <int r, int N, int D, int M> static double mean(const Nodes<D, M> &S, const std::array<int, N + 1> &a, const vec_t<D> &w, double b)
{
    double l[N + 1];
    for (int i = 0; i <= N; i++) { l[i] = b; for (int k = 0; k < D; k++) l[i] += w[k] * S.p[a[i]][k]; }
    return fact(N) * fact(r) / fact(r + N) * complete(l, N + 1, r);
}
template <int D, int r> static auto field(const vec_t<D> &w, double b)
{
    return functions::function([w, b](const cart_t<D> &x) -> double { double l = b; for (int k = 0; k < D; k++) l += w[k] * x[k]; return power<r>(l); });
}
template <int D> static double dot(const vec_t<D> &a, const vec_t<D> &b) { double s = 0; for (int i = 0; i < D; i++) s += a[i] * b[i]; return s; }
static vec_t<3> crossp(const vec_t<3> &a, const vec_t<3> &b) { return vec_t<3>{ a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
// one cell of the top dimension
template <int N, int r> static void one_cell()
{
    Nodes<N, 5> S;
    S.add_free(N + 1);
    const auto a = ordered<N + 1>("node", N + 1);
    mesh::mesh_t<geometry::geometric_simplex_t<N, N>> m;
    auto &c = m.insert(simplex<N, N>(S, a));
    const auto man = manifolds::manifold(m, S.cs);
    const double vol = signed_measure<N>(S, a) / fact(N);
    sx_eq("volume of the cell", man.volume(c), vol);
    sx_eq("volume of the manifold", man.volume(), vol);
    const auto I = quadrature::integrator<quadrature::GAUSS, r>(man);
    const auto w = rvec<N>("w", -1, 1);
    const double b = sx_real("b", -1, 1);
    sx_close("integral of a polynomial", I.integrate(field<N, r>(w, b)), vol * mean<r, N>(S, a, w, b), 1e-7);
    sx_close("integral of a constant", I.integrate(functions::constant<cart_t<N>>(b)), vol * b, 1e-7);
}
template <int N> static void degrees()
{
    if constexpr (N == 2)
        switch (sx_choose("degree", 4)) { case 0: one_cell<N, 1>(); break; case 1: one_cell<N, 2>(); break; case 2: one_cell<N, 3>(); break; default: one_cell<N, 4>(); }
    else
        switch (sx_choose("degree", 2)) { case 0: one_cell<N, 1>(); break; default: one_cell<N, 2>(); }
}
SX_HARNESS(segments_1D) { degrees<1>(); }
SX_HARNESS(triangles_2D) { degrees<2>(); }
SX_HARNESS(tetrahedra) { degrees<3>(); }
SX_HARNESS(segments_2D)
{
    Nodes<2, 5> S;
    S.add_free(3);
    mesh::mesh_t<geometry::segment_t<2>> m;
    const auto n = rvec<2>("n", -1, 1);
    const auto nf = functions::constant<cart_t<2>>(n);
    const auto man = manifolds::submanifold(m, S.cs, nf);
    const auto a = ordered<2>("node", 3);
    auto &c = m.insert(simplex<1, 2>(S, a));
    const vec_t<2> e{ S.p[a[1]][0] - S.p[a[0]][0], S.p[a[1]][1] - S.p[a[0]][1] };
    const double vol = n[0] * e[1] - n[1] * e[0];
    sx_eq("volume of the cell", man.volume(c), vol);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(man);
    const auto w = rvec<2>("w", -1, 1);
    const double b = sx_real("b", -1, 1);
    sx_close("integral of a polynomial", I.integrate(field<2, 2>(w, b)), vol * mean<2, 1>(S, a, w, b), 1e-7);
}
SX_HARNESS(segments_3D)
{
    Nodes<3, 5> S;
    S.add_free(2);
    mesh::mesh_t<geometry::segment_t<3>> m;
    const auto n = rvec<3>("n", -1, 1), q = rvec<3>("q", -1, 1);
    const auto man = manifolds::submanifold(m, S.cs, functions::constant<cart_t<3>>(n), functions::constant<cart_t<3>>(q));
    const auto a = ordered<2>("node", 2);
    auto &c = m.insert(simplex<1, 3>(S, a));
    vec_t<3> e;
    for (int k = 0; k < 3; k++) e[k] = S.p[a[1]][k] - S.p[a[0]][k];
    const double vol = dot<3>(crossp(n, q), e);
    sx_eq("volume of the cell", man.volume(c), vol);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(man);
    const auto w = rvec<3>("w", -1, 1);
    const double b = sx_real("b", -1, 1);
    sx_close("integral of a polynomial", I.integrate(field<3, 2>(w, b)), vol * mean<2, 1>(S, a, w, b), 1e-7);
}
SX_HARNESS(triangles_3D)
{
    Nodes<3, 5> S;
    S.add_free(3);
    mesh::mesh_t<geometry::triangle_t<3>> m;
    const auto n = rvec<3>("n", -1, 1);
    const auto man = manifolds::submanifold(m, S.cs, functions::constant<cart_t<3>>(n));
    const auto a = ordered<3>("node", 3);
    auto &c = m.insert(simplex<2, 3>(S, a));
    vec_t<3> e, f;
    for (int k = 0; k < 3; k++) { e[k] = S.p[a[1]][k] - S.p[a[0]][k]; f[k] = S.p[a[2]][k] - S.p[a[0]][k]; }
    const double vol = 0.5 * dot<3>(n, crossp(e, f));
    sx_eq("volume of the cell", man.volume(c), vol);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(man);
    const auto w = rvec<3>("w", -1, 1);
    const double b = sx_real("b", -1, 1);
    sx_close("integral of a polynomial", I.integrate(field<3, 2>(w, b)), vol * mean<2, 1 + 1>(S, a, w, b), 1e-7);
}
// volumes of meshes of several cells in Cartesian and curvilinear coordinates
template <int N, class coord> static void sum_of_cells(int cells)
{
    geometry::coordinate_system_t<coord> cs;
    std::vector<geometry::node_t<N>> n;
    vec_t<N> p[6];
    for (int i = 0; i < N + cells; i++) {
        for (int k = 0; k < N; k++) p[i][k] = sx_real("x", 0.5, 1.5);
        n.push_back(geometry::node(cs, coord(p[i])));
    }
    mesh::mesh_t<geometry::geometric_simplex_t<N, N>> m;
    const auto man = manifolds::manifold(m, cs);
    sx_eq("volume of the empty mesh", man.volume(), 0.0);
    sx_check(man.nElements() == 0, "number of elements");
    double total = 0;
    for (int c = 0; c < cells; c++) {
        double vol;
        if constexpr (N == 1) { vol = man.volume(m.insert({ n[c], n[c + 1] })); }
        else if constexpr (N == 2) { vol = man.volume(m.insert({ n[c], n[c + 1], n[c + 2] })); }
        else vol = man.volume(m.insert({ n[c], n[c + 1], n[c + 2], n[c + 3] }));
        total += vol;
    }
    sx_check(man.nElements() == cells && std::size(man.elements()) == cells, "number of elements");
    sx_eq("the volume is the sum over the cells", man.volume(), total);
    int seen = 0;
    for (const auto &c : man.elements()) {
        for (const auto &v : c.nodes()) {
            int id = -1;
            for (size_t i = 0; i < n.size(); i++) if (n[i]->vertex().id() == v->vertex().id()) id = i;
            const auto &x = man.coordinates(v);
            for (int k = 0; k < N; k++) sx_eq("coordinates of a node", x[k], p[id][k]);
        }
        seen++;
    }
    sx_check(seen == cells, "traversal of the elements");
}
SX_HARNESS(volumes)
{
    switch (sx_choose("kind", 5)) {
        case 0: sum_of_cells<1, cart_t<1>>(3); break;
        case 1: sum_of_cells<2, cart_t<2>>(3); break;
        case 2: sum_of_cells<3, cart_t<3>>(2); break;
        case 3: sum_of_cells<2, geometry::polar_coordinates_t>(2); break;
        default: sum_of_cells<3, geometry::spherical_coordinates_t>(1);
    }
}
// several triangles, sums of fields
SX_HARNESS(additive)
{
    Nodes<2, 6> S;
    S.add_free(4);
    mesh::mesh_t<geometry::triangle_t<2>> m, m0, m1;
    const std::array<int, 3> a{ 0, 1, 2 };
    std::array<int, 3> b{ 1, 0, 3 };
    if (sx_choose("orientation", 2)) b = { 0, 1, 3 };
    m.insert(simplex<2, 2>(S, a)); m0.insert(simplex<2, 2>(S, a));
    m.insert(simplex<2, 2>(S, b)); m1.insert(simplex<2, 2>(S, b));
    const auto M = manifolds::manifold(m, S.cs), M0 = manifolds::manifold(m0, S.cs), M1 = manifolds::manifold(m1, S.cs);
    const auto w = rvec<2>("w", -1, 1), v = rvec<2>("v", -1, 1);
    const double c = sx_real("c", -1, 1), k = sx_real("k", -1, 1);
    const auto f = field<2, 2>(w, c);
    const auto g = field<2, 2>(v, c);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(M), I0 = quadrature::integrator<quadrature::GAUSS, 2>(M0), I1 = quadrature::integrator<quadrature::GAUSS, 2>(M1);
    const double If = I.integrate(f);
    sx_eq("additive over the cells", If, I0.integrate(f) + I1.integrate(f));
    sx_close("integral of a polynomial", If, 0.5 * signed_measure<2>(S, a) * mean<2, 2>(S, a, w, c) + 0.5 * signed_measure<2>(S, b) * mean<2, 2>(S, b, w, c), 1e-7);
    sx_eq("linear in the field", I.integrate(f + k * g), If + k * I.integrate(g));
    // erasing a cell takes its contribution away, also from an existing integrator
    for (auto &cell : m.cells()) { m.erase(cell); break; }
    sx_eq("the remaining cell", I.integrate(f), I1.integrate(f));
    sx_eq("the remaining cell", M.volume(), M1.volume());
}
// the same mesh in several coordinate systems: what one of them measures does not show in the others
template <int N, int r> static void in_two_systems()
{
    Nodes<N, 5> S;
    S.add_free(N + 1);
    std::array<int, N + 1> a;
    for (int i = 0; i <= N; i++) a[i] = i;
    geometry::coordinate_system_t<cart_t<N>> other;
    vec_t<N> moved[N + 1];
    for (int i = 0; i <= N; i++) { for (int k = 0; k < N; k++) moved[i][k] = S.p[i][k] * (k == 0 ? 2.0 : 1.0) + (k == 0 && i == 0 ? 0.25 : 0.0); other.place(S.n[i]->point(), cart_t<N>(moved[i])); }
    Nodes<N, 5> Z;                            // the nodes as they are in the other system
    for (int i = 0; i <= N; i++) Z.add(moved[i]);
    mesh::mesh_t<geometry::geometric_simplex_t<N, N>> m, n;
    auto &c = m.insert(simplex<N, N>(S, a));
    auto &d = n.insert(simplex<N, N>(S, a));
    const auto P = manifolds::manifold(m, S.cs), Q = manifolds::manifold(m, other), R = manifolds::manifold(n, other);
    const double p = signed_measure<N>(S, a) / fact(N), q = signed_measure<N>(Z, a) / fact(N);
    sx_eq("volume of the cell", P.volume(c), p);
    sx_eq("volume of the cell in the other system", Q.volume(c), q);
    sx_eq("volume of the cell of the other mesh", R.volume(d), q);
    sx_eq("volume of the cell again", P.volume(c), p);
    sx_eq("volume of the manifold", Q.volume(), q);
    sx_eq("volume of the manifold", P.volume(), p);
    const auto w = rvec<N>("w", -1, 1);
    const double b = sx_real("b", -1, 1);
    const auto f = field<N, r>(w, b);
    const auto I = quadrature::integrator<quadrature::GAUSS, r>(P);
    const auto J = quadrature::integrator<quadrature::GAUSS, r>(Q);
    sx_close("integral of a polynomial", I.integrate(f), p * mean<r, N>(S, a, w, b), 1e-7);
    sx_close("integral of a polynomial in the other system", J.integrate(f), q * mean<r, N>(Z, a, w, b), 1e-7);
    sx_close("integral of a polynomial", I.integrate(f), p * mean<r, N>(S, a, w, b), 1e-7);
}
SX_HARNESS(systems) { switch (sx_choose("dimension", 3)) { case 0: in_two_systems<1, 2>(); break; case 1: in_two_systems<2, 2>(); break; default: in_two_systems<3, 1>(); } }
// many cells
SX_HARNESS(grid)
{
    const int k = sx_bound("squares", 5);
    Nodes<2, 128> S;
    for (int j = 0; j <= k; j++) for (int i = 0; i <= k; i++) S.add(vec_t<2>{ i + 0.125 * ((i * j) % 3), j + 0.0625 * ((2 * i + j) % 4) });
    mesh::mesh_t<geometry::triangle_t<2>> m;
    const auto cells = grid_triangles(k, k);
    for (const auto &c : cells) m.insert(simplex<2, 2>(S, c));
    const auto M = manifolds::manifold(m, S.cs);
    const auto w = rvec<2>("w", -1, 1);
    const double c = sx_real("c", -1, 1);
    const auto f = field<2, 2>(w, c);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(M);
    double exact = 0, volume = 0;
    for (const auto &a : cells) { const double v = 0.5 * signed_measure<2>(S, a); volume += v; exact += v * mean<2, 2>(S, a, w, c); }
    sx_check(M.nElements() == (int)cells.size(), "number of cells of the manifold");
    sx_eq("volume of all cells", M.volume(), volume);
    sx_close("integral over all cells", I.integrate(f), exact, 1e-7);
    int n = 0;
    for (const auto &e : M.elements()) { sx_eq("volume of a cell", M.volume(e), 0.5 * signed_measure<2>(S, cells[n])); n++; }
    sx_check(n == (int)cells.size(), "the manifold visits every cell");
}
// cells are erased in between
SX_HARNESS(erased)
{
    const int k = 3;
    Nodes<2, 32> S;
    for (int j = 0; j <= k; j++) for (int i = 0; i <= k; i++) S.add(vec_t<2>{ i + 0.125 * ((i * j) % 3), j + 0.0625 * ((2 * i + j) % 4) });
    mesh::mesh_t<geometry::triangle_t<2>> m;
    const auto cells = grid_triangles(k, k);
    for (const auto &c : cells) m.insert(simplex<2, 2>(S, c));
    const auto M = manifolds::manifold(m, S.cs);
    const auto w = rvec<2>("w", -1, 1);
    const double c = sx_real("c", -1, 1);
    const auto f = field<2, 1>(w, c);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(M);
    std::vector<bool> there(cells.size(), true);
    const int first = sx_concretize(sx_choose("first", cells.size())), step = 1 + sx_concretize(sx_choose("step", 2));
    for (int r = 0; r < 4; r++) {
        const int gone = (first + 5 * step * r) % (int)cells.size();
        int n = 0;
        if (there[gone])
            for (auto &cell : m.cells()) {
                while (!there[n]) n++;
                if (n == gone) { m.erase(cell); break; }
                n++;
            }
        there[gone] = false;
        double exact = 0, volume = 0;
        for (size_t i = 0; i < cells.size(); i++) if (there[i]) { const double v = 0.5 * signed_measure<2>(S, cells[i]); volume += v; exact += v * mean<1, 2>(S, cells[i], w, c); }
        sx_eq("volume of what is left", M.volume(), volume);
        sx_close("integral over what is left", I.integrate(f), exact, 1e-7);
    }
}
// cells and fields from tiny to huge
template <int N> static void scaled()
{
    static const double size[] = { 1e-9, 1e-4, 1e6 };
    const double u = size[sx_concretize(sx_choose("size", 3))], s = size[sx_concretize(sx_choose("size of the field", 3))];
    Nodes<N, 5> S;
    vec_t<N> x[5];
    std::array<int, N + 1> a;
    for (int i = 0; i < N + 2; i++) { x[i] = rvec<N>("x"); S.add(vec_t<N>(u * x[i])); }
    for (int i = 0; i <= N; i++) a[i] = i;
    auto b = a;
    b[0] = N + 1;
    struct { vec_t<N> *p; } unit{ x };
    mesh::mesh_t<geometry::geometric_simplex_t<N, N>> m;
    m.insert(simplex<N, N>(S, a));
    m.insert(simplex<N, N>(S, b));
    const auto man = manifolds::manifold(m, S.cs);
    double un = 1;
    for (int i = 0; i < N; i++) un *= u;
    const double v[2] = { signed_measure<N>(unit, a) / fact(N), signed_measure<N>(unit, b) / fact(N) };
    int n = 0;
    for (const auto &c : m.cells()) sx_eq("volume of a cell", man.volume(c) / un, v[n++]);
    sx_eq("volume of the manifold", man.volume() / un, v[0] + v[1]);
    const double k = sx_real("k", -1, 1);
    const auto I = quadrature::integrator<quadrature::GAUSS, 2>(man);
    sx_eq("integral of a constant", I.integrate(functions::constant<cart_t<N>>(k * s)) / un / s, k * (v[0] + v[1]));
    const auto w = rvec<N>("w", -1, 1);
    const auto f = functions::function([&](const cart_t<N> &y) -> double { double t = 0; for (int i = 0; i < N; i++) t += w[i] * y[i]; return s * t; });
    double mean[2] = { 0, 0 };
    for (int i = 0; i <= N; i++) { mean[0] += dot<N>(w, x[a[i]]) / (N + 1); mean[1] += dot<N>(w, x[b[i]]) / (N + 1); }
    sx_close("integral of a linear field", I.integrate(f) / un / s / u, v[0] * mean[0] + v[1] * mean[1], 1e-7);
}
SX_HARNESS(scales) { switch (sx_concretize(sx_choose("dimension", 3))) { case 0: scaled<1>(); break; case 1: scaled<2>(); break; default: scaled<3>(); } }
