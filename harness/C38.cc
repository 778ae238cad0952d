// The system handed to the linear solver is the sum of what was put in, and what is read back solves it.
// @flags -include cassert -fdelete-null-pointer-checks -D_GLIBCXX_EXTERN_TEMPLATE=0
// @run history quick:steps=3 thorough:steps=4
// @run rounds
// @run large quick:equations=24 thorough:equations=60
// @run scales
// @run two_systems
// @run options
// @run finite_elements
#include "fem.h"
#include <mito/matrix_solvers/backend/petsc.h>
#include <mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc>
#include <mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc>
#include <mito/solvers.h>
namespace backend = matrix_solvers::petsc;
static int pick(const char *what, int n) { return sx_concretize(sx_choose(what, n)); }
// what the system is expected to hold
struct Expected {
    int n;
    double A[3][3] = {}, b[3] = {};
    // the system that was solved is this one, and its solution is what was read
    void solved_by(const std::vector<double> & x) const
    {
        const auto & p = sx_petsc();
        sx_check(p.n == n && (int) p.x.size() == n, "the system that was solved has the right size");
        for (int i = 0; i < n; i++) {
            sx_eq("right hand side that was solved for", p.b[i], b[i]);
            sx_eq("solution", x[i], p.x[i]);
            for (int j = 0; j < n; j++) sx_eq("matrix that was solved with", p.A[i * n + j], A[i][j]);
        }
    }
};
static void processes()
{
    auto & s = sx_petsc();
    s.procs = 1 + pick("processes", 2);
    if (s.procs > 1) s.rank = pick("rank", 2);
}
static void put(backend::linear_system_t & ls, Expected & e, int what, int i, int j, double v)
{
    switch (what) {
        case 0: ls.add_matrix_value(i, j, v); e.A[i][j] += v; break;
        case 1: ls.add_rhs_value(i, v); e.b[i] += v; break;
        case 2: ls.insert_matrix_value(i, j, v); e.A[i][j] = v; break;
        case 3: ls.insert_rhs_value(i, v); e.b[i] = v; break;
    }
}
static void finish(backend::linear_system_t & ls, backend::ksp_t & k, const Expected & e)
{
    k.solve();
    std::vector<double> x(e.n, 77.0);
    ls.get_solution(x);
    e.solved_by(x);
}
// any history of additions or insertions on top of a filled system
SX_HARNESS(history)
{
    processes();
    const int n = 1 + pick("equations", 3);
    const long heap = sx_heap_live();
    {
        Expected e{ n };
        auto ls = backend::linear_system("system");
        ls.create(n);
        sx_check(ls.n_equations() == n, "number of equations");
        auto k = backend::ksp(ls);
        k.create();
        const int insert = pick("insert", 2) * 2;
        for (int i = 0; i < n; i++) {
            put(ls, e, insert + 1, i, 0, sx_real("right hand side", -5, 5));
            for (int j = 0; j < n; j++) put(ls, e, insert, i, j, sx_real("matrix", -5, 5));
        }
        const int steps = sx_bound("steps", 3);
        for (int s = 0; s < steps; s++) {
            const int what = insert + pick("operation", 2), i = pick("row", n), j = (what & 1) ? 0 : pick("column", n);
            put(ls, e, what, i, j, sx_real("value", -5, 5));
        }
        finish(ls, k, e);
        k.destroy();
    }
    sx_check(sx_petsc().alive == 0, "everything that was created is destroyed");
}
// the system goes on from where it was after it has been solved; adding and inserting alternate with assemblies in between
SX_HARNESS(rounds)
{
    processes();
    const int n = 2;
    Expected e{ n };
    auto ls = backend::linear_system("system");
    ls.create(n);
    auto k = backend::ksp(ls);
    k.create();
    for (int i = 0; i < n; i++) { put(ls, e, 3, i, 0, sx_real("right hand side", -5, 5)); for (int j = 0; j < n; j++) put(ls, e, 2, i, j, i == j ? 3 : 1); }
    finish(ls, k, e);
    for (int r = 0; r < 2; r++) {
        const int insert = pick("insert", 2) * 2, i = pick("row", 2), j = pick("column", 2), p = pick("right hand side row", 3);
        put(ls, e, insert, i, j, sx_real("matrix value", -5, 5));
        if (p < 2) put(ls, e, insert + 1, p, 0, sx_real("right hand side value", -5, 5));
        if (r == 0 && pick("assemble only", 2)) ls.assemble();
        else finish(ls, k, e);
    }
    if (pick("print", 2)) { k.print(); ls.print(); }
    k.destroy();
    sx_check(sx_petsc().alive == 0, "everything that was created is destroyed");
}
// many equations: what is put in goes where it belongs
SX_HARNESS(large)
{
    processes();
    const int n = sx_bound("equations", 24), band = 3;
    std::vector<double> A(n * n, 0.0), b(n, 0.0);
    auto ls = backend::linear_system("system");
    ls.create(n);
    sx_check(ls.n_equations() == n, "number of equations");
    auto k = backend::ksp(ls);
    k.create();
    for (int r = 0; r < 2; r++)
        for (int i = 0; i < n; i++) {
            const double v = sx_real("right hand side", -5, 5);
            ls.add_rhs_value(i, v);
            b[i] += v;
            for (int j = i - band; j <= i + band; j++) {
                const int q = (j + n) % n;
                const double a = sx_real("matrix", -5, 5);
                ls.add_matrix_value(i, q, a);
                A[i * n + q] += a;
            }
        }
    for (int i = 0; i < n; i++) { ls.add_matrix_value(n - 1, i, 0.5); A[(n - 1) * n + i] += 0.5; }
    k.solve();
    std::vector<double> x(n, 77.0);
    ls.get_solution(x);
    const auto & p = sx_petsc();
    sx_check(p.n == n && (int) p.x.size() == n, "the system that was solved has the right size");
    for (int i = 0; i < n; i++) {
        sx_eq("right hand side that was solved for", p.b[i], b[i]);
        sx_eq("solution", x[i], p.x[i]);
        for (int j = 0; j < n; j++) sx_eq("matrix that was solved with", p.A[i * n + j], A[i * n + j]);
    }
    k.destroy();
    sx_check(sx_petsc().alive == 0, "everything that was created is destroyed");
}
// values of any size, from tiny to huge, go in as they are
SX_HARNESS(scales)
{
    static const double size[] = { 1e-30, 1e-12, 1, 1e12, 1e30 };
    const double u = size[pick("size", 5)];
    const int insert = pick("insert", 2);
    auto ls = backend::linear_system("system");
    ls.create(2);
    auto k = backend::ksp(ls);
    k.create();
    double a[4], b[2];
    for (int i = 0; i < 2; i++) {
        b[i] = sx_real("right hand side", 1, 5) * u;
        if (insert) ls.insert_rhs_value(i, b[i]); else ls.add_rhs_value(i, b[i]);
        for (int j = 0; j < 2; j++) {
            a[2 * i + j] = sx_real("matrix", 1, 5) * (i == j ? 1 : -0.1) * u;
            if (insert) ls.insert_matrix_value(i, j, a[2 * i + j]); else ls.add_matrix_value(i, j, a[2 * i + j]);
        }
    }
    k.solve();
    const auto & p = sx_petsc();
    for (int i = 0; i < 2; i++) {
        sx_eq("right hand side that was solved for", p.b[i] / u, b[i] / u);
        for (int j = 0; j < 2; j++) sx_eq("matrix that was solved with", p.A[2 * i + j] / u, a[2 * i + j] / u);
    }
    k.destroy();
}
// systems are independent of each other
SX_HARNESS(two_systems)
{
    processes();
    Expected e{ 2 }, f{ 1 + pick("equations", 3) };
    auto l = backend::linear_system("first"), m = backend::linear_system("second");
    l.create(e.n); m.create(f.n);
    auto k = backend::ksp(l), h = backend::ksp(m);
    k.create(); h.create();
    for (int i = 0; i < 3; i++) {
        if (i < e.n) put(l, e, 1, i, 0, sx_real("first", -5, 5));
        if (i < f.n) put(m, f, 1, i, 0, sx_real("second", -5, 5));
        for (int j = 0; j < 3; j++) {
            if (i < e.n && j < e.n) put(l, e, 0, i, j, i == j ? sx_real("diagonal of the first", 2, 5) : 0.5);
            if (i < f.n && j < f.n) put(m, f, 0, i, j, i == j ? 2 : 0.25 * j);
        }
    }
    std::vector<double> x(e.n), y(f.n);
    k.solve();
    const auto first_result = sx_petsc().x;
    h.solve();
    if (pick("read second first", 2)) { m.get_solution(y); l.get_solution(x); } else { l.get_solution(x); m.get_solution(y); }
    f.solved_by(y);
    for (int i = 0; i < e.n; i++) sx_eq("solution of the first system", x[i], first_result[i]);
    const bool first = pick("destroy first", 2);
    (first ? k : h).destroy();
    // the other one is still usable
    Expected & g = first ? f : e;
    auto & rest = first ? m : l;
    put(rest, g, 1, 0, 0, sx_real("more", -5, 5));
    finish(rest, first ? h : k, g);
    (first ? h : k).destroy();
    sx_check(sx_petsc().alive == 0, "everything that was created is destroyed");
}
// options reach the solver they were set on, and no other
SX_HARNESS(options)
{
    static const char *const name[] = { "-ksp_monitor", "-ksp_type", "-Own_type" }, *const value[] = { "cg", "1e-10", "-1.0", "", "2" };
    const char *labels[] = { "s", "left", "a-b", "thermoelasticity_on_the_right" };
    const int l = pick("label", 4);
    auto ls = backend::linear_system(labels[l]), other = backend::linear_system(l == 3 ? "thermoelasticity_on_the_left" : "other");
    sx_check(ls.label() == labels[l], "the label of the system");
    ls.create(1); other.create(1);
    auto k = backend::ksp(ls), h = backend::ksp(other);
    k.create(); h.create();
    const int count = pick("options", 3);
    std::string text;
    std::vector<std::string> want;
    for (int i = 0; i < count; i++) {
        const int a = pick("option", 3), v = pick("value", 5);
        if (i) text += pick("blanks", 2) ? "  " : " ";
        text += name[a];
        want.push_back(std::string("-") + labels[l] + "_" + (name[a] + 1));
        if (*value[v]) { text += " "; text += value[v]; want.push_back(value[v]); }
    }
    const int around = pick("blanks around", 3);
    k.set_options(around == 1 ? " " + text : around == 2 ? text + " " : text);
    const auto & got = sx_petsc().options;
    sx_check(got.size() == want.size(), "number of words handed to the options database");
    for (size_t i = 0; i < want.size(); i++) sx_check(got[i] == want[i], "options carry the prefix of their system, values are left alone");
    if (l == 0 || l == 3) { h.set_options("-ksp_rtol 0.1"); sx_check(got.size() == want.size() + 2 && got[want.size()] == (l == 3 ? "-thermoelasticity_on_the_left_ksp_rtol" : "-other_ksp_rtol") && got.back() == "0.1", "options of the other system"); }
    k.destroy(); h.destroy();
}
// from the weak form to the solution field
SX_HARNESS(finite_elements)
{
    using E = fem::isoparametric_simplex_t<1, geometry::segment_t<1>>;
    using Q = quadrature::quadrature_rule_t<quadrature::GAUSS, geometry::reference_segment_t, 2>;
    Nodes<1, 6> S;
    const int free = 1 + pick("free nodes", 2);
    double x[5];
    x[0] = 0;
    for (int i = 1; i <= free + 1; i++) x[i] = x[i - 1] + sx_real("length", 0.5, 2);
    for (int i = 0; i <= free + 1; i++) { vec_t<1> p; p[0] = x[i]; S.add(p); }
    mesh::mesh_t<geometry::segment_t<1>> m;
    for (int i = 0; i <= free; i++) m.insert(simplex<1, 1>(S, std::array<int, 2>{ i, i + 1 }));
    const auto man = manifolds::manifold(m, S.cs);
    std::unordered_set<geometry::node_t<1>, utilities::hash_function<geometry::node_t<1>>> ends;
    ends.insert(S.n[0]); ends.insert(S.n[free + 1]);
    const auto zero = functions::zero<cart_t<1>>;
    const auto bc = constraints::dirichlet_bc(ends, zero);
    const auto space = fem::function_space<E>(man, bc);
    const auto stiff = fem::blocks::grad_grad_block<E, Q>();
    const double c = sx_real("source", -3, 3);
    const auto f = functions::constant<cart_t<1>>(c);
    const auto source = fem::blocks::source_term_block<E, Q>(f);
    auto w = fem::weakform<E>();
    w.add_block(stiff); w.add_block(source);
    auto sys = fem::discrete_system<backend::linear_system_t>("poisson", space, w);
    auto solver = solvers::linear_solver<backend::ksp_t>(sys);
    sx_petsc().exact = true;
    solver.set_options("-ksp_type cg");
    const int times = 1 + pick("solve again", 2);
    for (int t = 0; t < times; t++) solver.solve();
    // linear elements in one dimension are exact at the nodes: -u'' = c
    for (const auto & e : space.elements())
        for (int i = 0; i < 2; i++) {
            int at = -1;
            for (int q = 0; q <= free + 1; q++) if (e.cell().nodes()[i] == S.n[q]) at = q;
            sx_check(at >= 0, "the nodes of the elements are the nodes of the mesh");
            sx_close("solution at the nodes", sys.solution()(e.connectivity()[i]), c * x[at] * (x[free + 1] - x[at]) / 2, 1e-6);
        }
    solver.print();
    solver.destroy();
    sx_check(sx_petsc().alive == 0, "everything that was created is destroyed");
}
