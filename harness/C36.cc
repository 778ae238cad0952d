// Discrete fields return what was stored for each entity.
// @flags -include cassert -fdelete-null-pointer-checks
// @run discretization_nodes quick:steps=4 thorough:steps=6
// @run points quick:steps=4 thorough:steps=5
// @run nodes quick:steps=3 thorough:steps=5
// @run cells quick:steps=3 thorough:steps=5
// @run growth quick:keys=40 thorough:keys=120
// @run duplicate
// @run missing
// @run from_keys quick:keys=4 thorough:keys=6
// @run mesh_fields quick:cells=2 thorough:cells=3
// @run mesh_function quick:cells=2 thorough:cells=3
// @run quadrature_fields quick:cells=2 thorough:cells=3
// @run point_fields
// @run fem_fields quick:cells=2 thorough:cells=3
// @run reused_addresses opt:--heap-down
// @run reused_addresses
#include "fem.h"
using scalar = tensor::scalar_t;
static auto dnode() { return discrete::discretization_node_t(); }
constexpr int KEYS = 4;
// values with up to four components
template <class Y> struct Value;
template <> struct Value<scalar> {
    static constexpr int n = 1;
    static double get(const scalar &v, int) { return v; }
    static void set(scalar &v, int, double x) { v = x; }
};
template <int D> struct Value<tensor::vector_t<D>> {
    static constexpr int n = D;
    static double get(const tensor::vector_t<D> &v, int k) { return v[k]; }
    static void set(tensor::vector_t<D> &v, int k, double x) { v[k] = x; }
};
template <> struct Value<tensor::matrix_t<2>> {
    static constexpr int n = 4;
    static double get(const tensor::matrix_t<2> &v, int k) { return v[k]; }
    static void set(tensor::matrix_t<2> &v, int k, double x) { v[k] = x; }
};
template <class Y, size_t Q> struct Value<std::array<Y, Q>> {
    static constexpr int m = Value<Y>::n, n = m * Q;
    static double get(const std::array<Y, Q> &v, int k) { return Value<Y>::get(v[k / m], k % m); }
    static void set(std::array<Y, Q> &v, int k, double x) { Value<Y>::set(v[k / m], k % m, x); }
};
template <class Y> static Y fresh(std::array<double, Value<Y>::n> &model)
{
    Y y;
    for (int k = 0; k < Value<Y>::n; k++) Value<Y>::set(y, k, model[k] = sx_real("value", -100, 100));
    return y;
}
// compare the whole field with the model
template <class F, class K, class M> static void compare(F &f, const K &keys, const M &model, const bool *in)
{
    using V = Value<typename F::value_type>;
    const F &c = f;
    int size = 0;
    for (int i = 0; i < KEYS; i++) {
        size += in[i];
        if (!in[i]) continue;
        for (int k = 0; k < V::n; k++) {
            sx_eq("the value written last", V::get(c(keys[i]), k), model[i][k]);
            sx_eq("the mutable value is the same", V::get(f(keys[i]), k), model[i][k]);
        }
    }
    sx_check(f.size() == size, "one value per entity inserted");
    int seen[KEYS] = {}, n = 0;
    for (const auto &[key, value] : c) {
        n++;
        bool found = false;
        for (int i = 0; i < KEYS; i++) if (in[i] && keys[i] == key) {
            seen[i]++; found = true;
            for (int k = 0; k < V::n; k++) sx_eq("traversal pairs entities with their values", V::get(value, k), model[i][k]);
        }
        sx_check(found, "traversal visits inserted entities");
    }
    sx_check(n == size, "traversal visits every entity");
    for (int i = 0; i < KEYS; i++) sx_check(seen[i] == in[i], "traversal visits every entity once");
    int cn = 0, mn = 0;
    for (auto it = f.cbegin(); it != f.cend(); ++it) cn++;
    for (auto &x : f) { (void)x; mn++; }
    sx_check(cn == size && mn == size, "every traversal visits every entity");
}
template <class Key, class Y> static void history(const std::array<Key, KEYS> &keys)
{
    using F = discrete::DiscreteField<Key, Y>;
    using V = Value<Y>;
    F f("the field");
    sx_check(f.size() == 0 && f.begin() == f.end(), "starts empty");
    std::array<std::array<double, V::n>, KEYS> model{};
    bool in[KEYS] = {};
    const int steps = sx_bound("steps", 4);
    for (int s = 0; s < steps; s++) {
        const int i = sx_choose("entity", KEYS);
        switch (sx_choose("operation", in[i] ? 3 : 2)) {
            case 0:
                if (in[i]) { f(keys[i]) = fresh<Y>(model[i]); break; }
                f.insert(keys[i], fresh<Y>(model[i])); in[i] = true; break;
            case 1:
                if (in[i]) { // through a reference obtained by traversal
                    const auto v = fresh<Y>(model[i]);
                    for (auto &[key, value] : f) if (key == keys[i]) value = v;
                    break;
                }
                f.insert(keys[i]); in[i] = true; model[i].fill(0); break;
            case 2: { // one component through a reference
                auto &r = f(keys[i]);
                const int k = V::n - 1;
                V::set(r, k, model[i][k] = sx_real("component", -100, 100));
                break;
            }
        }
    }
    compare(f, keys, model, in);
    F g(std::move(f));
    compare(g, keys, model, in);
    sx_check(g.name() == "the field", "name");
}
SX_HARNESS(discretization_nodes)
{
    std::array<discrete::discretization_node_t, KEYS> k;
    for (auto &x : k) x = dnode();
    history<discrete::discretization_node_t, scalar>(k);
}
SX_HARNESS(points)
{
    auto &cloud = geometry::point_cloud<3>();
    std::vector<geometry::point_t<3>> p;
    for (int i = 0; i < KEYS; i++) p.push_back(cloud.point());
    history<geometry::point_t<3>, tensor::vector_t<2>>({ p[0], p[1], p[2], p[3] });
}
SX_HARNESS(nodes)
{
    Nodes<2, 6> S;
    S.add_free(4);
    history<geometry::node_t<2>, tensor::matrix_t<2>>({ S.n[0], S.n[1], S.n[2], S.n[3] });
}
SX_HARNESS(cells)
{
    Nodes<2, 6> S;
    S.add_free(4);
    using K = geometry::triangle_t<2>::simplex_type;
    auto t = [&](int a, int b, int c) -> K { return simplex<2, 2>(S, std::array<int, 3>{ a, b, c }).simplex(); };
    // the first two are the two orientations of the same triangle
    history<K, std::array<tensor::vector_t<2>, 2>>({ t(0, 1, 2), t(0, 2, 1), t(1, 3, 2), t(0, 3, 1) });
}
// many entities, well past the sizes at which the table of the field grows
SX_HARNESS(growth)
{
    const int n = sx_bound("keys", 40);
    std::vector<discrete::discretization_node_t> k(n);
    discrete::nodal_field_t<scalar> f("f");
    std::vector<double> v(n);
    const int without = sx_concretize(sx_choose("without a value", n)), after = sx_concretize(sx_choose("kind", 2));
    for (int i = 0; i < n; i++) {
        v[i] = sx_real("value", -100, 100);
        if (i == without) { f.insert(k[i]); v[i] = 0; }
        else if (after && i % 2) { f.insert(k[i]); f(k[i]) = v[i]; }
        else f.insert(k[i], v[i]);
        sx_check(f.size() == i + 1, "one value per entity");
    }
    for (int i = 0; i < n; i++) sx_eq("the value written last", f(k[i]), v[i]);
    discrete::nodal_field_t<scalar> g(std::move(f));
    for (int i = 0; i < n; i++) sx_eq("the value written last, after a move", g(k[i]), v[i]);
    int seen = 0;
    for (const auto &[x, z] : g) { seen++; for (int i = 0; i < n; i++) if (x == k[i]) sx_eq("traversal", z, v[i]); }
    sx_check(seen == n, "traversal visits every entity");
}
SX_HARNESS(duplicate)
{
    std::array<discrete::discretization_node_t, KEYS> k;
    discrete::nodal_field_t<scalar> f("f");
    for (auto &x : k) { x = dnode(); f.insert(x, sx_real("value", -9, 9)); }
    const int i = sx_choose("entity", KEYS);
    const bool def = sx_choose("default", 2);
    sx_expect_reject();
    if (def) f.insert(k[i]);
    else f.insert(k[i], sx_real("value", -9, 9));
}
SX_HARNESS(missing)
{
    std::array<discrete::discretization_node_t, KEYS> k;
    discrete::nodal_field_t<scalar> f("f");
    const int out = sx_choose("entity", KEYS);
    const bool read = sx_choose("read", 2);
    int i = 0;
    for (auto &x : k) { x = dnode(); if (i++ != out) f.insert(x, 1); }
    const auto &c = f;
    sx_expect_reject();
    if (read) sx_observe_d("read", c(k[out]));
    else f(k[out]) = 2;
}
// a field on the entities of a collection
SX_HARNESS(from_keys)
{
    const int n = sx_bound("keys", 4);
    std::vector<discrete::discretization_node_t> all;
    std::unordered_set<discrete::discretization_node_t, utilities::hash_function<discrete::discretization_node_t>> some;
    std::vector<bool> in(n);
    int size = 0;
    for (int i = 0; i < n; i++) {
        all.push_back(dnode());
        if ((in[i] = sx_choose("in", 2))) { some.insert(all[i]); size++; }
    }
    discrete::nodal_field_t<tensor::vector_t<3>> f(some, "name");
    sx_check(f.size() == size, "one value per entity");
    for (int i = 0; i < n; i++) if (in[i]) for (int k = 0; k < 3; k++) sx_eq("zero", f(all[i])[k], 0);
    std::vector<double> v(n);
    for (int i = 0; i < n; i++) if (in[i]) f(all[i])[1] = v[i] = sx_real("v", -10, 10);
    for (int i = 0; i < n; i++) if (in[i]) { sx_eq("stored", f(all[i])[1], v[i]); sx_eq("others zero", f(all[i])[0], 0); }
    sx_check(f.name() == "name", "name");
}
// a few triangles on shared nodes
static int triangles(Nodes<2, 6> &S, mesh::mesh_t<geometry::triangle_t<2>> &m, std::vector<std::array<int, 3>> &cells, std::set<int> &used)
{
    S.add_free(5);
    const int k = sx_choose("cells", sx_bound("cells", 2) + 1);
    for (int i = 0; i < k; i++) {
        if (i == 0) cells.push_back({ 0, 1, 2 });
        else if (i == 1) cells.push_back(triangle_of(5));
        else { const int w = sx_choose("neighbour", 3); cells.push_back(w == 0 ? std::array<int, 3>{ 0, 3, 1 } : w == 1 ? std::array<int, 3>{ 0, 2, 4 } : std::array<int, 3>{ 1, 4, 3 }); }
        for (int j = 0; j < i; j++) if (cells[j] == cells[i]) sx_stop();
        m.insert(simplex<2, 2>(S, cells.back()));
        for (int x : cells.back()) used.insert(x);
    }
    return k;
}
SX_HARNESS(mesh_fields)
{
    Nodes<2, 6> S;
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> cells;
    std::set<int> used;
    triangles(S, m, cells, used);
    auto f = discrete::mesh_field<tensor::vector_t<2>>(m, "displacement");
    sx_check(f.size() == (int)used.size(), "a value for every node of the mesh");
    sx_check(f.name() == "displacement", "name");
    for (int x : used) for (int k = 0; k < 2; k++) sx_eq("starts from zero", f(S.n[x])[k], 0);
    std::map<int, double> v;
    for (int x : used) f(S.n[x])[0] = v[x] = sx_real("v", -10, 10);
    for (int x : used) { sx_eq("stored", f(S.n[x])[0], v[x]); sx_eq("untouched", f(S.n[x])[1], 0); }
}
SX_HARNESS(mesh_function)
{
    Nodes<2, 6> S;
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> cells;
    std::set<int> used;
    triangles(S, m, cells, used);
    const double a = sx_real("a", -10, 10), b = sx_real("b", -10, 10);
    const auto fun = a * functions::component<cart_t<2>, 0> * functions::component<cart_t<2>, 1> + b * functions::component<cart_t<2>, 1>;
    auto f = discrete::mesh_field(m, S.cs, fun, "sampled");
    sx_check(f.size() == (int)used.size(), "a value for every node of the mesh");
    sx_check(f.name() == "sampled", "name");
    for (int x : used) sx_eq("the value of the function at the position of the node", f(S.n[x]), a * S.p[x][0] * S.p[x][1] + b * S.p[x][1]);
}
SX_HARNESS(quadrature_fields)
{
    Nodes<2, 6> S;
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> cells;
    std::set<int> used;
    const int k = triangles(S, m, cells, used);
    auto f = discrete::quadrature_field<tensor::vector_t<2>, 3>(m, "strain");
    sx_check(f.size() == k, "an entry for every cell");
    sx_check(f.name() == "strain", "name");
    std::vector<std::array<double, 6>> v(k);
    auto key = [&](int i) { return simplex<2, 2>(S, cells[i]).simplex(); };
    for (int i = 0; i < k; i++) for (int q = 0; q < 3; q++) for (int c = 0; c < 2; c++) {
        auto &x = f(key(i))[q][c];
        sx_eq("starts from zero", x, 0);
        x = v[i][2 * q + c] = sx_real("v", -10, 10);
    }
    int n = 0;
    for (const auto &cell : m.cells()) {
        const auto a = node_numbers<2>(S, cell);
        for (int i = 0; i < k; i++) if (cells[i] == a) {
            n++;
            for (int q = 0; q < 3; q++) for (int c = 0; c < 2; c++) sx_eq("stored at each quadrature point of each cell", f(cell.simplex())[q][c], v[i][2 * q + c]);
        }
    }
    sx_check(n == k, "every cell was found");
}
SX_HARNESS(point_fields)
{
    auto &cloud = geometry::point_cloud<2>();
    std::vector<geometry::point_t<2>> p;
    const int n = 1 + sx_choose("points", 4);
    const int before = cloud.size();
    for (int i = 0; i < n; i++) p.push_back(cloud.point());
    auto f = discrete::point_field<scalar>(cloud, "temperature");
    sx_check(f.size() == before + n, "a value for every point of the cloud");
    sx_check(f.name() == "temperature", "name");
    std::vector<double> v(n);
    for (int i = 0; i < n; i++) { sx_eq("zero", f(p[i]), 0); f(p[i]) = v[i] = sx_real("v", -10, 10); }
    for (int i = 0; i < n; i++) sx_eq("stored", f(p[i]), v[i]);
}
SX_HARNESS(fem_fields)
{
    Nodes<2, 6> S;
    mesh::mesh_t<geometry::triangle_t<2>> m;
    std::vector<std::array<int, 3>> cells;
    std::set<int> used;
    const int k = triangles(S, m, cells, used);
    if (!k) sx_stop();
    using E = fem::isoparametric_simplex_t<2, geometry::triangle_t<2>>;
    const auto zero = functions::zero<cart_t<2>>;
    const auto man = manifolds::manifold(m, S.cs);
    mesh::mesh_t<geometry::segment_t<2>> none;
    const auto space = fem::function_space<E>(man, constraints::dirichlet_bc(none, zero));
    auto f = space.template fem_field<scalar>("f");
    auto g = space.template fem_field<scalar>("g");
    // a value for every node of every element, zero until written
    std::vector<std::pair<discrete::discretization_node_t, double>> v;
    for (const auto &e : space.elements()) for (int i = 0; i < E::n_nodes; i++) {
        const auto x = e.connectivity()[i];
        bool seen = false;
        for (auto &[y, z] : v) seen |= y == x;
        if (seen) continue;
        sx_eq("starts from zero", f(x), 0);
        v.push_back({ x, sx_real("v", -10, 10) });
        f(x) = v.back().second;
    }
    sx_check(f.nodal_values().size() == (int)v.size(), "one value per node");
    sx_check(f.nodal_values().name() == "f" && g.nodal_values().name() == "g", "name");
    const auto &c = f;
    for (auto &[x, z] : v) { sx_eq("stored", c(x), z); sx_eq("fields are independent", g(x), 0); }
    int n = 0;
    for (const auto &[x, z] : c) { n++; for (auto &[y, w] : v) if (x == y) sx_eq("traversal", z, w); }
    sx_check(n == (int)v.size(), "traversal visits every node");
}
// entities that die before new ones are made do not leave values to them
SX_HARNESS(reused_addresses)
{
    discrete::nodal_field_t<scalar> f("f");
    std::vector<discrete::discretization_node_t> keep;
    std::vector<double> v;
    for (int i = 0; i < 3; i++) {
        // the field shares the ownership of its entities
        auto x = dnode();
        v.push_back(sx_real("v", -10, 10));
        f.insert(x, v.back());
        if (sx_choose("keep", 2)) keep.push_back(x);
        else {
            auto dead = dnode();
            (void)dead;
        }
    }
    sx_check(f.size() == 3, "one value per entity");
    auto y = dnode();
    for (const auto &[x, z] : f) sx_check(!(x == y), "a new entity is not in the field");
    f.insert(y, 5);
    sx_check(f.size() == 4, "one value per entity");
    double s = 0, t = 5;
    for (const auto &[x, z] : f) s += z;
    for (double z : v) t += z;
    sx_eq("all values", s, t);
    sx_eq("the new value", f(y), 5);
}
