// Points placed in a coordinate system keep their coordinates.
// @flags -include cassert
// @run histories quick:steps=5,points=3 thorough:steps=7,points=4
// @run many quick:points=40 thorough:points=130
// @run cloud quick:points=105 thorough:points=230
// @run several_systems
// @run change_of_coordinates
// @run cartesian_to_polar
// @run cartesian_to_spherical
// @run midpoints
// @run midpoints_polar
// @run midpoints_spherical
// @run duplicate
// @run scales
#include "geo.h"
template <int D> using point_t = geometry::point_t<D>;
// arbitrary interleavings of creating points, placing them, and looking others up
SX_HARNESS(histories)
{
    constexpr int D = 2;
    auto &cloud = geometry::point_cloud<D>();
    geometry::coordinate_system_t<cart_t<D>> cs;
    std::vector<point_t<D>> p;
    std::vector<vec_t<D>> x;    // the coordinates expected
    std::vector<bool> placed;
    const int steps = sx_bound("steps", 5), M = sx_bound("points", 3);
    for (int s = 0; s < steps; s++) {
        switch (sx_choose("op", 3)) {
        case 0:
            if ((int)p.size() == M) sx_stop();
            p.push_back(cloud.point());
            x.push_back({});
            placed.push_back(false);
            break;
        case 1: {
            if (p.empty()) sx_stop();
            const int i = sx_choose("which", p.size());
            if (placed[i]) sx_stop();
            x[i] = rvec<D>("x");
            cs.place(p[i], cart_t<D>(x[i]));
            placed[i] = true;
            break;
        }
        default: {
            if (p.empty()) sx_stop();
            const int i = sx_choose("which", p.size());
            if (!placed[i]) sx_stop();
            const auto handle = p[i];
            const auto &c = cs.coordinates(handle);
            for (int k = 0; k < D; k++) sx_eq("coordinates looked up", c[k], x[i][k]);
        }
        }
    }
    int seen = 0, expected = 0;
    for (size_t i = 0; i < p.size(); i++) {
        for (size_t j = 0; j < i; j++) sx_check(!(p[i] == p[j]) && p[i].id() != p[j].id(), "points are distinct");
        if (!placed[i]) continue;
        expected++;
        const auto &c = cs.coordinates(p[i]);
        for (int k = 0; k < D; k++) sx_eq("coordinates", c[k], x[i][k]);
    }
    for (const auto &[point, c] : cs) {
        seen++;
        int hits = 0;
        for (size_t i = 0; i < p.size(); i++)
            if (placed[i] && p[i] == point) {
                hits++;
                for (int k = 0; k < D; k++) sx_eq("coordinates visited", c[k], x[i][k]);
            }
        sx_check(hits == 1, "traversal visits placed points");
    }
    sx_check(seen == expected, "traversal visits every placed point once");
    sx_check(cloud.size() == (int)p.size(), "size of the cloud");
}
// enough points for the map to grow several times
SX_HARNESS(many)
{
    constexpr int D = 3;
    auto &cloud = geometry::point_cloud<D>();
    geometry::coordinate_system_t<cart_t<D>> cs;
    const int n = sx_bound("points", 40);
    std::vector<point_t<D>> p;
    std::vector<vec_t<D>> x;
    for (int i = 0; i < n; i++) {
        p.push_back(cloud.point());
        x.push_back(rvec<D>("x"));
        cs.place(p[i], cart_t<D>(x[i]));
        const auto &c = cs.coordinates(p[i / 2]);
        for (int k = 0; k < D; k++) sx_eq("coordinates of an earlier point", c[k], x[i / 2][k]);
    }
    // references stay valid while the map grows
    int seen = 0;
    for (int i = 0; i < n; i++) {
        const auto &c = cs.coordinates(p[i]);
        for (int k = 0; k < D; k++) sx_eq("coordinates", c[k], x[i][k]);
    }
    for (const auto &[point, c] : cs) { seen++; sx_use(c); }
    sx_check(seen == n, "every point is visited once");
}
// the cloud across several segments
SX_HARNESS(cloud)
{
    constexpr int D = 1;
    auto &cloud = geometry::point_cloud<D>();
    const int n = sx_bound("points", 105);
    const int have = sx_choose("how many", 4);
    const int count = have == 0 ? 0 : have == 1 ? 1 : have == 2 ? 100 : n;
    std::map<long, int> seen;
    std::vector<point_t<D>> keep;    // unused points are skipped
    for (int i = 0; i < count; i++) {
        auto p = cloud.point();
        keep.push_back(p);
        sx_check(seen.emplace((long)p.id(), 0).second, "points are distinct");
    }
    sx_check(cloud.size() == count, "size of the cloud");
    int total = 0;
    for (const auto &p : cloud.points()) { total++; auto it = seen.find((long)p.id()); sx_check(it != seen.end(), "visits points of the cloud"); it->second++; }
    sx_check(total == count, "traversing the points visits each once");
    for (const auto &p : cloud) { auto it = seen.find((long)p.id()); sx_check(it != seen.end(), "visits points of the cloud"); it->second++; }
    for (const auto &[id, k] : seen) sx_check(k == 2, "each point is visited once");
}
SX_HARNESS(several_systems)
{
    constexpr int D = 2;
    auto &cloud = geometry::point_cloud<D>();
    geometry::coordinate_system_t<cart_t<D>> one, two;
    point_t<D> p[3] = { cloud.point(), cloud.point(), cloud.point() };
    vec_t<D> x[3], y[3];
    for (int i = 0; i < 3; i++) { x[i] = rvec<D>("x"); y[i] = rvec<D>("y"); }
    const auto order = ordered<3>("order", 3);
    for (int i : order) { one.place(p[i], cart_t<D>(x[i])); two.place(p[2 - i], cart_t<D>(y[2 - i])); }
    for (int i = 0; i < 3; i++) for (int k = 0; k < D; k++) {
        sx_eq("first system", one.coordinates(p[i])[k], x[i][k]);
        sx_eq("second system", two.coordinates(p[i])[k], y[i][k]);
    }
    // points at the same place are still different points
    geometry::coordinate_system_t<cart_t<D>> same;
    same.place(p[0], cart_t<D>(x[0]));
    same.place(p[1], cart_t<D>(x[0]));
    same.place(p[2], cart_t<D>(x[1]));
    int n = 0;
    for (const auto &q : same) { n++; sx_use(q); }
    sx_check(n == 3, "points at the same place");
    for (int k = 0; k < D; k++) sx_eq("points at the same place", same.coordinates(p[1])[k], x[0][k]);
    for (int k = 0; k < D; k++) sx_eq("the origin", one.origin()[k], 0.0);
}
SX_HARNESS(change_of_coordinates)
{
    using polar_t = geometry::polar_coordinates_t;
    auto &cloud = geometry::point_cloud<2>();
    geometry::coordinate_system_t<polar_t> cs;
    point_t<2> p[3] = { cloud.point(), cloud.point(), cloud.point() };
    double r[3], t[3];
    for (int i = 0; i < 3; i++) { r[i] = sx_real("r", 0.5, 2); t[i] = sx_real("t", -1.5, 1.5); cs.place(p[i], polar_t({ r[i], t[i] })); }
    const auto cart = geometry::coordinate_system<cart_t<2>>(cs);
    for (int i = 0; i < 3; i++) {
        sx_eq("x", cart.coordinates(p[i])[0], r[i] * std::cos(t[i]));
        sx_eq("y", cart.coordinates(p[i])[1], r[i] * std::sin(t[i]));
        sx_eq("the first system keeps its coordinates", cs.coordinates(p[i])[0], r[i]);
    }
    const auto back = geometry::coordinate_system<polar_t>(cart);
    int n = 0;
    for (const auto &[q, c] : back) { n++; sx_use(c); }
    sx_check(n == 3, "all points are converted");
    for (int i = 0; i < 3; i++) {
        sx_eq("radius", back.coordinates(p[i])[0], r[i]);
        sx_eq("angle", std::sin(back.coordinates(p[i])[1]), std::sin(t[i]));
        sx_eq("angle", std::cos(back.coordinates(p[i])[1]), std::cos(t[i]));
    }
}
// systems made from Cartesian coordinates, with points at the origin and on the axis among them
SX_HARNESS(cartesian_to_polar)
{
    using polar_t = geometry::polar_coordinates_t;
    auto &cloud = geometry::point_cloud<2>();
    geometry::coordinate_system_t<cart_t<2>> cs;
    std::vector<point_t<2>> p;
    const vec_t<2> x[4] = { rvec<2>("x"), { 0.0, 0.0 }, { 0.0, sx_real("y", 0.5, 2) }, { sx_real("z", -2, -0.5), 0.0 } };
    for (int i = 0; i < 4; i++) { p.push_back(cloud.point()); cs.place(p[i], cart_t<2>(x[i])); }
    const auto polar = geometry::coordinate_system<polar_t>(cs);
    int n = 0;
    for (const auto &[q, c] : polar) { n++; sx_use(c); }
    sx_check(n == 4, "all points are converted");
    for (int i = 0; i < 4; i++) {
        const auto &c = polar.coordinates(p[i]);
        sx_check(c[0] >= 0, "radius is not negative");
        sx_eq("x", c[0] * std::cos(c[1]), x[i][0]);
        sx_eq("y", c[0] * std::sin(c[1]), x[i][1]);
        for (int k = 0; k < 2; k++) sx_eq("the first system keeps its coordinates", cs.coordinates(p[i])[k], x[i][k]);
    }
}
SX_HARNESS(cartesian_to_spherical)
{
    using sph_t = geometry::spherical_coordinates_t;
    auto &cloud = geometry::point_cloud<3>();
    geometry::coordinate_system_t<cart_t<3>> cs;
    std::vector<point_t<3>> p;
    const vec_t<3> x[4] = { rvec<3>("x"), { 0.0, 0.0, 0.0 }, { 0.0, 0.0, sx_real("z", -2, 2) }, { 0.0, sx_real("y", -2, -0.5), 0.0 } };
    for (int i = 0; i < 4; i++) { p.push_back(cloud.point()); cs.place(p[i], cart_t<3>(x[i])); }
    const auto sph = geometry::coordinate_system<sph_t>(cs);
    const auto back = geometry::coordinate_system<cart_t<3>>(sph);
    int n = 0;
    for (const auto &[q, c] : back) { n++; sx_use(c); }
    sx_check(n == 4, "all points are converted");
    for (int i = 0; i < 4; i++) {
        const auto &c = sph.coordinates(p[i]);
        sx_check(c[0] >= 0, "radius is not negative");
        sx_eq("z", c[0] * std::cos(c[1]), x[i][2]);
        for (int k = 0; k < 3; k++) sx_eq("there and back", back.coordinates(p[i])[k], x[i][k]);
    }
}
// the midpoint is half the displacement away from the first point, in every system
SX_HARNESS(midpoints_polar)
{
    using polar_t = geometry::polar_coordinates_t;
    auto &cloud = geometry::point_cloud<2>();
    geometry::coordinate_system_t<polar_t> cs;
    point_t<2> p[2] = { cloud.point(), cloud.point() };
    double r[2], t[2], x = 0, y = 0;
    for (int i = 0; i < 2; i++) {
        r[i] = sx_real("r", 0.5, 2); t[i] = sx_real("t", -1.5, 1.5);
        cs.place(p[i], polar_t({ r[i], t[i] }));
        x += 0.5 * r[i] * std::cos(t[i]); y += 0.5 * r[i] * std::sin(t[i]);
    }
    const auto m = cs.midpoint(p[0], p[1]);
    sx_eq("midpoint abscissa", m[0] * std::cos(m[1]), x);
    sx_eq("midpoint ordinate", m[0] * std::sin(m[1]), y);
}
SX_HARNESS(midpoints_spherical)
{
    using sph_t = geometry::spherical_coordinates_t;
    auto &cloud = geometry::point_cloud<3>();
    geometry::coordinate_system_t<sph_t> cs;
    point_t<3> p[2] = { cloud.point(), cloud.point() };
    double x[3] = { 0, 0, 0 };
    for (int i = 0; i < 2; i++) {
        const double r = sx_real("r", 0.5, 2), t = sx_real("t", 0.4, 1.2), f = sx_real("f", -1, 1);
        cs.place(p[i], sph_t({ r, t, f }));
        x[0] += 0.5 * r * std::sin(t) * std::cos(f); x[1] += 0.5 * r * std::sin(t) * std::sin(f); x[2] += 0.5 * r * std::cos(t);
    }
    const auto m = cs.midpoint(p[0], p[1]);
    sx_eq("midpoint x", m[0] * std::sin(m[1]) * std::cos(m[2]), x[0]);
    sx_eq("midpoint y", m[0] * std::sin(m[1]) * std::sin(m[2]), x[1]);
    sx_eq("midpoint z", m[0] * std::cos(m[1]), x[2]);
}
SX_HARNESS(midpoints)
{
    constexpr int D = 3;
    Nodes<D, 2> S;
    S.add_free(2);
    const auto m = S.cs.midpoint(S.n[0]->point(), S.n[1]->point());
    const double d = geometry::distance(S.n[0]->point(), S.n[1]->point(), S.cs);
    double d2 = 0;
    for (int k = 0; k < D; k++) { sx_eq("midpoint", m[k], 0.5 * (S.p[0][k] + S.p[1][k])); d2 += (S.p[0][k] - S.p[1][k]) * (S.p[0][k] - S.p[1][k]); }
    sx_check(d >= 0, "distance is not negative");
    sx_eq("distance of points", d * d, d2);
}
SX_HARNESS(duplicate)
{
    constexpr int D = 2;
    auto &cloud = geometry::point_cloud<D>();
    geometry::coordinate_system_t<cart_t<D>> cs;
    const auto p = cloud.point(), q = cloud.point();
    const auto x = rvec<D>("x"), y = rvec<D>("y");
    cs.place(p, cart_t<D>(x));
    const int which = sx_choose("which", 3);
    const int others = sx_choose("others", 4) * 5;    // so many others are placed first
    std::vector<point_t<D>> more;
    for (int i = 0; i < others; i++) { more.push_back(cloud.point()); cs.place(more.back(), cart_t<D>({ 1.0 * i, 2.0 })); }
    if (which == 0) { sx_expect_reject(); cs.place(p, cart_t<D>(y)); }
    else if (which == 1) { sx_expect_reject(); cs.coordinates(q); }
    else { cs.place(q, cart_t<D>(y)); for (int k = 0; k < D; k++) sx_eq("kept", cs.coordinates(p)[k], x[k]); sx_stop(); }
}
// coordinates from tiny to huge, points close to each other
SX_HARNESS(scales)
{
    static const double size[] = { 1e-12, 1e-6, 1e9 };
    const double u = size[sx_concretize(sx_choose("size", 3))];
    if (sx_concretize(sx_choose("system", 2))) {
        using polar_t = geometry::polar_coordinates_t;
        geometry::coordinate_system_t<polar_t> cs;
        auto &cloud = geometry::point_cloud<2>();
        const point_t<2> p[2] = { cloud.point(), cloud.point() };
        double r[2], t[2], x = 0, y = 0;
        for (int i = 0; i < 2; i++) {
            r[i] = sx_real("r", 0.5, 2); t[i] = sx_real("t", -1.5, 1.5);
            cs.place(p[i], polar_t({ r[i] * u, t[i] }));
            x += 0.5 * r[i] * std::cos(t[i]); y += 0.5 * r[i] * std::sin(t[i]);
        }
        for (int i = 0; i < 2; i++) { sx_eq("radius", cs.coordinates(p[i])[0] / u, r[i]); sx_eq("angle", cs.coordinates(p[i])[1], t[i]); }
        const auto m = cs.midpoint(p[0], p[1]);
        sx_eq("midpoint abscissa", m[0] / u * std::cos(m[1]), x);
        sx_eq("midpoint ordinate", m[0] / u * std::sin(m[1]), y);
        const auto cart = geometry::coordinate_system<cart_t<2>>(cs);
        for (int i = 0; i < 2; i++) {
            sx_eq("abscissa", cart.coordinates(p[i])[0] / u, r[i] * std::cos(t[i]));
            sx_eq("ordinate", cart.coordinates(p[i])[1] / u, r[i] * std::sin(t[i]));
        }
        return;
    }
    constexpr int D = 3;
    geometry::coordinate_system_t<cart_t<D>> cs;
    auto &cloud = geometry::point_cloud<D>();
    const point_t<D> p[3] = { cloud.point(), cloud.point(), cloud.point() };
    const vec_t<D> x = rvec<D>("x"), y = rvec<D>("y");
    cs.place(p[0], cart_t<D>(vec_t<D>(u * x)));
    cs.place(p[1], cart_t<D>(vec_t<D>(u * y)));
    cs.place(p[2], cart_t<D>(vec_t<D>(x)));
    for (int k = 0; k < D; k++) {
        sx_eq("coordinates of the first point", cs.coordinates(p[0])[k] / u, x[k]);
        sx_eq("coordinates of the second point", cs.coordinates(p[1])[k] / u, y[k]);
        sx_eq("coordinates of the third point", cs.coordinates(p[2])[k], x[k]);
    }
    const auto m = cs.midpoint(p[0], p[1]);
    double d2 = 0;
    for (int k = 0; k < D; k++) { sx_eq("midpoint", m[k] / u, 0.5 * (x[k] + y[k])); d2 += (x[k] - y[k]) * (x[k] - y[k]); }
    const double d = geometry::distance(p[0], p[1], cs) / u;
    sx_check(d >= 0, "distance is not negative");
    sx_eq("distance of points", d * d, d2);
}
