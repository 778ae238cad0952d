// nodes at symbolic positions and the simplices on them
#pragma once
#include "pyre_shim.h"
#include <mito/geometry.h>
#include "sx.h"
using namespace mito;
template <int D> using cart_t = geometry::coordinates_t<D, geometry::CARTESIAN>;
template <int D> using vec_t = tensor::vector_t<D>;
template <int D> static vec_t<D> rvec(const char *n, double lo = -2, double hi = 2) { vec_t<D> v; for (int i = 0; i < D; i++) v[i] = sx_real(n, lo, hi); return v; }
// up to M numbered nodes at the positions p
template <int D, int M> struct Nodes {
    geometry::coordinate_system_t<cart_t<D>> cs;
    vec_t<D> p[M];
    std::vector<geometry::node_t<D>> n;
    int count = 0;
    int add(const vec_t<D> &x)
    {
        p[count] = x;
        n.push_back(geometry::node(cs, cart_t<D>(x)));
        return count++;
    }
    void add_free(int k, double b = 2) { for (int i = 0; i < k; i++) add(rvec<D>("x", -b, b)); }
    int index(const geometry::node_t<D> &a) const { for (int i = 0; i < count; i++) if (n[i]->vertex().id() == a->vertex().id()) return i; return -1; }
    int vertex(const topology::vertex_t &v) const { for (int i = 0; i < count; i++) if (n[i]->vertex().id() == v.id()) return i; return -1; }
};
template <int N, int D, int M> static geometry::geometric_simplex_t<N, D> simplex(Nodes<D, M> &S, const std::array<int, N + 1> &a)
{
    if constexpr (N == 1) return geometry::segment<D>({ S.n[a[0]], S.n[a[1]] });
    else if constexpr (N == 2) return geometry::triangle<D>({ S.n[a[0]], S.n[a[1]], S.n[a[2]] });
    else return geometry::tetrahedron<D>({ S.n[a[0]], S.n[a[1]], S.n[a[2]], S.n[a[3]] });
}
template <int D> static double det(const vec_t<D> *v)
{
    if constexpr (D == 1) return v[0][0];
    else if constexpr (D == 2) return v[0][0] * v[1][1] - v[0][1] * v[1][0];
    else return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
}
// twice the signed area / six times the signed volume of numbered nodes
template <int N, class S> static double signed_measure(const S &s, const std::array<int, N + 1> &a)
{
    vec_t<N> e[N];
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) e[j][i] = s.p[a[j + 1]][i] - s.p[a[0]][i];
    return det<N>(e);
}
template <size_t M> static int permutation_parity(const std::array<int, M> &a, const std::array<int, M> &b)
{
    int p[M];
    for (size_t i = 0; i < M; i++) {
        p[i] = -1;
        for (size_t j = 0; j < M; j++) if (a[j] == b[i]) p[i] = j;
        if (p[i] < 0) return -1;
        for (size_t j = 0; j < i; j++) if (p[j] == p[i]) return -1;
    }
    int inv = 0;
    for (size_t i = 0; i < M; i++) for (size_t j = 0; j < i; j++) inv += p[j] > p[i];
    return inv % 2;
}
// an ordered choice of M distinct numbers out of 0..n-1
template <int M> static std::array<int, M> ordered(const char *name, int n)
{
    std::array<int, M> a{};
    for (int i = 0; i < M; i++) {
        int c = sx_choose(name, n - i);
        for (int v = 0; v < n; v++) {
            bool used = false;
            for (int j = 0; j < i; j++) used |= a[j] == v;
            if (!used && c-- == 0) { a[i] = v; break; }
        }
    }
    return a;
}
template <int N, class cellT, class S> static std::array<int, N + 1> node_numbers(const S &s, const cellT &c)
{
    std::array<int, N + 1> r;
    for (int i = 0; i <= N; i++) r[i] = s.index(c.nodes()[i]);
    return r;
}
template <int N, class cellT, class S> static std::array<int, N + 1> vertex_numbers(const S &s, const cellT &c)
{
    std::array<int, N + 1> r;
    auto v = c.simplex()->vertices();
    for (int i = 0; i <= N; i++) r[i] = s.vertex(v[i]);
    return r;
}
