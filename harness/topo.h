// Shared oracle for the topology harnesses: vertices are numbered, simplices are compared with vertex tuples.
#pragma once
#include "sx.h"
#include <mito/topology.h>
#include <array>
#include <vector>
#include <map>
using namespace mito;
using topology::vertex_t;
template <int N> using simplex_t = topology::simplex_t<N>;

constexpr int NV = 5;
static vertex_t V[NV];
static void make_vertices(int n)
{
    for (int i = 0; i < n; i++) V[i] = topology::topology().vertex();
}
static int vnum(const vertex_t & v)
{
    for (int i = 0; i < NV; i++)
        if (!V[i].is_nullptr() && V[i].id() == v.id()) return i;
    return -1;
}
// parity of the arrangement b relative to a (0 even, 1 odd), -1 if they are not the same distinct elements
template <size_t M>
static int parity(const std::array<int, M> & a, const std::array<int, M> & b)
{
    int p[M];
    for (size_t i = 0; i < M; i++) {
        p[i] = -1;
        for (size_t j = 0; j < M; j++)
            if (a[j] == b[i]) p[i] = j;
        if (p[i] < 0) return -1;
        for (size_t j = 0; j < i; j++)
            if (p[j] == p[i]) return -1;
    }
    int inv = 0;
    for (size_t i = 0; i < M; i++)
        for (size_t j = 0; j < i; j++) inv += p[j] > p[i];
    return inv % 2;
}
template <int N>
static std::array<int, N + 1> nums(const simplex_t<N> & s)
{
    std::array<int, N + 1> r;
    auto v = s->vertices();
    for (int i = 0; i <= N; i++) r[i] = vnum(v[i]);
    return r;
}
// an ordered choice of M distinct vertices out of n
template <int M>
static std::array<int, M> pick(const char * name, int n)
{
    std::array<int, M> a;
    for (int i = 0; i < M; i++) {
        int c = sx_choose(name, n - i);   // index among the remaining vertices
        bool used[NV] = {};
        for (int j = 0; j < i; j++) used[a[j]] = true;
        for (int v = 0; v < n; v++)
            if (!used[v] && c-- == 0) { a[i] = v; break; }
    }
    return a;
}
template <int N>
static simplex_t<N> build(const std::array<int, N + 1> & a)
{
    auto & T = topology::topology();
    if constexpr (N == 1) return T.segment({ V[a[0]], V[a[1]] });
    else if constexpr (N == 2) return T.triangle({ V[a[0]], V[a[1]], V[a[2]] });
    else return T.tetrahedron({ V[a[0]], V[a[1]], V[a[2]], V[a[3]] });
}
// oriented boundary as a chain: for each facet (sorted vertex set as a bit mask) its coefficient relative to the
// increasing order of its vertices
template <int N>
static void chain(const simplex_t<N> & s, std::map<int, int> & c, int factor = 1)
{
    for (const auto & f : s->composition()) {
        int sign = s->orientation();   // the facets are listed as they appear in the footprint
        if constexpr (N == 1) {
            c[1 << vnum(f->footprint())] += factor * sign * f->orientation();
        } else {
            auto n = nums<N - 1>(f);
            int mask = 0, inv = 0;
            for (int i = 0; i < N; i++) {
                mask |= 1 << n[i];
                for (int j = 0; j < i; j++) inv += n[j] > n[i];
            }
            c[mask] += factor * sign * (inv % 2 ? -1 : 1);
        }
    }
}
// the boundary of the vertex tuple a in the same representation
template <size_t M>
static void chain(const std::array<int, M> & a, std::map<int, int> & c)
{
    for (size_t k = 0; k < M; k++) {
        int mask = 0, inv = 0;
        for (size_t i = 0; i < M; i++) {
            if (i == k) continue;
            mask |= 1 << a[i];
            for (size_t j = 0; j < i; j++) inv += j != k && a[j] > a[i];
        }
        c[mask] += (inv % 2 ? -1 : 1) * (k % 2 ? -1 : 1);
    }
}
static bool equal_chains(const std::map<int, int> & a, const std::map<int, int> & b, int factor)
{
    if (a.size() != b.size()) return false;
    for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
        if (i->first != j->first || i->second != factor * j->second) return false;
    return true;
}
static bool zero_chain(const std::map<int, int> & a)
{
    for (auto & x : a)
        if (x.second != 0) return false;
    return true;
}
