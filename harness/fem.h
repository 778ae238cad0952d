// elements on symbolic nodes and the exact integrals over them
#pragma once
#include "geo.h"
#include <mito/fem.h>
template <int N, class G> static double comp(const G &g, int k)
{
    if constexpr (requires { g[k]; }) return g[k];
    else return g;
}
template <class ref, int N> static auto at(const double *v)
{
    tensor::vector_t<N> p;
    for (int k = 0; k < N; k++) p[k] = v[k];
    return typename ref::parametric_coordinates_type(p);
}
static constexpr double fem_fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// polynomials in the barycentric coordinates of up to three corners with (constant or symbolic) coefficients
struct BPoly {
    struct T { int e[3]; double c; };
    std::vector<T> t;
    static BPoly one(double c = 1) { return { { { { 0, 0, 0 }, c } } }; }
    static BPoly lambda(int i) { BPoly p = one(); p.t[0].e[i] = 1; return p; }
    BPoly operator*(double s) const { BPoly r = *this; for (auto &x : r.t) x.c *= s; return r; }
    BPoly operator+(const BPoly &o) const
    {
        BPoly r = *this;
        for (auto &x : o.t) {
            bool done = false;
            for (auto &y : r.t) if (x.e[0] == y.e[0] && x.e[1] == y.e[1] && x.e[2] == y.e[2]) { y.c += x.c; done = true; break; }
            if (!done) r.t.push_back(x);
        }
        return r;
    }
    BPoly operator*(const BPoly &o) const
    {
        BPoly r;
        for (auto &x : t) for (auto &y : o.t) {
            BPoly q{ { { { x.e[0] + y.e[0], x.e[1] + y.e[1], x.e[2] + y.e[2] }, x.c * y.c } } };
            r = r + q;
        }
        return r;
    }
    BPoly d(int i) const
    {
        BPoly r;
        for (auto x : t) if (x.e[i]) { x.c *= x.e[i]; x.e[i]--; r.t.push_back(x); }
        return r;
    }
    double operator()(const double *l) const
    {
        double s = 0;
        for (auto &x : t) { double m = x.c; for (int i = 0; i < 3; i++) for (int j = 0; j < x.e[i]; j++) m *= l[i]; s += m; }
        return s;
    }
    // mean value over a simplex with N + 1 corners
    template <int N> double mean() const
    {
        double s = 0;
        for (auto &x : t) s += x.c * (fem_fact(x.e[0]) * fem_fact(x.e[1]) * fem_fact(x.e[2]) * fem_fact(N) / fem_fact(x.e[0] + x.e[1] + x.e[2] + N));
        return s;
    }
};
// Lagrange polynomials: vertices, then the midpoints of the edges 01, 12, 20
template <int N, int degree> static BPoly lagrange(int a)
{
    if constexpr (degree == 1) return BPoly::lambda(a);
    else {
        if (a < 3) return BPoly::lambda(a) * (BPoly::lambda(a) * 2 + BPoly::one(-1));
        return BPoly::lambda(a - 3) * BPoly::lambda((a - 2) % 3) * 4;
    }
}
// gradients of the barycentric coordinates of the corners a of positive measure
template <int D, class S> static void barycentric_gradients(const S &s, const std::array<int, D + 1> &a, vec_t<D> *g)
{
    const double m = signed_measure<D>(s, a);
    if constexpr (D == 1) { g[0][0] = -1 / m; g[1][0] = 1 / m; }
    else for (int i = 0; i < 3; i++) {
        const auto &p = s.p[a[(i + 1) % 3]], &q = s.p[a[(i + 2) % 3]];
        g[i][0] = (p[1] - q[1]) / m;
        g[i][1] = (q[0] - p[0]) / m;
    }
}
// a linear system that records what is put into it and hands out the given solution
struct Recorder {
    std::string label;
    int n = -1, created = 0;
    bool outside = false;
    std::vector<std::vector<double>> A;
    std::vector<double> b, u;
    Recorder(const std::string &l) : label(l) {}
    void create(int k) { n = k; created++; A.assign(k, std::vector<double>(k, 0.0)); b.assign(k, 0.0); u.assign(k, 0.0); }
    int n_equations() const { return n; }
    bool in(int i) { if (i >= 0 && i < n) return true; outside = true; return false; }
    void add_matrix_value(int i, int j, double v) { if (in(i) && in(j)) A[i][j] += v; }
    void add_rhs_value(int i, double v) { if (in(i)) b[i] += v; }
    void get_solution(std::vector<double> &x) { for (int i = 0; i < n; i++) x[i] = u[i]; }
};
// an ordered choice of three nodes up to rotation: the smallest node comes first
static std::array<int, 3> triangle_of(int n)
{
    const int pick = sx_choose("triangle", n * (n - 1) * (n - 2) / 3);
    int k = 0;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = a + 1; c < n; c++) if (b != c && k++ == pick) return { a, b, c };
    return { 0, 1, 2 };
}
