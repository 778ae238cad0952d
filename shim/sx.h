// Harness interface. Under the symbolic executor these functions create symbolic inputs, assumptions
// and checks; in the native replay build (rt/native.cpp) they read a recorded assignment.
#pragma once
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <array>
#include <queue>
#include <algorithm>
#include <ranges>
#include <iostream>
#include <cassert>
extern "C" {
    int sx_int(const char * name, int lo, int hi);           // symbolic integer in [lo,hi]
    int sx_choose(const char * name, int n);                 // symbolic choice 0..n-1, split into separate paths
    double sx_real(const char * name, double lo, double hi); // symbolic real in [lo,hi]
    int sx_concretize(int v);                                // one path per feasible value of v
    void sx_assume(bool);
    void sx_check(bool, const char * label);
    void sx_close(const char * label, double a, double b, double tol);
    double sx_ddx_raw(double y, double x);
    int sx_symbolic();
    void sx_expect_reject();
    void sx_observe_i(const char * name, long v);
    void sx_observe_d(const char * name, double v);
    long sx_heap_live();
    int sx_bound(const char * name, int def);
    void sx_trace(const char *);
    void sx_trace_i(const char *, long);
    void sx_print_d(const char *, double);
    [[noreturn]] void sx_stop();
}
#define SX_HARNESS(name) extern "C" __attribute__((used, noinline)) void sxh_##name()

// default tolerance: the claims are about the exact-real meaning of the code; the tolerance only absorbs
// the rounding of literal constants and, in native replays, of the arithmetic itself
constexpr double SX_TOL = 1e-8;
inline void sx_eq(const char * label, double a, double b) { sx_close(label, a, b, SX_TOL); }

// derivative of f at x: exact symbolic derivative of the executed computation, or a fourth order
// extrapolated central difference in a native replay
template <class F>
inline double sx_ddx(F && f, double x)
{
    if (sx_symbolic())
        return sx_ddx_raw(f(x), x);
    double h = 1e-3;
    double d1 = (f(x + h) - f(x - h)) / (2 * h), d2 = (f(x + 2 * h) - f(x - 2 * h)) / (4 * h);
    double d3 = (f(x + 4 * h) - f(x - 4 * h)) / (8 * h);
    double e1 = (4 * d1 - d2) / 3, e2 = (4 * d2 - d3) / 3;
    return (16 * e1 - e2) / 15;
}
inline void sx_deq(const char * label, double a, double b) { sx_close(label, a, b, 1e-7); }
// an opaque use, so that the optimizer cannot remove the computation of v
template <class T> inline void sx_use(const T & v) { asm volatile("" : : "g"(&v) : "memory"); }
