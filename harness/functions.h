// generic differentiable operands with symbolic coefficients
#pragma once
#include "pyre_shim.h"
#include <mito/functions.h>
#include "sx.h"
using namespace mito;
namespace fn = mito::functions;
using v2 = tensor::vector_t<2>;
using v3 = tensor::vector_t<3>;
using m2 = tensor::matrix_t<2>;
static inline double coef(const char *n) { return sx_real(n, -2, 2); }
// a scalar function whose value and derivatives at a point are arbitrary
static inline auto scalar_f() { return coef("a") * fn::pow<2> + coef("b") * fn::sin + coef("c"); }
static inline auto scalar_g() { return coef("d") * fn::pow<3> + coef("e") * fn::pow<1> + coef("h"); }
// bounded away from zero
static inline auto positive() { return sx_real("p", 0.5, 2) * fn::pow<2> + sx_real("q", 0.5, 2); }
// the same for functions of a vector
template <class V> static inline auto vf() { auto x = fn::component<V, 0>; auto y = fn::component<V, 1>; return coef("a") * x * y + coef("b") * y + coef("c") * x + coef("f0"); }
template <class V> static inline auto vg() { auto x = fn::component<V, 0>; auto y = fn::component<V, 1>; return coef("d") * fn::pow<2>(x) + coef("e") * fn::sin(y) + coef("g0") * x; }
static inline v2 vec2(const char *n) { v2 v; v[0] = sx_real(n, -2, 2); v[1] = sx_real(n, -2, 2); return v; }
static inline v3 vec3(const char *n) { v3 v; for (int i = 0; i < 3; i++) v[i] = sx_real(n, -2, 2); return v; }
static inline m2 mat2(const char *n) { m2 m; for (int i = 0; i < 4; i++) m[i] = sx_real(n, -2, 2); return m; }
template <int D> static inline tensor::vector_t<D> vecN(const char *n) { tensor::vector_t<D> v; for (int i = 0; i < D; i++) v[i] = sx_real(n, -2, 2); return v; }
template <int D> static inline tensor::matrix_t<D> matN(const char *n) { tensor::matrix_t<D> m; for (int i = 0; i < D * D; i++) m[i] = sx_real(n, -2, 2); return m; }
// of either sign, away from zero
static inline double nonzero() { const double n = sx_real("n", 0.25, 3); return sx_choose("negative", 2) ? -n : n; }
