#pragma once
#include "sx.h"
#include <mito/tensor.h>
using namespace mito;
using tensor::_;
template <int D>
static tensor::vector_t<D> vec(const char * name)
{
    tensor::vector_t<D> v;
    for (int i = 0; i < D; i++) v[i] = sx_real(name, -2, 2);
    return v;
}
template <int D>
static double dot(const tensor::vector_t<D> & a, const tensor::vector_t<D> & b)
{
    double s = 0;
    for (int i = 0; i < D; i++) s += a[i] * b[i];
    return s;
}
