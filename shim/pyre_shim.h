// Environment shim: the pyre release in this sandbox (1.14.0) lacks pyre::tensor::traits::transpose,
// which lib/mito/functions/traits.h names. This header supplies that one *type* trait.
#pragma once
// standard headers that the project's own test drivers bring in before mito
#include <cassert>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <array>
#include <tuple>
#include <functional>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <fstream>
#include <memory>
#include <string>
#define HAVE_TENSOR
#define HAVE_COMPACT_PACKINGS
#include <pyre/tensor.h>
namespace pyre::tensor::traits {
    template <class T>
    struct transpose;
    template <int D1, int D2, typename T, class packingT>
    struct transpose<pyre::tensor::matrix_t<D1, D2, T, packingT>> {
        using type = pyre::tensor::matrix_t<D2, D1, T, packingT>;
    };
}
