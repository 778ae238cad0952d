// Shared pieces for the material checks.
#pragma once
#include "sx.h"
#include <mito/materials.h>
using namespace mito;
using mat = tensor::matrix_t<3>;
// an arbitrary deformation gradient, each component within r of the identity
inline mat deformation(double r)
{
    mat F;
    for (int k = 0; k < 9; k++) { double c = k % 4 == 0 ? 1 : 0; F[{ k / 3, k % 3 }] = sx_real("F", c - r, c + r); }
    return F;
}
// an arbitrary deformation gradient with large stretches, within the range of materials with Jm >= 7
inline mat large_deformation()
{
    mat F;
    for (int k = 0; k < 9; k++) F[{ k / 3, k % 3 }] = k % 4 == 0 ? sx_real("F", 0.6, 1.8) : sx_real("F", -0.15, 0.15);
    return F;
}
// an arbitrary large stretch and shear: a gradient that is almost triangular (its determinant is close to the product of the diagonal)
inline mat sheared_deformation()
{
    bool lower = sx_concretize(sx_choose("lower", 2));
    mat F = tensor::identity<3> * 1.0;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) F[{ i, j }] = i == j ? sx_real("F", 0.5, 2) : (i > j) == lower ? sx_real("F", -3, 3) : sx_real("F", -0.002, 0.002);
    return F;
}
