// Conversion of Python functions is part of the stand-in itself.
#pragma once
#include "pybind11.h"
