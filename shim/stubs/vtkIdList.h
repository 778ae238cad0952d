#include "sx_vtk.h"
