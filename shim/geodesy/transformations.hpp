#ifndef VERIF_SHIM_TRANSFORMATIONS
#define VERIF_SHIM_TRANSFORMATIONS
#include "geodesy/core/crd_transformations.hpp"
#endif
