// Force-included in the machine-double build of the same sources.
#ifndef VERIF_NATIVE_SHIM_HH
#define VERIF_NATIVE_SHIM_HH
// what nobody initialises is not a number (also what operator new returns: main_native.cc)
#define EIGEN_INITIALIZE_MATRICES_BY_NAN
#include "oob.hh"
#include <cstddef>
#include <fstream>
#include <glpk.h>
#include "glp_redirect.hh"
#endif
