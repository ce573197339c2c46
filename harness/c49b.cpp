// C49: the integrators, whose plugin cannot be linked with the one of the FIR filters (same names).
#define ONLY_INTEGRATORS
#define INDEPENDENT independent_integrators
#include "c49.cpp"
