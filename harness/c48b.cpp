// C48: the integrators, whose plugin cannot be linked with the one of the FIR filters (same names).
#define ONLY_FRESH
#define FRESH fresh_integrator
#include "c48.cpp"
