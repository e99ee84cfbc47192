// C04: contract of the mean squark mass as used by the selection
#include "hc.hpp"
double himalaya::Parameters::calculateMsq2() const { return vc_sym("Msq2", 0); }
