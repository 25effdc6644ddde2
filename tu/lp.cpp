// Parses the parameter masking helpers (older Ceres API, see stubs/) so that their bodies can be analysed. Never executed.
#include <iostream>
#include <rct_optimizations/local_parameterization.h>

namespace rct_optimizations
{
template bool EigenQuaternionPlus::operator()<double>(const double*, const double*, double*) const;
}  // namespace rct_optimizations
