// Instantiates the kinematic calibration headers so that their bodies can be analysed. Never executed.
#include <iostream>
#include <map>
#include <algorithm>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>

namespace rct_optimizations
{
template bool DualDHChainCost2D3D::operator()<double>(double const* const*, double*) const;
template bool DualDHChainCostPose6D::operator()<double>(double const* const*, double*) const;
template Isometry3<double> DualDHChainCost::createTransform<double>(double const* const*, const std::size_t);
}  // namespace rct_optimizations
