// Instantiates the header templates of rct_optimizations so that their bodies can be analysed. Never executed.
#include <iostream>
#include <sstream>
#include <map>
#include <algorithm>
#include <rct_optimizations/types.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/dh_chain.h>
#include <rct_optimizations/maximum_likelihood.h>
#include <rct_image_tools/image_utils.h>

namespace rct_optimizations
{
template struct Correspondence<2, 3>;
template struct Correspondence<3, 3>;
template struct Observation<2, 3>;
template struct Observation<3, 3>;
template struct KinematicObservation<2, 3>;
template struct KinematicObservation<3, 3>;

template void transformPoint<double>(const double[3], const double[3], const double[3], double[3]);
template void poseTransformPoint<double>(const Pose6d&, const double[3], double[3]);
template void projectPoint<double>(const CameraIntrinsics&, const double[3], double[2]);
template Eigen::Matrix<double, 2, 1> projectPoint<double>(const CameraIntrinsics&, const Eigen::Matrix<double, 3, 1>&);

template bool CircleDistCost::operator()<double>(const double* const, double*) const;
template bool CircleDistCost::operator()<double>(const double* const, const double* const, const double* const, double*) const;

template Isometry3<double> DHTransform::createRelativeTransform<double>(const double, const Eigen::Matrix<double, 1, 4>&) const;
template Isometry3<double> DHTransform::createRelativeTransform<double>(const double) const;
template Isometry3<double> DHChain::getFK<double>(const Eigen::Matrix<double, Eigen::Dynamic, 1>&) const;
template Isometry3<double> DHChain::getFK<double>(const Eigen::Matrix<double, Eigen::Dynamic, 1>&,
                                                  const Eigen::Matrix<double, Eigen::Dynamic, 4>&) const;

template bool MaximumLikelihood::operator()<double>(double const* const*, double*) const;
}  // namespace rct_optimizations

static bool use(const rct_optimizations::CameraIntrinsics& a, const rct_optimizations::KinematicMeasurement& b)
{
  return a == a && b == b && !rct_image_tools::getReprojections({}, a, {}).empty();
}
bool use_all() { return use({}, {}); }
