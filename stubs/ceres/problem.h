// Analysis stub: the ceres::Problem of the installed library with the parameterisation entry point of the older API that
// dh_chain_kinematic_calibration.cpp and local_parameterization.h are written for. Only parsed, never executed.
#ifndef RCT_STUB_CERES_PROBLEM_H
#define RCT_STUB_CERES_PROBLEM_H
namespace ceres
{
class LocalParameterization;
}
#define SetManifold SetParameterization(double* values, LocalParameterization* p); void SetManifold
#include_next <ceres/problem.h>
#undef SetManifold
#endif
