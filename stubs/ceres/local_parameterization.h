// Analysis stub of the header removed in Ceres 2.2. Only parsed, never executed.
#ifndef RCT_STUB_CERES_LOCAL_PARAMETERIZATION_H
#define RCT_STUB_CERES_LOCAL_PARAMETERIZATION_H
#include <algorithm>
#include <map>
#include <sstream>
#include <vector>
#include <ceres/problem.h>
namespace ceres
{
class LocalParameterization
{
public:
  virtual ~LocalParameterization();
};
class IdentityParameterization : public LocalParameterization
{
public:
  explicit IdentityParameterization(int size);
};
class SubsetParameterization : public LocalParameterization
{
public:
  explicit SubsetParameterization(int size, const std::vector<int>& constant_parameters);
};
template <typename Functor, int kGlobalSize, int kLocalSize>
class AutoDiffLocalParameterization : public LocalParameterization
{
public:
  AutoDiffLocalParameterization();
};
}  // namespace ceres
#endif
