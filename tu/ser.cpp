// Instantiates every YAML converter of the repository.
#include <rct_optimizations/serialization/problems.h>

namespace rctv
{
template <class T>
YAML::Node enc(const T& v)
{
  return YAML::convert<T>::encode(v);
}

template <class T>
bool dec(const YAML::Node& n, T& v)
{
  return YAML::convert<T>::decode(n, v);
}

#define BOTH(...)                                                                                                      \
  template YAML::Node enc<__VA_ARGS__>(const __VA_ARGS__&);                                                            \
  template bool dec<__VA_ARGS__>(const YAML::Node&, __VA_ARGS__&);

BOTH(Eigen::Matrix<double, 2, 1>)
BOTH(Eigen::Matrix<double, 3, 1>)
BOTH(Eigen::Transform<double, 3, Eigen::Isometry>)
BOTH(rct_optimizations::CameraIntrinsics)
BOTH(rct_optimizations::Correspondence<2, 3>)
BOTH(rct_optimizations::Correspondence<3, 3>)
BOTH(rct_optimizations::Observation<2, 3>)
BOTH(rct_optimizations::Observation<3, 3>)
BOTH(rct_optimizations::ExtrinsicHandEyeProblem2D3D)
BOTH(rct_optimizations::ExtrinsicHandEyeProblem3D3D)
BOTH(rct_optimizations::ExtrinsicHandEyeResult)
template bool dec<rct_optimizations::DHTransform>(const YAML::Node&, rct_optimizations::DHTransform&);
template bool dec<rct_optimizations::DHChain>(const YAML::Node&, rct_optimizations::DHChain&);
}  // namespace rctv
