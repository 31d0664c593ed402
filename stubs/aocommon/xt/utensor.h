// Stand-in for aocommon::xt::UTensor (a tensor with uninitialised storage).
#pragma once
#include <xtensor/containers/xtensor.hpp>
namespace aocommon { namespace xt { template <class T, std::size_t N> using UTensor = ::xt::xtensor<T, N>; } }
