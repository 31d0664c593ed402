#pragma once
#include <schaapcommon/threading/threadpool.h>
#include <schaapcommon/threading/staticfor.h>
namespace schaapcommon {
class RecursiveFor {
 public:
  template <class F> void Run(std::size_t b, std::size_t e, F f) { for (std::size_t i = b; i < e; ++i) { if constexpr (std::is_invocable_v<F, std::size_t, std::size_t>) f(i, std::size_t(0)); else f(i); } }
  template <class F> void ConstrainedRun(std::size_t b, std::size_t e, std::size_t, F f) { Run(b, e, f); }
  template <class F> static void NestedRun(std::size_t b, std::size_t e, F f) { RecursiveFor().Run(b, e, f); }
  template <class F> static void NestedConstrainedRun(std::size_t b, std::size_t e, std::size_t, F f) { RecursiveFor().Run(b, e, f); }
};
}
