#pragma once
#include <schaapcommon/threading/threadpool.h>
namespace schaapcommon {
template <class I> class DynamicFor {
 public:
  template <class F> void Run(I b, I e, F f) { for (I i = b; i < e; ++i) { if constexpr (std::is_invocable_v<F, I, std::size_t>) f(i, std::size_t(0)); else f(i); } }
};
}
