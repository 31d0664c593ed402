#pragma once
#include <schaapcommon/threading/threadpool.h>
namespace schaapcommon {
template <class I> class StaticFor {
 public:
  template <class F> void Run(I b, I e, F f) { call(b, e, f); }
  template <class F> void Run(I b, I e, F f, std::size_t) { call(b, e, f); }
 private:
  template <class F> static void call(I b, I e, F& f) { if (b < e) { if constexpr (std::is_invocable_v<F, I, I, std::size_t>) f(b, e, std::size_t(0)); else f(b, e); } }
};
template <class I, class F> void RunStaticFor(I b, I e, F f) { StaticFor<I>().Run(b, e, f); }
template <class I, class F> void RunConstrainedStaticFor(I b, I e, std::size_t, F f) { StaticFor<I>().Run(b, e, f); }
}
