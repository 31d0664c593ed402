// C26: timers accumulate exactly the started intervals. The clock is symbolic.
#include <chrono>
#include "util.h"
#include "common/Timer.h"
static double g_now;
struct Clk {
  using duration = std::chrono::duration<double>;
  using time_point = std::chrono::time_point<std::chrono::system_clock, duration>;
  static time_point now() { return time_point(duration(g_now)); }
};
typedef dp3::common::BaseTimer<Clk> T;
static double tick() {  // time passes
  const double d = sym_f64("dt");
  sym_assume(d >= 0);
  sym_assume(d <= 1e6);
  g_now += d;
  return d;
}
extern "C" void harness() {
  const int n = sym_param(0);
  g_now = sym_f64("t0");
  sym_assume(g_now >= 0);
  sym_assume(g_now <= 1e6);
  T t[2] = {T("a"), T()};
  double sum[2] = {0, 0}, acc = sym_f64("acc0"), accw = acc;
  unsigned long cnt[2] = {0, 0};
  for (int i = 0; i < n; ++i) {
    const int k = sym_choose(0, 1, "timer");
    tick();
    switch (sym_choose(0, 6, "op")) {
      case 0: t[k].start(); sum[k] += tick(); t[k].stop(); ++cnt[k]; break;
      case 1: { T::StartStop s(t[k]); sum[k] += tick(); ++cnt[k]; break; }
      case 2: t[k].reset(); sum[k] = 0; cnt[k] = 0; break;
      case 3: t[k] += t[1 - k]; sum[k] += sum[1 - k]; cnt[k] += cnt[1 - k]; break;
      case 4: { dp3::common::ScopedMicroSecondAccumulator<double, Clk> s(acc); accw += tick() * 1e6; break; }
      case 5: {  // nested, and restarted without having been stopped
        t[k].start();
        tick();
        t[k].start();
        const double d = tick();
        { T::StartStop s(t[1 - k]); const double e = tick(); sum[1 - k] += e; ++cnt[1 - k]; sum[k] += e; }
        t[k].stop();
        sum[k] += d;
        ++cnt[k];
        break;
      }
      case 6: try { T::StartStop s(t[k]); sum[k] += tick(); ++cnt[k]; throw 1; } catch (int) {} break;
    }
    for (int j = 0; j < 2; ++j) {
      sym_close(t[j].getElapsed(), sum[j], "elapsed time is the sum of the intervals");
      sym_assert(t[j].getCount() == cnt[j], "number of intervals");
      if (cnt[j]) sym_close(t[j].getAverage() * cnt[j], sum[j], "average time");
    }
    sym_close(acc, accw, "accumulated microseconds");
  }
  sym_reach("timer");
}
