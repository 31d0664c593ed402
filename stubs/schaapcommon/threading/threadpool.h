// Stand-in for the thread pool: everything runs on the calling thread.
#pragma once
#include <cstddef>
#include <functional>
namespace schaapcommon {
class ThreadPool {
 public:
  static ThreadPool& GetInstance() { static ThreadPool p; return p; }
  void SetNThreads(std::size_t) {}
  std::size_t NThreads() const { return 1; }
};
}
