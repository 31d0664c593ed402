// Stand-in for aocommon's logger (the submodule is absent here): messages are dropped.
#pragma once
#include <string>
namespace aocommon {
class Logger {
 public:
  struct LogWriter {
    template <class T> LogWriter& operator<<(const T&) { return *this; }
    void Flush() {}
  };
  static inline LogWriter Debug, Info, Warn, Error, Fatal, Progress;
};
}
