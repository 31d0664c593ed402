#pragma once
#include <string>
namespace everybeam {
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
inline BeamMode ParseBeamMode(const std::string& s) { return s == "full" ? BeamMode::kFull : s == "array_factor" ? BeamMode::kArrayFactor : s == "element" ? BeamMode::kElement : BeamMode::kNone; }
}
