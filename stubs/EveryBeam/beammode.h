#pragma once
#include <string>
namespace everybeam { enum class BeamMode { kNone, kFull, kArrayFactor, kElement }; inline std::string ToString(BeamMode) { return ""; } inline BeamMode ParseBeamMode(const std::string&) { return BeamMode::kNone; } }
