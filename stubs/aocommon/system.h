#pragma once
#include <cstddef>
namespace aocommon { namespace system { inline std::size_t ProcessorCount() { return 1; } } }
