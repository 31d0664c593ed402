#pragma once
#include <memory>
namespace everybeam { namespace telescope { class Telescope { public: virtual ~Telescope() {} }; } }
