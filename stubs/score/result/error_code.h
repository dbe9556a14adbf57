#pragma once
#include <cstdint>
namespace score { namespace result { using ErrorCode = std::int32_t; } }
