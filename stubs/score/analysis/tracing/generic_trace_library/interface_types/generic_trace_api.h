// Stand-in: the types of the trace library (never called by a contract)
#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <optional>
#include <string>
namespace score { namespace analysis { namespace tracing {
using TraceClientId = std::uint8_t;
using TraceContextId = std::uint32_t;
using ShmObjectHandle = std::int32_t;
using TraceResult = score::Result<void>;
struct ServiceInstanceElement { std::uint64_t service_id{0U}; };
struct AraComProperties { using TracePointDataId = std::uint64_t; };
} } }
