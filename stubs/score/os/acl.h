// Stand-in: access control lists (never called by a contract)
#pragma once
#include <cstdint>
#include <sys/types.h>
namespace score { namespace os {
class Acl
{
  public:
    using FileDescriptor = std::int32_t;
    enum class Permission : std::uint32_t { kRead = 4, kWrite = 2, kExecute = 1 };
};
} }
