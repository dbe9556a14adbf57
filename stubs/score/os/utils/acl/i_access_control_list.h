// Stand-in: access control lists (never called by a contract)
#pragma once
#include "score/os/acl.h"
#include "score/os/errno.h"
#include "score/expected.hpp"
#include <sys/types.h>
namespace score { namespace os {
class IAccessControlList
{
  public:
    using UserIdentifier = uid_t;
    virtual ~IAccessControlList() = default;
    virtual score::cpp::expected_blank<Error> AllowUser(UserIdentifier, Acl::Permission) = 0;
};
} }
