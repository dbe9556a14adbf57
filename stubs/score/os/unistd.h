#pragma once
#include "score/os/errno.h"
#include <sys/types.h>
#include <unistd.h>
namespace score { namespace os {
class Unistd
{
  public:
    static Unistd& instance() noexcept { static Unistd s{}; return s; }
    score::cpp::expected_blank<Error> close(std::int32_t fd) const noexcept;
    score::cpp::expected_blank<Error> unlink(const char* path) const noexcept;
    score::cpp::expected_blank<Error> access(const char* path, int mode) const noexcept;
    score::cpp::expected_blank<Error> ftruncate(std::int32_t fd, off_t length) const noexcept;
    pid_t getpid() const noexcept;
    uid_t getuid() const noexcept;
    gid_t getgid() const noexcept;
};
} }
