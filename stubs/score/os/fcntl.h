#pragma once
#include "score/os/errno.h"
#include "score/os/stat.h"
#include <sys/types.h>
namespace score { namespace os {
class Fcntl
{
  public:
    enum class Command : std::int32_t { kFileGetStatusFlags, kFileSetStatusFlags };
    enum class Open : std::uint32_t { kReadOnly = 1U, kWriteOnly = 2U, kReadWrite = 4U, kNonBlocking = 8U, kCloseOnExec = 16U, kCreate = 32U, kExclusive = 64U, kDirectory = 128U, kSynchronized = 256U, kTruncate = 512U, kAppend = 1024U };
    enum class Operation : std::uint32_t { kLockShared = 1U, kLockExclusive = 2U, kUnLock = 4U, kLockNB = 8U };
    static Fcntl& instance() noexcept { static Fcntl s{}; return s; }
    score::cpp::expected<std::int32_t, Error> open(const char* path, Open flags) const noexcept;
    score::cpp::expected<std::int32_t, Error> open(const char* path, Open flags, Stat::Mode mode) const noexcept;
    score::cpp::expected_blank<Error> flock(std::int32_t fd, Operation op) const noexcept;
    score::cpp::expected_blank<Error> posix_fallocate(std::int32_t fd, off_t offset, off_t len) const noexcept;
};
constexpr Fcntl::Open operator|(Fcntl::Open a, Fcntl::Open b) { return static_cast<Fcntl::Open>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr Fcntl::Open operator&(Fcntl::Open a, Fcntl::Open b) { return static_cast<Fcntl::Open>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
constexpr Fcntl::Operation operator|(Fcntl::Operation a, Fcntl::Operation b) { return static_cast<Fcntl::Operation>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr Fcntl::Operation operator&(Fcntl::Operation a, Fcntl::Operation b) { return static_cast<Fcntl::Operation>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
} }
