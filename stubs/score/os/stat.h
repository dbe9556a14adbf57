#pragma once
#include "score/os/errno.h"
#include <sys/stat.h>
namespace score { namespace os {
struct StatBuffer { std::uint64_t st_dev; std::uint64_t st_ino; std::uint32_t st_mode; std::uint32_t st_nlink; std::int64_t st_uid; std::int64_t st_gid; std::int64_t st_rdev; std::int64_t st_size; std::int64_t atime; std::int64_t mtime; std::int64_t ctime; std::int64_t st_blksize; std::int64_t st_blocks; };
class Stat
{
  public:
    enum class Mode : std::uint32_t
    {
        kNone = 0U, kReadUser = 0400U, kWriteUser = 0200U, kExecUser = 0100U, kReadWriteExecUser = 0700U, kReadGroup = 040U, kWriteGroup = 020U, kExecGroup = 010U,
        kReadWriteExecGroup = 070U, kReadOthers = 04U, kWriteOthers = 02U, kExecOthers = 01U, kReadWriteExecOthers = 07U
    };
    static Stat& instance() noexcept { static Stat s{}; return s; }
    score::cpp::expected_blank<Error> stat(const char* file, StatBuffer& buf, bool resolve_symlinks = true) const noexcept;
    score::cpp::expected_blank<Error> fstat(std::int32_t fd, StatBuffer& buf) const noexcept;
    score::cpp::expected_blank<Error> chmod(const char* path, Mode mode) const noexcept;
    score::cpp::expected_blank<Error> fchmod(std::int32_t fd, Mode mode) const noexcept;
    score::cpp::expected_blank<Error> mkdir(const char* path, Mode mode) const noexcept;
    score::cpp::expected_blank<Error> umask(Mode mode, Mode& old) const noexcept;
};
inline mode_t ModeToInteger(Stat::Mode m) { return static_cast<mode_t>(m); }
constexpr Stat::Mode operator|(Stat::Mode a, Stat::Mode b) { return static_cast<Stat::Mode>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr Stat::Mode operator&(Stat::Mode a, Stat::Mode b) { return static_cast<Stat::Mode>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
constexpr Stat::Mode& operator|=(Stat::Mode& a, Stat::Mode b) { a = a | b; return a; }
} }
