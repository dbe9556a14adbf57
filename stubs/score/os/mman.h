#pragma once
#include "score/os/errno.h"
#include "score/os/fcntl.h"
#include <cstddef>
#include <cstdint>
#include <sys/types.h>
namespace score { namespace os {
class Mman
{
  public:
    enum class Protection : std::uint32_t { kNone = 1U, kRead = 2U, kWrite = 4U, kExec = 8U };
    enum class Map : std::uint32_t { kShared = 1U, kPrivate = 2U, kFixed = 4U };
    static Mman& instance() noexcept { static Mman s{}; return s; }
    score::cpp::expected<void*, Error> mmap(void* addr, std::size_t length, Protection protection, Map flags, std::int32_t fd, std::int64_t offset) const noexcept;
    score::cpp::expected_blank<Error> munmap(void* addr, std::size_t length) const noexcept;
    score::cpp::expected<std::int32_t, Error> shm_open(const char* pathname, Fcntl::Open oflag, Stat::Mode mode) const noexcept;
    score::cpp::expected_blank<Error> shm_unlink(const char* pathname) const noexcept;
};
constexpr Mman::Protection operator|(Mman::Protection a, Mman::Protection b) { return static_cast<Mman::Protection>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr Mman::Protection operator&(Mman::Protection a, Mman::Protection b) { return static_cast<Mman::Protection>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
} }
