// VC-SOURCES: score/memory/shared/lock_file.cpp score/memory/shared/flock/flock_mutex.cpp score/memory/shared/flock/exclusive_flock_mutex.cpp score/memory/shared/flock/shared_flock_mutex.cpp
// File locks.  The operating system is any that does what its calls promise; it may refuse any of them.
#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/lock_file.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include "vc.h"
#include <string>
#include <utility>
using namespace score::memory::shared;
using score::os::Error;
using score::os::Fcntl;
using score::os::Stat;
using score::os::Unistd;

namespace
{
constexpr int kNone = 0;
constexpr int kShared = 1;
constexpr int kExclusive = 2;

// what has happened to the file
std::uint64_t g_opens;
std::uint64_t g_closes;
std::uint64_t g_unlinks;
std::uint64_t g_flags;
std::int32_t g_fd;         // the descriptor handed out
bool g_refuse_mode;
const char* g_path;        // the path the caller named
std::uint64_t g_len;
int g_mode;                // how the lock is held
bool g_busy;               // another process holds the lock in a conflicting mode
bool g_failed;             // a call failed in a way for which there is no answer
bool g_denied;             // a try was refused because the lock is taken

bool ThePath(const char* p)
{
    for (std::uint64_t i = 0U; i < 3U; ++i)
    {
        if (p[i] != "f/l"[i])
        {
            return false;
        }
    }
    return p[3] == '\0';
}
void Reset()
{
    g_opens = 0U;
    g_closes = 0U;
    g_unlinks = 0U;
    g_flags = 0U;
    g_fd = -1;
    g_mode = kNone;
    g_busy = false;
    g_failed = false;
    g_denied = false;
    g_refuse_mode = false;
}
}  // namespace

namespace score { namespace os {
score::cpp::expected<std::int32_t, Error> Fcntl::open(const char* path, Open flags, Stat::Mode) const noexcept
{
    __vc_assert(ThePath(path), "the file opened is the one named");
    __vc_assert(g_opens == 0U, "the file is opened once");
    if (vc::any<bool>("open_fails"))
    {
        return score::cpp::make_unexpected(Error::createFromErrno(vc::any<std::int32_t>("errno")));
    }
    ++g_opens;
    g_flags = static_cast<std::uint64_t>(flags);
    g_fd = vc::any<std::int32_t>("fd");
    vc::assume(g_fd >= 0);
    return g_fd;
}
score::cpp::expected_blank<Error> Stat::chmod(const char* path, Mode) const noexcept
{
    __vc_assert(ThePath(path), "the file made accessible is the one named");
    if (vc::any<bool>("chmod_fails"))
    {
        g_refuse_mode = true;
        return score::cpp::make_unexpected(Error::createFromErrno(vc::any<std::int32_t>("errno")));
    }
    return {};
}
score::cpp::expected_blank<Error> Unistd::close(std::int32_t fd) const noexcept
{
    __vc_assert(g_opens == 1U && fd == g_fd, "only a file that was opened is closed");
    __vc_assert(g_closes == 0U, "the file is closed once");
    ++g_closes;
    if (vc::any<bool>("close_fails"))
    {
        return score::cpp::make_unexpected(Error::createFromErrno(vc::any<std::int32_t>("errno")));
    }
    return {};
}
score::cpp::expected_blank<Error> Unistd::unlink(const char* path) const noexcept
{
    __vc_assert(ThePath(path), "the file removed is the one named");
    __vc_assert(g_unlinks == 0U, "the file is removed once");
    ++g_unlinks;
    if (vc::any<bool>("unlink_fails"))
    {
        return score::cpp::make_unexpected(Error::createFromErrno(vc::any<std::int32_t>("errno")));
    }
    return {};
}
score::cpp::expected_blank<Error> Fcntl::flock(std::int32_t fd, Operation op) const noexcept
{
    __vc_assert(fd == g_fd, "the lock is on the file named");
    const auto o = static_cast<std::uint32_t>(op);
    const bool nb = (o & static_cast<std::uint32_t>(Operation::kLockNB)) != 0U;
    const auto what = o & ~static_cast<std::uint32_t>(Operation::kLockNB);
    if (what == static_cast<std::uint32_t>(Operation::kUnLock))
    {
        __vc_assert(g_mode != kNone, "only a lock that is held is released");
        if (vc::any<bool>("unlock_fails"))
        {
            g_failed = true;
            __vc_term_ok(true);
            return score::cpp::make_unexpected(Error::createFromErrno(vc::any<std::int32_t>("errno")));
        }
        g_mode = kNone;
        return {};
    }
    __vc_assert(what == static_cast<std::uint32_t>(Operation::kLockShared) || what == static_cast<std::uint32_t>(Operation::kLockExclusive), "a lock is either shared or exclusive");
    __vc_assert(g_mode == kNone, "a lock is acquired once");
    if (vc::any<bool>("lock_fails"))
    {
        const auto e = vc::any<std::int32_t>("errno");
        if (nb && e == EWOULDBLOCK)
        {
            g_denied = true;
        }
        else
        {
            g_failed = true;
            __vc_term_ok(true);
        }
        return score::cpp::make_unexpected(Error::createFromErrno(e));
    }
    if (g_busy && nb)
    {
        g_denied = true;
        return score::cpp::make_unexpected(Error::createFromErrno(EWOULDBLOCK));
    }
    g_busy = false;  // a blocking call waits
    g_mode = what == static_cast<std::uint32_t>(Operation::kLockShared) ? kShared : kExclusive;
    return {};
}
} }

// ------------------------------------------------------------------ the file
namespace
{
template <typename Make>
void CheckMade(Make make, std::uint64_t must, std::uint64_t must_not, bool owns)
{
    Reset();
    {
        const std::optional<LockFile> r = make();
        __vc_assert(r.has_value() == (g_opens == 1U && !g_refuse_mode), "there is a lock file exactly if it could be opened and made accessible");
        if (r.has_value())
        {
            __vc_assert((g_flags & must) == must && (g_flags & must_not) == 0U, "the file is created or opened as asked for");
            __vc_assert(g_closes == 0U && g_unlinks == 0U, "the file stays while its owner lives");
            __vc_cover("made");
        }
        else
        {
            __vc_assert(g_unlinks == 0U, "a file that could not be had is not removed");
            __vc_cover("failed");
            return;
        }
    }
    __vc_assert(g_closes == 1U, "the file is closed when its owner ends");
    __vc_assert(g_unlinks == (owns ? 1U : 0U), "the file is removed exactly if it is owned");
}
constexpr auto kCreate = static_cast<std::uint64_t>(Fcntl::Open::kCreate);
constexpr auto kExcl = static_cast<std::uint64_t>(Fcntl::Open::kExclusive);
}  // namespace
VC_HARNESS(create)
{
    CheckMade([] { return LockFile::Create("f/l"); }, kCreate | kExcl, 0U, true);
}
VC_HARNESS(create_or_open)
{
    const bool own = vc::any<bool>("take");
    CheckMade([own] { return LockFile::CreateOrOpen("f/l", own); }, kCreate, kExcl, own);
}
VC_HARNESS(open)
{
    CheckMade([] { return LockFile::Open("f/l"); }, 0U, kCreate | kExcl, false);
}
VC_HARNESS(take_ownership)
{
    Reset();
    {
        auto r = LockFile::Open("f/l");
        if (!r.has_value())
        {
            return;
        }
        r->TakeOwnership();
        __vc_assert(g_closes == 0U && g_unlinks == 0U, "the file stays while its owner lives");
    }
    __vc_assert(g_closes == 1U && g_unlinks == 1U, "a file taken over is removed with its owner");
    __vc_cover("end");
}
VC_HARNESS(moved)
{
    Reset();
    const bool own = vc::any<bool>("take");
    {
        auto r = LockFile::CreateOrOpen("f/l", own);
        if (!r.has_value())
        {
            return;
        }
        {
            LockFile a{std::move(*r)};
            r.reset();
            __vc_assert(g_closes == 0U && g_unlinks == 0U, "the end of one moved from releases nothing");
            LockFile b{std::move(a)};
        }
        __vc_assert(g_closes == 1U && g_unlinks == (own ? 1U : 0U), "the last owner releases the file");
        __vc_cover("end");
    }
}
VC_HARNESS(move_assigned)
{
    Reset();
    const bool own = vc::any<bool>("take");
    auto r = LockFile::CreateOrOpen("f/l", own);
    if (!r.has_value())
    {
        return;
    }
    {
        // one that holds nothing any more
        LockFile a{std::move(*r)};
        LockFile& self = a;
        a = std::move(self);
        __vc_assert(g_closes == 0U && g_unlinks == 0U, "assigning to itself releases nothing");
        *r = std::move(a);
        __vc_assert(g_closes == 0U && g_unlinks == 0U, "an assignment passes the file on");
    }
    __vc_assert(g_closes == 0U && g_unlinks == 0U, "the end of one assigned from releases nothing");
    r.reset();
    __vc_assert(g_closes == 1U && g_unlinks == (own ? 1U : 0U), "the last owner releases the file");
    __vc_cover("end");
}
// ownership goes along with the file
VC_HARNESS(move_assigned_ownership)
{
    Reset();
    auto r = LockFile::CreateOrOpen("f/l", false);
    if (!r.has_value())
    {
        return;
    }
    {
        LockFile a{std::move(*r)};
        a.TakeOwnership();
        *r = std::move(a);
    }
    __vc_assert(g_closes == 0U && g_unlinks == 0U, "the end of one assigned from releases nothing");
    r.reset();
    __vc_assert(g_closes == 1U && g_unlinks == 1U, "a file that is owned is removed with its last owner");
    __vc_cover("end");
}
// what the target of an assignment held is released first
VC_HARNESS(move_assigned_over)
{
    Reset();
    const bool own = vc::any<bool>("take");
    auto r = LockFile::CreateOrOpen("f/l", own);
    if (!r.has_value())
    {
        return;
    }
    LockFile nothing{std::move(*r)};
    r.emplace(std::move(nothing));
    *r = std::move(nothing);
    __vc_assert(g_closes == 1U && g_unlinks == (own ? 1U : 0U), "what the target held is released");
    r.reset();
    __vc_assert(g_closes == 1U, "nothing is released twice");
    __vc_cover("end");
}

// ------------------------------------------------------------------ the lock
namespace
{
template <typename M>
void CheckLock(int mode)
{
    Reset();
    auto r = LockFile::CreateOrOpen("f/l", vc::any<bool>("take"));
    if (!r.has_value())
    {
        return;
    }
    g_busy = vc::any<bool>("taken_by_another");
    const bool busy = g_busy;
    M m{*r};
    __vc_assert(g_mode == kNone, "making a lock acquires nothing");
    if (vc::any<bool>("try"))
    {
        const bool got = m.try_lock();
        __vc_assert(!g_failed, "a failure is never taken for an answer");
        __vc_assert(got == (g_mode == mode), "the lock is reported as acquired exactly if it is held in the mode asked for");
        __vc_assert(got || g_mode == kNone, "a refused attempt holds nothing");
        __vc_assert(got || g_denied, "a lock is refused only if it is taken");
        __vc_assert(!(got && busy), "a taken lock is not acquired");
        if (!got)
        {
            __vc_cover("refused");
            return;
        }
    }
    else
    {
        m.lock();
        __vc_assert(!g_failed, "a failure is never taken for an answer");
        __vc_assert(g_mode == mode, "the lock is held in the mode asked for");
    }
    m.unlock();
    __vc_assert(!g_failed, "a failure is never taken for an answer");
    __vc_assert(g_mode == kNone, "the lock is released");
    __vc_cover("end");
}
template <typename M>
void CheckScope(int mode)
{
    Reset();
    auto r = LockFile::CreateOrOpen("f/l", vc::any<bool>("take"));
    if (!r.has_value())
    {
        return;
    }
    g_busy = vc::any<bool>("taken_by_another");
    bool got = false;
    {
        FlockMutexAndLock<M> s{*r};
        __vc_assert(g_mode == kNone, "making a lock acquires nothing");
        got = s.TryLock();
        __vc_assert(got == (g_mode == mode), "the lock is reported as acquired exactly if it is held in the mode asked for");
        __vc_assert(got || (g_mode == kNone && g_denied), "a lock is refused only if it is taken");
    }
    __vc_assert(!g_failed, "a failure is never taken for an answer");
    __vc_assert(g_mode == kNone, "the lock is released when its owner ends");
    if (got)
    {
        __vc_cover("end");
    }
}
}  // namespace
VC_HARNESS(exclusive)
{
    CheckLock<ExclusiveFlockMutex>(kExclusive);
}
VC_HARNESS(shared)
{
    CheckLock<SharedFlockMutex>(kShared);
}
VC_HARNESS(exclusive_scope)
{
    CheckScope<ExclusiveFlockMutex>(kExclusive);
}
VC_HARNESS(shared_scope)
{
    CheckScope<SharedFlockMutex>(kShared);
}

// an owner of something that can be held once cannot be copied
VC_HARNESS(owner_cannot_be_copied)
{
    __vc_assert(!std::is_copy_constructible<score::memory::shared::LockFile>::value && !std::is_copy_assignable<score::memory::shared::LockFile>::value, "what is owned once cannot be copied");
    __vc_cover("end");
}
