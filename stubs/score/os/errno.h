// Stand-in for the operating system layer of score_baselibs (not part of the repository): declarations only.  A contract
// defines the functions it needs and thereby states what it assumes about the operating system.
#pragma once
#include "score/expected.hpp"
#include <cerrno>
#include <cstdint>
#include <string>
#include <utility>
namespace score { namespace os {
class Error
{
  public:
    enum class Code : std::int32_t
    {
        kUnexpected, kNoSuchFileOrDirectory, kObjectExists, kResourceTemporarilyUnavailable, kOperationWouldBlock, kPermissionDenied,
        kNotEnoughSpace, kInvalidArgument, kOperationWasInterruptedBySignal, kDeviceOrResourceBusy, kNoSuchProcess, kNoSuchDevice,
        kOperationNotPermitted, kBadFileDescriptor, kNotSupported
    };
    static Error createFromErrno() noexcept { return Error{errno}; }
    static Error createFromErrno(const std::int32_t e) noexcept { return Error{e}; }
    static Error createFromErrnoFlockSpecific(const std::int32_t e) noexcept { return Error{e}; }
    static Error createUnspecifiedError() noexcept { return Error{-1}; }
    std::string ToString() const { return std::string{}; }
    std::int32_t GetOsDependentErrorCode() const noexcept { return e_; }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.e_ == b.e_; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return a.e_ != b.e_; }
    friend bool operator==(const Error& a, Code c) noexcept { return of(a.e_) == c; }
    friend bool operator!=(const Error& a, Code c) noexcept { return of(a.e_) != c; }
    template <typename S, typename = decltype(std::declval<S&>().flush())> friend S& operator<<(S& s, const Error&) { return s; }
  private:
    explicit Error(std::int32_t e) noexcept : e_{e} {}
    static Code of(std::int32_t e) noexcept
    {
        switch (e)
        {
            case ENOENT: return Code::kNoSuchFileOrDirectory;
            case EEXIST: return Code::kObjectExists;
            case EAGAIN: return Code::kResourceTemporarilyUnavailable;
            case EACCES: return Code::kPermissionDenied;
            case EPERM: return Code::kOperationNotPermitted;
            case ENOMEM: return Code::kNotEnoughSpace;
            case EINVAL: return Code::kInvalidArgument;
            case EINTR: return Code::kOperationWasInterruptedBySignal;
            case EBUSY: return Code::kDeviceOrResourceBusy;
            case EBADF: return Code::kBadFileDescriptor;
            default: return Code::kUnexpected;
        }
    }
    std::int32_t e_;
};
} }
