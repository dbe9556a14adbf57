// Stand-in: logging has no observable effect on the properties
#pragma once
#include <string_view>
#include <string>
#include <iomanip>
namespace score { namespace mw { namespace log {
class LogStream
{
  public:
    template <typename T> const LogStream& operator<<(const T&) const noexcept { return *this; }
    template <typename T> LogStream& operator<<(const T&) noexcept { return *this; }
    void Flush() noexcept {}
};
template <typename T> struct LogHex { T v; }; template <typename T> LogHex<T> LogHexOf(T v) { return {v}; }
struct LogHex8 { template <typename T> explicit LogHex8(T) {} }; struct LogHex16 { template <typename T> explicit LogHex16(T) {} };
struct LogHex32 { template <typename T> explicit LogHex32(T) {} }; struct LogHex64 { template <typename T> explicit LogHex64(T) {} };
#define VC_LOGF(N) inline LogStream N() noexcept { return {}; } inline LogStream N(const std::string_view) noexcept { return {}; }
VC_LOGF(LogFatal) VC_LOGF(LogError) VC_LOGF(LogWarn) VC_LOGF(LogInfo) VC_LOGF(LogDebug) VC_LOGF(LogVerbose)
#undef VC_LOGF
class Logger
{
  public:
    explicit Logger(const std::string_view) noexcept {} Logger(const std::string_view, const std::string_view) noexcept {}
#define VC_LOGF(N) LogStream N() const noexcept { return {}; }
VC_LOGF(LogFatal) VC_LOGF(LogError) VC_LOGF(LogWarn) VC_LOGF(LogInfo) VC_LOGF(LogDebug) VC_LOGF(LogVerbose)
#undef VC_LOGF
};
inline Logger& CreateLogger(const std::string_view) { static Logger l{""}; return l; }
inline Logger& CreateLogger(const std::string_view, const std::string_view) { static Logger l{""}; return l; }
} } }
