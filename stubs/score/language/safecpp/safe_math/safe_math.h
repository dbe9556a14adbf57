// Stub of score/language/safecpp/safe_math (absent from the sandbox): checked integer arithmetic.  Contract: the exact
// mathematical result if it is representable in the target type, otherwise an error (or abort in kAbortOnError mode).
#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <exception>
#include <limits>
#include <type_traits>
namespace score::safe_math
{
enum class ReturnMode : std::uint8_t { kReturnResult, kAbortOnError };
enum class ErrorCode : score::result::ErrorCode { kUnexpected = 1, kExceedsNumericLimits, kDivideByZero };
class StubErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "safe_math"; }
};
inline StubErrorDomain& StubDomain() noexcept
{
    static StubErrorDomain d{};
    return d;
}
inline score::result::Error MakeError(ErrorCode c, std::string_view m = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(c), StubDomain(), m};
}
namespace detail
{
template <typename T, typename U> struct Pick { using type = T; };
template <typename U> struct Pick<void, U> { using type = U; };
template <typename L, typename R> using Common = std::common_type_t<L, R>;
template <typename T>
inline Result<T> R(bool overflow, T v)
{
    if (overflow)
    {
        return MakeUnexpected(ErrorCode::kExceedsNumericLimits);
    }
    return v;
}
template <typename T>
inline T A(bool overflow, T v)
{
    if (overflow)
    {
        std::abort();
    }
    return v;
}
}  // namespace detail
#define VC_SAFE_MATH_OP(Name, builtin)                                                                            \
    template <typename T = void, typename L, typename R, typename U = typename detail::Pick<T, detail::Common<L, R>>::type> \
    inline Result<U> Name(const L lhs, const R rhs)                                                               \
    {                                                                                                             \
        U v{};                                                                                                    \
        const bool o = builtin(lhs, rhs, &v);                                                                     \
        return detail::R<U>(o, v);                                                                                \
    }                                                                                                             \
    template <ReturnMode M, typename L, typename R, typename U = detail::Common<L, R>,                             \
              std::enable_if_t<M == ReturnMode::kAbortOnError, bool> = true>                                      \
    inline U Name(const L lhs, const R rhs)                                                                       \
    {                                                                                                             \
        U v{};                                                                                                    \
        const bool o = builtin(lhs, rhs, &v);                                                                     \
        return detail::A<U>(o, v);                                                                                \
    }
VC_SAFE_MATH_OP(Add, __builtin_add_overflow)
VC_SAFE_MATH_OP(Subtract, __builtin_sub_overflow)
VC_SAFE_MATH_OP(Multiply, __builtin_mul_overflow)
#undef VC_SAFE_MATH_OP
template <typename U, typename T>
constexpr bool Fits(const T v)
{
    if constexpr (std::is_signed_v<T> && !std::is_signed_v<U>)
    {
        return v >= 0 && static_cast<std::make_unsigned_t<T>>(v) <= std::numeric_limits<U>::max();
    }
    else if constexpr (!std::is_signed_v<T> && std::is_signed_v<U>)
    {
        return v <= static_cast<std::make_unsigned_t<U>>(std::numeric_limits<U>::max());
    }
    else
    {
        return v >= std::numeric_limits<U>::min() && v <= std::numeric_limits<U>::max();
    }
}
template <typename U>
class CastResult
{
  public:
    constexpr CastResult(bool ok, U v) : ok_{ok}, v_{v} {}
    constexpr bool has_value() const { return ok_; }
    constexpr U value() const { if (!ok_) { std::abort(); } return v_; }
    constexpr U operator*() const { return v_; }
    constexpr explicit operator bool() const { return ok_; }
    score::result::Error error() const { return MakeError(ErrorCode::kExceedsNumericLimits); }

  private:
    bool ok_;
    U v_;
};
template <typename U, typename T>
constexpr CastResult<U> Cast(const T v)
{
    return {Fits<U>(v), static_cast<U>(v)};
}
// signed division with a result in T: exact truncating quotient of the mathematical values
template <typename T = void, typename L, typename R, typename U = typename detail::Pick<T, detail::Common<L, R>>::type>
inline Result<U> Divide(const L lhs, const R rhs)
{
    if (rhs == 0)
    {
        return MakeUnexpected(ErrorCode::kDivideByZero);
    }
    using S = std::conditional_t<std::is_signed_v<L> || std::is_signed_v<R>, std::int64_t, std::uint64_t>;
    if (!Fits<S>(lhs) || !Fits<S>(rhs))
    {
        return MakeUnexpected(ErrorCode::kExceedsNumericLimits);
    }
    const S l = static_cast<S>(lhs);
    const S r = static_cast<S>(rhs);
    if constexpr (std::is_signed_v<S>)
    {
        if (l == std::numeric_limits<S>::min() && r == -1)
        {
            return MakeUnexpected(ErrorCode::kExceedsNumericLimits);
        }
    }
    const S q = l / r;
    if (!Fits<U>(q))
    {
        return MakeUnexpected(ErrorCode::kExceedsNumericLimits);
    }
    return static_cast<U>(q);
}
// absolute value as the unsigned type of the same width: always representable
template <typename T>
constexpr std::make_unsigned_t<T> Abs(const T v)
{
    using U = std::make_unsigned_t<T>;
    if constexpr (std::is_signed_v<T>)
    {
        return v < 0 ? static_cast<U>(U{0} - static_cast<U>(v)) : static_cast<U>(v);
    }
    else
    {
        return v;
    }
}
}  // namespace score::safe_math
