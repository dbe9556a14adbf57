#pragma once
#include "score/result/error_code.h"
#include "score/result/error_domain.h"
#include <ostream>
#include <string_view>
#include <type_traits>
namespace score { namespace result {
class Error
{
  public:
    constexpr Error(const ErrorCode code, const ErrorDomain& domain, const std::string_view user_message = {}) noexcept
        : code_{code}, domain_{&domain}, user_message_{user_message} {}
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>, typename = decltype(MakeError(std::declval<E>(), std::string_view{}))>
    Error(E e) : Error{MakeError(e, std::string_view{})} {}
    constexpr ErrorCode operator*() const noexcept { return code_; }
    std::string_view Message() const noexcept { return domain_->MessageFor(code_); }
    constexpr std::string_view UserMessage() const noexcept { return user_message_; }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.code_ == b.code_ && a.domain_ == b.domain_; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>>
    friend bool operator==(const Error& a, const E& e) noexcept { return a == MakeError(e, std::string_view{}); }
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>>
    friend bool operator!=(const Error& a, const E& e) noexcept { return !(a == e); }
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>>
    friend bool operator==(const E& e, const Error& a) noexcept { return a == MakeError(e, std::string_view{}); }
    friend std::ostream& operator<<(std::ostream& o, const Error&) { return o; }
  private:
    ErrorCode code_;
    const ErrorDomain* domain_;
    std::string_view user_message_;
};
} }
