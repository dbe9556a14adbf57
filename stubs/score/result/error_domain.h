#pragma once
#include "score/result/error_code.h"
#include <string_view>
namespace score { namespace result {
class ErrorDomain
{
  public:
    constexpr ErrorDomain() noexcept = default;

    virtual std::string_view MessageFor(const ErrorCode&) const noexcept = 0;
  protected:
    ~ErrorDomain() = default;
};
} }
