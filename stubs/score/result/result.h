#pragma once
#include "score/blank.hpp"
#include "score/expected.hpp"
#include "score/result/error.h"
#include "score/utility.hpp"
#include <algorithm>
#include <string_view>
#include <utility>
namespace score
{
template <typename T> using Result = score::cpp::expected<T, score::result::Error>;
using Blank = score::cpp::blank;
using ResultBlank = Result<Blank>;
using Unexpected = score::cpp::unexpected<score::result::Error>;
template <typename E> Unexpected MakeUnexpected(const E e, const std::string_view m = {}) { return Unexpected{MakeError(e, m)}; }
template <typename T> Unexpected MakeUnexpected(const score::result::Error& e) { return Unexpected{e}; }
template <typename T, typename E> Result<T> MakeUnexpected(const E e, const std::string_view m = {}) { return Unexpected{MakeError(e, m)}; }
namespace result { using score::Result; }
}
