#pragma once
#include <optional>
namespace score { namespace cpp {
template <typename T> using optional = std::optional<T>;
using std::make_optional; using nullopt_t = std::nullopt_t; inline constexpr nullopt_t nullopt = std::nullopt;
} }
