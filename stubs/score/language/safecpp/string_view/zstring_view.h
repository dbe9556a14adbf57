// Stand-in: null-terminated view
#pragma once
#include <string>
#include <string_view>
namespace score { namespace safecpp {
class zstring_view : public std::string_view
{
  public:
    constexpr zstring_view() noexcept : std::string_view{""} {}
    constexpr zstring_view(const char* s) : std::string_view{s} {}
    constexpr zstring_view(const char* s, std::size_t n) : std::string_view{s, n} {}
    zstring_view(const std::string& s) : std::string_view{s} {}
    constexpr const char* c_str() const noexcept { return data(); }
};
namespace literals { constexpr zstring_view operator""_zsv(const char* s, std::size_t n) { return {s, n}; } }
} }
