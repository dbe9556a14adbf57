#pragma once
namespace score
{
namespace cpp
{
class blank
{
  public:
    friend constexpr bool operator==(blank, blank) noexcept { return true; }
    friend constexpr bool operator!=(blank, blank) noexcept { return false; }
    friend constexpr bool operator<(blank, blank) noexcept { return false; }
};
}  // namespace cpp
}  // namespace score
