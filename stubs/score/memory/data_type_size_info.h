#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <type_traits>
namespace score { namespace memory {
class DataTypeSizeInfo
{
  public:
    constexpr DataTypeSizeInfo() noexcept = default;
    constexpr DataTypeSizeInfo(std::size_t s, std::size_t a) noexcept : size_{s}, alignment_{a} {}
    constexpr std::size_t Size() const noexcept { return size_; }
    constexpr std::size_t Alignment() const noexcept { return alignment_; }
    friend constexpr bool operator==(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return a.size_ == b.size_ && a.alignment_ == b.alignment_; }
    friend constexpr bool operator!=(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return !(a == b); }
    std::size_t size_{0U}, alignment_{1U};
};
template <typename T> constexpr DataTypeSizeInfo CreateDataTypeSizeInfoFromType() { return {sizeof(T), alignof(T)}; }
template <typename T> constexpr DataTypeSizeInfo CreateDataTypeSizeInfo() { return {sizeof(T), alignof(T)}; }
template <typename T, typename... A> constexpr DataTypeSizeInfo CreateDataTypeSizeInfoFromValues(T s, A... a) { return {static_cast<std::size_t>(s), static_cast<std::size_t>(a)...}; }
} }
