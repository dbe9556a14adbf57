#pragma once
#include "score/assert.hpp"
#include <array>
#include <cstddef>
#include <iterator>
#include <limits>
#include <type_traits>
namespace score
{
namespace cpp
{
inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <typename T, std::size_t Extent = dynamic_extent>
class span
{
  public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using iterator = T*;
    using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<iterator>;
    constexpr span() noexcept : data_{nullptr}, size_{0U} {}
    template <typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
    constexpr span(pointer p, I n) noexcept : data_{p}, size_{static_cast<size_type>(n)} {}
    constexpr span(pointer f, pointer l) noexcept : data_{f}, size_{static_cast<size_type>(l - f)} {}
    template <std::size_t N>
    constexpr span(T (&a)[N]) noexcept : data_{a}, size_{N} {}
    template <typename U, std::size_t N, typename = std::enable_if_t<std::is_convertible<U (*)[], T (*)[]>::value>>
    constexpr span(std::array<U, N>& a) noexcept : data_{a.data()}, size_{N} {}
    template <typename U, std::size_t N, typename = std::enable_if_t<std::is_convertible<const U (*)[], T (*)[]>::value>>
    constexpr span(const std::array<U, N>& a) noexcept : data_{a.data()}, size_{N} {}
    template <typename C, typename = std::enable_if_t<!std::is_array<std::remove_reference_t<C>>::value &&
              std::is_convertible<std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[], T (*)[]>::value>,
              typename = decltype(std::declval<C&>().size())>
    constexpr span(C&& c) noexcept : data_{c.data()}, size_{static_cast<size_type>(c.size())} {}
    constexpr pointer data() const noexcept { return data_; }
    constexpr size_type size() const noexcept { return size_; }
    constexpr size_type size_bytes() const noexcept { return size_ * sizeof(T); }
    constexpr bool empty() const noexcept { return size_ == 0U; }
    constexpr iterator begin() const noexcept { return data_; }
    constexpr iterator end() const noexcept { return data_ + size_; }
    constexpr const_iterator cbegin() const noexcept { return data_; }
    constexpr const_iterator cend() const noexcept { return data_ + size_; }
    constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator{end()}; }
    constexpr reverse_iterator rend() const noexcept { return reverse_iterator{begin()}; }
    constexpr reference operator[](size_type i) const noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION(i < size_);
        return data_[i];
    }
    constexpr reference at(size_type i) const noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION(i < size_);
        return data_[i];
    }
    constexpr reference front() const noexcept { return (*this)[0U]; }
    constexpr reference back() const noexcept { return (*this)[size_ - 1U]; }
    constexpr span subspan(size_type o) const noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION(o <= size_);
        return span{data_ + o, size_ - o};
    }
    constexpr span subspan(size_type o, size_type n) const noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION(o <= size_ && n <= size_ - o);
        return span{data_ + o, n};
    }
    constexpr span first(size_type n) const noexcept { return subspan(0U, n); }
    constexpr span last(size_type n) const noexcept { return subspan(size_ - n, n); }

  private:
    pointer data_;
    size_type size_;
};
template <typename T>
constexpr T& at(span<T> s, std::size_t i) { return s[i]; }
template <typename T>
constexpr span<const unsigned char> as_bytes(span<T> s) { return {reinterpret_cast<const unsigned char*>(s.data()), s.size_bytes()}; }
}  // namespace cpp
}  // namespace score
