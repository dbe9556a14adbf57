#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <new>
#include <type_traits>
#include <utility>
namespace score { namespace cpp {
template <typename T, std::size_t N> class static_vector
{
  public:
    using value_type = T; using iterator = T*; using const_iterator = const T*; using size_type = std::size_t;
    static_vector() noexcept = default;
    static_vector(const static_vector& o) { for (const T& x : o) push_back(x); }
    static_vector& operator=(const static_vector& o) { if (this != &o) { clear(); for (const T& x : o) push_back(x); } return *this; }
    ~static_vector() { clear(); }
    size_type size() const noexcept { return n_; }
    static constexpr size_type capacity() noexcept { return N; }
    bool empty() const noexcept { return n_ == 0U; }
    T* data() noexcept { return reinterpret_cast<T*>(&s_); }
    const T* data() const noexcept { return reinterpret_cast<const T*>(&s_); }
    iterator begin() noexcept { return data(); } iterator end() noexcept { return data() + n_; }
    const_iterator begin() const noexcept { return data(); } const_iterator end() const noexcept { return data() + n_; }
    const_iterator cbegin() const noexcept { return data(); } const_iterator cend() const noexcept { return data() + n_; }
    T& operator[](size_type i) { SCORE_LANGUAGE_FUTURECPP_PRECONDITION(i < n_); return data()[i]; }
    const T& operator[](size_type i) const { SCORE_LANGUAGE_FUTURECPP_PRECONDITION(i < n_); return data()[i]; }
    T& front() { return (*this)[0]; } T& back() { return (*this)[n_ - 1U]; }
    void clear() noexcept { while (n_ > 0U) { pop_back(); } }
    void pop_back() { SCORE_LANGUAGE_FUTURECPP_PRECONDITION(n_ > 0U); --n_; data()[n_].~T(); }
    void push_back(const T& x) { emplace_back(x); } void push_back(T&& x) { emplace_back(std::move(x)); }
    template <typename... A> T& emplace_back(A&&... a) { SCORE_LANGUAGE_FUTURECPP_PRECONDITION(n_ < N); T* p = new (static_cast<void*>(data() + n_)) T(std::forward<A>(a)...); ++n_; return *p; }
  private:
    std::aligned_storage_t<sizeof(T) * (N == 0U ? 1U : N), alignof(T)> s_;
    size_type n_{0U};
};
} }
