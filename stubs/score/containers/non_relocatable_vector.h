// Stand-in: vector of fixed capacity, reserved once through its allocator; exceeding the capacity terminates
#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <memory>
#include <new>
#include <utility>
namespace score { namespace containers {
template <typename T, typename Alloc = std::allocator<T>>
class NonRelocatableVector
{
    using traits = std::allocator_traits<Alloc>;
  public:
    using value_type = T; using size_type = std::size_t; using pointer = typename traits::pointer; using iterator = T*; using const_iterator = const T*;
    using reference = T&; using const_reference = const T&; using allocator_type = Alloc; using difference_type = std::ptrdiff_t;
    explicit NonRelocatableVector(size_type n, const Alloc& a = Alloc()) : alloc_{a}, capacity_{n}, size_{0U}, data_{traits::allocate(alloc_, n)}, raw_{n == 0U ? nullptr : std::addressof(*data_)} {}
    NonRelocatableVector(const NonRelocatableVector&) = delete;
    NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
    ~NonRelocatableVector() { if (raw_ != nullptr) { for (size_type i = 0U; i < size_; ++i) { raw_[i].~T(); } traits::deallocate(alloc_, data_, capacity_); } }
    size_type size() const noexcept { return size_; }
    size_type capacity() const noexcept { return capacity_; }
    bool empty() const noexcept { return size_ == 0U; }
    T* data() noexcept { return raw_; } const T* data() const noexcept { return raw_; }
    iterator begin() noexcept { return raw_; } iterator end() noexcept { return raw_ + size_; }
    const_iterator begin() const noexcept { return raw_; } const_iterator end() const noexcept { return raw_ + size_; }
    const_iterator cbegin() const noexcept { return raw_; } const_iterator cend() const noexcept { return raw_ + size_; }
    T& operator[](size_type i) noexcept { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw_[i]; }
    const T& operator[](size_type i) const noexcept { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw_[i]; }
    T& at(size_type i) { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw_[i]; }
    const T& at(size_type i) const { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw_[i]; }
    T& front() { return (*this)[0U]; } T& back() { return (*this)[size_ - 1U]; }
    template <typename... Args>
    T& emplace_back(Args&&... args)
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(size_ < capacity_);
        T* const p = new (static_cast<void*>(raw_ + size_)) T(std::forward<Args>(args)...);
        size_ = size_ + 1U;
        return *p;
    }
    void clear() { for (size_type i = 0U; i < size_; ++i) { raw_[i].~T(); } size_ = 0U; }
    Alloc get_allocator() const { return alloc_; }
  private:
    Alloc alloc_;
    size_type capacity_;
    size_type size_;
    pointer data_;
    T* raw_;  // cached address of the elements: in verification the array is seen by one process
};
} }
