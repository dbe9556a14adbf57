// Stand-in: fixed-size array allocated once through its allocator; element access is bounds-checked
#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <memory>
#include <new>
#include <utility>
namespace score { namespace containers {
template <typename T, typename Alloc = std::allocator<T>>
class DynamicArray
{
    using traits = std::allocator_traits<Alloc>;
  public:
    using value_type = T; using size_type = std::size_t; using pointer = typename traits::pointer; using iterator = T*; using const_iterator = const T*;
    using reference = T&; using const_reference = const T&; using allocator_type = Alloc; using difference_type = std::ptrdiff_t;
    explicit DynamicArray(const Alloc& a) : alloc_{a}, size_{0U}, data_{nullptr}, raw_{nullptr} {}
    explicit DynamicArray(size_type n, const Alloc& a = Alloc()) : alloc_{a}, size_{n}, data_{traits::allocate(alloc_, n)}, raw_{n == 0U ? nullptr : std::addressof(*data_)}
    { T* p = raw(); for (size_type i = 0U; i < n; ++i) { new (static_cast<void*>(p + i)) T(); } }
    DynamicArray(size_type n, const T& v, const Alloc& a) : alloc_{a}, size_{n}, data_{traits::allocate(alloc_, n)}, raw_{n == 0U ? nullptr : std::addressof(*data_)}
    { T* p = raw(); for (size_type i = 0U; i < n; ++i) { new (static_cast<void*>(p + i)) T(v); } }
    DynamicArray(const DynamicArray& o) : alloc_{o.alloc_}, size_{o.size_}, data_{traits::allocate(alloc_, o.size_)}, raw_{o.size_ == 0U ? nullptr : std::addressof(*data_)}
    { T* p = raw(); for (size_type i = 0U; i < size_; ++i) { new (static_cast<void*>(p + i)) T(o.raw()[i]); } }
    DynamicArray& operator=(const DynamicArray&) = delete;
    ~DynamicArray() { if (size_ != 0U) { T* p = raw(); for (size_type i = 0U; i < size_; ++i) { p[i].~T(); } traits::deallocate(alloc_, data_, size_); } }
    size_type size() const noexcept { return size_; }
    bool empty() const noexcept { return size_ == 0U; }
    T* data() noexcept { return raw(); } const T* data() const noexcept { return raw(); }
    iterator begin() noexcept { return raw(); } iterator end() noexcept { return raw() + size_; }
    const_iterator begin() const noexcept { return raw(); } const_iterator end() const noexcept { return raw() + size_; }
    const_iterator cbegin() const noexcept { return raw(); } const_iterator cend() const noexcept { return raw() + size_; }
    T& operator[](size_type i) noexcept { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw()[i]; }
    const T& operator[](size_type i) const noexcept { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw()[i]; }
    T& at(size_type i) { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw()[i]; }
    const T& at(size_type i) const { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(i < size_); return raw()[i]; }
    T& front() { return (*this)[0U]; } T& back() { return (*this)[size_ - 1U]; }
    Alloc get_allocator() const { return alloc_; }
  private:
    T* raw() const noexcept { return raw_; }
    Alloc alloc_;
    size_type size_;
    pointer data_;
    T* raw_;  // cached address of the elements: in verification the array is seen by one process
};
} }
