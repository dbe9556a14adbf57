#pragma once
#include "score/memory_resource.hpp"
#include <memory>
#include <utility>
namespace score { namespace cpp { namespace pmr {
// deallocation goes through the resource in the original; the stand-in uses the global heap
template <typename T> struct vc_del
{
    constexpr vc_del() noexcept = default;
    template <typename U> vc_del(const vc_del<U>&) noexcept {}
    void operator()(T* p) const { delete p; }
};
template <typename T> using unique_ptr = std::unique_ptr<T, vc_del<T>>;
template <typename T, typename... A> unique_ptr<T> make_unique(memory_resource*, A&&... a) { return unique_ptr<T>{new T(std::forward<A>(a)...)}; }
template <typename T, typename... A> std::shared_ptr<T> make_shared(memory_resource*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
} } }
