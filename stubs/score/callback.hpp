// Stand-in: move-only callable wrapper
#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
#include "score/assert.hpp"
namespace score { namespace cpp {
template <typename Sig, std::size_t Cap = 32U, std::size_t Align = alignof(std::max_align_t)> class callback;
template <typename R, typename... A, std::size_t Cap, std::size_t Align>
class callback<R(A...), Cap, Align>
{
    struct base { virtual ~base() = default; virtual R call(A...) = 0; };
    template <typename F> struct impl final : base { F f; explicit impl(F g) : f(std::move(g)) {} R call(A... a) override { return f(std::forward<A>(a)...); } };
  public:
    using alignment_t = std::integral_constant<std::size_t, Align>;
    callback() noexcept = default;
    callback(std::nullptr_t) noexcept {}
    template <typename F, typename = std::enable_if_t<!std::is_same<std::decay_t<F>, callback>::value && std::is_invocable_r<R, std::decay_t<F>&, A...>::value>>
    callback(F&& f) : p_{new impl<std::decay_t<F>>(std::forward<F>(f))} {}
    callback(callback&&) noexcept = default;
    callback& operator=(callback&&) noexcept = default;
    callback(const callback&) = delete;
    callback& operator=(const callback&) = delete;
    R operator()(A... a) const { SCORE_LANGUAGE_FUTURECPP_PRECONDITION(p_ != nullptr); return p_->call(std::forward<A>(a)...); }
    bool empty() const noexcept { return p_ == nullptr; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    friend bool operator==(const callback& c, std::nullptr_t) { return c.empty(); }
    friend bool operator!=(const callback& c, std::nullptr_t) { return !c.empty(); }
  private:
    std::unique_ptr<base> p_;
};
template <typename Sig, std::size_t Cap = 32U, std::size_t Align = alignof(std::max_align_t)> using move_only_function = callback<Sig, Cap, Align>;
} }
