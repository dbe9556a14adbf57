#pragma once
#include "score/assert.hpp"
#include "score/blank.hpp"
#include <optional>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
template <typename E>
class unexpected
{
  public:
    constexpr explicit unexpected(E e) : e_(std::move(e)) {}
    constexpr const E& error() const& noexcept { return e_; }
    constexpr E&& error() && noexcept { return std::move(e_); }
  private:
    E e_;
};
template <typename E>
constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>{std::forward<E>(e)}; }
struct unexpect_t {};
inline constexpr unexpect_t unexpect{};
template <typename T, typename E>
class expected
{
  public:
    using value_type = T;
    using error_type = E;
    using unexpected_type = unexpected<E>;
    template <typename U = T, typename = std::enable_if_t<std::is_default_constructible<U>::value>>
    expected() : v_{std::in_place}, e_{} {}
    template <typename U = T, typename = std::enable_if_t<std::is_constructible<T, U&&>::value && !std::is_same<std::decay_t<U>, expected>::value>>
    expected(U&& v) : v_(std::in_place, std::forward<U>(v)), e_{} {}
    template <typename G>
    expected(const unexpected<G>& u) : v_{}, e_{std::in_place, u.error()} {}
    template <typename G>
    expected(unexpected<G>&& u) : v_{}, e_{std::in_place, std::move(u).error()} {}
    template <typename... A>
    explicit expected(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...), e_{} {}
    template <typename... A>
    explicit expected(unexpect_t, A&&... a) : v_{}, e_(std::in_place, std::forward<A>(a)...) {}
    bool has_value() const noexcept { return v_.has_value(); }
    explicit operator bool() const noexcept { return v_.has_value(); }
    T& value() & { chk(); return *v_; }
    const T& value() const& { chk(); return *v_; }
    T&& value() && { chk(); return std::move(*v_); }
    const E& error() const& { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(e_.has_value()); return *e_; }
    E& error() & { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(e_.has_value()); return *e_; }
    E&& error() && { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(e_.has_value()); return std::move(*e_); }
    T& operator*() & { chk(); return *v_; }
    const T& operator*() const& { chk(); return *v_; }
    T&& operator*() && { chk(); return std::move(*v_); }
    T* operator->() { chk(); return &*v_; }
    const T* operator->() const { chk(); return &*v_; }
    template <typename... A>
    T& emplace(A&&... a) { e_.reset(); return v_.emplace(std::forward<A>(a)...); }
    template <typename U>
    T value_or(U&& u) const& { return v_.has_value() ? *v_ : static_cast<T>(std::forward<U>(u)); }
    template <typename F>
    auto and_then(F&& f) & -> decltype(f(std::declval<T&>()))
    {
        if (has_value()) { return f(*v_); }
        return unexpected<E>{*e_};
    }
    template <typename F>
    auto and_then(F&& f) && -> decltype(f(std::declval<T>()))
    {
        if (has_value()) { return f(std::move(*v_)); }
        return unexpected<E>{std::move(*e_)};
    }
    template <typename F>
    auto or_else(F&& f) && -> decltype(f(std::declval<E>()))
    {
        if (has_value()) { return std::move(*v_); }
        return f(std::move(*e_));
    }
    friend bool operator==(const expected& a, const expected& b) { return a.v_ == b.v_ && a.e_ == b.e_; }
    friend bool operator!=(const expected& a, const expected& b) { return !(a == b); }
  private:
    void chk() const { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(v_.has_value()); }
    std::optional<T> v_;
    std::optional<E> e_;
};
template <typename E>
class expected<void, E>
{
  public:
    using value_type = void;
    using error_type = E;
    expected() : e_{} {}
    expected(blank) : e_{} {}
    template <typename G>
    expected(const unexpected<G>& u) : e_{std::in_place, u.error()} {}
    template <typename G>
    expected(unexpected<G>&& u) : e_{std::in_place, std::move(u).error()} {}
    bool has_value() const noexcept { return !e_.has_value(); }
    explicit operator bool() const noexcept { return has_value(); }
    void value() const { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(has_value()); }
    const E& error() const& { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(e_.has_value()); return *e_; }
    E&& error() && { SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(e_.has_value()); return std::move(*e_); }
  private:
    std::optional<E> e_;
};
template <typename E>
using expected_blank = expected<blank, E>;
}  // namespace cpp
}  // namespace score
