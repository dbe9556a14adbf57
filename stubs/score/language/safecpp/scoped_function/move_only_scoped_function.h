// Stand-in: function that runs only while its scope has not expired
#pragma once
#include "score/callback.hpp"
#include "score/optional.hpp"
#include "score/blank.hpp"
#include "score/language/safecpp/scoped_function/scope.h"
#include <functional>
#include <type_traits>
namespace score { namespace safecpp {
namespace detail
{
template <typename S, template <typename...> class F> class ScopedFunctionImpl;
template <typename R, typename... Args, template <typename...> class F>
class ScopedFunctionImpl<R(Args...), F>
{
  public:
    using Result = std::conditional_t<std::is_void<R>::value, score::cpp::optional<score::cpp::blank>, score::cpp::optional<R>>;
    ScopedFunctionImpl() = default;
    template <typename D, typename C>
    ScopedFunctionImpl(const Scope<D>& scope, C&& c) : state_{scope.state_}, f_{std::forward<C>(c)} {}
    template <typename... A>
    auto operator()(A&&... a) const
    {
        if constexpr (std::is_void<R>::value)
        {
            if (state_ != nullptr && state_->alive) { const_cast<F<R(Args...)>&>(f_)(std::forward<A>(a)...); return Result{score::cpp::blank{}}; }
            return Result{};
        }
        else
        {
            if (state_ != nullptr && state_->alive) { return Result{const_cast<F<R(Args...)>&>(f_)(std::forward<A>(a)...)}; }
            return Result{};
        }
    }
    std::shared_ptr<ScopeState> state_;
    F<R(Args...)> f_;
};
template <typename... S> using MoveOnlyHolder = score::cpp::callback<S...>;
template <typename... S> using CopyableHolder = std::function<S...>;
}
template <typename S, std::size_t = 64U>
class MoveOnlyScopedFunction : public detail::ScopedFunctionImpl<S, detail::MoveOnlyHolder>
{
  public:
    using Base = detail::ScopedFunctionImpl<S, detail::MoveOnlyHolder>;
    using Base::Base;
    MoveOnlyScopedFunction() = default;
    MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept = default;
    MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept = default;
};
} }
