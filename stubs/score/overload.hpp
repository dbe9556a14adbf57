#pragma once
#include <utility>
#include <variant>
namespace score { namespace cpp {
template <typename... F> struct overloaded : F... { using F::operator()...; };
template <typename... F> overloaded<std::decay_t<F>...> overload(F&&... f) { return {std::forward<F>(f)...}; }
template <typename V, typename... A> decltype(auto) visit(V&& v, A&&... a) { return std::visit(std::forward<V>(v), std::forward<A>(a)...); }
} }
