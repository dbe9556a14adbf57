// Stand-in: a scope and functions that run only while their scope has not expired
#pragma once
#include <atomic>
#include <memory>
namespace score { namespace safecpp {
namespace detail { struct ScopeState { bool alive{true}; }; }
template <typename Data = void>
class Scope
{
  public:
    Scope() : state_{std::make_shared<detail::ScopeState>()} {}
    Scope(const Scope&) = delete;
    Scope(Scope&&) noexcept = default;
    Scope& operator=(const Scope&) = delete;
    Scope& operator=(Scope&& o) noexcept { Expire(); state_ = std::move(o.state_); return *this; }
    ~Scope() { Expire(); }
    void Expire() { if (state_ != nullptr) { state_->alive = false; } }
    std::shared_ptr<detail::ScopeState> state_;
};
} }
