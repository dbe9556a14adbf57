// Stand-in: runs a function at the end of its scope unless released or moved from
#pragma once
#include <utility>
namespace score { namespace utils {
template <typename F>
class ScopeExit
{
  public:
    explicit ScopeExit(F f) : f_{std::move(f)}, active_{true} {}
    ScopeExit(const ScopeExit&) = delete;
    ScopeExit& operator=(const ScopeExit&) = delete;
    ScopeExit(ScopeExit&& o) noexcept : f_{std::move(o.f_)}, active_{o.active_} { o.active_ = false; }
    ScopeExit& operator=(ScopeExit&& o) noexcept
    {
        if (this != &o) { if (active_) { f_(); } f_ = std::move(o.f_); active_ = o.active_; o.active_ = false; }
        return *this;
    }
    ~ScopeExit() { if (active_) { f_(); } }
    void Release() noexcept { active_ = false; }
  private:
    F f_;
    bool active_;
};
template <typename F> ScopeExit(F) -> ScopeExit<F>;
} }
