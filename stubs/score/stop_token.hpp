#pragma once
#include <atomic>
#include <memory>
namespace score { namespace cpp {
class stop_token
{
  public:
    bool stop_requested() const noexcept { return state_ != nullptr && state_->load(); }
    bool stop_possible() const noexcept { return state_ != nullptr; }
    std::shared_ptr<std::atomic<bool>> state_;
};
class stop_source
{
  public:
    stop_source() : state_{std::make_shared<std::atomic<bool>>(false)} {}
    bool request_stop() noexcept { return !state_->exchange(true); }
    bool stop_requested() const noexcept { return state_->load(); }
    stop_token get_token() const noexcept { stop_token t; t.state_ = state_; return t; }
    std::shared_ptr<std::atomic<bool>> state_;
};
} }
