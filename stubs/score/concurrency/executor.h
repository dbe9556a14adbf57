// Stand-in: something that runs functions, some time, on some thread
#pragma once
#include "score/stop_token.hpp"
#include "score/utility.hpp"
namespace score { namespace concurrency {
class Executor
{
  public:
    virtual ~Executor() = default;
    template <typename C, typename... A> void Post(C&&, A&&...) {}
    virtual std::size_t MaxConcurrencyLevel() const noexcept = 0;
    virtual bool ShutdownRequested() const noexcept = 0;
    virtual void Shutdown() noexcept = 0;
};
} }
