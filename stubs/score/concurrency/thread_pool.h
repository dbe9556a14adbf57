#pragma once
#include "score/concurrency/executor.h"
namespace score { namespace concurrency {
class ThreadPool final : public Executor
{
  public:
    explicit ThreadPool(std::size_t n) : n_{n} {}
    template <typename S> ThreadPool(std::size_t n, S&&) : n_{n} {}
    std::size_t MaxConcurrencyLevel() const noexcept override { return n_; }
    bool ShutdownRequested() const noexcept override { return false; }
    void Shutdown() noexcept override {}
  private:
    std::size_t n_;
};
} }
