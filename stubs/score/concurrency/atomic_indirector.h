#pragma once
#include <atomic>
namespace score { namespace concurrency {
template <class T> class AtomicIndirectorReal
{
  public:
    static T fetch_add(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept { return a.fetch_add(v, o); }
    static T fetch_sub(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept { return a.fetch_sub(v, o); }
    static T load(const std::atomic<T>& a, std::memory_order o = std::memory_order_seq_cst) noexcept { return a.load(o); }
    static void store(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept { a.store(v, o); }
    static T exchange(std::atomic<T>& a, T v, std::memory_order o = std::memory_order_seq_cst) noexcept { return a.exchange(v, o); }
    static bool compare_exchange_weak(std::atomic<T>& a, T& e, T d, std::memory_order o = std::memory_order_seq_cst) noexcept { return a.compare_exchange_weak(e, d, o); }
    static bool compare_exchange_weak(std::atomic<T>& a, T& e, T d, std::memory_order o, std::memory_order f) noexcept { return a.compare_exchange_weak(e, d, o, f); }
    static bool compare_exchange_strong(std::atomic<T>& a, T& e, T d, std::memory_order o = std::memory_order_seq_cst) noexcept { return a.compare_exchange_strong(e, d, o); }
    static bool compare_exchange_strong(std::atomic<T>& a, T& e, T d, std::memory_order o, std::memory_order f) noexcept { return a.compare_exchange_strong(e, d, o, f); }
};
template <class T> class AtomicIndirectorMock : public AtomicIndirectorReal<T> {};
} }
