// Handing over one result from a provider to its waiters.
#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include "vc.h"
#include <mutex>
#include <utility>
using namespace score::message_passing::detail;

namespace
{
struct Value
{
    std::uint64_t a;
    std::uint32_t b;
};
// the lock and the condition: what happens at them is recorded; whenever the lock is free or waited for the provider may
// finish (in the waiter's contract)
bool g_held;
bool g_waiter;        // the contract of a waiter: someone else provides the result
bool g_provided;      // the result is completely there
bool g_notify_held;   // everybody has been notified under the lock that is still held
bool g_notified;      // everybody has been notified with or after the change
volatile bool* g_ready;
Value* g_value;
Value g_final;

volatile bool g_own;  // the specification itself looks
bool Ready()
{
    g_own = true;
    const bool r = *g_ready;
    g_own = false;
    return r;
}
void Provide()
{
    if (g_waiter)
    {
        const bool p = vc::any<bool>("provided_now");
        const std::uint64_t m = -static_cast<std::uint64_t>(p);
        g_value->a = (g_value->a & ~m) | (g_final.a & m);
        g_value->b = (g_value->b & ~static_cast<std::uint32_t>(m)) | (g_final.b & static_cast<std::uint32_t>(m));
        g_provided = static_cast<bool>(static_cast<unsigned>(g_provided) | static_cast<unsigned>(p));
        g_own = true;
        *g_ready = static_cast<bool>(static_cast<unsigned>(*g_ready) | static_cast<unsigned>(p));
        g_own = false;
    }
}
struct Mutex
{
    void lock()
    {
        __vc_assert(!g_held, "the lock is not taken twice");
        Provide();
        g_held = true;
    }
    bool try_lock()
    {
        if (vc::any<bool>("taken"))
        {
            return false;
        }
        lock();
        return true;
    }
    void unlock()
    {
        __vc_assert(g_held, "only a lock that is held is released");
        g_held = false;
        if (g_notify_held && Ready())
        {
            g_notified = true;
        }
        g_notify_held = false;
        Provide();
    }
};
struct Condition
{
    void notify_one() {}
    void notify_all()
    {
        if (g_held)
        {
            g_notify_held = true;
        }
        if (Ready())
        {
            g_notified = true;
        }
    }
    void wait(std::unique_lock<Mutex>& lock)
    {
        __vc_assert(lock.owns_lock() && g_held, "a waiter waits with the lock held");
        __vc_assert(!Ready(), "a waiter sleeps only while the result is not there");
        // asleep; woken with or without a reason
        g_held = false;
        Provide();
        g_held = true;
    }
    template <typename P>
    void wait(std::unique_lock<Mutex>& lock, P pred)
    {
        while (!pred())
        {
            wait(lock);
        }
    }
};
std::uint64_t load_ready(void* p, std::uint64_t n)
{
    __vc_assert(g_own || g_held, "whether the result is there is looked up under the lock");
    return *static_cast<unsigned char*>(p);
}
void store_ready(void* p, std::uint64_t, std::uint64_t now, std::uint64_t)
{
    if (g_own)
    {
        *static_cast<unsigned char*>(p) = static_cast<unsigned char>(now);
        return;
    }
    __vc_assert(g_held, "the result is announced under the lock");
    __vc_assert(now == 0U || (g_value->a == g_final.a && g_value->b == g_final.b), "the result is announced after it is complete");
    *static_cast<unsigned char*>(p) = static_cast<unsigned char>(now);
}
using Future = NonAllocatingFuture<Mutex, Condition, Value>;
using VoidFuture = NonAllocatingFuture<Mutex, Condition, void>;
struct World
{
    Mutex mutex{};
    Condition cv{};
    Value value{};
    World(bool waiter)
    {
        g_held = false;
        g_waiter = waiter;
        g_provided = false;
        g_notify_held = false;
        g_notified = false;
        value = {vc::any<std::uint64_t>("old_a"), vc::any<std::uint32_t>("old_b")};
        g_value = &value;
        g_final = {vc::any<std::uint64_t>("new_a"), vc::any<std::uint32_t>("new_b")};
    }
};
template <typename F>
void Watch(F& f)
{
    g_ready = &f.ready_;
    __vc_assert(!f.ready_, "initially there is no result");
    __vc_region(&f.ready_, 1U, &load_ready, &store_ready);
}
void ProvidedWell()
{
    __vc_region_off();
    __vc_assert(!g_held, "the lock is released");
    __vc_assert(Ready(), "after providing the result is there");
    __vc_assert(g_notified, "providing the result wakes every waiter");
    __vc_assert(g_value->a == g_final.a && g_value->b == g_final.b, "the result is the one provided");
    __vc_cover("end");
}
}  // namespace

VC_HARNESS(provide_copy)
{
    World w{false};
    Future f{w.mutex, w.cv, w.value};
    Watch(f);
    f.UpdateValueMarkReady(g_final);
    ProvidedWell();
}
VC_HARNESS(provide_move)
{
    World w{false};
    Future f{w.mutex, w.cv, w.value};
    Watch(f);
    Value v = g_final;
    f.UpdateValueMarkReady(std::move(v));
    ProvidedWell();
}
VC_HARNESS(provide_in_place)
{
    World w{false};
    Future f{w.mutex, w.cv, w.value};
    Watch(f);
    f.GetValueForUpdate().a = g_final.a;
    f.GetValueForUpdate().b = g_final.b;
    __vc_assert(!Ready() && !g_notified, "updating the value announces nothing");
    f.MarkReady();
    ProvidedWell();
}
VC_HARNESS(wait)
{
    World w{true};
    __vc_hint_value(g_final.a, "final_a");
    __vc_hint_value(g_final.b, "final_b");
    Future f{w.mutex, w.cv, w.value};
    Watch(f);
    f.Wait();
    __vc_assert(!g_held, "the lock is released");
    __vc_assert(g_provided, "a waiter is released only after the result has been provided");
    __vc_assert(&f.GetValue() == &w.value, "the result seen is the one handed over");
    __vc_assert(f.GetValue().a == g_final.a && f.GetValue().b == g_final.b, "the result seen is the one provided");
    __vc_cover("end");
}
// waiting again returns at once
VC_HARNESS(wait_again)
{
    World w{true};
    __vc_hint_value(g_final.a, "final_a");
    __vc_hint_value(g_final.b, "final_b");
    Future f{w.mutex, w.cv, w.value};
    Watch(f);
    f.Wait();
    f.Wait();
    __vc_assert(g_provided && f.GetValue().a == g_final.a, "a result that is there stays there");
    __vc_cover("end");
}
VC_HARNESS(without_value)
{
    World w{false};
    w.value = g_final;
    VoidFuture f{w.mutex, w.cv};
    Watch(f);
    f.MarkReady();
    ProvidedWell();
}
VC_HARNESS(wait_without_value)
{
    World w{true};
    VoidFuture f{w.mutex, w.cv};
    Watch(f);
    f.Wait();
    __vc_assert(!g_held, "the lock is released");
    __vc_assert(g_provided, "a waiter is released only after the result has been provided");
    __vc_cover("end");
}
