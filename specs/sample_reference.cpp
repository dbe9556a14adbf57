// VC-SOURCES: score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/bindings/lola/slot_decrementer.cpp score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.cpp score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp score/mw/com/impl/bindings/lola/transaction_log_slot.cpp
// VC-USES: vc_sample_ptr_moves dereference
// The budget of samples a consumer may hold: whatever is handed out and whatever is available add up to the budget.
#include "lola_events.h"
#include "score/mw/com/impl/plumbing/sample_ptr.h"
#include "score/mw/com/impl/sample_reference_tracker.h"
#include <new>
using namespace score::mw::com::impl;

namespace
{
struct Tracker
{
    std::size_t max;
    std::size_t avail;
    SampleReferenceTracker t;
    Tracker() : max{vc::any<std::size_t>("max")}, avail{vc::any<std::size_t>("avail")}, t{max}
    {
        vc::assume(avail <= max);
        t.available_samples_.store(avail);
    }
    std::size_t Now() const { return t.available_samples_.load(); }
};
}  // namespace

VC_HARNESS(initial)
{
    const auto m = vc::any<std::size_t>("max");
    SampleReferenceTracker t{m};
    __vc_assert(t.GetNumAvailableSamples() == m && !t.IsUsed(), "initially every sample is available");
    const auto m2 = vc::any<std::size_t>("max2");
    t.Reset(m2);
    __vc_assert(t.GetNumAvailableSamples() == m2 && !t.IsUsed(), "after a reset every sample of the new budget is available");
    __vc_cover("end");
}

VC_HARNESS(observers)
{
    Tracker k{};
    __vc_assert(k.t.GetNumAvailableSamples() == k.avail, "the number of available samples is reported");
    __vc_assert(k.t.IsUsed() == (k.avail < k.max), "used iff a sample is handed out");
    __vc_assert(k.Now() == k.avail, "observing changes nothing");
    __vc_cover("end");
}

VC_HARNESS(allocate)
{
    Tracker k{};
    const auto n = vc::any<std::size_t>("n");
    __vc_hint_value(n, "n");
    __vc_hint_value(k.avail, "avail");
    {
        auto f = k.t.Allocate(n);
        const std::size_t got = f.GetNumAvailableGuards();
        __vc_assert(got == (n < k.avail ? n : k.avail), "as many as requested are handed out as far as available");
        __vc_assert(k.Now() + got == k.avail, "what is handed out is no longer available");
    }
    __vc_assert(k.Now() == k.avail, "what was not used is available again");
    __vc_cover("end");
}

namespace
{
std::uint64_t g_taken;
std::uint64_t g_max;
std::uint64_t load_any(void*, std::uint64_t)
{
    const auto v = vc::any<std::uint64_t>("available_now");
    vc::assume(v <= g_max);
    return v;
}
void store_take(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "the budget changes by an atomic read-modify-write");
    __vc_assert(now <= old, "an allocation never adds to the budget");
    g_taken += old - now;
}
void store_give(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "the budget changes by an atomic read-modify-write");
    g_taken += now - old;
}
}  // namespace

VC_HARNESS(allocate_interference)
{
    SampleReferenceTracker t{0U};
    g_max = vc::any<std::uint64_t>("max");
    t.max_num_samples_ = g_max;
    g_taken = 0U;
    const auto n = vc::any<std::size_t>("n");
    __vc_hint_value(n, "requested");
    __vc_region(&t.available_samples_, 8U, &load_any, &store_take);
    alignas(TrackerGuardFactory) unsigned char mem[sizeof(TrackerGuardFactory)];
    auto* f = new (mem) TrackerGuardFactory{t.Allocate(n)};
    __vc_region_off();
    __vc_assert(f->GetNumAvailableGuards() == g_taken, "exactly what was taken from the budget can be handed out");
    __vc_assert(f->GetNumAvailableGuards() <= n, "never more than requested");
    __vc_cover("end");
}

VC_HARNESS(deallocate_interference)
{
    SampleReferenceTracker t{0U};
    g_max = vc::any<std::uint64_t>("max");
    t.max_num_samples_ = g_max;
    g_taken = 0U;
    __vc_region(&t.available_samples_, 8U, &load_any, &store_give);
    {
        SampleReferenceGuard g{t};
    }
    __vc_region_off();
    __vc_assert(g_taken == 1U, "a reference given back makes exactly one sample available");
    __vc_cover("end");
}

VC_HARNESS(factory)
{
    Tracker k{};
    const auto guards = vc::any<std::size_t>("guards");
    vc::assume(guards <= k.max - k.avail);
    {
        TrackerGuardFactory f{k.t, guards};
        auto g = f.TakeGuard();
        __vc_assert(g.has_value() == (guards > 0U), "a reference is handed out iff there is one left");
        __vc_assert(f.GetNumAvailableGuards() == guards - (guards > 0U ? 1U : 0U), "a reference handed out is no longer left");
        __vc_assert(k.Now() == k.avail, "handing out changes nothing in the budget");
        TrackerGuardFactory h{std::move(f)};
        __vc_assert(h.GetNumAvailableGuards() == guards - (guards > 0U ? 1U : 0U), "moving keeps what is left");
        __vc_assert(f.GetNumAvailableGuards() == 0U, "the source of a move has nothing left");
        __vc_assert(k.Now() == k.avail, "moving changes nothing in the budget");
    }
    __vc_assert(k.Now() == k.avail + guards, "everything handed out comes back exactly once");
    __vc_cover("end");
}

VC_HARNESS(guard)
{
    Tracker k{};
    SampleReferenceTracker other{vc::any<std::size_t>("other_max")};
    const auto what = vc::any<std::uint8_t>("what");
    vc::assume(k.max - k.avail >= 2U);
    {
        SampleReferenceGuard a{k.t};
        if (what == 0U)
        {
            SampleReferenceGuard b{std::move(a)};
            __vc_assert(k.Now() == k.avail && b.tracker_ == &k.t && a.tracker_ == nullptr, "moving passes the reference on");
        }
        else if (what == 1U)
        {
            SampleReferenceGuard b{k.t};
            b = std::move(a);
            __vc_assert(k.Now() == k.avail + 1U && b.tracker_ == &k.t && a.tracker_ == nullptr, "the target's own reference is given back on move assignment");
        }
        else if (what == 2U)
        {
            SampleReferenceGuard b{};
            b = std::move(a);
            __vc_assert(k.Now() == k.avail && b.tracker_ == &k.t && a.tracker_ == nullptr, "moving into an empty one passes the reference on");
        }
        else if (what == 3U)
        {
            SampleReferenceGuard& b = a;
            a = std::move(b);
            __vc_assert(k.Now() == k.avail && a.tracker_ == &k.t, "self move keeps the reference");
        }
        else if (what == 4U)
        {
            SampleReferenceGuard b{};
            SampleReferenceGuard c{std::move(b)};
            a = std::move(c);
            __vc_assert(k.Now() == k.avail + 1U && a.tracker_ == nullptr, "assigning an empty one gives the reference back");
        }
    }
    __vc_assert(k.Now() == k.avail + (what == 1U ? 2U : 1U), "every reference is given back exactly once");
    __vc_cover("end");
}

// ---------------------------------------------------------------- the handle given to the application
namespace
{
std::uint64_t g_deref[2];
void dereference_stub(lola::ConsumerEventDataControlLocalView<>*, std::uint16_t i) { ++g_deref[i & 1U]; }
std::uint32_t g_data[2];
}  // namespace
VC_CONTRACT(dereference, "ConsumerEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::DereferenceEvent\\(.*", dereference_stub)

namespace
{
struct World
{
    Tracker k;
    vcl::Control c;
    lola::ConsumerEventDataControlLocalView<> v;
    World() : k{}, c{"slots", 2U}, v{c.get()}
    {
        vc::assume(k.max - k.avail >= 2U);
        g_deref[0] = 0U;
        g_deref[1] = 0U;
    }
    SamplePtr<std::uint32_t> Make(std::uint16_t i) { return SamplePtr<std::uint32_t>{lola::SamplePtr<std::uint32_t>{&g_data[i], v, i}, SampleReferenceGuard{k.t}}; }
};
}  // namespace

VC_HARNESS(sample_ptr_moves)
{
    World w{};
    const auto what = vc::any<std::uint8_t>("what");
    bool two = false;
    {
        auto a = w.Make(0U);
        __vc_assert(static_cast<bool>(a) && a.Get() == &g_data[0], "the handle designates its sample");
        __vc_assert(g_deref[0] == 0U && w.k.Now() == w.k.avail, "making a handle gives nothing back");
        if (what == 0U)
        {
            SamplePtr<std::uint32_t> b{std::move(a)};
            __vc_assert(b.Get() == &g_data[0] && !static_cast<bool>(a), "moving passes the sample on");
            __vc_assert(g_deref[0] == 0U && w.k.Now() == w.k.avail, "moving gives nothing back");
        }
        else if (what == 1U)
        {
            two = true;
            auto b = w.Make(1U);
            b = std::move(a);
            __vc_assert(b.Get() == &g_data[0], "moving passes the sample on");
            __vc_assert(g_deref[1] == 1U && g_deref[0] == 0U && w.k.Now() == w.k.avail + 1U, "the target's own sample is given back on move assignment");
        }
        else if (what == 2U)
        {
            a = nullptr;
            __vc_assert(!static_cast<bool>(a) && a.Get() == nullptr, "a handle reset designates nothing");
            __vc_assert(g_deref[0] == 1U && w.k.Now() == w.k.avail + 1U, "resetting a handle gives its sample back at once");
        }
        else if (what == 3U)
        {
            two = true;
            auto b = w.Make(1U);
            swap(a, b);
            __vc_assert(a.Get() == &g_data[1] && b.Get() == &g_data[0], "swapping exchanges the samples");
            __vc_assert(g_deref[0] == 0U && g_deref[1] == 0U && w.k.Now() == w.k.avail, "swapping gives nothing back");
        }
        else if (what == 4U)
        {
            SamplePtr<std::uint32_t> b{};
            __vc_assert(!static_cast<bool>(b) && b.Get() == nullptr, "an empty handle designates nothing");
            b = std::move(a);
            __vc_assert(b.Get() == &g_data[0] && g_deref[0] == 0U && w.k.Now() == w.k.avail, "moving into an empty handle passes the sample on");
        }
        else if (what == 5U)
        {
            SamplePtr<std::uint32_t> b{nullptr};
            a = std::move(b);
            __vc_assert(!static_cast<bool>(a) && g_deref[0] == 1U && w.k.Now() == w.k.avail + 1U, "assigning an empty handle gives the sample back");
        }
        else if (what == 6U)
        {
            a.Reset();
            __vc_assert(!static_cast<bool>(a) && g_deref[0] == 1U && w.k.Now() == w.k.avail + 1U, "resetting a handle gives its sample back at once");
        }
    }
    __vc_assert(g_deref[0] == 1U && g_deref[1] == (two ? 1U : 0U), "every sample is released exactly once");
    __vc_assert(w.k.Now() == w.k.avail + (two ? 2U : 1U), "every reference comes back to the budget exactly once");
    __vc_cover("end");
}

// an owner of something that can be held once cannot be copied
VC_HARNESS(owner_cannot_be_copied)
{
    __vc_assert(!std::is_copy_constructible<score::mw::com::impl::SampleReferenceGuard>::value && !std::is_copy_assignable<score::mw::com::impl::SampleReferenceGuard>::value, "what is owned once cannot be copied");
    __vc_cover("end");
}
