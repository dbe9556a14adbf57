// VC-USES: vc_sample_ptr_moves discard
// VC-USES: vc_sample_ptr_mixed discard
// VC-SOURCES: score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/sample_allocatee_guard.cpp
// The samples an application holds for writing are counted exactly: one guard, one count.
#include "score/mw/com/impl/plumbing/sample_allocatee_ptr.h"
#include "score/mw/com/impl/sample_allocatee_guard.h"
#include "score/mw/com/impl/sample_allocatee_tracker.h"
#include "vc.h"
#include <new>
#include <optional>
#include <utility>
using namespace score::mw::com::impl;

namespace
{
// A tracker in an arbitrary state: `others` are held by handles the harness does not see, `mine` by those it makes.
struct Tracker
{
    std::size_t others;
    alignas(SampleAllocateeTracker) unsigned char raw[sizeof(SampleAllocateeTracker)];
    SampleAllocateeTracker& t;
    explicit Tracker(const char* name)
        : others{vc::any<std::size_t>(name)}, t{*new (raw) SampleAllocateeTracker{}}
    {
        vc::assume(others <= SIZE_MAX - 16U);
        t.allocated_count_.store(others);
    }
    std::size_t Now() const { return t.GetNumAllocated(); }
    bool Holds(std::size_t mine) const { return Now() == others + mine; }
};

std::size_t g_now;
std::uint64_t load_any(void*, std::uint64_t)
{
    // what other threads did meanwhile: anything, but they give back only what they hold
    const auto v = vc::any<std::size_t>("count_now");
    vc::assume(v >= g_now && v <= SIZE_MAX - 16U);
    return v;
}
std::size_t g_adds;
std::size_t g_subs;
void store_count(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "the count changes by one atomic read-modify-write, so no concurrent change is lost");
    __vc_assert(now == old + 1U || now + 1U == old, "the count changes by one");
    __vc_assert(now == old + 1U || old > 0U, "the count never goes below zero");
    g_adds += (now == old + 1U) ? 1U : 0U;
    g_subs += (now + 1U == old) ? 1U : 0U;
    g_now += (now == old + 1U) ? 1U : 0U;
    g_now -= (now + 1U == old) ? 1U : 0U;
}
}  // namespace

VC_HARNESS(initial)
{
    SampleAllocateeTracker t{};
    __vc_assert(t.GetNumAllocated() == 0U, "initially nothing is held");
    {
        SampleAllocateeGuard none{};
        SampleAllocateeGuard moved{std::move(none)};
        moved = SampleAllocateeGuard{};
    }
    __vc_assert(t.GetNumAllocated() == 0U, "handles without a sample count nothing");
    __vc_cover("end");
}

VC_HARNESS(allocate_release)
{
    Tracker k{"others"};
    {
        auto g = k.t.Allocate();
        __vc_assert(k.Holds(1U), "creating a handle counts one");
        auto h = k.t.Allocate();
        __vc_assert(k.Holds(2U), "creating another counts another");
    }
    __vc_assert(k.Holds(0U), "destroying handles discounts one each");
    __vc_cover("end");
}

VC_HARNESS(move_construct)
{
    Tracker k{"others"};
    {
        auto g = k.t.Allocate();
        {
            SampleAllocateeGuard h{std::move(g)};
            __vc_assert(k.Holds(1U), "moving a handle changes nothing");
            SampleAllocateeGuard i{std::move(g)};
            __vc_assert(k.Holds(1U), "moving from an emptied handle changes nothing");
        }
        __vc_assert(k.Holds(0U), "the new owner gave it back");
    }
    __vc_assert(k.Holds(0U), "the emptied handle gives nothing back");
    __vc_cover("end");
}

VC_HARNESS(move_assign)
{
    Tracker a{"others_a"};
    Tracker b{"others_b"};
    const bool have_source = vc::any<bool>("have_source");
    const bool have_target = vc::any<bool>("have_target");
    const bool same = vc::any<bool>("same_tracker");
    {
        SampleAllocateeGuard source{};
        if (have_source)
        {
            SampleAllocateeGuard s{a.t.Allocate()};
            source.tracker_ = s.tracker_;
            s.tracker_ = nullptr;
        }
        SampleAllocateeGuard target{};
        if (have_target)
        {
            SampleAllocateeGuard s{(same ? a.t : b.t).Allocate()};
            target.tracker_ = s.tracker_;
            s.tracker_ = nullptr;
        }
        target = std::move(source);
        const std::size_t live = have_source ? 1U : 0U;
        __vc_assert(a.Holds(live), "the assigned handle is counted once by its own tracker");
        __vc_assert(b.Holds(0U), "what the target held before was given back to its tracker");
        {
            SampleAllocateeGuard third{std::move(target)};
            __vc_assert(a.Holds(live) && b.Holds(0U), "moving on changes nothing");
        }
        __vc_assert(a.Holds(0U) && b.Holds(0U), "given back exactly once");
    }
    __vc_assert(a.Holds(0U) && b.Holds(0U), "nothing is given back a second time");
    __vc_cover("end");
}

VC_HARNESS(self_assign)
{
    Tracker k{"others"};
    {
        auto g = k.t.Allocate();
        auto& alias = g;
        g = std::move(alias);
        __vc_assert(k.Holds(1U), "assigning a handle to itself keeps it");
    }
    __vc_assert(k.Holds(0U), "and it is given back once");
    __vc_cover("end");
}

VC_HARNESS(concurrent)
{
    alignas(SampleAllocateeTracker) unsigned char raw[sizeof(SampleAllocateeTracker)];
    auto& t = *new (raw) SampleAllocateeTracker{};
    g_adds = 0U;
    g_subs = 0U;
    g_now = 0U;
    __vc_region(&t.allocated_count_, sizeof(t.allocated_count_), &load_any, &store_count);
    {
        auto g = t.Allocate();
        __vc_assert(g_adds == 1U && g_subs == 0U, "creating a handle counts one whatever others do");
        SampleAllocateeGuard h{std::move(g)};
        __vc_assert(g_adds == 1U && g_subs == 0U, "moving it counts nothing");
    }
    __vc_assert(g_adds == 1U && g_subs == 1U, "destroying it discounts one whatever others do");
    __vc_region_off();
    __vc_cover("end");
}

VC_HARNESS(destroy_tracker)
{
    const auto n = vc::any<std::size_t>("held");
    __vc_term_ok(n != 0U);
    {
        SampleAllocateeTracker t{};
        t.allocated_count_.store(n);
    }
    __vc_assert(n == 0U, "a tracker goes only when no handle is left");
    __vc_cover("end");
}

VC_HARNESS(underflow)
{
    Tracker k{"held"};
    __vc_term_ok(k.others == 0U);
    k.t.Deallocate();
    __vc_assert(k.others != 0U, "giving back what is not held ends the process");
    __vc_assert(k.Now() == k.others - 1U, "giving back discounts one");
    __vc_cover("end");
}

// ---------------------------------------------------------------- the handle given to the application
namespace
{
std::uint64_t g_discards[2];
void discard_stub(lola::EventDataControlComposite<>*, std::uint16_t i) { ++g_discards[i & 1U]; }
std::uint32_t g_data[2];
using LolaPtr = lola::SampleAllocateePtr<std::uint32_t>;
using Ptr = SampleAllocateePtr<std::uint32_t>;
alignas(8) unsigned char g_composite[64];
alignas(8) unsigned char g_view[64];
LolaPtr MakeLola(std::uint16_t i)
{
    return LolaPtr{&g_data[i], *reinterpret_cast<lola::EventDataControlComposite<>*>(g_composite),
                   *reinterpret_cast<lola::ConsumerEventDataControlLocalView<>*>(g_view), i};
}
}  // namespace
VC_CONTRACT(discard, "EventDataControlComposite<score::concurrency::AtomicIndirectorReal>::Discard\\(.*", discard_stub)

VC_HARNESS(sample_ptr_moves)
{
    Tracker k{"others"};
    g_discards[0] = 0U;
    {
        Ptr a{MakeSampleAllocateePtr(MakeLola(0U), k.t.Allocate())};
        __vc_assert(a.Get() == &g_data[0] && static_cast<bool>(a) && k.Holds(1U), "the handle designates its sample and is counted once");
        Ptr b{std::move(a)};
        __vc_assert(b.Get() == &g_data[0] && k.Holds(1U), "moving the handle keeps the sample and changes no count");
        __vc_assert(a.Get() == nullptr && !static_cast<bool>(a), "the handle moved from is empty");
        Ptr c{};
        c = std::move(b);
        __vc_assert(c.Get() == &g_data[0] && k.Holds(1U), "assigning the handle keeps the sample and changes no count");
        __vc_assert(b.Get() == nullptr, "an empty handle was left behind");
        auto& alias = c;
        c = std::move(alias);
        __vc_assert(c.Get() == &g_data[0] && k.Holds(1U), "assigning the handle to itself keeps it");
        swap(c, b);
        __vc_assert(b.Get() == &g_data[0] && c.Get() == nullptr && k.Holds(1U), "swapping keeps the sample");
        __vc_assert(g_discards[0] == 0U, "a held sample is not discarded");
        const auto how = vc::any<std::uint8_t>("how");
        if (how == 0U)
        {
            b.reset();
        }
        else if (how == 1U)
        {
            b = nullptr;
        }
        else
        {
            Ptr d{std::move(b)};
        }
        __vc_assert(b.Get() == nullptr && g_discards[0] == 1U && k.Holds(0U), "giving it up discards the sample once and discounts it");
        b.reset();
        __vc_assert(g_discards[0] == 1U && k.Holds(0U), "giving up an empty handle does nothing");
    }
    __vc_assert(g_discards[0] == 1U && k.Holds(0U), "it is given up exactly once");
    __vc_cover("end");
}

VC_HARNESS(sample_ptr_mixed)
{
    Tracker k{"others"};
    g_discards[0] = 0U;
    g_discards[1] = 0U;
    {
        Ptr a{MakeSampleAllocateePtr(MakeLola(0U), k.t.Allocate())};
        Ptr b{};
        if (vc::any<bool>("two"))
        {
            Ptr t{MakeSampleAllocateePtr(MakeLola(1U), k.t.Allocate())};
            b = std::move(t);
        }
        const std::size_t live = (b.Get() != nullptr) ? 2U : 1U;
        a = std::move(b);
        __vc_assert(k.Holds(live) || (g_discards[0] == 1U && k.Holds(live - 1U)), "every sample still held is counted once");
        __vc_assert(k.Now() - k.others + g_discards[0] + g_discards[1] == live, "counted samples and discarded samples add up");
        __vc_assert(live == 1U || a.Get() == &g_data[1], "the assigned sample is the one given");
        __vc_assert(live == 2U || a.Get() == nullptr, "nothing assigned, nothing held");
        __vc_cover("assigned");
        __vc_assert(g_discards[1] == 0U, "the assigned sample is not discarded");
    }
    __vc_assert(k.Holds(0U) && g_discards[0] == 1U && g_discards[1] <= 1U, "every sample is discarded exactly once");
    __vc_cover("end");
}

VC_HARNESS(lola_ptr)
{
    LolaPtr none{};
    __vc_assert(none.get() == nullptr && !static_cast<bool>(none) && none.GetReferencedSlot() == UINT16_MAX, "an empty handle names no slot");
    LolaPtr a{std::move(none)};
    __vc_assert(a.get() == nullptr && a.GetReferencedSlot() == UINT16_MAX, "a handle moved from an empty one is empty");
    __vc_cover("end");
}

// an owner of something that can be held once cannot be copied
VC_HARNESS(owner_cannot_be_copied)
{
    __vc_assert(!std::is_copy_constructible<score::mw::com::impl::SampleAllocateeGuard>::value && !std::is_copy_assignable<score::mw::com::impl::SampleAllocateeGuard>::value, "what is owned once cannot be copied");
    __vc_cover("end");
}
