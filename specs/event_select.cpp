// VC-SOURCES: score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.cpp score/mw/com/impl/bindings/lola/control_slot_types.cpp score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp score/mw/com/impl/bindings/lola/transaction_log_slot.cpp score/mw/com/impl/bindings/lola/slot_collector.cpp score/mw/com/impl/bindings/lola/slot_decrementer.cpp
// VC-USES: vc_collect next status
// VC-USES: vc_available available
// VC-USES: vc_slot_decrementer dereference
// Which samples a consumer is handed, and in which order.
#include "lola_events.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/slot_decrementer.h"
using namespace vcl;
using Consumer = ConsumerEventDataControlLocalView<>;

namespace
{
constexpr std::uint32_t kMaxTs = 0xFFFFFFFFU;
Word* g_slots;
std::uint64_t g_loads;
std::uint64_t g_count;
std::uint32_t g_ref;
// one arbitrary word per read: the slots are read in order, each exactly once
std::uint64_t load_stream(void* p, std::uint64_t)
{
    __vc_assert(p == static_cast<void*>(g_slots + g_loads), "every slot is looked at exactly once");
    ++g_loads;
    const Word w = vc::any<Word>("slot_now");
    g_count += (Published(w) && Ts(w) > g_ref && Ts(w) < kMaxTs) ? 1U : 0U;
    return w;
}
void store_none(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "nothing is written"); }
}  // namespace

VC_HARNESS(num_new_events)
{
    const Idx n = vc::any<Idx>("n");
    Control c{"slots", n};
    g_slots = c.slots;
    g_loads = 0U;
    g_count = 0U;
    g_ref = vc::any<std::uint32_t>("reference");
    __vc_hint_bound(n, "n");
    Consumer v{c.get()};
    __vc_region(c.slots, static_cast<std::uint64_t>(n) * 8U, &load_stream, &store_none);
    const std::size_t r = v.GetNumNewEvents(g_ref);
    __vc_region_off();
    __vc_assert(g_loads == n, "every slot is looked at");
    __vc_assert(r == g_count, "the number of published samples newer than the reference is reported");
    __vc_cover("end");
}

// ------------------------------------------------------------------ collecting: newest first, then handed out ascending
namespace
{
Idx g_n;
std::uint32_t g_last;       // newest delivered before
std::uint32_t g_prev;       // timestamp referenced last (upper limit of the next search)
std::uint32_t g_first;      // timestamp of the first sample referenced
std::uint64_t g_taken;
std::uint16_t g_cur;        // slot referenced last
std::uint64_t g_want;       // ghost: the want-th reference taken ...
std::uint16_t g_want_slot;  // ... is on this slot ...
std::uint32_t g_want_ts;    // ... with this timestamp
bool g_exhausted;
std::uint64_t g_max_count;
std::uint64_t g_room;

// contract of the selection of the next sample (proved for C02): newest sample strictly between, one reference taken
std::optional<SlotIndexType> next_stub(Consumer*, std::uint32_t last, std::uint32_t upper)
{
    __vc_assert(last == g_last, "samples are searched above the newest sample delivered before");
    __vc_assert(upper == g_prev, "samples are searched below the sample found before");
    __vc_assert(g_taken < g_max_count && g_taken < g_room, "no reference is taken beyond what can be handed out");
    if (!vc::any<bool>("more"))
    {
        g_exhausted = true;
        return {};
    }
    const auto i = vc::any<Idx>("slot");
    const auto ts = vc::any<std::uint32_t>("ts");
    vc::assume(i < g_n && ts > last && ts < upper);
    g_cur = i;
    g_prev = ts;
    if (g_taken == 0U)
    {
        g_first = ts;
    }
    if (g_taken == g_want)
    {
        vc::assume(i == g_want_slot && ts == g_want_ts);
    }
    else
    {
        // the timestamps found descend strictly and a referenced slot keeps its timestamp: no slot is found twice
        vc::assume(i != g_want_slot && ts != g_want_ts);
    }
    ++g_taken;
    return i;
}
// a referenced slot keeps its timestamp
EventSlotStatus status_stub(const Consumer*, Idx i)
{
    auto ts = vc::any<std::uint32_t>("status_ts");
    if (i == g_cur)
    {
        ts = g_prev;
    }
    // every slot referenced in this pass lies between the newest delivered and the newest found
    vc::assume(ts > g_last && ts <= g_first);
    if (g_want < g_taken && i == g_want_slot)
    {
        ts = g_want_ts;
    }
    const auto rc = vc::any<std::uint32_t>("status_rc");
    vc::assume(rc > 0U);
    return EventSlotStatus{ts, rc};
}
std::size_t g_new;
std::size_t available_stub(const Consumer*, std::uint32_t ref)
{
    __vc_assert(ref == g_last, "new samples are those newer than the newest sample delivered");
    return g_new;
}
Consumer* g_view;
std::uint32_t g_deref;
Idx g_deref_slot;
void dereference_stub(Consumer* c, Idx i)
{
    __vc_assert(c == g_view, "the reference is released where it was taken");
    ++g_deref;
    g_deref_slot = i;
}
}  // namespace
VC_CONTRACT(next, "ConsumerEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::ReferenceNextEvent\\(.*", next_stub)
VC_CONTRACT(status, "ConsumerEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::operator\\[\\]\\(.*", status_stub)
VC_CONTRACT(available, "ConsumerEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::GetNumNewEvents\\(.*", available_stub)
VC_CONTRACT(dereference, "ConsumerEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::DereferenceEvent\\(.*", dereference_stub)

namespace
{
struct Collector
{
    std::uint64_t cap;
    Idx* buffer;
    alignas(SlotCollector) unsigned char mem[sizeof(SlotCollector)];
    explicit Collector(Consumer& v)
    {
        cap = vc::any<Idx>("cap");
        buffer = static_cast<Idx*>(__vc_alloc(cap * 2U, "collected", 2U, 2U));
        new (mem) SlotCollector{v, 1U};
        // the vector's storage is replaced by cap arbitrary elements
        auto& imp = get().collected_slots_._M_impl;
        imp._M_start = buffer;
        imp._M_finish = buffer + cap;
        imp._M_end_of_storage = buffer + cap;
    }
    SlotCollector& get() { return *reinterpret_cast<SlotCollector*>(mem); }
};
}  // namespace

VC_HARNESS(collect)
{
    Control c{"slots", 0U};
    g_n = vc::any<Idx>("n");
    Consumer v{c.get()};
    Collector k{v};
    vc::assume(k.cap > 0U);
    g_last = vc::any<std::uint32_t>("last");
    k.get().last_ts_ = g_last;
    g_prev = kMaxTs;
    g_first = g_last;
    g_taken = 0U;
    g_exhausted = false;
    g_max_count = vc::any<std::uint64_t>("max_count");
    g_room = k.cap;
    g_want = vc::any<std::uint64_t>("want");
    g_want_slot = vc::any<Idx>("want_slot");
    g_want_ts = vc::any<std::uint32_t>("want_ts");
    vc::assume(g_want < k.cap);
    __vc_watch(&g_first, 4U, "g_first");
    __vc_hint_bound(k.cap, "cap");
    __vc_hint_bound(g_max_count, "max_count");
    __vc_hint_index(g_want, "want");
    __vc_hint_value(g_want_slot, "want_slot");
    __vc_hint_value(g_want_ts, "want_ts");
    __vc_hint_value(g_last, "last");
    __vc_watch(k.buffer + g_want, 2U, "buffer_want");
    const auto r = k.get().GetNewSamplesSlotIndices(g_max_count);
    const Idx* const hi = r.begin.base().base();
    const Idx* const lo = r.end.base().base();
    __vc_assert(lo == k.buffer && hi == k.buffer + g_taken, "exactly the samples referenced are handed out");
    __vc_assert(g_taken <= g_max_count && g_taken <= k.cap, "never more samples than asked for and than there is room for");
    __vc_assert(g_taken == g_max_count || g_taken == k.cap || g_exhausted, "samples are handed out as long as there are any and there is room");
    if (g_want < g_taken)
    {
        // samples are found newest first and handed out from the back: the timestamps ascend
        __vc_assert(k.buffer[g_want] == g_want_slot, "samples are handed out in the reverse of the order they were found in");
        __vc_assert(k.get().last_ts_ >= g_want_ts, "no delivered sample is newer than the newest delivered timestamp");
        __vc_cover("delivered");
    }
    __vc_assert(g_taken != 0U || k.get().last_ts_ == g_last, "without a new sample the newest delivered timestamp stays");
    __vc_assert(g_taken == 0U || k.get().last_ts_ <= g_first, "the newest delivered timestamp is that of a delivered sample");
    __vc_cover("end");
}

VC_HARNESS(collector_ctor)
{
    Control c{"slots", 0U};
    Consumer v{c.get()};
    const auto m = vc::any<std::uint8_t>("max");
    __vc_term_ok(m == 0U);
    SlotCollector s{v, m};
    __vc_assert(m > 0U && s.collected_slots_.size() == m, "there is room for exactly the samples subscribed to");
    __vc_assert(s.last_ts_ == 0U, "a new collector has delivered nothing");
    __vc_cover("end");
}
VC_HARNESS(available)
{
    Control c{"slots", 0U};
    Consumer v{c.get()};
    SlotCollector s{v, 1U};
    g_last = vc::any<std::uint32_t>("last");
    s.last_ts_ = g_last;
    g_new = vc::any<std::size_t>("new");
    __vc_assert(s.GetNumNewSamplesAvailable() == g_new, "the number of new samples is reported");
    __vc_cover("end");
}

// a reference handed to the application is released exactly once, however its owner is moved around
VC_HARNESS(slot_decrementer)
{
    Control c{"slots", 0U};
    Consumer v{c.get()};
    g_view = &v;
    g_deref = 0U;
    const Idx a = vc::any<Idx>("a");
    const Idx b = vc::any<Idx>("b");
    const auto what = vc::any<std::uint8_t>("what");
    {
        SlotDecrementer x{v, a};
        if (what == 0U)
        {
            SlotDecrementer y{std::move(x)};
            __vc_assert(y.event_slot_index_ == a, "moving keeps the slot");
            __vc_assert(g_deref == 0U, "moving releases nothing");
        }
        else if (what == 1U)
        {
            SlotDecrementer y{v, b};
            y = std::move(x);
            __vc_assert(g_deref == 1U && g_deref_slot == b, "the target's own reference is released on move assignment");
            __vc_assert(y.event_slot_index_ == a, "moving keeps the slot");
        }
        else if (what == 2U)
        {
            SlotDecrementer& y = x;
            x = std::move(y);
            __vc_assert(g_deref == 0U, "self move releases nothing");
        }
    }
    __vc_assert(g_deref == (what == 1U ? 2U : 1U) && g_deref_slot == a, "every reference is released exactly once");
    __vc_cover("end");
}
