// VC-OPTIONS: vc_reference_next_interference split=1
// VC-OPTIONS: vc_reference_next split=1
// VC-SOURCES: score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.cpp score/mw/com/impl/bindings/lola/control_slot_types.cpp score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp score/mw/com/impl/bindings/lola/transaction_log_slot.cpp
// What a consumer may do to a slot, and the transaction record that accompanies every change of a reference count.
#include "lola_events.h"
using namespace vcl;
using Consumer = ConsumerEventDataControlLocalView<>;

namespace
{
constexpr std::uint8_t kBegin = 1U;
constexpr std::uint8_t kBoth = 3U;
constexpr std::uint8_t kEnd = 2U;

Word* g_slots;
Idx g_n;
std::uint8_t* g_log;
std::uint32_t g_writes;
Idx g_index;
std::uint32_t g_lo;
std::uint32_t g_hi;
Idx IndexOf(void* p)
{
    return static_cast<Idx>((reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(g_slots)) / 8U);
}
// rely of taking a reference: fewer than 2^32-1 references to one slot exist (there are at most 2^16-1 of them by C06)
std::uint64_t load_any(void*, std::uint64_t)
{
    const Word w = vc::any<Word>("slot_now");
    vc::assume(w == kInWriting || Rc(w) != 0xFFFFFFFFU);
    return w;
}
// rely of a dereference: the reference being released is counted until it is released
std::uint64_t load_referenced(void*, std::uint64_t)
{
    const Word w = vc::any<Word>("slot_now");
    vc::assume(Published(w) && Rc(w) > 0U);
    return w;
}
void note(void* p)
{
    ++g_writes;
    g_index = IndexOf(p);
}
void store_reference(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "a reference is taken by an atomic read-modify-write");
    __vc_assert(Published(old), "only a published sample is ever referenced");
    __vc_assert(Ts(old) > g_lo && Ts(old) < g_hi, "only a sample newer than the last one and older than the limit is referenced");
    __vc_assert(Ts(now) == Ts(old) && Rc(now) == Rc(old) + 1U && Rc(now) != 0U, "taking a reference counts exactly one more");
    __vc_assert((g_log[IndexOf(p)] & kBoth) == kBegin, "the reference is announced in the transaction log before it is counted");
    note(p);
}
void store_specific(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "a reference is taken by an atomic read-modify-write");
    __vc_assert(now == old + 1U, "taking a reference counts exactly one more");
    __vc_assert((g_log[IndexOf(p)] & kBoth) == kBegin, "the reference is announced in the transaction log before it is counted");
    note(p);
}
void store_release(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "a reference is released by an atomic read-modify-write");
    __vc_assert(Ts(now) == Ts(old) && Rc(now) == Rc(old) - 1U, "releasing a reference counts exactly one less");
    __vc_assert((g_log[IndexOf(p)] & kBoth) == kEnd, "the release is announced in the transaction log before it is counted");
    note(p);
}
void store_release_nolog(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "a reference is released by an atomic read-modify-write");
    __vc_assert(Ts(now) == Ts(old) && Rc(now) == Rc(old) - 1U, "releasing a reference counts exactly one less");
    ++g_writes;
}
void store_none(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "nothing is written"); }

struct Setup
{
    Idx n;
    Idx k;
    Control c;
    Log l;
    Word wk;
    std::uint8_t lk;
    Setup() : n{vc::any<Idx>("n")}, k{vc::any<Idx>("k")}, c{"slots", n}, l{"log", n}, wk{0U}, lk{0U}
    {
        vc::assume((n > 0U) && (k < n));
        wk = c.slots[k];
        lk = l.slots[k];
        g_slots = c.slots;
        g_n = n;
        g_log = l.slots;
        g_writes = 0U;
        g_index = 0U;
        __vc_hint_bound(n, "n");
        __vc_hint_index(k, "k");
    }
};
bool Between(Word w, std::uint32_t lo, std::uint32_t hi) { return Published(w) && Ts(w) > lo && Ts(w) < hi; }
}  // namespace

// sequential: which sample is selected, and the frame
VC_HARNESS(reference_next)
{
    Setup s{};
    const auto lo = vc::any<std::uint32_t>("last");
    const auto hi = vc::any<std::uint32_t>("upper");
    vc::assume(s.lk <= 3U);
    __vc_hint_bool(Between(s.wk, lo, hi), "k_between");
    __vc_hint_value(Ts(s.wk), "ts_k");
    __vc_hint_value(lo, "last");
    __vc_hint_value(static_cast<Word>(lo) + 1U, "last1");
    __vc_hint_value(static_cast<Word>(hi) - 1U, "upper1");
    __vc_hint_array(s.c.slots, 8U, "slots");
    Consumer v{s.c.get(), TransactionLogLocalView{s.l.get()}};
    __vc_term_ok(true);
    const auto r = v.ReferenceNextEvent(lo, hi);
    if (r.has_value())
    {
        const Idx i = *r;
        __vc_assert(i < s.n, "index of the referenced slot is in range");
        const Word now = s.c.slots[i];
        __vc_assert(Between(now - 1U, lo, hi), "the referenced sample is published and strictly between the two timestamps");
        __vc_assert(s.c.slots[s.k] == s.wk + (s.k == i ? 1U : 0U),
                    "the reference count of the selected sample grows by one and no other slot changes");
        __vc_assert(!Between(s.wk, lo, hi) || Ts(s.wk) <= Ts(now - 1U), "the selected sample is the newest one that qualifies");
        __vc_assert(s.l.slots[s.k] == (s.k == i ? kBoth : s.lk), "the reference is recorded in the transaction log and no other record changes");
        __vc_assert(s.k != i || (s.lk & kBegin) == 0U, "a sample this participant already references is not referenced again");
        __vc_cover("referenced");
    }
    else
    {
        __vc_assert(!Between(s.wk, lo, hi), "selection fails only if no sample qualifies");
        __vc_assert(s.c.slots[s.k] == s.wk && s.l.slots[s.k] == s.lk, "a failed selection changes nothing");
        __vc_cover("none");
    }
}

// any interference: every change is one reference on a published, qualifying sample, covered by a record
VC_HARNESS(reference_next_interference)
{
    Setup s{};
    g_lo = vc::any<std::uint32_t>("last");
    g_hi = vc::any<std::uint32_t>("upper");
    __vc_hint_value(static_cast<Word>(g_lo) + 1U, "last1");
    __vc_hint_value(static_cast<Word>(g_hi) - 1U, "upper1");
    Consumer v{s.c.get(), TransactionLogLocalView{s.l.get()}};
    __vc_term_ok(true);
    __vc_region(s.c.slots, static_cast<std::uint64_t>(s.n) * 8U, &load_any, &store_reference);
    const auto r = v.ReferenceNextEvent(g_lo, g_hi);
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(g_writes == 1U, "a successful selection takes exactly one reference");
        __vc_assert(*r == g_index, "the slot returned is the slot referenced");
        __vc_assert((s.l.slots[*r] & kBoth) == kBoth, "the reference is recorded in the transaction log");
        __vc_cover("referenced");
    }
    else
    {
        __vc_assert(g_writes == 0U, "a failed selection takes no reference");
        __vc_cover("none");
    }
}

VC_HARNESS(reference_specific)
{
    Setup s{};
    const Idx i = vc::any<Idx>("i");
    const Word wi = i < s.n ? s.c.slots[i] : 0U;
    const std::uint8_t li = i < s.n ? s.l.slots[i] : 0U;
    const bool ok = i < s.n && Published(wi) && Rc(wi) != 0xFFFFFFFFU && (li & kBegin) == 0U;
    vc::assume(i < s.n);
    Consumer v{s.c.get(), TransactionLogLocalView{s.l.get()}};
    __vc_term_ok(!ok || li != 0U);
    v.ReferenceSpecificEvent(i);
    __vc_assert(ok, "a sample that is not published, or already referenced by this participant, is never referenced");
    __vc_assert(s.c.slots[i] == wi + 1U, "the reference count grows by one");
    __vc_assert((s.l.slots[i] & kBoth) == kBoth, "the reference is recorded in the transaction log");
    __vc_assert(s.k == i || (s.c.slots[s.k] == s.wk && s.l.slots[s.k] == s.lk), "no other slot or record changes");
    __vc_cover("end");
}

VC_HARNESS(reference_specific_interference)
{
    Setup s{};
    const Idx i = vc::any<Idx>("i");
    vc::assume(i < s.n);
    Consumer v{s.c.get(), TransactionLogLocalView{s.l.get()}};
    __vc_term_ok(true);
    __vc_region(s.c.slots, static_cast<std::uint64_t>(s.n) * 8U, &load_any, &store_specific);
    v.ReferenceSpecificEvent(i);
    __vc_region_off();
    __vc_assert(g_writes == 1U && g_index == i, "exactly one reference is taken, on the slot asked for");
    __vc_assert((s.l.slots[i] & kBoth) == kBoth, "the reference is recorded in the transaction log");
    __vc_assert(s.k == i || s.l.slots[s.k] == s.lk, "no other record changes");
    __vc_cover("end");
}

VC_HARNESS(dereference)
{
    Setup s{};
    const Idx i = vc::any<Idx>("i");
    vc::assume(i < s.n);
    const Word wi = s.c.slots[i];
    const std::uint8_t li = s.l.slots[i];
    vc::assume(li <= 3U);
    vc::assume(Published(wi) && Rc(wi) > 0U);
    Consumer v{s.c.get(), TransactionLogLocalView{s.l.get()}};
    __vc_term_ok((li & kBoth) != kBoth);
    v.DereferenceEvent(i);
    __vc_assert((li & kBoth) == kBoth, "only a reference recorded in the transaction log is released");
    __vc_assert(s.c.slots[i] == wi - 1U, "releasing a reference counts exactly one less");
    __vc_assert(s.l.slots[i] == 0U, "a released reference leaves the transaction log");
    __vc_assert(s.k == i || (s.c.slots[s.k] == s.wk && s.l.slots[s.k] == s.lk), "no other slot or record changes");
    __vc_cover("end");
}

VC_HARNESS(dereference_interference)
{
    Setup s{};
    const Idx i = vc::any<Idx>("i");
    vc::assume(i < s.n);
    vc::assume(s.l.slots[i] <= 3U);
    const std::uint8_t li = s.l.slots[i];
    Consumer v{s.c.get(), TransactionLogLocalView{s.l.get()}};
    __vc_term_ok((li & kBoth) != kBoth);
    __vc_region(s.c.slots, static_cast<std::uint64_t>(s.n) * 8U, &load_referenced, &store_release);
    v.DereferenceEvent(i);
    __vc_region_off();
    __vc_assert(g_writes == 1U && g_index == i, "exactly one reference is released, on the slot asked for");
    __vc_assert(s.l.slots[i] == 0U, "a released reference leaves the transaction log");
    __vc_cover("end");
}

VC_HARNESS(dereference_without_log)
{
    Setup s{};
    const Idx i = vc::any<Idx>("i");
    Consumer v{s.c.get()};
    __vc_term_ok(i >= s.n);
    __vc_region(s.c.slots, static_cast<std::uint64_t>(s.n) * 8U, &load_referenced, &store_release_nolog);
    v.DereferenceEventWithoutTransactionLogging(i);
    __vc_region_off();
    __vc_assert(i < s.n, "releasing a slot that does not exist is refused");
    __vc_assert(g_writes == 1U, "exactly one reference is released");
    __vc_assert(s.l.slots[s.k] == s.lk, "the transaction log is untouched");
    __vc_cover("end");
}

VC_HARNESS(read_status)
{
    Setup s{};
    const Idx i = vc::any<Idx>("i");
    const Word wi = i < s.n ? s.c.slots[i] : 0U;
    Consumer v{s.c.get()};
    __vc_term_ok(i >= s.n);
    const EventSlotStatus st = v[i];
    __vc_assert(i < s.n, "reading a slot that does not exist is refused");
    __vc_assert(static_cast<const EventSlotStatus::value_type&>(st) == wi, "the status read is the content of the slot");
    __vc_assert(v.GetMaxSampleSlots() == s.n, "the number of slots is reported");
    __vc_cover("end");
}
