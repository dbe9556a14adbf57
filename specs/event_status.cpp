// VC-SOURCES: score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.cpp score/mw/com/impl/bindings/lola/control_slot_types.cpp
// The meaning of a slot's status word, and the transitions the provider makes after allocation.
#include "lola_events.h"
using namespace vcl;
using Provider = ProviderEventDataControlLocalView<>;

VC_HARNESS(status_decode)
{
    const Word w = vc::any<Word>("w");
    const EventSlotStatus s{w};
    __vc_assert(s.GetTimeStamp() == Ts(w), "timestamp is the upper half of the word");
    __vc_assert(s.GetReferenceCount() == Rc(w), "reference count is the lower half of the word");
    __vc_assert(s.IsInvalid() == (w == kInvalid), "invalid iff the word is zero");
    __vc_assert(s.IsInWriting() == (w == kInWriting), "in writing iff timestamp zero and all-ones reference count");
    __vc_assert(s.IsUsed() == !Free(w), "used iff referenced or in writing");
    __vc_assert(static_cast<const EventSlotStatus::value_type&>(s) == w, "the word is preserved");
    const auto lo = vc::any<std::uint32_t>("lo");
    const auto hi = vc::any<std::uint32_t>("hi");
    __vc_assert(s.IsTimeStampBetween(lo, hi) == (Published(w) && (Ts(w) > lo) && (Ts(w) < hi)),
                "only a published sample strictly inside the interval is between two timestamps");
    __vc_cover("end");
}

VC_HARNESS(status_encode)
{
    const auto ts = vc::any<std::uint32_t>("ts");
    const auto rc = vc::any<std::uint32_t>("rc");
    EventSlotStatus s{ts, rc};
    __vc_assert(s.GetTimeStamp() == ts, "encoded timestamp reads back");
    __vc_assert(s.GetReferenceCount() == rc, "encoded reference count reads back");
    __vc_assert(ts == 0U || (!s.IsInvalid() && !s.IsInWriting()), "a published sample is neither invalid nor in writing");
    const auto rc2 = vc::any<std::uint32_t>("rc2");
    s.SetReferenceCount(rc2);
    __vc_assert(s.GetReferenceCount() == rc2 && s.GetTimeStamp() == ts, "setting the reference count keeps the timestamp");
    const auto ts2 = vc::any<std::uint32_t>("ts2");
    s.SetTimeStamp(ts2);
    __vc_assert(s.GetTimeStamp() == ts2 && s.GetReferenceCount() == 0U, "setting the timestamp publishes with no references");
    s.MarkInWriting();
    __vc_assert(s.IsInWriting() && !s.IsInvalid() && s.IsUsed(), "marked in writing");
    s.MarkInvalid();
    __vc_assert(s.IsInvalid() && !s.IsInWriting() && !s.IsUsed(), "marked invalid");
    const EventSlotStatus d{};
    __vc_assert(d.IsInvalid(), "a new slot is invalid");
    __vc_cover("end");
}

namespace
{
struct Fixture
{
    Idx n;
    Idx k;
    Idx i;
    Control c;
    Word wk;
    Word wi;
    Fixture() : n{vc::any<Idx>("n")}, k{vc::any<Idx>("k")}, i{vc::any<Idx>("i")}, c{"slots", n}, wk{0U}, wi{0U}
    {
        vc::assume(k < n);
        wk = c.slots[k];
        wi = i < n ? c.slots[i] : 0U;
    }
};
}  // namespace

VC_HARNESS(publish)
{
    Fixture f{};
    const auto ts = vc::any<std::uint32_t>("ts");
    Provider p{f.c.get()};
    __vc_term_ok(f.i >= f.n);
    p.EventReady(f.i, ts);
    __vc_assert(f.i < f.n, "publishing a slot that does not exist is refused");
    __vc_assert(f.c.slots[f.i] == (static_cast<Word>(ts) << 32U), "a published slot carries its timestamp and no references");
    __vc_assert(f.k == f.i || f.c.slots[f.k] == f.wk, "publishing changes no other slot");
    __vc_cover("end");
}

VC_HARNESS(discard)
{
    Fixture f{};
    Provider p{f.c.get()};
    __vc_term_ok(f.i >= f.n);
    p.Discard(f.i);
    __vc_assert(f.i < f.n, "discarding a slot that does not exist is refused");
    __vc_assert(f.c.slots[f.i] == (f.wi == kInWriting ? kInvalid : f.wi), "discard invalidates a slot in writing and nothing else");
    __vc_assert(f.k == f.i || f.c.slots[f.k] == f.wk, "discarding changes no other slot");
    __vc_cover("end");
}

VC_HARNESS(read_status)
{
    Fixture f{};
    Provider p{f.c.get()};
    __vc_term_ok(f.i >= f.n);
    const EventSlotStatus s = p[f.i];
    __vc_assert(f.i < f.n, "reading a slot that does not exist is refused");
    __vc_assert(static_cast<const EventSlotStatus::value_type&>(s) == f.wi, "the status read is the content of the slot");
    __vc_assert(f.c.slots[f.k] == f.wk, "reading changes no slot");
    __vc_cover("end");
}

VC_HARNESS(try_allocate)
{
    Fixture f{};
    const Word expect = vc::any<Word>("expect");
    Provider p{f.c.get()};
    __vc_term_ok(f.i >= f.n);
    const auto r = p.TryAllocateSlot({f.i, expect});
    __vc_assert(f.i < f.n, "allocating a slot that does not exist is refused");
    __vc_assert(r.has_value() == (f.wi == expect), "allocation succeeds iff the slot still has the expected content");
    __vc_assert(!r.has_value() || (*r == expect), "a successful allocation returns the previous content");
    __vc_assert(f.c.slots[f.i] == (f.wi == expect ? kInWriting : f.wi), "exactly the allocated slot becomes in writing");
    __vc_assert(f.k == f.i || f.c.slots[f.k] == f.wk, "no other slot changes");
    __vc_cover("end");
}

VC_HARNESS(remove_allocations)
{
    const Idx n = vc::any<Idx>("n");
    Control c{"slots", n};
    const Idx k = vc::any<Idx>("k");
    vc::assume(k < n);
    const Word wk = c.slots[k];
    __vc_hint_bound(n, "n");
    __vc_hint_index(k, "k");
    __vc_hint_value(wk, "wk");
    __vc_hint_bool(wk == kInWriting, "k_in_writing");
    __vc_watch(c.slots + k, 8U, "slot_k");
    Provider p{c.get()};
    p.RemoveAllocationsForWriting();
    __vc_assert(c.slots[k] == (wk == kInWriting ? kInvalid : wk), "cleanup frees every slot left in writing and touches no other");
    __vc_cover("end");
}

namespace
{
std::uint64_t load_any(void*, std::uint64_t) { return vc::any<Word>("slot_now"); }
void store_publish(void*, std::uint64_t, std::uint64_t, std::uint64_t) {}
void store_cleanup(void*, std::uint64_t old, std::uint64_t now, std::uint64_t)
{
    __vc_assert(old == kInWriting && now == kInvalid, "cleanup only ever turns a slot in writing into an invalid one");
}
}  // namespace

VC_HARNESS(remove_allocations_interference)
{
    const Idx n = vc::any<Idx>("n");
    Control c{"slots", n};
    __vc_hint_bound(n, "n");
    Provider p{c.get()};
    __vc_region(c.slots, static_cast<std::uint64_t>(n) * 8U, &load_any, &store_cleanup);
    __vc_term_ok(true);
    p.RemoveAllocationsForWriting();
    __vc_cover("end");
}
