// VC-SOURCES: score/mw/com/impl/bindings/lola/event_data_control_composite.cpp score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.cpp score/mw/com/impl/bindings/lola/control_slot_types.cpp
// VC-USES: vc_multi_alloc next_multi
// VC-USES: vc_alloc_dispatch multi single
// VC-OPTIONS: vc_next_multi_interference split=1
// An event offered at two safety levels: two control tables, QM (shared with consumers that are not trusted) and ASIL-B.
#include "lola_events.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
using namespace vcl;
using Provider = ProviderEventDataControlLocalView<>;
using Composite = EventDataControlComposite<>;
using Found = std::optional<Provider::SlotInfo>;

namespace
{
Idx g_n;
Word* g_qm;
Word* g_b;
Idx SlotOf(void* p, Word* base)
{
    return static_cast<Idx>((reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(base)) / 8U);
}

// ------------------------------------------------------------------ contract of the search for a slot free at both levels
Found next_multi_stub(const Composite*)
{
    if (vc::any<bool>("found"))
    {
        const Idx i = vc::any<Idx>("found_index");
        vc::assume(i < g_n);
        const Word w = vc::any<Word>("found_word");
        vc::assume(Free(w));
        return Found{{i, w}};
    }
    return {};
}
VC_CONTRACT(next_multi, "EventDataControlComposite<score::concurrency::AtomicIndirectorReal>::GetNextFreeMultiSlot\\(\\)", next_multi_stub)

// what is held at each level: claims are counted, releases must restore what was claimed
std::uint32_t g_qm_held;
Idx g_qm_index;
Word g_qm_old;
std::uint32_t g_b_held;
Idx g_b_index;
std::uint64_t load_any(void*, std::uint64_t) { return vc::any<Word>("slot_now"); }
void store_qm(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    const Idx i = SlotOf(p, g_qm);
    if (g_qm_held == 0U)
    {
        __vc_assert(rmw == 1U, "QM: a slot is claimed by an atomic read-modify-write");
        __vc_assert(Free(old), "QM: only a slot free at that moment is claimed");
        __vc_assert(now == kInWriting, "QM: a claimed slot is marked in writing");
        g_qm_held = 1U;
        g_qm_index = i;
        g_qm_old = old;
    }
    else
    {
        __vc_assert(g_b_held == 0U, "QM: a claim is undone only if the claim at the safety level failed");
        __vc_assert(i == g_qm_index && now == g_qm_old, "QM: a claim is undone exactly");
        g_qm_held = 0U;
    }
}
void store_b(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(g_b_held == 0U, "B: at most one slot is claimed");
    __vc_assert(rmw == 1U, "B: a slot is claimed by an atomic read-modify-write");
    __vc_assert(Free(old), "B: only a slot free at that moment is claimed");
    __vc_assert(now == kInWriting, "B: a claimed slot is marked in writing");
    g_b_held = 1U;
    g_b_index = SlotOf(p, g_b);
}
void store_none(void*, std::uint64_t, std::uint64_t, std::uint64_t)
{
    __vc_assert(false, "no slot changes");
}

struct Both
{
    Idx n;
    Control qm;
    Control b;
    Provider pq;
    Provider pb;
    Both() : n{vc::any<Idx>("n")}, qm{"qm", n}, b{"b", n}, pq{qm.get()}, pb{b.get()}
    {
        g_n = n;
        g_qm = qm.slots;
        g_b = b.slots;
        g_qm_held = 0U;
        g_b_held = 0U;
        __vc_hint_bound(n, "n");
    }
};
}  // namespace

VC_HARNESS(next_multi_interference)
{
    Both f{};
    Composite c{f.pq, &f.pb};
    __vc_region(f.qm.slots, static_cast<std::uint64_t>(f.n) * 8U, &load_any, &store_none);
    __vc_region(f.b.slots, static_cast<std::uint64_t>(f.n) * 8U, &load_any, &store_none);
    __vc_term_ok(true);  // tables found to disagree about a free slot: the process may end itself
    const auto r = c.GetNextFreeMultiSlot();
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(r->slot_index < f.n, "index of the slot found is in range");
        __vc_assert(Free(r->slot_value), "the word found was free when it was read");
        __vc_cover("found");
    }
    else
    {
        __vc_cover("none");
    }
}

// tables that agree (one array seen by both levels): the oldest free slot is found, and one is found if there is any
VC_HARNESS(next_multi_agreeing)
{
    const Idx n = vc::any<Idx>("n");
    Control t{"slots", n};
    const Idx k = vc::any<Idx>("k");
    const Idx R = vc::any<Idx>("R");
    vc::assume(k < n && R < n);
    const Word wk = t.slots[k];
    const Word wr = t.slots[R];
    __vc_hint_bound(n, "n");
    __vc_hint_index(k, "k");
    __vc_hint_prophecy(R, "R");
    __vc_hint_bool(Free(wk), "k_free");
    __vc_hint_bool(Free(wr), "R_free");
    __vc_hint_value(Ts(wk), "ts_k");
    __vc_hint_value(Ts(wr), "ts_R");
    __vc_hint_value(wr, "wr");
    Provider pq{t.get()};
    Provider pb{t.get()};
    Composite c{pq, &pb};
    const auto r = c.GetNextFreeMultiSlot();
    if (r.has_value())
    {
        vc::assume(r->slot_index == R);
        __vc_assert(Free(wr) && r->slot_value == wr, "the slot found is free at both levels");
        __vc_assert(!Free(wk) || Ts(wk) >= Ts(wr), "no slot free at both levels is older");
        __vc_cover("found");
    }
    else
    {
        __vc_assert(!Free(wk) || Ts(wk) == 0xFFFFFFFFU, "none is found only if none is free at both levels");
        __vc_cover("none");
    }
}

// tables that may disagree: whatever is found is free at both levels, and by the safety level's times the oldest such
VC_HARNESS(next_multi_oldest)
{
    Both f{};
    const Idx k = vc::any<Idx>("k");
    const Idx R = vc::any<Idx>("R");
    vc::assume(k < f.n && R < f.n);
    const Word qk = f.qm.slots[k];
    const Word qr = f.qm.slots[R];
    const Word bk = f.b.slots[k];
    const Word br = f.b.slots[R];
    __vc_hint_index(k, "k");
    __vc_hint_prophecy(R, "R");
    __vc_hint_bool(Free(qk) && Free(bk), "k_free");
    __vc_hint_bool(Free(qr) && Free(br), "R_free");
    __vc_hint_bool(qr == br, "R_same");
    __vc_hint_value(Ts(bk), "ts_k");
    __vc_hint_value(Ts(br), "ts_R");
    __vc_hint_value(br, "br");
    Composite c{f.pq, &f.pb};
    __vc_term_ok(true);
    const auto r = c.GetNextFreeMultiSlot();
    if (r.has_value())
    {
        vc::assume(r->slot_index == R);
        __vc_assert(Free(qr) && Free(br), "the slot found is free at both levels");
        __vc_assert(r->slot_value == br && r->slot_value == qr, "the word found is the content of the slot at both levels");
        __vc_assert(!(Free(qk) && Free(bk)) || Ts(bk) >= Ts(br), "no slot free at both levels is older");
        __vc_cover("found");
    }
}

VC_HARNESS(multi_alloc)
{
    Both f{};
    Composite c{f.pq, &f.pb};
    __vc_region(f.qm.slots, static_cast<std::uint64_t>(f.n) * 8U, &load_any, &store_qm);
    __vc_region(f.b.slots, static_cast<std::uint64_t>(f.n) * 8U, &load_any, &store_b);
    const auto r = c.AllocateNextMultiSlot();
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(g_qm_held == 1U && g_b_held == 1U, "a slot is given out only when claimed at both levels");
        __vc_assert(*r == g_qm_index && *r == g_b_index, "the slot given out is the one claimed at both levels");
        __vc_cover("allocated");
    }
    else
    {
        __vc_assert(g_qm_held == 0U && g_b_held == 0U, "no claim is left behind when no slot is given out");
        __vc_cover("failed");
    }
    __vc_assert(!c.IsQmControlDisconnected(), "claiming alone does not give up a level");
}

// ------------------------------------------------------------------ which level is used
namespace
{
std::uint32_t g_multi_calls;
bool g_multi_ok;
Idx g_multi_slot;
std::optional<Idx> multi_stub(Composite*)
{
    ++g_multi_calls;
    g_multi_ok = vc::any<bool>("multi_ok");
    g_multi_slot = vc::any<Idx>("multi_slot");
    if (g_multi_ok)
    {
        return g_multi_slot;
    }
    return {};
}
Provider* g_single_at;
std::uint32_t g_single_calls;
bool g_single_ok;
Idx g_single_slot;
std::optional<Idx> single_stub(Provider* p)
{
    ++g_single_calls;
    g_single_at = p;
    g_single_ok = vc::any<bool>("single_ok");
    g_single_slot = vc::any<Idx>("single_slot");
    if (g_single_ok)
    {
        return g_single_slot;
    }
    return {};
}
}  // namespace
VC_CONTRACT(multi, "EventDataControlComposite<score::concurrency::AtomicIndirectorReal>::AllocateNextMultiSlot\\(\\)", multi_stub)
VC_CONTRACT(single, "ProviderEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::AllocateNextSlot\\(\\)", single_stub)

VC_HARNESS(alloc_dispatch)
{
    Both f{};
    const bool has_b = vc::any<bool>("has_b");
    const bool given_up = vc::any<bool>("given_up");
    vc::assume(has_b || !given_up);
    Composite c{f.pq, has_b ? &f.pb : nullptr};
    __vc_assert(!c.IsQmControlDisconnected(), "initially no level is given up");
    __vc_assert(&c.GetQmEventDataControlLocal() == &f.pq && c.GetAsilBEventDataControlLocal() == (has_b ? &f.pb : nullptr),
                "each level is kept under its own name");
    c.ignore_qm_control_ = given_up;
    g_multi_calls = 0U;
    g_single_calls = 0U;
    g_multi_ok = false;
    const auto r = c.AllocateNextSlot();
    __vc_assert(r.allocated_slot_index.has_value() == (g_multi_ok || (g_single_calls == 1U && g_single_ok)),
                "a slot is given out exactly if one was claimed");
    if (!has_b)
    {
        __vc_assert(g_multi_calls == 0U && g_single_calls == 1U && g_single_at == &f.pq, "with one level only that is used");
        __vc_assert(!r.qm_misbehaved && !c.IsQmControlDisconnected(), "with one level nothing is given up");
        __vc_cover("qm only");
    }
    else if (given_up)
    {
        __vc_assert(g_multi_calls == 0U && g_single_calls == 1U && g_single_at == &f.pb,
                    "a level given up is never used for allocation again");
        __vc_assert(r.qm_misbehaved && c.IsQmControlDisconnected(), "a level given up stays given up");
        __vc_cover("given up before");
    }
    else if (g_multi_ok)
    {
        __vc_assert(g_multi_calls == 1U && g_single_calls == 0U, "claimed at both levels together");
        __vc_assert(!r.qm_misbehaved && !c.IsQmControlDisconnected(), "nothing is given up while both levels work");
        __vc_assert(*r.allocated_slot_index == g_multi_slot, "the slot claimed is given out");
        __vc_cover("both");
    }
    else
    {
        __vc_assert(g_multi_calls == 1U && g_single_calls == 1U && g_single_at == &f.pb,
                    "when both levels together fail the safety level goes on alone");
        __vc_assert(r.qm_misbehaved && c.IsQmControlDisconnected(), "and the other is reported and given up");
        __vc_cover("give up");
    }
    if (g_single_calls == 1U && g_single_ok)
    {
        __vc_assert(*r.allocated_slot_index == g_single_slot, "the slot claimed is given out");
    }
}

// ------------------------------------------------------------------ publish and discard at every level in use
template <typename Op, typename Want>
void OnBoth(Op op, Want want)
{
    Both f{};
    const bool has_b = vc::any<bool>("has_b");
    const bool given_up = vc::any<bool>("given_up");
    vc::assume(has_b || !given_up);
    const Idx i = vc::any<Idx>("i");
    const Idx k = vc::any<Idx>("k");
    vc::assume(i < f.n && k < f.n);
    const Word qi = f.qm.slots[i];
    const Word bi = f.b.slots[i];
    const Word qk = f.qm.slots[k];
    const Word bk = f.b.slots[k];
    Composite c{f.pq, has_b ? &f.pb : nullptr};
    c.ignore_qm_control_ = given_up;
    const auto ts = vc::any<std::uint32_t>("ts");
    op(c, i, ts);
    __vc_assert(f.qm.slots[i] == (given_up ? qi : want(qi, ts)), "QM: done unless given up, then untouched");
    __vc_assert(f.b.slots[i] == (has_b ? want(bi, ts) : bi), "B: done if there is this level");
    __vc_assert(k == i || (f.qm.slots[k] == qk && f.b.slots[k] == bk), "no other slot changes at either level");
    __vc_assert(c.IsQmControlDisconnected() == given_up, "which levels are in use does not change");
    __vc_cover("end");
}
VC_HARNESS(publish)
{
    OnBoth([](Composite& c, Idx i, std::uint32_t ts) { c.EventReady(i, ts); },
           [](Word, std::uint32_t ts) { return static_cast<Word>(ts) << 32U; });
}
VC_HARNESS(discard)
{
    OnBoth([](Composite& c, Idx i, std::uint32_t) { c.Discard(i); },
           [](Word w, std::uint32_t) { return w == kInWriting ? kInvalid : w; });
}

// ------------------------------------------------------------------ times are those of the safety level
VC_HARNESS(slot_time)
{
    Both f{};
    const bool has_b = vc::any<bool>("has_b");
    const Idx i = vc::any<Idx>("i");
    vc::assume(i < f.n);
    Composite c{f.pq, has_b ? &f.pb : nullptr};
    const auto t = c.GetEventSlotTimestamp(i);
    __vc_assert(t == Ts(has_b ? f.b.slots[i] : f.qm.slots[i]), "the time of a slot is that of the safety level if there is one");
    __vc_cover("end");
}
template <bool HasB>
void LatestTime()
{
    Both f{};
    const Idx k = vc::any<Idx>("k");
    const Idx W = vc::any<Idx>("W");
    vc::assume(k < f.n);
    Word* const t = HasB ? f.b.slots : f.qm.slots;
    const Word wk = t[k];
    __vc_hint_index(k, "k");
    __vc_hint_bool(Published(wk), "k_published");
    __vc_hint_value(Ts(wk), "ts_k");
    __vc_watch(t + k, 8U, "slot_k");
    Composite c{f.pq, HasB ? &f.pb : nullptr};
    const auto r = c.GetLatestTimestamp();
    __vc_assert(!Published(wk) || r >= Ts(wk), "no published sample is newer than the latest time");
    __vc_assert(t[k] == wk, "asking changes nothing");
    __vc_cover("end");
}
VC_HARNESS(latest_time_bound_b) { LatestTime<true>(); }
VC_HARNESS(latest_time_bound_qm) { LatestTime<false>(); }

namespace
{
std::uint32_t g_best;
std::uint64_t load_seen(void*, std::uint64_t)
{
    const Word w = vc::any<Word>("slot_now");
    if (Published(w) && Ts(w) > g_best)
    {
        g_best = Ts(w);
    }
    return w;
}
}  // namespace
// whatever the slots read: the latest time is exactly the greatest publication time read, or none
VC_HARNESS(latest_time_exact)
{
    Both f{};
    g_best = 0U;
    Composite c{f.pq, &f.pb};
    __vc_region(f.b.slots, static_cast<std::uint64_t>(f.n) * 8U, &load_seen, &store_none);
    const auto r = c.GetLatestTimestamp();
    __vc_region_off();
    __vc_assert(r == g_best, "the latest time is that of a published sample, or none");
    __vc_cover("end");
}
