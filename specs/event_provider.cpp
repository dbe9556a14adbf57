// VC-SOURCES: score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.cpp score/mw/com/impl/bindings/lola/control_slot_types.cpp
// VC-USES: vc_alloc_chooses_oldest_free find
// VC-USES: vc_alloc_interference find_i
// VC-OPTIONS: vc_find_interference split=1
#include "lola_events.h"
using namespace vcl;
using Provider = ProviderEventDataControlLocalView<>;
using Found = std::optional<Provider::SlotInfo>;

namespace
{
Word* g_slots;
Idx g_n;
Idx g_k;
constexpr std::uint32_t kMaxTs = 0xFFFFFFFFU;

// ------------------------------------------------------------------ contract of the slot search
// the returned slot is free, holds the returned word, and no free slot (ghost k) is older
Found find_stub(const Provider*)
{
    if (vc::any<bool>("found"))
    {
        const Idx i = vc::any<Idx>("found_index");
        vc::assume(i < g_n);
        const Word w = g_slots[i];
        vc::assume(Free(w) && (Ts(w) != kMaxTs));
        vc::assume(!Free(g_slots[g_k]) || Ts(g_slots[g_k]) >= Ts(w));
        return Found{{i, w}};
    }
    vc::assume(!Free(g_slots[g_k]) || Ts(g_slots[g_k]) == kMaxTs);
    return {};
}
// with interference nothing is known about the slots after the search: only that the word returned was free when read
Found find_i_stub(const Provider*)
{
    if (vc::any<bool>("found"))
    {
        const Idx i = vc::any<Idx>("found_index");
        vc::assume(i < g_n);
        const Word w = vc::any<Word>("found_word");
        vc::assume(Free(w));
        return Found{{i, w}};
    }
    return {};
}
VC_CONTRACT(find, "ProviderEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::FindOldestUnusedSlot\\(\\)", find_stub)
VC_CONTRACT(find_i, "ProviderEventDataControlLocalView<score::concurrency::AtomicIndirectorReal>::FindOldestUnusedSlot\\(\\)", find_i_stub)

void hints(Idx n, Idx k, Idx R, Word wk, Word wr)
{
    __vc_hint_bound(n, "n");
    __vc_hint_index(k, "k");
    __vc_hint_prophecy(R, "R");
    __vc_hint_bool(Free(wk), "k_free");
    __vc_hint_bool(Free(wr), "R_free");
    __vc_hint_value(Ts(wk), "ts_k");
    __vc_hint_value(Ts(wr), "ts_R");
}
}  // namespace

VC_HARNESS(find_oldest_free)
{
    const Idx n = vc::any<Idx>("n");
    vc::assume(n > 0U);
    Control c{"slots", n};
    const Idx k = vc::any<Idx>("k");
    const Idx R = vc::any<Idx>("R");
    vc::assume((k < n) && (R < n));
    const Word wk = c.slots[k];
    const Word wr = c.slots[R];
    hints(n, k, R, wk, wr);
    __vc_hint_value(wr, "wr");
    Provider p{c.get()};
    const auto r = p.FindOldestUnusedSlot();
    if (r.has_value())
    {
        __vc_assert(r->slot_index < n, "index of the slot found is in range");
        vc::assume(r->slot_index == R);
        __vc_assert(Free(wr) && (Ts(wr) != kMaxTs), "slot found is neither in writing nor referenced");
        __vc_assert(r->slot_value == wr, "the word returned is the content of the slot found");
        __vc_assert(!Free(wk) || (Ts(wk) >= Ts(wr)), "no free slot is older than the one found");
        __vc_cover("found");
    }
    else
    {
        __vc_assert(!Free(wk) || (Ts(wk) == kMaxTs), "search fails only if every slot is in writing or referenced");
        __vc_cover("none");
    }
}

// sequential: which slot is chosen, and the frame
VC_HARNESS(alloc_chooses_oldest_free)
{
    const Idx n = vc::any<Idx>("n");
    vc::assume(n > 0U);
    Control c{"slots", n};
    const Idx k = vc::any<Idx>("k");
    const Idx R = vc::any<Idx>("R");
    vc::assume((k < n) && (R < n));
    const Word wk = c.slots[k];
    const Word wr = c.slots[R];
    hints(n, k, R, wk, wr);
    __vc_hint_bool(Free(wk) && (Ts(wk) != kMaxTs), "k_avail");
    __vc_hint_value(wk, "wk");
    __vc_hint_value(wr, "wr");
    __vc_watch(c.slots + k, 8U, "slot_k");
    __vc_watch(c.slots + R, 8U, "slot_R");
    g_slots = c.slots;
    g_n = n;
    g_k = k;
    Provider p{c.get()};
    const auto r = p.AllocateNextSlot();
    if (r.has_value())
    {
        __vc_assert(*r < n, "allocated slot index is in range");
        vc::assume(*r == R);
        __vc_assert(Free(wr), "allocated slot was neither in writing nor referenced");
        __vc_assert(c.slots[R] == kInWriting, "allocated slot is marked in writing");
        __vc_assert(k == R || c.slots[k] == wk, "allocation changes no other slot");
        __vc_assert(!Free(wk) || Ts(wk) >= Ts(wr), "no free slot is older than the allocated one");
        __vc_cover("allocated");
    }
    else
    {
        __vc_assert(!Free(wk) || Ts(wk) == kMaxTs, "allocation fails only if every slot is in writing or referenced");
        __vc_assert(c.slots[k] == wk, "a failed allocation changes nothing");
        __vc_cover("exhausted");
    }
}

// ------------------------------------------------------------------ any interference by consumers and other allocating threads
namespace
{
std::uint32_t g_taken;
Idx g_taken_index;
std::uint64_t load_any(void*, std::uint64_t) { return vc::any<Word>("slot_now"); }
void store_alloc(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw == 1U, "a slot is taken by an atomic read-modify-write");
    __vc_assert(Free(old), "only a slot that is neither in writing nor referenced at that moment is taken");
    __vc_assert(now == kInWriting, "a slot that is taken is marked in writing");
    ++g_taken;
    g_taken_index = static_cast<Idx>((reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(g_slots)) / 8U);
}
}  // namespace

VC_HARNESS(alloc_interference)
{
    const Idx n = vc::any<Idx>("n");
    vc::assume(n > 0U);
    Control c{"slots", n};
    g_slots = c.slots;
    g_n = n;
    g_taken = 0U;
    __vc_hint_bound(n, "n");
    Provider p{c.get()};
    __vc_region(c.slots, static_cast<std::uint64_t>(n) * 8U, &load_any, &store_alloc);
    const auto r = p.AllocateNextSlot();
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(g_taken == 1U, "exactly one slot is taken by a successful allocation");
        __vc_assert(*r == g_taken_index, "the slot returned is the slot taken");
        __vc_cover("allocated");
    }
    else
    {
        __vc_assert(g_taken == 0U, "a failed allocation takes no slot");
        __vc_cover("failed");
    }
}
// the search under interference: the word returned was free when it was read
VC_HARNESS(find_interference)
{
    const Idx n = vc::any<Idx>("n");
    vc::assume(n > 0U);
    Control c{"slots", n};
    g_slots = c.slots;
    g_taken = 0U;
    __vc_hint_bound(n, "n");
    Provider p{c.get()};
    __vc_region(c.slots, static_cast<std::uint64_t>(n) * 8U, &load_any, &store_alloc);
    const auto r = p.FindOldestUnusedSlot();
    __vc_region_off();
    __vc_assert(g_taken == 0U, "the search takes no slot");
    if (r.has_value())
    {
        __vc_assert(r->slot_index < n, "index of the slot found is in range");
        __vc_assert(Free(r->slot_value), "the word found was neither in writing nor referenced when it was read");
        __vc_cover("found");
    }
}
