// VC-SOURCES: score/mw/com/impl/bindings/lola/control_slot_types.cpp score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp score/mw/com/impl/bindings/lola/transaction_log_slot.cpp score/mw/com/impl/com_error.cpp
// The transaction log: the state machine of every record, and the roll back of a crashed participant.
#include "lola_events.h"
using namespace vcl;
using View = TransactionLogLocalView;

namespace
{
constexpr std::uint8_t kBegin = 1U;
constexpr std::uint8_t kEnd = 2U;
constexpr std::uint8_t kBoth = 3U;

struct Fixture
{
    Idx n;
    Idx k;
    Idx i;
    Log l;
    std::uint8_t lk;
    std::uint8_t li;
    Fixture() : n{vc::any<Idx>("n")}, k{vc::any<Idx>("k")}, i{vc::any<Idx>("i")}, l{"log", n}, lk{0U}, li{0U}
    {
        vc::assume(k < n);
        lk = l.slots[k];
        li = i < n ? l.slots[i] : 0U;
        vc::assume(lk <= kBoth && li <= kBoth);
    }
    bool Has(std::uint8_t state) const { return i < n && li == state; }
    void After(std::uint8_t state, const char* what)
    {
        __vc_assert(l.slots[i] == state, what);
        __vc_assert(k == i || l.slots[k] == lk, "no other record changes");
        __vc_cover("end");
    }
};
}  // namespace

VC_HARNESS(reference_begin)
{
    Fixture f{};
    View v{f.l.get()};
    __vc_term_ok(!f.Has(0U));
    v.ReferenceTransactionBegin(f.i);
    __vc_assert(f.Has(0U), "an increment is only announced on an idle record");
    f.After(kBegin, "announced: begin set, end clear");
}
VC_HARNESS(reference_commit)
{
    Fixture f{};
    View v{f.l.get()};
    __vc_term_ok(!f.Has(kBegin));
    v.ReferenceTransactionCommit(f.i);
    __vc_assert(f.Has(kBegin), "an increment is only completed after it was announced");
    f.After(kBoth, "completed: begin and end set");
}
VC_HARNESS(reference_abort)
{
    Fixture f{};
    View v{f.l.get()};
    __vc_term_ok(!f.Has(kBegin));
    v.ReferenceTransactionAbort(f.i);
    __vc_assert(f.Has(kBegin), "only an announced increment is withdrawn");
    f.After(0U, "withdrawn: record idle");
}
VC_HARNESS(dereference_begin)
{
    Fixture f{};
    View v{f.l.get()};
    __vc_term_ok(!f.Has(kBoth));
    v.DereferenceTransactionBegin(f.i);
    __vc_assert(f.Has(kBoth), "a decrement is only announced for a completed increment");
    f.After(kEnd, "announced: begin clear, end set");
}
VC_HARNESS(dereference_commit)
{
    Fixture f{};
    View v{f.l.get()};
    __vc_term_ok(!f.Has(kEnd));
    v.DereferenceTransactionCommit(f.i);
    __vc_assert(f.Has(kEnd), "a decrement is only completed after it was announced");
    f.After(0U, "completed: record idle");
}

namespace
{
struct Sub
{
    Log l;
    std::uint8_t s;
    bool has;
    std::uint16_t max;
    Sub(Idx n) : l{"log", n}, s{vc::any<std::uint8_t>("sub")}, has{vc::any<bool>("has_max")}, max{vc::any<std::uint16_t>("max")}
    {
        vc::assume(s <= kBoth);
        // a subscription that is recorded has its sample count recorded
        vc::assume(has == (s != 0U));
        reinterpret_cast<std::uint8_t&>(l.get().subscribe_transactions_) = s;
        if (has)
        {
            l.get().subscription_max_sample_count_ = max;
        }
    }
    std::uint8_t Now() { return reinterpret_cast<std::uint8_t&>(l.get().subscribe_transactions_); }
    std::optional<std::uint16_t> Max() { return l.get().subscription_max_sample_count_; }
};
}  // namespace

VC_HARNESS(subscribe_transactions)
{
    Sub f{0U};
    View v{f.l.get()};
    const auto which = vc::any<std::uint8_t>("op");
    const auto count = vc::any<std::uint16_t>("count");
    if (which == 0U)
    {
        __vc_term_ok(f.s != 0U);
        v.SubscribeTransactionBegin(count);
        __vc_assert(f.s == 0U && f.Now() == kBegin && f.Max() == count, "a subscription is announced with its sample count");
        __vc_cover("begin");
    }
    else if (which == 1U)
    {
        __vc_term_ok(f.s != kBegin);
        v.SubscribeTransactionCommit();
        __vc_assert(f.s == kBegin && f.Now() == kBoth && f.Max() == f.max, "an announced subscription is completed");
        __vc_cover("commit");
    }
    else if (which == 2U)
    {
        __vc_term_ok(f.s != kBegin);
        v.SubscribeTransactionAbort();
        __vc_assert(f.s == kBegin && f.Now() == 0U, "an announced subscription is withdrawn");
        __vc_cover("abort");
    }
    else if (which == 3U)
    {
        __vc_term_ok(f.s != kBoth);
        v.UnsubscribeTransactionBegin();
        __vc_assert(f.s == kBoth && f.Now() == kEnd && f.Max() == f.max, "only a completed subscription is revoked");
        __vc_cover("unsub begin");
    }
    else
    {
        __vc_term_ok(f.s != kEnd);
        v.UnsubscribeTransactionCommit();
        __vc_assert(f.s == kEnd && f.Now() == 0U && !f.Max().has_value(), "a revoked subscription leaves no trace");
        __vc_cover("unsub commit");
    }
}

VC_HARNESS(contains_transactions)
{
    const Idx n = vc::any<Idx>("n");
    const Idx k = vc::any<Idx>("k");
    vc::assume(k < n);
    Sub f{n};
    const std::uint8_t lk = f.l.slots[k];
    vc::assume(lk <= kBoth);
    __vc_hint_bound(n, "n");
    __vc_hint_index(k, "k");
    __vc_hint_bool(lk != 0U, "k_set");
    View v{f.l.get()};
    const bool r = v.ContainsTransactions();
    __vc_assert(r || (f.s == 0U && lk == 0U), "a log that reports no transactions has none");
    __vc_assert(f.l.slots[k] == lk && f.Now() == f.s, "asking changes nothing");
    __vc_cover("end");
}

// a log without any record (read through a stream: every record is idle)
namespace
{
std::uint64_t load_idle(void*, std::uint64_t) { return 0U; }
void store_none(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "asking changes nothing"); }
}  // namespace
VC_HARNESS(contains_nothing)
{
    const Idx n = vc::any<Idx>("n");
    Sub f{n};
    __vc_hint_bound(n, "n");
    if (!__vc_symbolic())
    {
        for (std::uint32_t i = 0U; i < n; ++i)
        {
            f.l.slots[i] = 0U;
        }
    }
    View v{f.l.get()};
    __vc_region(f.l.slots, n, &load_idle, &store_none);
    const bool r = v.ContainsTransactions();
    __vc_region_off();
    __vc_assert(r == (f.s != 0U), "a log without records contains no transactions");
    __vc_cover("end");
}
VC_HARNESS(new_record_is_idle)
{
    alignas(TransactionLogSlot) std::uint8_t place[sizeof(TransactionLogSlot)];
    place[0] = vc::any<std::uint8_t>("content");
    const auto& slot = *new (place) TransactionLogSlot{};
    __vc_assert(!slot.GetTransactionBegin() && !slot.GetTransactionEnd() && (place[0] & kBoth) == 0U, "a record that is made is idle");
    __vc_cover("end");
}

// ------------------------------------------------------------------ roll back
namespace
{
Idx g_k;
std::uint32_t g_calls_k;
std::uint32_t g_calls;
std::uint32_t g_unsub;
std::uint16_t g_unsub_count;
std::uint8_t* g_log;
TransactionLog* g_tlog;
void OnDereference(Idx i)
{
    __vc_assert(g_unsub == 0U, "references are released before the subscription is revoked");
    __vc_assert((g_log[i] & 1U) == 0U && (g_log[i] & 6U) != 0U, "the release is announced in the log before it happens");
    g_calls_k += (i == g_k) ? 1U : 0U;
}
void OnUnsubscribe(std::uint16_t count)
{
    __vc_assert((reinterpret_cast<std::uint8_t&>(g_tlog->subscribe_transactions_) & kBoth) == kEnd,
                "revoking the subscription is announced in the log before it happens");
    ++g_unsub;
    g_unsub_count = count;
}
}  // namespace

template <bool Proxy>
void Rollback()
{
    const Idx n = vc::any<Idx>("n");
    const Idx k = vc::any<Idx>("k");
    // an index equal to the 16-bit maximum is never used: at most 2^16-1 slots exist
    vc::assume(k < n);
    Sub f{n};
    const std::uint8_t lk = f.l.slots[k];
    vc::assume(lk <= kBoth);
    __vc_hint_bound(n, "n");
    __vc_hint_index(k, "k");
    __vc_hint_value(lk, "lk");
    __vc_hint_bool(lk == kBoth, "k_both");
    __vc_hint_bool(lk == 0U, "k_zero");
    __vc_watch(f.l.slots + k, 1U, "log_k");
    g_k = k;
    g_calls_k = 0U;
    g_unsub = 0U;
    g_log = f.l.slots;
    g_tlog = &f.l.get();
    View v{f.l.get()};
    const score::cpp::callback<void(Idx)> d{&OnDereference};
    const score::cpp::callback<void(std::uint16_t)> u{&OnUnsubscribe};
    // a participant that never subscribed cannot hold references
    __vc_term_ok(Proxy && f.s == 0U);
    const auto r = Proxy ? v.RollbackProxyElementLog(d, u) : v.RollbackSkeletonTracingElementLog(d);
    if (r.has_value())
    {
        __vc_assert(lk == 0U || lk == kBoth, "a half-finished change of a reference count is never passed over");
        __vc_assert(f.l.slots[k] == 0U, "a rolled back log holds no record");
        __vc_assert(g_calls_k == (lk == kBoth ? 1U : 0U), "every recorded reference is released exactly once and no other");
        if (Proxy)
        {
            __vc_assert(f.s == 0U || f.s == kBoth, "a half-finished subscription is never passed over");
            __vc_assert(f.Now() == 0U && !f.Max().has_value(), "the subscription record is cleared");
            __vc_assert(g_unsub == (f.s == kBoth ? 1U : 0U), "a recorded subscription is revoked exactly once");
            __vc_assert(g_unsub == 0U || g_unsub_count == f.max, "the subscription is revoked with the recorded sample count");
        }
        else
        {
            __vc_assert(g_unsub == 0U && f.Now() == f.s, "the subscription record is untouched");
        }
        __vc_cover("rolled back");
    }
    else
    {
        __vc_assert(g_unsub == 0U && f.Now() == f.s, "a failed roll back revokes no subscription");
        __vc_assert(g_calls_k <= (lk == kBoth ? 1U : 0U), "no reference is released twice or without a record");
        __vc_assert(lk == 0U || lk == kBoth || f.l.slots[k] == lk, "a half-finished record is kept");
        __vc_assert(f.l.slots[k] == (g_calls_k == 1U ? 0U : lk), "exactly the released references leave the log");
        __vc_cover("refused");
    }
}
VC_HARNESS(rollback_proxy) { Rollback<true>(); }
VC_HARNESS(rollback_tracing) { Rollback<false>(); }

// a log without half-finished records is always rolled back (the records are read through a stream of arbitrary
// consistent values, one per record)
namespace
{
std::uint64_t g_at;
std::uint8_t g_val;
std::uint64_t load_consistent(void* p, std::uint64_t)
{
    const std::uint64_t a = reinterpret_cast<std::uint64_t>(p);
    if (a != g_at)
    {
        g_at = a;
        g_val = vc::any<bool>("referenced") ? kBoth : 0U;
    }
    return g_val;
}
void store_log(void* p, std::uint64_t, std::uint64_t now, std::uint64_t)
{
    g_at = reinterpret_cast<std::uint64_t>(p);
    g_val = static_cast<std::uint8_t>(now);
}
void Nothing(Idx) {}
void Nothing2(std::uint16_t) {}
void Never(Idx) { __vc_assert(false, "nothing is released that was not recorded"); }
void Never2(std::uint16_t) { __vc_assert(false, "nothing is revoked that was not recorded"); }
}  // namespace
VC_HARNESS(rollback_consistent)
{
    const Idx n = vc::any<Idx>("n");
    Sub f{n};
    vc::assume(f.s == kBoth);
    __vc_hint_bound(n, "n");
    if (!__vc_symbolic())
    {
        for (std::uint32_t i = 0U; i < n; ++i)
        {
            f.l.slots[i] = (f.l.slots[i] & 1U) != 0U ? kBoth : 0U;
        }
    }
    g_at = 0U;
    g_val = 0U;
    View v{f.l.get()};
    const score::cpp::callback<void(Idx)> d{&Nothing};
    const score::cpp::callback<void(std::uint16_t)> u{&Nothing2};
    __vc_region(f.l.slots, n, &load_consistent, &store_log);
    const auto r = v.RollbackProxyElementLog(d, u);
    __vc_region_off();
    __vc_assert(r.has_value(), "a log without half-finished records is rolled back");
    __vc_cover("end");
}
VC_HARNESS(rollback_of_nothing)
{
    const Idx n = vc::any<Idx>("n");
    Sub f{n};
    vc::assume(f.s == 0U);
    __vc_hint_bound(n, "n");
    if (!__vc_symbolic())
    {
        for (std::uint32_t i = 0U; i < n; ++i)
        {
            f.l.slots[i] = 0U;
        }
    }
    g_calls = 0U;
    View v{f.l.get()};
    const score::cpp::callback<void(Idx)> d{&Never};
    const score::cpp::callback<void(std::uint16_t)> u{&Never2};
    __vc_region(f.l.slots, n, &load_idle, &store_none);
    const auto r = v.RollbackProxyElementLog(d, u);
    __vc_region_off();
    __vc_assert(r.has_value(), "a log without records is rolled back");
    __vc_cover("end");
}
