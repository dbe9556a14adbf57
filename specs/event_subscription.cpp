// VC-SOURCES: score/mw/com/impl/bindings/lola/event_subscription_control.cpp
// Subscriber and slot accounting of an event.
#include "vc.h"
#include "score/mw/com/impl/bindings/lola/event_subscription_control.h"
using namespace score::mw::com::impl::lola;
using Control = EventSubscriptionControl<>;

namespace
{
std::uint32_t Subs(std::uint32_t s) { return s >> 16U; }
std::uint32_t Slots(std::uint32_t s) { return s & 0xFFFFU; }
std::uint16_t g_max_slots;
std::uint8_t g_max_subs;
bool g_enforce;
std::uint16_t g_count;
std::uint32_t g_writes;
std::uint32_t g_seen;
bool Inv(std::uint32_t s) { return Subs(s) <= g_max_subs && (!g_enforce || Slots(s) <= g_max_slots); }
// rely: every participant keeps the accounting invariant
std::uint64_t load_inv(void*, std::uint64_t)
{
    const auto s = vc::any<std::uint32_t>("state");
    vc::assume(Inv(s));
    g_seen = s;
    return s;
}
// rely of an unsubscribe: the subscription being revoked is counted
std::uint64_t load_subscribed(void*, std::uint64_t)
{
    const auto s = vc::any<std::uint32_t>("state");
    vc::assume(Inv(s) && Subs(s) >= 1U && Slots(s) >= g_count);
    g_seen = s;
    return s;
}
void store_subscribe(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    const auto o = static_cast<std::uint32_t>(old);
    const auto n = static_cast<std::uint32_t>(now);
    __vc_assert(rmw == 1U, "accounting changes by an atomic read-modify-write");
    __vc_assert(Subs(n) == Subs(o) + 1U, "a subscription counts exactly one subscriber more");
    __vc_assert(Slots(n) == Slots(o) + g_count, "a subscription counts exactly its slots more");
    __vc_assert(Subs(n) <= g_max_subs, "never more subscribers than configured");
    __vc_assert(!g_enforce || Slots(n) <= g_max_slots, "never more slots subscribed than configured");
    ++g_writes;
}
void store_unsubscribe(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    const auto o = static_cast<std::uint32_t>(old);
    const auto n = static_cast<std::uint32_t>(now);
    __vc_assert(rmw == 1U, "accounting changes by an atomic read-modify-write");
    __vc_assert(Subs(n) + 1U == Subs(o), "revoking a subscription counts exactly one subscriber less");
    __vc_assert(Slots(n) + g_count == Slots(o), "revoking a subscription counts exactly its slots less");
    ++g_writes;
}
struct Fixture
{
    Control c;
    Fixture()
        : c{g_max_slots = vc::any<std::uint16_t>("max_slots"), g_max_subs = vc::any<std::uint8_t>("max_subscribers"),
            g_enforce = vc::any<bool>("enforce")}
    {
        g_count = vc::any<std::uint16_t>("count");
        g_writes = 0U;
        g_seen = 0U;
        __vc_hint_value(g_max_subs, "max_subs");
    }
};
}  // namespace

VC_HARNESS(initial)
{
    Fixture f{};
    __vc_assert(f.c.current_subscription_state_.load() == 0U, "initially nobody is subscribed");
    __vc_cover("end");
}

VC_HARNESS(subscribe)
{
    Fixture f{};
    const auto s = vc::any<std::uint32_t>("state");
    vc::assume(Inv(s));
    f.c.current_subscription_state_.store(s);
    const auto r = f.c.Subscribe(g_count);
    const std::uint32_t now = f.c.current_subscription_state_.load();
    const bool room = Subs(s) < g_max_subs;
    const bool fits = Slots(s) + g_count <= (g_enforce ? g_max_slots : 0xFFFFU);
    __vc_assert((r == SubscribeResult::kSuccess) == (room && fits), "a subscription succeeds iff it fits the configured limits");
    if (r == SubscribeResult::kSuccess)
    {
        __vc_assert(Subs(now) == Subs(s) + 1U && Slots(now) == Slots(s) + g_count, "the subscription is counted");
        __vc_cover("success");
    }
    else
    {
        __vc_assert(now == s, "a refused subscription changes nothing");
        __vc_assert(r != SubscribeResult::kMaxSubscribersOverflow || !room, "refused for too many subscribers only if there are");
        __vc_assert(r != SubscribeResult::kSlotOverflow || !fits, "refused for too many slots only if there are");
        __vc_assert(r != SubscribeResult::kUpdateRetryFailure || g_max_subs == 0U, "no retry failure without contention");
        __vc_cover("refused");
    }
}

VC_HARNESS(subscribe_interference)
{
    Fixture f{};
    __vc_region(&f.c.current_subscription_state_, 4U, &load_inv, &store_subscribe);
    const auto r = f.c.Subscribe(g_count);
    __vc_region_off();
    __vc_assert(g_writes == (r == SubscribeResult::kSuccess ? 1U : 0U), "a subscription is counted once iff it succeeds");
    __vc_assert(r != SubscribeResult::kMaxSubscribersOverflow || Subs(g_seen) >= g_max_subs, "refused for too many subscribers only if there were");
    __vc_assert(r != SubscribeResult::kSlotOverflow || Slots(g_seen) + g_count > (g_enforce ? g_max_slots : 0xFFFFU),
                "refused for too many slots only if there were");
    if (r == SubscribeResult::kSuccess)
    {
        __vc_cover("success");
    }
}

VC_HARNESS(unsubscribe)
{
    Fixture f{};
    const auto s = vc::any<std::uint32_t>("state");
    vc::assume(Inv(s));
    f.c.current_subscription_state_.store(s);
    const bool counted = Subs(s) >= 1U && Slots(s) >= g_count;
    __vc_term_ok(!counted);
    f.c.Unsubscribe(g_count);
    const std::uint32_t now = f.c.current_subscription_state_.load();
    __vc_assert(counted, "revoking what was never counted is refused");
    __vc_assert(Subs(now) + 1U == Subs(s) && Slots(now) + g_count == Slots(s), "the subscription is no longer counted");
    __vc_cover("end");
}

VC_HARNESS(unsubscribe_interference)
{
    Fixture f{};
    __vc_region(&f.c.current_subscription_state_, 4U, &load_subscribed, &store_unsubscribe);
    __vc_term_ok(true);
    f.c.Unsubscribe(g_count);
    __vc_region_off();
    __vc_assert(g_writes == 1U, "a subscription is revoked exactly once");
    __vc_cover("end");
}
