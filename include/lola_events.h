// Crafted shared control structures: an event control block / transaction log whose slots are n arbitrary words.
#pragma once
#include "vc.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_data_control.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/transaction_log.h"

namespace vcl
{
using namespace score::mw::com::impl::lola;
using Word = std::uint64_t;
using Idx = std::uint16_t;
constexpr Word kInWriting = 0xFFFFFFFFULL;
constexpr Word kInvalid = 0ULL;
inline std::uint32_t Ts(Word w) { return static_cast<std::uint32_t>(w >> 32U); }
inline std::uint32_t Rc(Word w) { return static_cast<std::uint32_t>(w); }
inline bool Free(Word w) { return w != kInWriting && Rc(w) == 0U; }
inline bool Published(Word w) { return w != kInWriting && w != kInvalid; }

struct Control
{
    Idx n;
    Word* slots;
    alignas(EventDataControl) unsigned char mem[sizeof(EventDataControl)];

    explicit Control(const char* name, Idx count) : n{count}
    {
        slots = static_cast<Word*>(__vc_alloc(static_cast<std::uint64_t>(count) * 8ULL, name, 8U, 8U));
        auto& a = get().state_slots_;
        a.size_ = count;
        a.raw_ = reinterpret_cast<ControlSlotType*>(slots);
    }
    EventDataControl& get() { return *reinterpret_cast<EventDataControl*>(mem); }
};

struct Log
{
    std::uint8_t* slots;
    alignas(TransactionLog) unsigned char mem[sizeof(TransactionLog)];
    explicit Log(const char* name, Idx count)
    {
        slots = static_cast<std::uint8_t*>(__vc_alloc(count, name, 1U, 8U));
        auto& l = get();
        l.reference_count_slots_.size_ = count;
        l.reference_count_slots_.raw_ = reinterpret_cast<TransactionLogSlot*>(slots);
        new (&l.subscribe_transactions_) TransactionLogSlot{};
        new (&l.subscription_max_sample_count_) std::optional<TransactionLog::MaxSampleCountType>{};
    }
    TransactionLog& get() { return *reinterpret_cast<TransactionLog*>(mem); }
};
}  // namespace vcl
