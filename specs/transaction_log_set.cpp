// VC-SOURCES: score/mw/com/impl/bindings/lola/transaction_log_set.cpp score/mw/com/impl/bindings/lola/transaction_log_registration_guard.cpp score/mw/com/impl/com_error.cpp
// VC-USES: * make_view contains
// VC-USES: vc_find make_view contains add_found
// VC-USES: vc_register acquire_record make_view contains unregister_record set_view clear_view
// VC-USES: vc_register_tracing make_view contains unregister_record set_view clear_view
// VC-USES: vc_roll_back make_view contains find_records roll_back_record
// VC-USES: vc_roll_back_tracing make_view contains roll_back_tracing_record
// The set of transaction records: any number of them, each in any state.
#include "score/mw/com/impl/bindings/lola/transaction_log_set.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_registration_guard.h"
#include "score/mw/com/impl/com_error.h"
#include "vc.h"
#include <new>
using namespace score::mw::com::impl::lola;
using score::Result;
using Set = TransactionLogSet;
using Node = Set::TransactionLogNode;
using View = TransactionLogLocalView;

namespace
{
constexpr std::uint64_t kUnits = sizeof(Node) / 4U;
constexpr std::uint32_t kFree = 0xFFFFFFFFU;
constexpr std::uint64_t kId = offsetof(Node, transaction_log_id_);
constexpr std::uint64_t kMark = offsetof(Node, needs_rollback_);
constexpr std::uint64_t kLog = offsetof(Node, transaction_log_);
static_assert(sizeof(Node) % 4U == 0U && sizeof(TransactionLogId) == 4U && sizeof(TransactionLogIndex) == 1U && kId % 4U == 0U, "layout");

alignas(Set) unsigned char g_place[sizeof(Set)];
Set& S() { return *reinterpret_cast<Set*>(g_place); }
unsigned char* g_nodes;
std::uint64_t g_n;
std::uint64_t g_j;
std::uint32_t g_app;
std::uint32_t& IdAt(std::uint64_t i) { return *reinterpret_cast<std::uint32_t*>(g_nodes + i * sizeof(Node) + kId); }
unsigned char& MarkAt(std::uint64_t i) { return g_nodes[i * sizeof(Node) + kMark]; }
std::uint64_t NodeOf(const void* p) { return (reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(g_nodes)) / sizeof(Node); }
std::uint32_t g_id_j;
unsigned char g_mark_j;
std::uint32_t g_tracing_id;
bool g_tracing_mark;

void Records(bool hints = true)
{
    g_n = vc::any<std::uint8_t>("number of records");
    g_j = vc::any<std::uint64_t>("j");
    vc::assume(g_n < 255U && g_j < g_n);
    g_nodes = static_cast<unsigned char*>(__vc_alloc(g_n * sizeof(Node), "records", 4U, 8U));
    auto& c = S().proxy_transaction_logs_;
    c.size_ = g_n;
    c.raw_ = reinterpret_cast<Node*>(g_nodes);
    g_app = vc::any<std::uint32_t>("application");
    g_id_j = IdAt(g_j);
    g_mark_j = MarkAt(g_j);
    vc::assume(g_mark_j <= 1U);
    g_tracing_id = vc::any<std::uint32_t>("tracing record");
    g_tracing_mark = vc::any<bool>("tracing mark");
    S().skeleton_tracing_transaction_log_.transaction_log_id_.GetUnderlying().store(g_tracing_id);
    S().skeleton_tracing_transaction_log_.needs_rollback_.GetUnderlying().store(g_tracing_mark);
    if (!hints)
    {
        return;
    }
    __vc_hint_index(g_j * kUnits + kId / 4U, "id of j");
    __vc_watch(&IdAt(g_j), 4U, "id_j");
    __vc_watch(&MarkAt(g_j), 1U, "mark_j");
    __vc_hint_value(g_mark_j, "mark before");
    __vc_hint_value(g_id_j, "id before");
    __vc_hint_index(g_j, "j");
    __vc_hint_bound(g_n * kUnits, "n");
    __vc_hint_bool(g_id_j == kFree, "j_free");
    __vc_hint_bool(g_id_j == g_app, "j_of_the_application");
}
bool Kept() { return IdAt(g_j) == g_id_j && MarkAt(g_j) == g_mark_j; }
bool TracingKept()
{
    return S().skeleton_tracing_transaction_log_.GetTransactionLogId() == g_tracing_id && S().skeleton_tracing_transaction_log_.NeedsRollback() == g_tracing_mark;
}

// views of records (C07 has their contracts): they designate the record they were made for
bool g_contains;
void make_view_stub(View* const view, TransactionLog& log) { *reinterpret_cast<TransactionLog**>(view) = &log; }
TransactionLog* LogOf(const View* const view) { return *reinterpret_cast<TransactionLog* const*>(view); }
const TransactionLog* g_asked;
bool contains_stub(const View* const view)
{
    g_asked = LogOf(view);
    return g_contains;
}
}  // namespace
VC_CONTRACT(make_view, "score::mw::com::impl::lola::TransactionLogLocalView::TransactionLogLocalView\\(score::mw::com::impl::lola::TransactionLog&\\)", make_view_stub)
VC_CONTRACT(contains, "score::mw::com::impl::lola::TransactionLogLocalView::ContainsTransactions\\(\\) const", contains_stub)

// ------------------------------------------------------------------ registration
VC_HARNESS(acquire)
{
    Records();
    vc::assume(g_app != kFree);
    const auto r = S().AcquireNextAvailableSlot(g_app);
    if (r.has_value())
    {
        const std::uint64_t i = NodeOf(r->first);
        __vc_assert(i < g_n && i == r->second, "the record handed out is the one of the index");
        __vc_assert(IdAt(i) == g_app && MarkAt(i) == 0U, "the record handed out belongs to the application and needs no roll-back");
        __vc_assert(i != g_j || g_id_j == kFree, "the record handed out belonged to nobody");
        __vc_assert(i == g_j || Kept(), "no other record is touched");
        __vc_cover("acquired");
    }
    else
    {
        __vc_assert(g_id_j != kFree, "no record is handed out only if none is free");
        __vc_assert(Kept(), "no record is touched if none is handed out");
        __vc_cover("none free");
    }
    __vc_assert(TracingKept(), "the record of the provider is not touched");
}

// with other consumers at every access
namespace
{
std::uint64_t g_taken;   // the record taken, plus one
std::uint64_t any_content(void*, std::uint64_t size) { return size == 4U ? vc::any<std::uint32_t>("id") : vc::any<std::uint8_t>("byte"); }
void only_free(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    const std::uint64_t at = reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(g_nodes);
    const std::uint64_t i = at / sizeof(Node);
    if (g_taken == 0U)
    {
        __vc_assert(at == i * sizeof(Node) + kId && rmw != 0U, "a record is taken by its identity, in one step");
        __vc_assert(static_cast<std::uint32_t>(old) == kFree && static_cast<std::uint32_t>(now) == g_app, "only a record that belongs to nobody is taken");
        g_taken = i + 1U;
    }
    else
    {
        __vc_assert(at == (g_taken - 1U) * sizeof(Node) + kMark && (now & 1U) == 0U, "only the record taken is changed, and needs no roll-back then");
    }
}
}  // namespace
VC_HARNESS(acquire_interference)
{
    g_n = vc::any<std::uint8_t>("number of records");
    vc::assume(g_n < 255U && g_n > 0U);
    g_nodes = static_cast<unsigned char*>(__vc_alloc(g_n * sizeof(Node), "records", 4U, 8U));
    S().proxy_transaction_logs_.size_ = g_n;
    S().proxy_transaction_logs_.raw_ = reinterpret_cast<Node*>(g_nodes);
    __vc_hint_bound(g_n * kUnits, "n");
    g_app = vc::any<std::uint32_t>("application");
    vc::assume(g_app != kFree);
    g_taken = 0U;
    __vc_region(g_nodes, g_n * sizeof(Node), any_content, only_free);
    const auto r = S().AcquireNextAvailableSlot(g_app);
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(r->second + 1U == g_taken && NodeOf(r->first) + 1U == g_taken, "the record handed out is the one taken");
        __vc_cover("acquired");
    }
    else
    {
        __vc_assert(g_taken == 0U, "no record is taken in vain");
        __vc_cover("none");
    }
}
VC_HARNESS(unregister)
{
    Records();
    const auto index = vc::any<std::uint8_t>("index");
    g_contains = vc::any<bool>("transactions left");
    // a record with transactions left, or one that was not handed out, or that does not exist, ends the process
    const bool tracing = index == 255U;
    if (!tracing)
    {
        vc::assume(index >= g_n || index == g_j);
    }
    __vc_term_ok(g_contains || (tracing ? g_tracing_id == kFree : (index >= g_n || g_id_j == kFree)));
    S().Unregister(index);
    __vc_assert(!g_contains, "a record with transactions left is not made available");
    if (tracing)
    {
        __vc_assert(!S().skeleton_tracing_transaction_log_.IsActive() && !S().skeleton_tracing_transaction_log_.NeedsRollback(), "the record given back is free");
        __vc_assert(g_asked == &S().skeleton_tracing_transaction_log_.transaction_log_, "the record given back is the one asked for transactions");
        __vc_assert(Kept(), "no other record is touched");
        __vc_cover("provider");
    }
    else
    {
        __vc_assert(IdAt(g_j) == kFree && MarkAt(g_j) == 0U, "the record given back is free");
        __vc_assert(NodeOf(g_asked) == index, "the record given back is the one asked for transactions");
        __vc_assert(TracingKept(), "no other record is touched");
        __vc_cover("consumer");
    }
}
VC_HARNESS(unregister_keeps_others)
{
    Records();
    const auto index = vc::any<std::uint8_t>("index");
    g_contains = vc::any<bool>("transactions left");
    vc::assume(index != g_j);
    __vc_term_ok(true);
    S().Unregister(index);
    __vc_assert(Kept(), "no other record is touched");
    __vc_cover("end");
}
VC_HARNESS(record_of_an_index)
{
    Records();
    const auto index = vc::any<std::uint8_t>("index");
    const bool tracing = index == 255U;
    if (!tracing)
    {
        vc::assume(index >= g_n || index == g_j);
    }
    __vc_term_ok(tracing ? g_tracing_id == kFree : (index >= g_n || g_id_j == kFree));
    auto& log = S().GetTransactionLog(index);
    if (tracing)
    {
        __vc_assert(&log == &S().skeleton_tracing_transaction_log_.transaction_log_, "the record of the provider has an index of its own");
    }
    else
    {
        __vc_assert(NodeOf(&log) == index, "the record accessed is the one of the index");
    }
    __vc_assert(Kept() && TracingKept(), "access changes nothing");
    __vc_cover("end");
}

// ------------------------------------------------------------------ after a restart
VC_HARNESS(mark)
{
    Records();
    vc::assume(g_app != kFree);
    __vc_hint_value(g_id_j == g_app ? 1U : g_mark_j, "mark expected");
    S().MarkTransactionLogsNeedRollback(g_app);
    __vc_assert(IdAt(g_j) == g_id_j, "marking changes no owner");
    __vc_assert(MarkAt(g_j) == (g_id_j == g_app ? 1U : g_mark_j), "exactly the records of the application are marked");
    __vc_assert(TracingKept(), "the record of the provider is not touched");
    __vc_cover("end");
}
namespace
{
std::uint64_t g_found_j;
void add_found_stub(void*, Node* const& node)
{
    const std::uint64_t i = NodeOf(node);
    __vc_assert(i < g_n, "only records are found");
    __vc_assert(IdAt(i) == g_app && MarkAt(i) != 0U, "only records of the application that are marked are found");
    g_found_j += i == g_j ? 1U : 0U;
}
}  // namespace
VC_CONTRACT(add_found, "std::vector<score::mw::com::impl::lola::TransactionLogSet::TransactionLogNode\\*.*::(push_back|emplace_back.*)\\(.*", add_found_stub)
VC_HARNESS(find)
{
    Records();
    vc::assume(g_app != kFree);
    g_found_j = 0U;
    __vc_watch(&g_found_j, 8U, "found_j");
    __vc_hint_value(0U, "not yet");
    __vc_hint_value((g_id_j == g_app && g_mark_j != 0U) ? 1U : 0U, "found expected");
    S().FindTransactionLogNodesToBeRolledBack(g_app);
    __vc_assert(g_found_j == ((g_id_j == g_app && g_mark_j != 0U) ? 1U : 0U), "every record of the application that is marked is found, once");
    __vc_assert(Kept() && TracingKept(), "searching changes nothing");
    __vc_cover("end");
}

// rolling back: records found, each rolled back or not (C07 has the contract of that)
namespace
{
constexpr std::uint64_t kNone = ~0ULL;
Node** g_list;
std::uint64_t g_count;
std::uint64_t g_at;        // the record taken from the list last
std::uint64_t g_done;      // the record rolled back
std::uint64_t g_failed;    // how many could not be
const score::Result<void>* g_refused;
struct List { Node** begin; Node** end; Node** capacity; };
void find_records_stub(List* const result, Set*, const TransactionLogId& id)
{
    __vc_assert(id == g_app, "the records looked for are those of the application");
    result->begin = g_list;
    result->end = g_list + g_count;
    result->capacity = g_list + g_count;
}
std::uint64_t any_record(void*, std::uint64_t)
{
    g_at = vc::any<std::uint64_t>("found");
    vc::assume(g_at < g_n);
    vc::assume(IdAt(g_at) == g_app && MarkAt(g_at) != 0U);   // what a search finds
    return reinterpret_cast<std::uint64_t>(g_nodes + g_at * sizeof(Node));
}
void no_store(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "the list is not changed"); }
score::Result<void> roll_back_record_stub(View* const view, const View::DereferenceSlotCallback&, const View::UnsubscribeCallback&)
{
    __vc_assert(LogOf(view) == &reinterpret_cast<Node*>(g_nodes + g_at * sizeof(Node))->transaction_log_, "the record rolled back is one that was found");
    __vc_assert(g_done == kNone, "one record is rolled back at most");
    if (vc::any<bool>("rolled back"))
    {
        g_done = g_at;
        return {};
    }
    ++g_failed;
    return *g_refused;
}
}  // namespace
VC_CONTRACT(find_records, "score::mw::com::impl::lola::TransactionLogSet::FindTransactionLogNodesToBeRolledBack\\(.*", find_records_stub)
VC_CONTRACT(roll_back_record, "score::mw::com::impl::lola::TransactionLogLocalView::RollbackProxyElementLog\\(.*", roll_back_record_stub)
VC_HARNESS(roll_back)
{
    Records(false);
    vc::assume(g_app != kFree);
    g_count = vc::any<std::uint8_t>("number found");
    g_done = kNone;
    g_failed = 0U;
    g_at = kNone;
    const score::Result<void> refused = score::MakeUnexpected(score::mw::com::impl::ComErrc::kCouldNotRestartProxy);
    g_refused = &refused;
    g_list = static_cast<Node**>(__vc_alloc(g_count * 8U, "list", 8U, 8U));
    __vc_region(g_list, g_count * 8U, any_record, no_store);
    __vc_hint_bound(g_count, "count");
    __vc_watch(&g_failed, 8U, "failed");
    __vc_watch(&g_done, 8U, "done");
    const auto r = S().RollbackProxyTransactions(g_app, {}, {});
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(g_done != kNone || g_count == 0U, "a success is reported only if a record was rolled back, or there was none to roll back");
    }
    else
    {
        __vc_assert(g_done == kNone, "a failure is reported only if none was rolled back");
        __vc_assert(g_failed == g_count, "a failure is reported only after every record found was tried");
    }
    if (g_done == g_j)
    {
        __vc_assert(IdAt(g_j) == kFree && MarkAt(g_j) == 0U, "the record rolled back is free");
        __vc_cover("done");
    }
    else
    {
        __vc_assert(Kept(), "no record is freed that was not rolled back");
        __vc_cover("kept");
    }
    __vc_assert(TracingKept(), "the record of the provider is not touched");
}
namespace
{
score::Result<void> roll_back_tracing_record_stub(View* const view, const View::DereferenceSlotCallback&)
{
    __vc_assert(LogOf(view) == &S().skeleton_tracing_transaction_log_.transaction_log_, "the record rolled back is the one of the provider");
    __vc_assert(g_done == kNone && g_failed == 0U, "it is rolled back once");
    if (vc::any<bool>("rolled back"))
    {
        g_done = 255U;
        return {};
    }
    ++g_failed;
    return score::MakeUnexpected(score::mw::com::impl::ComErrc::kCouldNotRestartProxy);
}
}  // namespace
VC_CONTRACT(roll_back_tracing_record, "score::mw::com::impl::lola::TransactionLogLocalView::RollbackSkeletonTracingElementLog\\(.*", roll_back_tracing_record_stub)
VC_HARNESS(roll_back_tracing)
{
    Records(false);
    g_done = kNone;
    g_failed = 0U;
    const auto r = S().RollbackSkeletonTracingTransactions({});
    __vc_assert((g_done != kNone || g_failed != 0U) == (g_tracing_id != kFree), "the record of the provider is rolled back exactly if it is in use");
    __vc_assert(r.has_value() == (g_failed == 0U), "the result is that of the roll-back");
    if (g_done != kNone)
    {
        __vc_assert(!S().skeleton_tracing_transaction_log_.IsActive() && !S().skeleton_tracing_transaction_log_.NeedsRollback(), "the record rolled back is free");
        __vc_cover("done");
    }
    else
    {
        __vc_assert(TracingKept(), "a record that was not rolled back stays");
        __vc_cover("kept");
    }
    __vc_assert(Kept(), "no other record is touched");
}

// a registration, and its end
namespace
{
using Control = ConsumerEventDataControlLocalView<>;
alignas(Control) unsigned char g_control_place[sizeof(Control)];
Control& TheControl() { return *reinterpret_cast<Control*>(g_control_place); }
std::uint64_t g_unregistered;
std::uint64_t g_cleared;
std::uint64_t g_sets;
TransactionLogIndex g_unregistered_index;
const TransactionLog* g_set_log;
std::optional<std::pair<Node*, TransactionLogIndex>> acquire_record_stub(Set*, TransactionLogId id)
{
    __vc_assert(id == g_app, "the record acquired is for the application");
    if (g_n == 0U || vc::any<bool>("none free"))
    {
        return {};
    }
    // what an acquisition guarantees
    vc::assume(IdAt(g_j) == g_app);
    return std::make_pair(reinterpret_cast<Node*>(g_nodes + g_j * sizeof(Node)), static_cast<TransactionLogIndex>(g_j));
}
void unregister_record_stub(Set* const set, TransactionLogIndex index)
{
    __vc_assert(set == &S(), "a record is given back where it was taken");
    ++g_unregistered;
    g_unregistered_index = index;
}
void set_view_stub(Control* const control, const View& view)
{
    __vc_assert(control == &TheControl(), "the consumer gets the record");
    ++g_sets;
    g_set_log = LogOf(&view);
}
void clear_view_stub(Control* const control)
{
    __vc_assert(control == &TheControl(), "the consumer loses the record");
    __vc_assert(g_sets == 1U, "only a consumer that has a record loses it");
    ++g_cleared;
}
void NothingYet()
{
    g_unregistered = 0U;
    g_cleared = 0U;
    g_sets = 0U;
    g_set_log = nullptr;
}
}  // namespace
VC_CONTRACT(acquire_record, "score::mw::com::impl::lola::TransactionLogSet::AcquireNextAvailableSlot\\(.*", acquire_record_stub)
VC_CONTRACT(unregister_record, "score::mw::com::impl::lola::TransactionLogSet::Unregister\\(.*", unregister_record_stub)
VC_CONTRACT(set_view, "score::mw::com::impl::lola::ConsumerEventDataControlLocalView<.*>::SetTransactionLogLocalView\\(.*", set_view_stub)
VC_CONTRACT(clear_view, "score::mw::com::impl::lola::ConsumerEventDataControlLocalView<.*>::ClearTransactionLogLocalView\\(.*", clear_view_stub)
VC_HARNESS(register)
{
    Records(false);
    vc::assume(g_app != kFree);
    NothingYet();
    g_contains = vc::any<bool>("transactions left");
    __vc_term_ok(g_contains);
    {
        const auto r = S().RegisterProxyElement(g_app, TheControl());
        if (!r.has_value())
        {
            __vc_assert(g_sets == 0U, "a consumer without a record is given none");
            __vc_cover("refused");
        }
        else
        {
            __vc_assert(!g_contains, "a record that is handed out holds no transactions");
            __vc_assert(r->GetTransactionLogIndex() == g_j, "the record registered is the one acquired");
            __vc_assert(g_sets == 1U && g_set_log == &reinterpret_cast<Node*>(g_nodes + g_j * sizeof(Node))->transaction_log_, "the consumer writes into the record acquired");
            __vc_assert(g_unregistered == 0U && g_cleared == 0U, "a record is kept as long as it is registered");
            __vc_cover("registered");
        }
    }
    __vc_assert(g_unregistered == g_sets && g_cleared == g_sets, "the record is given back once, with the registration");
    __vc_assert(g_sets == 0U || g_unregistered_index == g_j, "the record given back is the one acquired");
    __vc_assert(TracingKept(), "the record of the provider is not touched");
}
VC_HARNESS(register_tracing)
{
    Records(false);
    NothingYet();
    __vc_term_ok(g_tracing_id != kFree);
    {
        const auto r = S().RegisterSkeletonTransactionLog(TheControl());
        __vc_assert(g_tracing_id == kFree, "the record of the provider is registered once");
        __vc_assert(S().skeleton_tracing_transaction_log_.IsActive(), "a record that is registered is in use");
        __vc_assert(r.GetTransactionLogIndex() == 255U, "the record of the provider has an index of its own");
        __vc_assert(g_sets == 1U && g_set_log == &S().skeleton_tracing_transaction_log_.transaction_log_, "the provider writes into its record");
        __vc_assert(g_unregistered == 0U && g_cleared == 0U, "a record is kept as long as it is registered");
    }
    __vc_assert(g_unregistered == 1U && g_cleared == 1U && g_unregistered_index == 255U, "the record is given back once, with the registration");
    __vc_assert(Kept(), "no other record is touched");
    __vc_cover("end");
}
