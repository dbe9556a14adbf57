// VC-SOURCES: score/mw/com/impl/bindings/lola/messaging/node_identifier_copier.cpp score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp
// VC-OPTIONS: vc_copy unroll=96
// VC-OPTIONS: vc_copy_service unroll=96
// VC-USES: vc_notify_all_nodes copier client
// The nodes interested in an event: any number of them, copied in batches and notified one by one.
#include "score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h"
#include "score/mw/com/impl/bindings/lola/messaging/node_identifier_copier.h"
#include "vc.h"
#include <cstring>
using namespace score::mw::com::impl;
using namespace score::mw::com::impl::lola;

namespace
{
// the interested nodes of one event: an ascending sequence of any length.  It stands for std::map<ElementFqId, std::set<pid_t>>
// by the contracts of find and lower_bound.
std::shared_mutex* g_mutex;
bool g_locked;
bool g_no_events;
bool g_known;
const pid_t* g_nodes;
std::uint64_t g_n;
std::uint64_t g_first;  // position of the first node not before the start
pid_t g_start;
ElementFqId g_event;

void Locked() { __vc_assert(g_locked, "the nodes are read only while they are locked"); }
struct NodeSet
{
    const pid_t* lower_bound(const pid_t start) const
    {
        Locked();
        __vc_assert(start == g_start, "the nodes are copied from the one asked for on");
        return g_nodes + g_first;
    }
    const pid_t* cend() const
    {
        Locked();
        return g_nodes + g_n;
    }
    const pid_t* end() const { return cend(); }
    const pid_t* cbegin() const
    {
        Locked();
        return g_nodes;
    }
    const pid_t* begin() const { return cbegin(); }
    bool empty() const
    {
        Locked();
        return g_n == 0U;
    }
    std::size_t size() const
    {
        Locked();
        return g_n;
    }
};
struct Events
{
    std::pair<ElementFqId, NodeSet> event;
    bool empty() const
    {
        Locked();
        return g_no_events;
    }
    const std::pair<ElementFqId, NodeSet>* find(const ElementFqId& id) const
    {
        Locked();
        __vc_assert(id == g_event, "the event searched is the one asked for");
        return g_known ? &event : &event + 1;
    }
    const std::pair<ElementFqId, NodeSet>* end() const
    {
        Locked();
        return &event + 1;
    }
    const std::pair<ElementFqId, NodeSet>* cend() const { return end(); }
};
void on_lock(void*) { g_locked = true; }
void on_unlock(void*) { g_locked = false; }

void Copy(const bool service)
{
    std::shared_mutex mutex;
    g_mutex = &mutex;
    g_locked = !__vc_symbolic();
    __vc_lockhooks(&mutex, &on_lock, &on_unlock);
    g_n = vc::any<std::uint32_t>("nodes");
    g_first = vc::any<std::uint64_t>("first");
    vc::assume(g_first <= g_n);
    g_nodes = static_cast<const pid_t*>(__vc_alloc((g_n + 1U) * 4U, "node", 4U, 4U));
    g_start = vc::any<pid_t>("start");
    g_no_events = vc::any<bool>("no events");
    g_known = vc::any<bool>("event known");
    vc::assume(!g_known || !g_no_events);
    g_event = ElementFqId{vc::any<std::uint16_t>("service"), vc::any<std::uint16_t>("element"), vc::any<std::uint16_t>("instance"), ServiceElementType::EVENT};
    Events events{};
    NodeIdTmpBufferType buffer;
    const auto k = vc::any<std::uint64_t>("k");
    vc::assume(k < buffer.size());
    buffer.fill(0);
    buffer[k] = vc::any<pid_t>("k-th of the buffer");
    const pid_t before = buffer[k];
    const std::uint64_t there = g_known ? g_n - g_first : 0U;
    const bool reached = k < there;
    const pid_t node = reached ? g_nodes[g_first + k] : 0;
    __vc_hint_index(k, "k");
    __vc_hint_bound(there, "there");
    __vc_hint_value(static_cast<std::uint32_t>(node), "node_k");
    __vc_hint_value(static_cast<std::uint32_t>(before), "before");
    __vc_hint_bool(reached, "reached");
    __vc_watch(&buffer[k], 4U, "buffer_k");
    const auto r = service ? MessagePassingServiceInstance::CopyNodeIdentifiers(g_event, events, mutex, buffer, g_start)
                           : CopyNodeIdentifiers(g_event, events, mutex, buffer, g_start);
    __vc_assert(!__vc_symbolic() || !g_locked, "the lock is given back");
    __vc_assert(r.first == (there < buffer.size() ? there : buffer.size()), "as many nodes are copied as there are and as fit");
    __vc_assert(r.second == (there > buffer.size()), "the caller is told to continue exactly if there are more");
    __vc_assert(buffer[k] == (reached ? node : before), "the nodes are copied in order, and nothing else is written");
    if (r.second)
    {
        __vc_cover("more");
    }
    else if (r.first == 0U)
    {
        __vc_cover("none");
    }
    else
    {
        __vc_cover("all");
    }
}
}  // namespace
VC_HARNESS(copy_service) { Copy(true); }
VC_HARNESS(copy) { Copy(false); }

// ------------------------------------------------------------------ notification of all of them
namespace
{
std::uint64_t g_copied;  // nodes handed out by the copier
std::uint64_t g_sent;    // nodes notified
std::uint64_t g_batches;
pid_t g_after;   // the start that continues after the nodes handed out
pid_t g_target;  // node of the connection handed out last
std::uint64_t g_k;
pid_t g_node_k;
std::uint64_t g_told_k;
unsigned char g_self[sizeof(MessagePassingServiceInstance)];

pid_t NodeAt(const std::uint64_t i) { return static_cast<pid_t>(__vc_function("node", i, 0U)); }

// contract of the copier (discharged above): the nodes from the start on, in order, as many as fit
std::pair<std::uint8_t, bool> copy_stub(const ElementFqId id, void* nodes, std::shared_mutex& mutex, NodeIdTmpBufferType& buffer, const pid_t start)
{
    auto& self = *reinterpret_cast<MessagePassingServiceInstance*>(g_self);
    __vc_assert(id == g_event && nodes == &self.event_update_interested_nodes_ && &mutex == &self.event_update_interested_nodes_mutex_, "the nodes interested in this event are notified");
    __vc_assert(start == g_after, "each batch continues where the one before ended");
    __vc_assert(g_sent == g_copied, "a batch is notified before the next is fetched");
    const std::uint64_t left = g_n - g_copied;
    const bool more = left > buffer.size();
    const std::uint64_t count = more ? buffer.size() : left;
    for (std::uint64_t i = 0U; i < 20U; ++i)
    {
        buffer[i] = NodeAt(g_copied + i);
    }
    if (more)
    {
        // ids ascend, so the last one of the batch is less than the greatest id
        vc::assume(buffer[19U] >= 0 && buffer[19U] < std::numeric_limits<pid_t>::max());
        g_after = buffer[19U] + 1;
    }
    g_copied += count;
    g_batches += 1U;
    __vc_hint_bound(count, "batch");
    return {static_cast<std::uint8_t>(count), more};
}

struct Connection final : score::message_passing::IClientConnection
{
    score::cpp::expected_blank<score::os::Error> Send(score::cpp::span<const std::uint8_t> message) noexcept override
    {
        __vc_assert(message.size() == sizeof(ElementFqId) + 1U, "the message is a notification");
        ElementFqId id{};
        std::memcpy(static_cast<void*>(&id), message.data() + 1, sizeof(id));
        __vc_assert(message.data()[0] == 3U && id == g_event, "it is about this event");
        __vc_assert(g_target == NodeAt(g_sent), "the nodes are notified in order, each once");
        g_sent += 1U;
        if (vc::any<bool>("sending fails"))
        {
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(5));
        }
        return {};
    }
    score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> SendWaitReply(score::cpp::span<const std::uint8_t>, score::cpp::span<std::uint8_t>) noexcept override { std::abort(); }
    score::cpp::expected_blank<score::os::Error> SendWithCallback(score::cpp::span<const std::uint8_t>, ReplyCallback) noexcept override { std::abort(); }
    State GetState() const noexcept override { return State::kReady; }
    StopReason GetStopReason() const noexcept override { return StopReason::kNone; }
    void Start(StateCallback, NotifyCallback) noexcept override {}
    void Stop() noexcept override {}
    void Restart() noexcept override {}
};
Connection* g_connection;
std::shared_ptr<score::message_passing::IClientConnection> client_stub(void*, const pid_t node)
{
    g_target = node;
    return std::shared_ptr<score::message_passing::IClientConnection>(std::shared_ptr<void>{}, g_connection);
}
}  // namespace
VC_CONTRACT(copier, "std::pair<.*> score::mw::com::impl::lola::(MessagePassingServiceInstance::)?CopyNodeIdentifiers<std::.*", copy_stub)
VC_CONTRACT(client, "score::mw::com::impl::lola::MessagePassingClientCache::GetMessagePassingClient\\(.*", client_stub)

VC_HARNESS(notify_all_nodes)
{
    Connection connection{};
    g_connection = &connection;
    g_n = vc::any<std::uint32_t>("nodes");
    g_copied = 0U;
    g_sent = 0U;
    g_batches = 0U;
    g_after = 0;
    g_event = ElementFqId{vc::any<std::uint16_t>("service"), vc::any<std::uint16_t>("element"), vc::any<std::uint16_t>("instance"), ServiceElementType::EVENT};
    __vc_hint_bound(g_n, "nodes");
    __vc_hint_bound(255U, "most batches");
    reinterpret_cast<MessagePassingServiceInstance*>(g_self)->NotifyEventRemote(g_event);
    __vc_assert(g_sent == g_copied, "every node handed out is notified");
    __vc_assert(g_sent == g_n || g_batches == 255U, "every interested node is notified, up to the 255 batches supported");
    __vc_cover("notified");
}
