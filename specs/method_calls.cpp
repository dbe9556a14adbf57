// VC-SOURCES: score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp score/mw/com/impl/methods/proxy_method.cpp score/mw/com/impl/bindings/lola/proxy_method.cpp score/mw/com/impl/com_error.cpp score/memory/shared/pointer_arithmetic_util.cpp score/memory/shared/offset_ptr.cpp score/memory/shared/memory_region_bounds.cpp score/memory/shared/offset_ptr_bounds_check.cpp
// VC-USES: vc_queue_storage base_class regions regions_address
// Storage of concurrent method calls: queue positions, their storage, the elements in it, and the pointers that keep a
// position taken.
#include "score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.h"
#include "score/mw/com/impl/bindings/lola/proxy_method.h"
#include "score/mw/com/impl/methods/method_signature_element_ptr.h"
#include "score/mw/com/impl/methods/proxy_method.h"
#include "score/mw/com/impl/util/type_erased_storage.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/offset_ptr_bounds_check.h"
#include "vc.h"
namespace impl = score::mw::com::impl;
using score::mw::com::impl::lola::TypeErasedCallQueue;
using Size = std::size_t;
using Span = score::cpp::span<std::byte>;
using Info = score::memory::DataTypeSizeInfo;

namespace
{
std::uint64_t at(const void* p) { return reinterpret_cast<std::uint64_t>(p); }

struct Queue
{
    Size size;
    Size mask;
    Size p1;
    Size p2;
    Size n;
    std::byte* data;
    TypeErasedCallQueue::TypeErasedElementInfo info;
    Queue() : size{vc::any<std::uint32_t>("element size")}, mask{(Size{1U} << (vc::any<std::uint8_t>("alignment (log2)") & 15U)) - 1U},
              p1{vc::any<std::uint8_t>("position")}, p2{p1 + 1U + vc::any<std::uint8_t>("distance of another position")}, n{p2 + 1U + vc::any<std::uint8_t>("positions after that")}
    {
        vc::assume(mask < 4096U && (size & mask) == 0U);
        data = static_cast<std::byte*>(__vc_alloc(size * n, "storage", 1U, 4096U));
        info.in_arg_type_info = Info{size, mask + 1U};
        info.return_type_info = info.in_arg_type_info;
        info.queue_size = n;
    }
};

void Positions(const bool results)
{
    Queue q{};
    const Size p1 = q.p1;
    const Size p2 = q.p2;
    const Span storage{q.data, q.size * q.n};
    const Span a = results ? impl::lola::GetReturnValueElementStorage(p1, storage, q.info) : impl::lola::GetInArgValuesElementStorage(p1, storage, q.info);
    const Span b = results ? impl::lola::GetReturnValueElementStorage(p2, storage, q.info) : impl::lola::GetInArgValuesElementStorage(p2, storage, q.info);
    __vc_assert(a.size() == q.size && b.size() == q.size, "the storage of a position is as large as its elements");
    const auto oa = at(a.data()) - at(q.data);
    const auto ob = at(b.data()) - at(q.data);
    __vc_assert(oa <= ob && oa + q.size <= ob, "two positions have disjoint storage");
    __vc_assert(ob + q.size <= q.size * q.n, "the storage of a position lies inside that of the method");
    __vc_assert((oa & q.mask) == 0U, "the storage of a position is aligned for its elements");
    __vc_cover("end");
}
}  // namespace
VC_HARNESS(no_such_position)
{
    const Size size = vc::any<std::uint32_t>("element size");
    const Size n = vc::any<std::uint8_t>("queue size");
    const Size p = vc::any<Size>("position");
    auto* const data = static_cast<std::byte*>(__vc_alloc(size * n, "storage", 1U, 4096U));
    TypeErasedCallQueue::TypeErasedElementInfo info{Info{size, 1U}, Info{size, 1U}, n};
    __vc_term_ok(p >= n);
    const Span storage{data, size * n};
    const Span s = vc::any<bool>("of the result") ? impl::lola::GetReturnValueElementStorage(p, storage, info) : impl::lola::GetInArgValuesElementStorage(p, storage, info);
    __vc_assert(p < n, "only a position of the queue has storage");
    __vc_assert(s.size() == size, "the storage of a position is as large as its elements");
    __vc_cover("end");
}
VC_HARNESS(in_args_positions) { Positions(false); }
VC_HARNESS(result_positions) { Positions(true); }

namespace
{
struct Resource final : score::memory::shared::ManagedMemoryResource
{
    std::byte* memory[2];
    Size bytes[2]{};
    Size align[2]{};
    unsigned allocated{0U};
    unsigned freed[2]{};
    unsigned strange{0U};
    void* do_allocate(const Size n, const Size a) override
    {
        const unsigned i = allocated++;
        if (i >= 2U) { ++strange; return nullptr; }
        bytes[i] = n;
        align[i] = a;
        return memory[i];
    }
    void do_deallocate(void* p, const Size n, Size) override
    {
        bool known = false;
        for (unsigned i = 0U; i < 2U; ++i)
        {
            if (p == memory[i] && i < allocated) { ++freed[i]; known = bytes[i] == n; }
        }
        strange += known ? 0U : 1U;
    }
    bool do_is_equal(const score::cpp::pmr::memory_resource&) const noexcept override { return true; }
    void* getBaseAddress() const noexcept override { return nullptr; }
    void* getUsableBaseAddress() const noexcept override { return nullptr; }
    Size GetUserAllocatedBytes() const noexcept override { return 0U; }
    const void* getEndAddress() const noexcept override { return nullptr; }
    const score::memory::shared::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
};
// contract of the registry for its users (see C12): what is known of regions does not matter here
using score::memory::shared::MemoryRegionBounds;
using score::memory::shared::MemoryResourceRegistry;
void base_destructor_stub(void*) {}
MemoryResourceRegistry& instance_stub() { return *reinterpret_cast<MemoryResourceRegistry*>(8U); }
std::optional<MemoryRegionBounds> bounds_stub(const MemoryResourceRegistry*, const void*)
{
    if (vc::any<bool>("in a region"))
    {
        const auto first = vc::any<std::uint64_t>("first");
        const auto last = vc::any<std::uint64_t>("last");
        vc::assume(first != 0U && last != 0U);
        return MemoryRegionBounds{first, last};
    }
    return std::nullopt;
}
}  // namespace
VC_CONTRACT(base_class, "std::pmr::memory_resource::~memory_resource\\(\\)", base_destructor_stub)
VC_CONTRACT(regions, "score::memory::shared::MemoryResourceRegistry::getInstance\\(\\)", instance_stub)
VC_CONTRACT(regions_address, "score::memory::shared::MemoryResourceRegistry::GetBoundsFromAddress\\(.*", bounds_stub)

VC_HARNESS(queue_storage)
{
    score::memory::shared::EnableOffsetPtrBoundsChecking(false);
    Resource r{};
    r.memory[0] = static_cast<std::byte*>(__vc_alloc(64U, "first", 8U, 16U));
    r.memory[1] = static_cast<std::byte*>(__vc_alloc(64U, "second", 8U, 16U));
    const Size is = vc::any<std::uint32_t>("size of the arguments");
    const Size ia = vc::any<Size>("alignment of the arguments");
    const Size os = vc::any<std::uint32_t>("size of the result");
    const Size oa = vc::any<Size>("alignment of the result");
    const Size n = vc::any<std::uint8_t>("queue size");
    const bool in = vc::any<bool>("has arguments");
    const bool out = vc::any<bool>("has a result");
    TypeErasedCallQueue::TypeErasedElementInfo info{{}, {}, n};
    if (in) { info.in_arg_type_info = Info{is, ia}; }
    if (out) { info.return_type_info = Info{os, oa}; }
    const unsigned expected = (in ? 1U : 0U) + (out ? 1U : 0U);
    {
        TypeErasedCallQueue queue{r, info};
        __vc_assert(r.allocated == expected, "storage is allocated for arguments and result exactly if there are any");
        const auto a = queue.GetInArgValuesQueueStorage();
        const auto b = queue.GetReturnValueQueueStorage();
        __vc_assert(a.has_value() == in && b.has_value() == out, "storage is reported exactly if there are elements");
        if (in && out)
        {
            const unsigned i = a->data() == r.memory[0] ? 0U : 1U;
            __vc_assert(a->data() == r.memory[i] && b->data() == r.memory[1U - i], "arguments and result have storage of their own");
            __vc_assert(a->size() == is * n && r.bytes[i] == is * n && r.align[i] == ia, "the storage of the arguments fits all positions and is aligned");
            __vc_assert(b->size() == os * n && r.bytes[1U - i] == os * n && r.align[1U - i] == oa, "the storage of the results fits all positions and is aligned");
            __vc_cover("both");
        }
        else if (in)
        {
            __vc_assert(a->data() == r.memory[0] && a->size() == is * n && r.bytes[0] == is * n && r.align[0] == ia, "the storage of the arguments fits all positions and is aligned");
            __vc_cover("arguments");
        }
        else if (out)
        {
            __vc_assert(b->data() == r.memory[0] && b->size() == os * n && r.bytes[0] == os * n && r.align[0] == oa, "the storage of the results fits all positions and is aligned");
            __vc_cover("result");
        }
        __vc_assert(r.freed[0] == 0U && r.freed[1] == 0U, "no storage is given back while it is used");
    }
    __vc_assert(r.strange == 0U && r.freed[0] == (expected > 0U ? 1U : 0U) && r.freed[1] == (expected > 1U ? 1U : 0U), "all storage is given back exactly once");
    __vc_cover("end");
}

namespace
{
using Flags = score::containers::DynamicArray<std::array<bool, 3U>>;
using Results = score::containers::DynamicArray<bool>;
template <typename A, typename T>
A& Array(unsigned char (&place)[sizeof(A)], T* const data, const Size n)
{
    auto& a = *reinterpret_cast<A*>(place);
    a.size_ = n;
    a.data_ = data;
    a.raw_ = data;
    return a;
}
struct Taken
{
    Size n;
    Size k;
    std::array<bool, 3U>* in;
    bool* out;
    alignas(8) unsigned char pin[sizeof(Flags)];
    alignas(8) unsigned char pout[sizeof(Results)];
    unsigned char* raw_in() { return reinterpret_cast<unsigned char*>(in); }
    unsigned char* raw_out() { return reinterpret_cast<unsigned char*>(out); }
    bool taken(const Size i, const bool args) { return (args && (raw_in()[3U * i] | raw_in()[3U * i + 1U] | raw_in()[3U * i + 2U]) != 0U) || raw_out()[i] != 0U; }
    Flags& ins() { return Array<Flags>(pin, in, n); }
    Results& outs() { return Array<Results>(pout, out, n); }
    Taken() : n{vc::any<std::uint32_t>("queue size")}, k{vc::any<Size>("some position")}
    {
        vc::assume(k < n);
        in = static_cast<std::array<bool, 3U>*>(__vc_alloc(3U * n, "argument flags", 1U, 1U));
        out = static_cast<bool*>(__vc_alloc(n, "result flags", 1U, 1U));
        __vc_hint_index(k, "k");
        __vc_hint_index(3U * k, "k*3");
        __vc_hint_index(3U * k + 1U, "k*3+1");
        __vc_hint_index(3U * k + 2U, "k*3+2");
        __vc_hint_bound(n, "n");
    }
};
void Determine(const bool args)
{
    Taken t{};
    const bool kt = t.taken(t.k, args);
    __vc_hint_bool(!kt, "k_free");
    auto& ins = t.ins();
    auto& outs = t.outs();
    const auto r = args ? impl::detail::DetermineNextAvailableQueueSlot<char, int, double>(ins, outs) : impl::detail::DetermineNextAvailableQueueSlot(outs);
    if (r.has_value())
    {
        __vc_assert(r.value() < t.n, "a position given out is one of the queue");
        __vc_assert(!t.taken(r.value(), args), "a position given out is not taken");
        __vc_cover("found");
    }
    else
    {
        __vc_assert(kt, "the queue is reported full only if every position is taken");
        __vc_cover("full");
    }
    __vc_assert(t.taken(t.k, args) == kt, "searching takes no position");
}
}  // namespace
VC_HARNESS(next_position) { Determine(true); }
VC_HARNESS(next_position_without_arguments) { Determine(false); }

VC_HARNESS(element_pointer)
{
    std::uint64_t element = vc::any<std::uint64_t>("element");
    const auto before = element;
    const auto position = vc::any<Size>("position");
    bool taken = vc::any<bool>("flag before");
    bool other = vc::any<bool>("another flag");
    const bool other_before = other;
    using Ptr = impl::MethodSignatureElementPtr<std::uint64_t>;
    alignas(Ptr) unsigned char a[sizeof(Ptr)];
    alignas(Ptr) unsigned char b[sizeof(Ptr)];
    auto* const p = new (a) Ptr{element, taken, position};
    __vc_assert(taken, "an element is taken as soon as there is a pointer to it");
    __vc_assert(p->get() == &element && p->operator->() == &element && &**p == &element && p->GetQueuePosition() == position, "a pointer designates its element and position");
    auto* const q = new (b) Ptr{std::move(*p)};
    __vc_assert(taken && q->get() == &element && q->GetQueuePosition() == position, "moving a pointer passes the element on");
    __vc_assert(p->get() == nullptr, "a pointer moved from has no element");
    if (vc::any<bool>("the pointer moved from goes first"))
    {
        p->~Ptr();
        __vc_assert(taken, "an element stays taken while there is a pointer to it");
        q->~Ptr();
        __vc_assert(!taken, "an element is given back when the last pointer to it goes");
    }
    else
    {
        q->~Ptr();
        __vc_assert(!taken, "an element is given back when the last pointer to it goes");
        taken = true;  // someone else takes it
        p->~Ptr();
        __vc_assert(taken, "an element is given back once only");
    }
    __vc_assert(element == before && other == other_before, "elements and other flags are not touched");
    __vc_cover("end");
}

VC_HARNESS(element_pointer_conversion)
{
    std::uint64_t element = 0U;
    std::uint32_t converted = 0U;
    const auto position = vc::any<Size>("position");
    bool taken = vc::any<bool>("flag before");
    using P1 = impl::MethodSignatureElementPtr<std::uint64_t>;
    using P2 = impl::MethodSignatureElementPtr<std::uint32_t>;
    alignas(P1) unsigned char a[sizeof(P1)];
    alignas(P2) unsigned char b[sizeof(P2)];
    auto* const p = new (a) P1{element, taken, position};
    auto* const q = new (b) P2{converted, std::move(*p)};
    __vc_assert(taken && q->get() == &converted && q->GetQueuePosition() == position && p->get() == nullptr, "converting a pointer passes the element on");
    p->~P1();
    __vc_assert(taken, "an element stays taken while there is a pointer to it");
    q->~P2();
    __vc_assert(!taken, "an element is given back when the last pointer to it goes");
    __vc_cover("end");
}

namespace
{
struct Odd { unsigned char c[3]; };
template <typename T>
std::uint64_t Bits(const T& t)
{
    std::uint64_t r = 0U;
    const auto* const p = reinterpret_cast<const unsigned char*>(&t);
    for (Size i = 0U; i < sizeof(T); ++i) { r |= static_cast<std::uint64_t>(p[i]) << (8U * i); }
    return r;
}
template <typename T>
T Any(const char* what)
{
    T t;
    vc::fill(&t, what);
    return t;
}
// the elements of one call: where they are, and that what is stored is what is read
template <typename A, typename B, typename C, typename D>
void Elements()
{
    constexpr auto info = impl::CreateDataTypeSizeInfoFromTypes<A, B, C, D>();
    static_assert(sizeof(A) + sizeof(B) + sizeof(C) + sizeof(D) <= info.Size(), "large enough");
    static_assert(info.Size() % info.Alignment() == 0U, "elements of consecutive positions stay aligned");
    static_assert(info.Alignment() % alignof(A) == 0U && info.Alignment() % alignof(B) == 0U && info.Alignment() % alignof(C) == 0U && info.Alignment() % alignof(D) == 0U, "aligned");
    auto* const data = static_cast<std::byte*>(__vc_alloc(info.Size(), "storage", 1U, info.Alignment()));
    A a = Any<A>("a");
    B b = Any<B>("b");
    C c = Any<C>("c");
    D d = Any<D>("d");
    const auto ptrs = impl::DeserializeArgs<A, B, C, D>(Span{data, info.Size()});
    const auto pa = at(std::get<0>(ptrs)) - at(data);
    const auto pb = at(std::get<1>(ptrs)) - at(data);
    const auto pc = at(std::get<2>(ptrs)) - at(data);
    const auto pd = at(std::get<3>(ptrs)) - at(data);
    __vc_assert(pa % alignof(A) == 0U && pb % alignof(B) == 0U && pc % alignof(C) == 0U && pd % alignof(D) == 0U, "every element of a call is aligned");
    __vc_assert(pa + sizeof(A) <= info.Size() && pb + sizeof(B) <= info.Size() && pc + sizeof(C) <= info.Size() && pd + sizeof(D) <= info.Size(), "every element of a call lies in its storage");
    const auto apart = [](std::uint64_t x, Size n, std::uint64_t y, Size m) { return x + n <= y || y + m <= x; };
    __vc_assert(apart(pa, sizeof(A), pb, sizeof(B)) && apart(pa, sizeof(A), pc, sizeof(C)) && apart(pa, sizeof(A), pd, sizeof(D)) && apart(pb, sizeof(B), pc, sizeof(C)) &&
                    apart(pb, sizeof(B), pd, sizeof(D)) && apart(pc, sizeof(C), pd, sizeof(D)),
                "the elements of a call do not overlap");
    impl::SerializeArgs(Span{data, info.Size()}, a, b, c, d);
    __vc_assert(Bits(*std::get<0>(ptrs)) == Bits(a) && Bits(*std::get<1>(ptrs)) == Bits(b) && Bits(*std::get<2>(ptrs)) == Bits(c) && Bits(*std::get<3>(ptrs)) == Bits(d),
                "what is stored as an element is what is read");
    __vc_cover("end");
}
}  // namespace
VC_HARNESS(elements_growing) { Elements<std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t>(); }
VC_HARNESS(elements_shrinking) { Elements<std::uint64_t, std::uint32_t, std::uint16_t, std::uint8_t>(); }
VC_HARNESS(elements_mixed) { Elements<std::uint8_t, std::uint64_t, Odd, std::uint32_t>(); }
VC_HARNESS(elements_odd) { Elements<Odd, std::uint16_t, Odd, std::uint8_t>(); }

namespace
{
struct Binding final : impl::ProxyMethodBinding
{
    std::byte* data{nullptr};
    Size asked{0U};
    unsigned calls{0U};
    bool refuse{false};
    score::Result<Span> GetInArgsBuffer(const Size position) override
    {
        ++calls;
        asked = position;
        if (refuse) { return score::MakeUnexpected(impl::ComErrc::kBindingFailure); }
        return Span{data, 24U};
    }
    score::Result<Span> GetReturnValueBuffer(Size) override { return score::MakeUnexpected(impl::ComErrc::kBindingFailure); }
    score::Result<void> DoCall(Size) override { return {}; }
};
}  // namespace
VC_HARNESS(take_position)
{
    Taken t{};
    const bool kt = t.taken(t.k, true);
    const bool kr = t.raw_out()[t.k] != 0U;
    __vc_hint_bool(!kt, "k_free");
    Binding binding{};
    binding.data = static_cast<std::byte*>(__vc_alloc(24U, "storage of the position", 1U, 8U));
    binding.refuse = vc::any<bool>("the binding refuses");
    {
        auto r = impl::detail::AllocateImpl<std::uint8_t, std::uint64_t, std::uint32_t>(binding, t.ins(), t.outs());
        if (r.has_value())
        {
            auto& p0 = std::get<0>(r.value());
            auto& p1 = std::get<1>(r.value());
            auto& p2 = std::get<2>(r.value());
            __vc_assert(binding.calls == 1U && binding.asked < t.n, "the storage is that of one position of the queue");
            __vc_assert(p0.GetQueuePosition() == binding.asked && p1.GetQueuePosition() == binding.asked && p2.GetQueuePosition() == binding.asked, "all arguments belong to that position");
            __vc_assert(impl::detail::GetCommonQueuePosition(p0, p1, p2) == binding.asked, "their common position is that one");
            __vc_assert(binding.asked != t.k || !kt, "the position was not taken");
            __vc_assert(binding.asked != t.k || (t.raw_in()[3U * t.k] == 1U && t.raw_in()[3U * t.k + 1U] == 1U && t.raw_in()[3U * t.k + 2U] == 1U), "every argument of the position is taken now");
            __vc_assert(binding.asked == t.k || t.taken(t.k, true) == kt, "no other position is taken or given back");
            __vc_assert(at(p0.get()) - at(binding.data) < 24U && at(p1.get()) - at(binding.data) < 17U && at(p2.get()) - at(binding.data) < 21U, "the arguments lie in the storage of the position");
            __vc_cover("taken");
        }
        else
        {
            __vc_assert(kt || binding.refuse, "no position is given out only if none is free or the binding refuses");
            __vc_assert(t.taken(t.k, true) == kt, "a refused call takes no position");
            __vc_cover("refused");
        }
    }
    __vc_assert(t.taken(t.k, true) == kt && (t.raw_out()[t.k] != 0U) == kr, "a position is free again when its pointers have gone");
}

VC_HARNESS(common_position)
{
    std::uint64_t e0 = 0U;
    std::uint32_t e1 = 0U;
    bool f0 = false;
    bool f1 = false;
    const auto p = vc::any<Size>("position of the first");
    const auto q = vc::any<Size>("position of the second");
    impl::MethodSignatureElementPtr<std::uint64_t> a{e0, f0, p};
    impl::MethodSignatureElementPtr<std::uint32_t> b{e1, f1, q};
    __vc_term_ok(p != q);
    __vc_assert(impl::detail::GetCommonQueuePosition(a, b) == p, "the common position is that of the arguments");
    __vc_assert(p == q, "arguments of different positions are never combined in a call");
    __vc_cover("end");
}

VC_HARNESS(buffers_of_a_method)
{
    Queue q{};
    using Method = impl::lola::ProxyMethod;
    alignas(Method) unsigned char place[sizeof(Method)];
    auto& m = *reinterpret_cast<Method*>(place);
    const bool subscribed = vc::any<bool>("subscribed");
    m.is_subscribed_ = subscribed;
    new (&m.type_erased_element_info_) TypeErasedCallQueue::TypeErasedElementInfo(q.info);
    auto* const results = static_cast<std::byte*>(__vc_alloc(q.size * q.n, "storage of results", 1U, 4096U));
    new (&m.in_args_storage_) std::optional<Span>(Span{q.data, q.size * q.n});
    new (&m.return_storage_) std::optional<Span>(Span{results, q.size * q.n});
    const auto a = m.Method::GetInArgsBuffer(q.p2);
    const auto b = m.Method::GetReturnValueBuffer(q.p2);
    __vc_assert(a.has_value() == subscribed && b.has_value() == subscribed, "storage is given out exactly while the method is subscribed");
    if (subscribed)
    {
        const auto oa = at(a.value().data()) - at(q.data);
        const auto ob = at(b.value().data()) - at(results);
        __vc_assert(a.value().size() == q.size && b.value().size() == q.size, "the storage given out is that of one position");
        __vc_assert(oa + q.size <= q.size * q.n && ob + q.size <= q.size * q.n, "arguments are kept in the storage of the arguments, results in that of the results");
        __vc_assert(oa == ob, "arguments and result of a call have the same position");
        __vc_cover("subscribed");
    }
    else
    {
        __vc_cover("unsubscribed");
    }
}
