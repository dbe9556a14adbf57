// VC-SOURCES: score/memory/shared/shared_memory_resource.cpp score/memory/shared/pointer_arithmetic_util.cpp score/memory/shared/memory_resource_proxy.cpp
// VC-USES: vc_allocate place distance ahead
// The allocator of a shared memory region: a region of any size at any address, blocks of any size and alignment, with
// other participants that allocate from the same region at every access.
#include "score/memory/shared/shared_memory_resource.h"
#include "vc.h"
#include <new>
using namespace score::memory::shared;
using Resource = SharedMemoryResource;
using Control = Resource::ControlBlock;

namespace
{
alignas(Resource) unsigned char g_place[sizeof(Resource)];
Resource& R() { return *reinterpret_cast<Resource*>(g_place); }
alignas(64) unsigned char g_begin[256];   // where a region begins
std::uint64_t g_base;
std::uint64_t g_size;
std::uint64_t g_bytes;
std::uint64_t g_align;
std::uint64_t g_least;   // what the fill level has been raised to
std::uint64_t g_loads;
std::uint64_t g_last;    // the fill level seen last
std::uint64_t g_lost;    // races lost
std::uint64_t g_stores;
std::uint64_t g_from;
std::uint64_t g_to;
Control& C() { return *reinterpret_cast<Control*>(g_begin); }

// how far the next address aligned as requested is away; the contract of do_allocation_algorithm says what it is
std::uint64_t Padding(const std::uint64_t start) { return __vc_function("padding", start, g_align); }
bool Fits(const std::uint64_t level)
{
    return g_size - level >= g_bytes && g_size - level - g_bytes >= Padding(g_base + level);
}
void Region()
{
    g_base = vc::any<std::uint64_t>("base");
    g_size = vc::any<std::uint64_t>("size");
    // a region that is mapped
    g_base &= 0xFFFFFFFFFFFFU;
    g_size &= 0xFFFFFFFFFFFFU;
    vc::assume(g_base != 0U && g_size != 0U);
    R().base_address_ = reinterpret_cast<void*>(g_base);
    R().virtual_address_space_to_reserve_ = g_size;
    R().control_block_ = &C();
    g_least = vc::any<std::uint64_t>("handed out before");   // where the block handed out last ends
    vc::assume(g_least <= g_size);
}
void Block()
{
    g_bytes = vc::any<std::uint64_t>("bytes");
    g_align = vc::any<std::uint64_t>("alignment");
    vc::assume(g_align != 0U);
    g_loads = 0U;
    g_last = 0U;
    g_lost = 0U;
    g_stores = 0U;
}
std::uint64_t load_level(void*, std::uint64_t)
{
    // others only raise it, and never beyond the end (they are bound by this contract, too)
    const auto v = vc::any<std::uint64_t>("level");
    vc::assume(v >= g_least && v <= g_size);
    g_lost |= (g_loads != 0U && v != g_last) ? 1U : 0U;
    g_loads = 1U;
    g_last = v;
    __vc_term_ok(!Fits(v) || g_lost != 0U);
    return v;
}
void store_level(void*, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    __vc_assert(rmw != 0U, "the fill level is raised in one step");
    __vc_assert(g_stores == 0U, "the fill level is raised once");
    __vc_assert(now >= old && now <= g_size, "the fill level is never lowered and never passes the end");
    g_stores = 1U;
    g_from = old;
    g_to = now;
    g_least = now;
}
std::uint64_t Allocate()
{
    return reinterpret_cast<std::uint64_t>(R().Resource::do_allocate(g_bytes, g_align));
}
void Watch()
{
    __vc_region(&C().alreadyAllocatedBytes, 8U, load_level, store_level);
    __vc_watch(&g_last, 8U, "last");
    __vc_watch(&g_size, 8U, "size");
    __vc_watch(&g_least, 8U, "least");
    __vc_watch(&g_stores, 8U, "stores");
}
// contract of do_allocation_algorithm, which vc_place proves
void* place_stub(const void* start, const void* end, std::size_t bytes, std::size_t alignment)
{
    const auto s = reinterpret_cast<std::uint64_t>(start);
    const auto e = reinterpret_cast<std::uint64_t>(end);
    __vc_assert(s <= e && e - s < 0x8000000000000000U, "space is looked for in a region");
    __vc_assert(alignment == g_align && bytes == g_bytes, "space is looked for for the block requested");
    const auto padding = Padding(s);
    vc::assume(padding < alignment);
    return (e - s >= bytes && e - s - bytes >= padding) ? reinterpret_cast<void*>(s + padding) : nullptr;
}
__attribute__((noinline)) void Twice(const std::uint64_t times)
{
    if (vc::any<bool>("alignment"))
    {
        vc::assume(true);   // a path of its own
        g_align <<= times;
    }
}
}  // namespace
// contracts of the address arithmetic, which C13 proves: exact, or termination
std::ptrdiff_t distance_stub(const void* first, const void* second)
{
    const auto f = reinterpret_cast<std::uint64_t>(first);
    const auto s = reinterpret_cast<std::uint64_t>(second);
    __vc_assert(f >= s && f - s < 0x8000000000000000U, "distances are taken within the region");
    return static_cast<std::ptrdiff_t>(f - s);
}
void* ahead_stub(void* p, std::size_t offset)
{
    const auto a = reinterpret_cast<std::uint64_t>(p);
    __vc_assert(a + offset >= a, "addresses do not wrap around");
    return reinterpret_cast<void*>(a + offset);
}
VC_CONTRACT(distance, "score::memory::shared::SubtractPointersBytes\\(.*", distance_stub)
VC_CONTRACT(ahead, "void\\* score::memory::shared::AddOffsetToPointer<.*|score::memory::shared::AddOffsetToPointer\\(.*", ahead_stub)
VC_CONTRACT(place, "detail::do_allocation_algorithm\\(.*", place_stub)

VC_HARNESS(place)
{
    // every power of two, one after the other
    g_align = 1U;
    Twice(1U);
    Twice(2U);
    Twice(4U);
    Twice(8U);
    Twice(16U);
    Twice(32U);
    const auto s = vc::any<std::uint64_t>("start");
    const auto space = vc::any<std::uint64_t>("space");
    const auto bytes = vc::any<std::uint64_t>("bytes");
    vc::assume(s != 0U && space < 0x8000000000000000U && s + space > s);
    const auto padding = (0U - s) & (g_align - 1U);
    const auto p = reinterpret_cast<std::uint64_t>(detail::do_allocation_algorithm(
        reinterpret_cast<void*>(s), reinterpret_cast<void*>(s + space), bytes, g_align));
    const bool fits = space >= bytes && space - bytes >= padding;
    __vc_assert(fits || p == 0U, "no place is found for what does not fit");
    __vc_assert(!fits || p == s + padding, "what fits is placed at the first address aligned as requested");
    __vc_cover("end");
}
VC_HARNESS(allocate)
{
    Region();
    Block();
    Watch();
    const auto before = g_least;
    const auto p = Allocate();
    __vc_region_off();
    __vc_assert(p >= g_base && p - g_base >= before && g_from >= before, "a block overlaps none handed out before, whatever others allocate");
    __vc_assert(g_stores == 1U, "a block handed out is accounted for");
    __vc_assert(Fits(g_from), "a block that does not fit is refused");
    __vc_assert(p >= g_base + g_from && p - g_base <= g_to && g_to - (p - g_base) >= g_bytes, "the block handed out lies wholly in the space accounted for");
    __vc_assert(p >= g_base && p - g_base <= g_size && g_size - (p - g_base) >= g_bytes, "the block handed out lies wholly in the region");
    __vc_assert(p == g_base + g_from + Padding(g_base + g_from), "the block is aligned as requested");
    __vc_assert(g_to - (p - g_base) == g_bytes, "no more space is used up than the block and its padding");
    __vc_cover("end");
}
VC_HARNESS(initially_nothing_is_allocated)
{
    auto& r = R();
    const auto id = vc::any<std::uint64_t>("identifier");
    r.base_address_ = g_begin;
    r.memory_identifier_ = id;
    g_size = vc::any<std::uint64_t>("size");
    vc::assume(g_size >= 256U && g_size < 0x8000000000000000U - reinterpret_cast<std::uint64_t>(g_begin));
    r.virtual_address_space_to_reserve_ = g_size;
    for (auto& c : g_begin)
    {
        c = 0xA5U;
    }
    r.initializeControlBlock();
    __vc_assert(static_cast<void*>(r.control_block_) == g_begin, "the administration lies at the beginning of the region");
    const auto used = r.control_block_->alreadyAllocatedBytes.load();
    __vc_assert(used >= sizeof(Control) && used <= g_size, "the administration is never handed out");
    __vc_assert(used % alignof(std::max_align_t) == 0U, "allocation begins at an address aligned for every type");
    __vc_assert(r.Resource::getUsableBaseAddress() == g_begin + used, "usable is what is not administration");
    __vc_assert(r.Resource::GetUserAllocatedBytes() == 0U, "initially nothing is allocated");
    __vc_assert(r.Resource::getBaseAddress() == g_begin && reinterpret_cast<std::uint64_t>(r.Resource::getEndAddress()) == reinterpret_cast<std::uint64_t>(g_begin) + g_size, "the bounds are those of the region");
    const auto more = vc::any<std::uint64_t>("allocated");
    vc::assume(more <= g_size - used);
    r.control_block_->alreadyAllocatedBytes.store(used + more);
    __vc_assert(r.Resource::GetUserAllocatedBytes() == more, "what is reported as allocated is what was allocated");
    r.Resource::do_deallocate(g_begin, more, 1U);
    __vc_assert(r.control_block_->alreadyAllocatedBytes.load() == used + more, "a block given back is not handed out again");
    __vc_cover("end");
}
