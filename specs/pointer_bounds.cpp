// VC-SOURCES: score/memory/shared/pointer_arithmetic_util.cpp score/memory/shared/offset_ptr.cpp score/memory/shared/memory_region_bounds.cpp score/memory/shared/offset_ptr_bounds_check.cpp
// VC-USES: * instance regions regions_integer
// Dereferencing a position-independent pointer with checks on: what comes out lies wholly in the region the pointer belongs to,
// whatever the pointer's bytes are.
#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/offset_ptr_bounds_check.h"
#include "vc.h"
#include <limits>
#include <new>
using namespace score::memory::shared;

namespace
{
using Wide = __int128;
struct Item
{
    std::uint64_t words[3];
};
template <typename T>
std::uint64_t Int(T* p) { return reinterpret_cast<std::uint64_t>(p); }

// contract of the registry for its users, discharged in region_map.cpp: the region an address lies in, if any.  g_home is the
// address of interest, g_first and g_last its region; about other addresses anything may be answered.
std::uint64_t g_home;
bool g_in_region;
std::uint64_t g_first;
std::uint64_t g_last;
std::uint64_t g_outside;  // a place known to lie in no region (0: none)
MemoryResourceRegistry& instance_stub() { return *reinterpret_cast<MemoryResourceRegistry*>(8U); }
std::optional<MemoryRegionBounds> bounds_int_stub(const MemoryResourceRegistry*, std::uintptr_t a)
{
    if (a == g_home)
    {
        if (g_in_region)
        {
            return MemoryRegionBounds{g_first, g_last};
        }
        return std::nullopt;
    }
    if (a == g_outside)
    {
        return std::nullopt;
    }
    if (vc::any<bool>("in another region"))
    {
        const auto first = vc::any<std::uint64_t>("first of another");
        const auto last = vc::any<std::uint64_t>("last of another");
        vc::assume(first != 0U && first <= a && a <= last);
        return MemoryRegionBounds{first, last};
    }
    return std::nullopt;
}
std::optional<MemoryRegionBounds> bounds_stub(const MemoryResourceRegistry* r, const void* p) { return bounds_int_stub(r, Int(p)); }
void Region()
{
    g_first = vc::any<std::uint64_t>("first");
    g_last = vc::any<std::uint64_t>("last");
    vc::assume(g_first != 0U && g_first <= g_last);
}
bool Within(const std::uint64_t a, const std::uint64_t size) { return a >= g_first && a <= g_last && static_cast<Wide>(a) + size <= g_last; }
}  // namespace
VC_CONTRACT(instance, "score::memory::shared::MemoryResourceRegistry::getInstance\\(\\)", instance_stub)
VC_CONTRACT(regions, "score::memory::shared::MemoryResourceRegistry::GetBoundsFromAddress\\(.*", bounds_stub)
VC_CONTRACT(regions_integer, "score::memory::shared::MemoryResourceRegistry::GetBoundsFromAddressAsInteger\\(.*", bounds_int_stub)

VC_HARNESS(check_in_region)
{
    Region();
    const auto at = vc::any<std::uint64_t>("place of the pointer");
    const auto distance = vc::any<std::int64_t>("distance stored");
    const auto size = vc::any<std::uint64_t>("size of the object");
    const auto own = vc::any<std::uint64_t>("size of the pointer");
    const MemoryRegionBounds bounds{g_first, g_last};
    const Wide target = static_cast<Wide>(at) + distance;
    const Wide top = std::numeric_limits<std::uint64_t>::max();
    __vc_term_ok(target < 0 || target + static_cast<Wide>(size) > top || static_cast<Wide>(at) + own > top);
    const bool ok = DoesOffsetPtrInSharedMemoryPassBoundsChecks(reinterpret_cast<const void*>(at), distance, bounds, size, own);
    const bool fits = target >= g_first && target + static_cast<Wide>(size) <= static_cast<Wide>(g_last);
    const bool own_end_fits = static_cast<Wide>(at) + own >= g_first && static_cast<Wide>(at) + own <= g_last;
    __vc_assert(ok == (fits && own_end_fits), "a pointer in a region passes exactly if it ends in the region and its whole object lies in the region");
}

VC_HARNESS(check_outside)
{
    Region();
    const auto at = vc::any<std::uint64_t>("place of the pointer");
    const auto distance = vc::any<std::int64_t>("distance stored");
    const auto size = vc::any<std::uint64_t>("size of the object");
    const auto own = vc::any<std::uint64_t>("size of the pointer");
    g_home = at + own;
    vc::assume(g_home >= at);
    g_in_region = vc::any<bool>("end of the pointer in a region");
    const bool bounded = vc::any<bool>("bounds remembered");
    MemoryRegionBounds bounds{};
    if (bounded)
    {
        bounds.Set(g_first, g_last);
    }
    const Wide target = static_cast<Wide>(at) + distance;
    const Wide top = std::numeric_limits<std::uint64_t>::max();
    __vc_term_ok(bounded && (target < 0 || target + static_cast<Wide>(size) > top));
    const bool ok = DoesOffsetPtrNotInSharedMemoryPassBoundsChecks(reinterpret_cast<const void*>(at), distance, bounds, size, own);
    const bool fits = target >= g_first && target + static_cast<Wide>(size) <= static_cast<Wide>(g_last);
    __vc_assert(ok == (!g_in_region && (!bounded || fits)), "a pointer outside passes exactly if it does not reach into a region and its whole object lies in the region remembered");
}

namespace
{
// a pointer of arbitrary content at an arbitrary place
template <typename T>
OffsetPtr<T>* Raw(void* place)
{
    auto* const p = new (place) OffsetPtr<T>{};
    p->offset_ = vc::any<std::int64_t>("distance stored");
    return p;
}
}  // namespace

VC_HARNESS(get_in_region)
{
    EnableOffsetPtrBoundsChecking(true);
    Region();
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    g_home = Int(&place[0]);
    g_in_region = true;
    vc::assume(g_first <= g_home && g_home <= g_last);
    auto* const p = Raw<Item>(place);
    p->memory_bounds_.start_address_ = vc::any<std::uint64_t>("remembered first");
    p->memory_bounds_.end_address_ = vc::any<std::uint64_t>("remembered last");
    __vc_term_ok(true);
    const auto way = vc::any<std::uint8_t>("way");
    std::uint64_t r = 0U;
    if (way == 0U)
    {
        r = Int(p->get());
    }
    else if (way == 1U)
    {
        r = Int(p->operator->());
    }
    else if (way == 2U)
    {
        r = Int(static_cast<Item*>(*p));
    }
    else if (way == 3U)
    {
        r = Int(&**p);
    }
    __vc_assert(r == 0U || Within(r, sizeof(Item)), "with checks on, the whole object a pointer in a region yields lies in that region, whatever the pointer holds");
    __vc_cover("yielded");
}

VC_HARNESS(index_in_region)
{
    EnableOffsetPtrBoundsChecking(true);
    Region();
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    g_home = Int(&place[0]);
    g_in_region = true;
    vc::assume(g_first <= g_home && g_home <= g_last);
    auto* const p = Raw<Item>(place);
    const auto k = vc::any<std::int32_t>("index");
    const Wide distance = static_cast<Wide>(p->offset_) + static_cast<Wide>(k) * static_cast<Wide>(sizeof(Item));
    vc::assume(distance <= std::numeric_limits<std::int64_t>::max() && distance >= std::numeric_limits<std::int64_t>::min());
    __vc_term_ok(true);
    const auto r = Int(&(*p)[k]);
    __vc_assert(Within(r, sizeof(Item)), "with checks on, the whole object an indexed pointer yields lies in the pointer's region");
    __vc_cover("yielded");
}

VC_HARNESS(get_untyped_in_region)
{
    EnableOffsetPtrBoundsChecking(true);
    Region();
    alignas(8) unsigned char place[sizeof(OffsetPtr<void>)];
    g_home = Int(&place[0]);
    g_in_region = true;
    vc::assume(g_first <= g_home && g_home <= g_last);
    auto* const p = Raw<void>(place);
    const auto size = vc::any<std::uint64_t>("size of the object");
    __vc_term_ok(true);
    if (vc::any<bool>("typed"))
    {
        const auto r = Int(p->get<Item>());
        __vc_assert(r == 0U || Within(r, sizeof(Item)), "an untyped pointer yields an object of the type asked for only if all of it lies in the region");
    }
    else
    {
        const auto r = Int(p->get(size));
        __vc_assert(r == 0U || Within(r, size), "an untyped pointer yields an object of the size asked for only if all of it lies in the region");
    }
}

VC_HARNESS(get_outside)
{
    EnableOffsetPtrBoundsChecking(true);
    Region();
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    g_home = Int(&place[0]);
    g_in_region = false;
    auto* const p = Raw<Item>(place);
    p->memory_bounds_.Set(g_first, g_last);
    __vc_term_ok(true);
    const auto r = Int(p->get());
    __vc_assert(r == 0U || Within(r, sizeof(Item)), "the whole object a pointer outside shared memory yields lies in the region it was copied from");
    __vc_cover("yielded");
}


namespace
{
// a copy to a place outside any region: it remembers the region of its source, so it yields what lies in that region only
void CopyOutside(const bool assign, const bool source_inside)
{
    EnableOffsetPtrBoundsChecking(true);
    Region();
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    auto* const p = Raw<Item>(place);
    g_home = Int(&place[0]);
    g_in_region = source_inside;
    if (source_inside)
    {
        vc::assume(g_first <= g_home && g_home <= g_last);
    }
    else
    {
        p->memory_bounds_.Set(g_first, g_last);
    }
    __vc_term_ok(true);
    alignas(8) unsigned char place1[sizeof(OffsetPtr<Item>)];
    g_outside = Int(&place1[0]);
    OffsetPtr<Item>* copy = nullptr;
    if (assign)
    {
        copy = Raw<Item>(place1);
        copy->memory_bounds_.start_address_ = vc::any<std::uint64_t>("first remembered before");
        copy->memory_bounds_.end_address_ = vc::any<std::uint64_t>("last remembered before");
        *copy = *p;
    }
    else
    {
        copy = new (static_cast<void*>(place1)) OffsetPtr<Item>{*p};
    }
    if (copy->offset_ == 1)
    {
        return;  // no target
    }
    __vc_cover("copied");
    const auto r = Int(copy->get());
    __vc_assert(r == 0U || Within(r, sizeof(Item)), "what a copy outside shared memory yields lies wholly in the region its source belongs to");
}
}  // namespace
VC_HARNESS(construct_copy_of_one_in_region) { CopyOutside(false, true); }
VC_HARNESS(construct_copy_of_one_outside) { CopyOutside(false, false); }
VC_HARNESS(assign_copy_of_one_in_region) { CopyOutside(true, true); }
VC_HARNESS(assign_copy_of_one_outside) { CopyOutside(true, false); }
