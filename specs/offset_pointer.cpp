// VC-SOURCES: score/memory/shared/pointer_arithmetic_util.cpp score/memory/shared/offset_ptr.cpp score/memory/shared/memory_region_bounds.cpp
// VC-USES: * regions regions_address
// Position-independent pointers: they designate what they were set to, wherever they and their memory are.
#include "score/memory/shared/offset_ptr.h"
#include "vc.h"
#include <cstring>
#include <limits>
#include <utility>
using namespace score::memory::shared;

namespace
{
using Wide = __int128;
struct Item
{
    std::uint32_t words[3];
};
struct Pair
{
    std::uint64_t words[2];
};
template <typename T>
std::uint64_t Int(T* p) { return reinterpret_cast<std::uint64_t>(p); }

// contract of the registry for its users (see C12): what is known of regions does not matter here
MemoryResourceRegistry& instance_stub() { return *reinterpret_cast<MemoryResourceRegistry*>(8U); }
std::optional<MemoryRegionBounds> bounds_stub(const MemoryResourceRegistry*, const void*)
{
    if (vc::any<bool>("in a region"))
    {
        const auto first = vc::any<std::uint64_t>("first");
        const auto last = vc::any<std::uint64_t>("last");
        vc::assume(first != 0U && last != 0U);
        return MemoryRegionBounds{first, last};
    }
    return std::nullopt;
}
std::optional<MemoryRegionBounds> bounds_int_stub(const MemoryResourceRegistry* r, std::uintptr_t) { return bounds_stub(r, nullptr); }
}  // namespace
VC_CONTRACT(regions, "score::memory::shared::MemoryResourceRegistry::getInstance\\(\\)", instance_stub)
VC_CONTRACT(regions_address, "score::memory::shared::MemoryResourceRegistry::GetBoundsFromAddress\\(.*", bounds_stub)

VC_HARNESS(set_and_get)
{
    EnableOffsetPtrBoundsChecking(false);
    const auto a = vc::any<std::uint64_t>("target");
    Item* const target = reinterpret_cast<Item*>(a);
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    const Wide distance = static_cast<Wide>(a) - static_cast<Wide>(Int(&place[0]));
    vc::assume(distance != 1);  // nothing lies inside the pointer itself
    __vc_term_ok(a != 0U && (distance > std::numeric_limits<std::int64_t>::max() || distance < std::numeric_limits<std::int64_t>::min()));
    auto* const p = new (static_cast<void*>(place)) OffsetPtr<Item>{target};
    __vc_assert(p->get() == target, "a pointer designates the address it was made with");
    __vc_assert(static_cast<Item*>(*p) == target && p->operator->() == target, "every access yields the same address");
    __vc_assert(static_cast<bool>(*p) == (a != 0U) && !*p == (a == 0U), "a pointer is true exactly if it designates something");
    __vc_assert((*p == nullptr) == (a == 0U) && (nullptr == *p) == (a == 0U) && (*p != nullptr) == (a != 0U), "a pointer is null exactly if it was made with null");
}

namespace
{
constexpr auto kMaxDistance = std::numeric_limits<std::int64_t>::max();
constexpr auto kMinDistance = std::numeric_limits<std::int64_t>::min();
// a pointer somewhere, designating the address given (or nothing, if that is null)
template <typename T>
struct Made
{
    alignas(8) unsigned char place[sizeof(OffsetPtr<T>)];
    OffsetPtr<T>* p;
    explicit Made(const std::uint64_t a)
    {
        vc::assume(Representable(place, a));
        p = new (static_cast<void*>(place)) OffsetPtr<T>{reinterpret_cast<T*>(a)};
    }
    // a pointer cannot hold the distance 1 (that is inside itself), nor one beyond half the address space
    static bool Representable(const void* where, const std::uint64_t a)
    {
        const Wide distance = static_cast<Wide>(a) - static_cast<Wide>(Int(where));
        return a == 0U || (distance != 1 && distance <= kMaxDistance && distance >= kMinDistance);
    }
};
template <typename T>
std::uint64_t Address(const OffsetPtr<T>& p)
{
    EnableOffsetPtrBoundsChecking(false);
    return Int(p.get());
}
}  // namespace

VC_HARNESS(copied)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("target");
    Made<Item> source{a};
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    vc::assume(Made<Item>::Representable(place, a));
    auto* const copy = new (static_cast<void*>(place)) OffsetPtr<Item>{*source.p};
    __vc_assert(Address(*copy) == a, "a copy designates the same address");
    __vc_assert(Address(*source.p) == a, "the source still designates the same address");
}

namespace
{
template <typename To, typename Do>
void Assigned(Do&& act)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("target");
    const auto b = vc::any<std::uint64_t>("other target");
    Made<Item> source{a};
    Made<To> to{b};
    vc::assume(Made<To>::Representable(to.place, a));
    act(*to.p, *source.p);
    __vc_assert(Address(*to.p) == a, "a pointer assigned to designates the same address");
    __vc_assert(Address(*source.p) == a, "the source still designates the same address");
}
}  // namespace
VC_HARNESS(assigned) { Assigned<Item>([](auto& to, auto& source) { to = source; }); }
VC_HARNESS(moved) { Assigned<Item>([](auto& to, auto& source) { to = std::move(source); }); }
VC_HARNESS(converted) { Assigned<const Item>([](auto& to, auto& source) { to = source; }); }

VC_HARNESS(set_again)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("target");
    Made<Item> p{vc::any<std::uint64_t>("other target")};
    vc::assume(Made<Item>::Representable(p.place, a));
    *p.p = reinterpret_cast<Item*>(a);
    __vc_assert(Address(*p.p) == a, "a pointer designates the address it is set to");
    auto& self = *p.p;
    self = *p.p;
    __vc_assert(Address(*p.p) == a, "assigning a pointer to itself changes nothing");
}

VC_HARNESS(converted_copy)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("target");
    Made<Item> source{a};
    alignas(8) unsigned char place[sizeof(OffsetPtr<Item>)];
    vc::assume(Made<Item>::Representable(place, a));
    auto* const v = new (static_cast<void*>(place)) OffsetPtr<const Item>{*source.p};
    __vc_assert(Address(*v) == a, "a pointer made from one to a less qualified type designates the same address");
}

VC_HARNESS(untyped_copy)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("target");
    Made<Item> source{a};
    alignas(8) unsigned char place[sizeof(OffsetPtr<void>)];
    vc::assume(Made<Item>::Representable(place, a));
    auto* const w = new (static_cast<void*>(place)) OffsetPtr<void>{*source.p};
    EnableOffsetPtrBoundsChecking(false);
    __vc_assert(Int(w->get<Item>()) == a && Int(w->get(sizeof(Item))) == a, "an untyped pointer made from a typed one designates the same address");
}

VC_HARNESS(exchange)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("target");
    const auto b = vc::any<std::uint64_t>("other target");
    Made<Item> x{a};
    Made<Item> y{b};
    vc::assume(Made<Item>::Representable(x.place, b) && Made<Item>::Representable(y.place, a));
    __vc_term_ok(true);  // the intermediate copy may be too far away
    swap(*x.p, *y.p);
    __vc_assert(Address(*x.p) == b && Address(*y.p) == a, "swapping exchanges what is designated");
}

VC_HARNESS(relocated)
{
    // the same memory mapped at another address: every byte is there, the distances are the same
    EnableOffsetPtrBoundsChecking(false);
    const auto i = vc::any<std::uint8_t>("place of the pointer");
    const auto j = vc::any<std::uint64_t>("place of the target");
    constexpr std::uint64_t size = 64U + sizeof(OffsetPtr<Item>);
    alignas(8) unsigned char here[size];
    alignas(8) unsigned char there[size];
    vc::assume(i < 8U);
    const Wide distance = static_cast<Wide>(j) - static_cast<Wide>(8U * i);
    vc::assume(distance != 1 && j < kMaxDistance);
    const std::uint64_t a = Int(&here[0]) + j;
    vc::assume(a >= j && a != 0U);
    vc::assume(Int(&there[0]) + j >= j);
    auto* const p = new (static_cast<void*>(here + 8U * i)) OffsetPtr<Item>{reinterpret_cast<Item*>(a)};
    std::memcpy(there + 8U * i, static_cast<const void*>(p), sizeof(*p));
    auto* const q = reinterpret_cast<OffsetPtr<Item>*>(there + 8U * i);
    __vc_assert(Address(*p) == a, "the pointer designates its target where it was made");
    __vc_assert(Address(*q) == Int(&there[0]) + j, "where the memory is mapped elsewhere the pointer designates the target there");
}

VC_HARNESS(relocated_null)
{
    EnableOffsetPtrBoundsChecking(false);
    Made<Item> p{0U};
    alignas(8) unsigned char there[sizeof(OffsetPtr<Item>)];
    std::memcpy(there, static_cast<const void*>(p.p), sizeof(*p.p));
    auto* const q = reinterpret_cast<OffsetPtr<Item>*>(&there[0]);
    __vc_assert(q->get() == nullptr && !static_cast<bool>(*q), "null stays null wherever it is mapped");
}

template <typename Item, typename Steps>
void Advance()
{
    EnableOffsetPtrBoundsChecking(false);
    const auto a = vc::any<std::uint64_t>("target");
    const std::int64_t k = vc::any<Steps>("steps");
    vc::assume(a != 0U);
    Made<Item> x{a};
    const Wide end = static_cast<Wide>(a) + static_cast<Wide>(k) * static_cast<Wide>(sizeof(Item));
    const Wide distance = end - static_cast<Wide>(Int(&x.place[0]));
    vc::assume(distance != 1);
    __vc_term_ok(distance > kMaxDistance || distance < kMinDistance || end < 0 || end > static_cast<Wide>(std::numeric_limits<std::uint64_t>::max()));
    if (vc::any<bool>("forward"))
    {
        *x.p += k;
    }
    else
    {
        vc::assume(k != kMinDistance);
        *x.p -= -k;
    }
    const std::uint64_t now = Address(*x.p);
    __vc_assert(static_cast<Wide>(now) == end, "stepping designates the object exactly that many objects away");
}
VC_HARNESS(advance) { Advance<Pair, std::int64_t>(); }
VC_HARNESS(advance_odd_size) { Advance<Item, std::int32_t>(); }

VC_HARNESS(step)
{
    EnableOffsetPtrBoundsChecking(false);
    const auto a = vc::any<std::uint64_t>("target");
    vc::assume(a >= 4096U && a <= std::numeric_limits<std::uint64_t>::max() - 4096U);
    Made<Item> x{a};
    const auto which = vc::any<std::uint8_t>("which");
    const Wide distance = static_cast<Wide>(a) - static_cast<Wide>(Int(&x.place[0]));
    vc::assume(distance > kMinDistance + 4096 && distance < kMaxDistance - 4096 && distance != 13 && distance != -11);
    __vc_term_ok(true);  // the copy returned may be too far away
    const std::uint64_t up = a + sizeof(Item);
    const std::uint64_t down = a - sizeof(Item);
    if (which == 0U)
    {
        const auto& r = ++*x.p;
        __vc_assert(&r == x.p && Address(*x.p) == up, "incrementing designates the next object");
    }
    else if (which == 1U)
    {
        const auto& r = --*x.p;
        __vc_assert(&r == x.p && Address(*x.p) == down, "decrementing designates the previous object");
    }
    else if (which == 2U)
    {
        const auto old = (*x.p)++;
        __vc_assert(Address(*x.p) == up && Address(old) == a, "post-incrementing yields the old place and designates the next object");
    }
    else if (which == 3U)
    {
        const auto old = (*x.p)--;
        __vc_assert(Address(*x.p) == down && Address(old) == a, "post-decrementing yields the old place and designates the previous object");
    }
    else if (which == 4U)
    {
        __vc_assert(Int(&(*x.p)[1]) == up && Int(&(*x.p)[-1]) == down && Int(&(*x.p)[0]) == a, "indexing designates the object that many objects away");
    }
    else if (which == 5U)
    {
        __vc_assert(Int(&**x.p) == a, "dereferencing designates the target");
    }
}

VC_HARNESS(comparisons)
{
    EnableOffsetPtrBoundsChecking(vc::any<bool>("checks"));
    const auto a = vc::any<std::uint64_t>("first");
    const auto b = vc::any<std::uint64_t>("second");
    Made<Item> x{a};
    Made<Item> y{b};
    Item* const rb = reinterpret_cast<Item*>(b);
    Item* const ra = reinterpret_cast<Item*>(a);
    __vc_assert((*x.p == *y.p) == (a == b) && (*x.p == rb) == (a == b) && (ra == *y.p) == (a == b), "pointers are equal exactly if the addresses are");
    __vc_assert((*x.p != *y.p) == (a != b) && (*x.p != rb) == (a != b) && (ra != *y.p) == (a != b), "pointers differ exactly if the addresses do");
    __vc_assert((*x.p < *y.p) == (a < b) && (*x.p < rb) == (a < b) && (ra < *y.p) == (a < b), "pointers are ordered as the addresses (less)");
    __vc_assert((*x.p <= *y.p) == (a <= b) && (*x.p <= rb) == (a <= b) && (ra <= *y.p) == (a <= b), "pointers are ordered as the addresses (not greater)");
    __vc_assert((*x.p > *y.p) == (a > b) && (*x.p > rb) == (a > b) && (ra > *y.p) == (a > b), "pointers are ordered as the addresses (greater)");
    __vc_assert((*x.p >= *y.p) == (a >= b) && (*x.p >= rb) == (a >= b) && (ra >= *y.p) == (a >= b), "pointers are ordered as the addresses (not less)");
}

template <typename Item, typename Steps>
void Difference()
{
    EnableOffsetPtrBoundsChecking(false);
    const auto a = vc::any<std::uint64_t>("first");
    const auto k = vc::any<Steps>("objects between");
    const std::uint64_t b = a + static_cast<std::uint64_t>(static_cast<std::int64_t>(k) * static_cast<std::int64_t>(sizeof(Item)));
    vc::assume(a > (std::uint64_t{1} << 36U) && a < std::numeric_limits<std::uint64_t>::max() - (std::uint64_t{1} << 36U));
    Made<Item> x{a};
    Made<Item> y{b};
    __vc_assert(*y.p - *x.p == k && *y.p - reinterpret_cast<Item*>(a) == k && reinterpret_cast<Item*>(b) - *x.p == k, "the difference of two pointers is the number of objects between them");
}
VC_HARNESS(difference) { Difference<Pair, std::int32_t>(); }
VC_HARNESS(difference_odd_size) { Difference<Item, std::int16_t>(); }
