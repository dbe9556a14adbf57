// VC-SOURCES: score/memory/shared/memory_region_map.cpp score/memory/shared/memory_region_bounds.cpp
// VC-OPTIONS: vc_claim_version small=0
// VC-USES: vc_lookup acquire tree_upper tree_previous
// VC-USES: vc_number acquire
// VC-USES: vc_update overwrite tree_copy tree_insert tree_previous tree_next
// VC-USES: vc_remove overwrite tree_copy tree_find tree_erase
// VC-USES: vc_clear overwrite tree_clear
// The registered regions: any number of them at any addresses, with any activity of other threads on the versions.
// The tree that keeps a version is replaced by its contract; a region of interest k stands for all registered ones.
#include "score/memory/shared/memory_region_map.h"
#include "vc.h"
#include <map>
#include <new>
using namespace score::memory::shared;
using Map = MemoryRegionMap;
using Base = std::_Rb_tree_node_base;
using Node = std::_Rb_tree_node<std::pair<const std::uintptr_t, std::uintptr_t>>;
using Tree = std::map<std::uintptr_t, std::uintptr_t>;
static_assert(sizeof(Tree) == 48U && sizeof(Node) == 48U, "layout");

namespace
{
constexpr std::uint32_t kInvalid = 0x7FFFFFFFU;
constexpr std::uint32_t kEnd = 0xFFFFFFFFU;
constexpr std::uint64_t kVersions = 10U;
alignas(Map) unsigned char g_place[sizeof(Map)];
Map& M() { return *reinterpret_cast<Map*>(g_place); }
std::uint64_t VersionOf(const void* tree) { return (reinterpret_cast<std::uint64_t>(tree) - reinterpret_cast<std::uint64_t>(&M().known_regions_versions_)) / sizeof(Tree); }
std::uint64_t CountOf(const void* p) { return (reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(&M().known_regions_versions_refcounts_)) / 4U; }
Base* HeaderOf(const std::uint64_t version) { return reinterpret_cast<Base*>(reinterpret_cast<unsigned char*>(&M().known_regions_versions_) + version * sizeof(Tree) + 8U); }
std::uint64_t& SizeOf(const std::uint64_t version) { return *reinterpret_cast<std::uint64_t*>(reinterpret_cast<unsigned char*>(&M().known_regions_versions_) + version * sizeof(Tree) + 40U); }

// the regions of the version in use, in the order of their addresses; u: the first one that begins after the address asked for
std::uint64_t g_n;
std::uint64_t g_u;
std::uint64_t g_k;
std::uintptr_t g_ks;
std::uintptr_t g_ke;
std::uintptr_t g_address;
Node g_before;   // the region u - 1
Node g_after;    // the region u
Node g_first;    // the region 0, if it is neither
Node g_new;
void Set(Node& n, const std::uintptr_t start, const std::uintptr_t end)
{
    auto* const w = reinterpret_cast<std::uintptr_t*>(reinterpret_cast<unsigned char*>(&n) + sizeof(Base));
    w[0] = start;
    w[1] = end;
}
std::uintptr_t Start(const Node& n) { return reinterpret_cast<const std::uintptr_t*>(reinterpret_cast<const unsigned char*>(&n) + sizeof(Base))[0]; }
std::uintptr_t End(const Node& n) { return reinterpret_cast<const std::uintptr_t*>(reinterpret_cast<const unsigned char*>(&n) + sizeof(Base))[1]; }

// readers
std::uint64_t g_latest;
std::uint64_t g_counted;
std::uint64_t g_left;
std::uint64_t latest_any(void*, std::uint64_t)
{
    const auto v = vc::any<std::uint8_t>("latest version");
    vc::assume(v < kVersions);
    g_latest = v;
    return v;
}
void latest_kept(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "a reader does not change which version is the latest"); }
std::uint64_t count_any(void*, std::uint64_t) { return vc::any<std::uint32_t>("readers"); }
void reader_counts(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    const std::uint64_t v = CountOf(p);
    const auto o = static_cast<std::uint32_t>(old);
    const auto n = static_cast<std::uint32_t>(now);
    __vc_assert(rmw != 0U, "readers are counted in one step");
    if (g_counted == 0U)
    {
        __vc_assert(n == o + 1U && v == g_latest, "a reader enters the latest version");
        // a version being rewritten is not entered; a counter about to overflow ends the process
        if (o < kInvalid - 1U)
        {
            g_counted = v + 1U;
        }
        else
        {
            __vc_term_ok(true);
        }
    }
    else
    {
        __vc_assert(g_left == 0U && n == o - 1U && v + 1U == g_counted, "a reader leaves the version it entered, once");
        g_left = 1U;
    }
}
void Neighbours()
{
    g_n = vc::any<std::uint64_t>("number of regions");
    g_u = vc::any<std::uint64_t>("first after the address");
    g_k = vc::any<std::uint64_t>("k");
    vc::assume(g_n < (1ULL << 32U) && g_u <= g_n && g_k < g_n);
    const auto s0 = vc::any<std::uintptr_t>("start before"), e0 = vc::any<std::uintptr_t>("end before");
    const auto s1 = vc::any<std::uintptr_t>("start after"), e1 = vc::any<std::uintptr_t>("end after");
    g_ks = vc::any<std::uintptr_t>("start of k");
    g_ke = vc::any<std::uintptr_t>("end of k");
    // every region has a size and does not begin at null; they do not overlap
    vc::assume((s0 > 0U) & (s0 < e0) & (s1 < e1) & (g_ks > 0U) & (g_ks < g_ke) & (s1 >= e0));
    vc::assume((g_k + 1U != g_u) | ((g_ks == s0) & (g_ke == e0)));
    vc::assume((g_k != g_u) | ((g_ks == s1) & (g_ke == e1)));
    vc::assume((g_k + 1U >= g_u) | (g_ke <= s0));
    vc::assume((g_k <= g_u) | (g_ks >= e1));
    Set(g_before, s0, e0);
    Set(g_after, s1, e1);
}
void Trees()
{
    auto* const h = HeaderOf(g_latest);
    h->_M_parent = &g_first;
    if (g_u == 0U)
    {
        h->_M_left = g_n == 0U ? h : &g_after;
    }
    else
    {
        h->_M_left = g_u == 1U ? &g_before : &g_first;
    }
    SizeOf(g_latest) = g_n;
}
Base* tree_upper_stub(const Tree* const tree, const std::uintptr_t& key)
{
    const std::uint64_t v = VersionOf(tree);
    __vc_assert(g_counted == v + 1U && g_left == 0U, "only the version entered is read");
    __vc_assert(key == g_address, "the region of the address is looked for");
    vc::assume((g_u == g_n) | (Start(g_after) > key));
    vc::assume((g_u == 0U) | (Start(g_before) <= key));
    if (g_u == g_n)
    {
        return HeaderOf(v);
    }
    return &g_after;
}
Base* previous_stub(const Base* const node)
{
    __vc_assert(g_u > 0U, "nothing precedes the first region");
    __vc_assert(node == &g_new || (g_u < g_n ? node == &g_after : node == HeaderOf(g_counted - 1U)), "one step back from the region found");
    return &g_before;
}
Base* next_stub(const Base* const node)
{
    __vc_assert(node == &g_new, "one step on from the region added");
    if (g_u == g_n)
    {
        return HeaderOf(g_counted - 1U);
    }
    return &g_after;
}
}  // namespace
VC_CONTRACT(tree_upper, "std::_Rb_tree<unsigned long, .*::upper_bound\\(unsigned long const&\\).*", tree_upper_stub)
VC_CONTRACT(tree_previous, "std::_Rb_tree_decrement\\(std::_Rb_tree_node_base( const)?\\*\\)", previous_stub)
VC_CONTRACT(tree_next, "std::_Rb_tree_increment\\(std::_Rb_tree_node_base( const)?\\*\\)", next_stub)


// contract of entering the latest version, and its proof
namespace
{
std::uint32_t g_readers;
using Acquired = Map::AcquiredRefcountIndex;
std::optional<Acquired> acquire_stub(const Map* const map)
{
    __vc_assert(g_counted == 0U, "a version is entered once");
    std::atomic<std::uint32_t>& count = map->known_regions_versions_refcounts_[g_latest];
    g_counted = g_latest + 1U;
    g_readers = vc::any<std::uint32_t>("readers") | 1U;
    count.store(g_readers);
    return Acquired{static_cast<std::uint8_t>(g_latest), count};
}
// the version entered, without symbolic positions
std::uint64_t AnyVersion()
{
    const auto v = vc::any<std::uint8_t>("version");
    for (std::uint64_t i = 0U; i + 1U < kVersions; ++i)
    {
        if (v == i)
        {
            return i;
        }
    }
    return kVersions - 1U;
}
}  // namespace
VC_CONTRACT(acquire, "score::memory::shared::detail::MemoryRegionMapImpl<.*>::AcquireLatestRegionVersionForRead\\(\\) const", acquire_stub)

VC_HARNESS(enter_latest)
{
    new (g_place) Map{};
    g_counted = 0U;
    g_left = 0U;
    __vc_region(&M().latest_known_region_version_, 1U, latest_any, latest_kept);
    __vc_region(&M().known_regions_versions_refcounts_, 40U, count_any, reader_counts);
    {
        const auto r = static_cast<const Map&>(M()).AcquireLatestRegionVersionForRead();
        __vc_assert(r.has_value() == (g_counted != 0U), "a version is reported exactly if it was entered");
        if (r.has_value())
        {
            __vc_assert(r->GetIndex() + 1U == g_counted && g_left == 0U, "the version reported is the one entered");
            __vc_cover("entered");
        }
        else
        {
            __vc_cover("not entered");
        }
    }
    __vc_assert(g_counted == 0U || g_left == 1U, "a version entered is left exactly once");
}

VC_HARNESS(lookup)
{
    new (g_place) Map{};
    Neighbours();
    g_latest = AnyVersion();
    Trees();
    g_address = vc::any<std::uintptr_t>("address");
    g_counted = 0U;
    g_left = 0U;
    const auto r = static_cast<const Map&>(M()).GetBoundsFromAddress(g_address);
    __vc_assert(g_counted != 0U, "a reader is counted in while it reads");
    __vc_assert(M().known_regions_versions_refcounts_[g_latest].load() == g_readers - 1U, "a reader is counted out when it has read");
    if (r.has_value())
    {
        __vc_assert(g_u > 0U && r->GetStartAddress() == Start(g_before) && r->GetEndAddress() == End(g_before), "the bounds are those of a registered region");
        __vc_assert(r->GetStartAddress() <= g_address && g_address <= r->GetEndAddress(), "the address lies within the bounds");
        __vc_assert(!(g_ks <= g_address && g_address < g_ke) || (r->GetStartAddress() == g_ks && r->GetEndAddress() == g_ke), "an address inside a region is mapped to that region");
        __vc_cover("found");
    }
    else
    {
        __vc_assert(!(g_ks <= g_address && g_address <= g_ke), "an address inside a region is found");
        __vc_cover("outside");
    }
}

VC_HARNESS(number)
{
    new (g_place) Map{};
    g_latest = AnyVersion();
    SizeOf(g_latest) = g_n = vc::any<std::uint64_t>("number of regions");
    g_counted = 0U;
    __vc_assert(static_cast<const Map&>(M()).GetSize() == g_n, "the number of regions is that of the latest version");
    __vc_assert(g_counted != 0U && M().known_regions_versions_refcounts_[g_latest].load() == g_readers - 1U, "a reader is counted in while it reads, and out afterwards");
    __vc_cover("end");
}

// ------------------------------------------------------------------ changes
namespace
{
std::uint64_t g_claimed;
std::uint64_t g_unused;
std::uint64_t count_seen(void* p, std::uint64_t)
{
    const auto c = vc::any<std::uint32_t>("readers");
    g_unused = c == kInvalid ? CountOf(p) + 1U : 0U;
    return c;
}
void writer_counts(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    const std::uint64_t v = CountOf(p);
    __vc_assert(rmw != 0U && static_cast<std::uint32_t>(old) == 0U && static_cast<std::uint32_t>(now) == kInvalid, "a version is closed for readers only when nobody reads it, in one step");
    __vc_assert(v != g_latest, "the latest version is never closed");
    __vc_assert(g_claimed == 0U, "one version is closed at most");
    g_claimed = v + 1U;
}
}  // namespace
VC_HARNESS(claim_version)
{
    new (g_place) Map{};
    const auto latest = vc::any<std::uint8_t>("latest");
    vc::assume(latest < kVersions);
    M().latest_known_region_version_.store(latest);
    g_latest = latest;
    g_claimed = 0U;
    g_unused = 0U;
    __vc_region(&M().known_regions_versions_refcounts_, 40U, count_seen, writer_counts);
    const auto r = M().AcquireRegionVersionForOverwrite();
    __vc_region_off();
    if (r.has_value())
    {
        __vc_assert(r.value() < kVersions && r.value() != g_latest, "a version other than the latest is rewritten");
        __vc_assert(g_claimed == r.value() + 1U || (g_claimed == 0U && g_unused == r.value() + 1U), "a version is rewritten only if it was closed for readers or never used");
        __vc_cover("claimed");
    }
    else
    {
        __vc_assert(g_claimed == 0U, "no version stays closed in vain");
        __vc_cover("none");
    }
    __vc_assert(M().latest_known_region_version_.load() == latest, "readers keep the latest version meanwhile");
}

namespace
{
std::uint64_t g_version;   // the version to be rewritten, plus one; 0: none
bool g_copied;
bool g_changed;
bool g_present;
std::uint64_t g_open;      // the versions readers may enter, in the order of the changes
std::optional<std::uint8_t> overwrite_stub(Map* const map)
{
    __vc_assert(g_version == 0U, "one version is claimed per change");
    if (vc::any<bool>("no version free"))
    {
        __vc_term_ok(true);
        return {};
    }
    g_version = (g_latest + 4U) % kVersions + 1U;
    return static_cast<std::uint8_t>(g_version - 1U);
}
Tree& copy_stub(Tree* const to, const Tree& from)
{
    __vc_assert(g_version != 0U && VersionOf(to) + 1U == g_version && VersionOf(&from) == g_latest, "the version claimed starts as a copy of the latest");
    __vc_assert(!g_changed, "nothing is changed before the copy");
    g_copied = true;
    SizeOf(g_version - 1U) = g_n;
    return *to;
}
struct Inserted
{
    Base* node;
    bool added;
};
Inserted insert_stub(Tree* const to, std::pair<const std::uintptr_t, std::uintptr_t>&& region)
{
    __vc_assert(g_copied && !g_changed && VersionOf(to) + 1U == g_version, "the region is added to the copy, once");
    Set(g_new, region.first, region.second);
    if (g_present)
    {
        // it begins where k begins
        vc::assume(g_ks == region.first);
        __vc_term_ok(true);
        return {&g_before, false};
    }
    vc::assume((g_u == g_n) | (Start(g_after) > region.first));
    vc::assume((g_u == 0U) | (Start(g_before) < region.first));
    vc::assume(g_ks != region.first);
    g_changed = true;
    auto* const h = HeaderOf(g_version - 1U);
    SizeOf(g_version - 1U) = g_n + 1U;
    h->_M_parent = &g_first;
    h->_M_left = g_u == 0U ? &g_new : &g_first;
    g_counted = g_version;
    return {&g_new, true};
}
Base* find_stub(Tree* const tree, const std::uintptr_t& key)
{
    __vc_assert(g_copied && !g_changed && VersionOf(tree) + 1U == g_version && key == g_address, "the region is looked for in the copy");
    if (!g_present)
    {
        __vc_term_ok(true);
        return HeaderOf(g_version - 1U);
    }
    return &g_before;
}
Base* erase_stub(Tree* const tree, Base* const node)
{
    __vc_assert(g_copied && !g_changed && VersionOf(tree) + 1U == g_version && node == &g_before, "the region is removed from the copy, once");
    g_changed = true;
    return &g_after;
}
void clear_stub(Tree* const tree)
{
    __vc_assert(VersionOf(tree) + 1U == g_version, "the version claimed is emptied");
    g_changed = true;
}
void Start()
{
    new (g_place) Map{};
    g_latest = AnyVersion();
    M().latest_known_region_version_.store(static_cast<std::uint8_t>(g_latest));
    g_version = 0U;
    g_copied = false;
    g_changed = false;
    g_counted = 0U;
}
std::uint64_t latest_read(void*, std::uint64_t) { return g_latest; }
void latest_set(void*, std::uint64_t, std::uint64_t now, std::uint64_t)
{
    __vc_assert(g_changed && now + 1U == g_version, "the version changed becomes the latest when the change is complete");
    __vc_assert(g_open == 1U, "readers may enter the version before it is the latest");
    g_open = 2U;
    g_latest = now;
}
std::uint64_t open_read(void*, std::uint64_t) { return vc::any<std::uint32_t>("readers"); }
void open_set(void* p, std::uint64_t, std::uint64_t now, std::uint64_t)
{
    __vc_assert(CountOf(p) + 1U == g_version && now == 0U, "the version changed is opened for readers");
    __vc_assert(g_changed && g_open == 0U, "a version is opened for readers when the change is complete");
    g_open = 1U;
}
void Watch()
{
    g_open = 0U;
    __vc_region(&M().latest_known_region_version_, 1U, latest_read, latest_set);
    __vc_region(&M().known_regions_versions_refcounts_, 40U, open_read, open_set);
}
}  // namespace
VC_CONTRACT(overwrite, "score::memory::shared::detail::MemoryRegionMapImpl<.*>::AcquireRegionVersionForOverwrite\\(\\)", overwrite_stub)
VC_CONTRACT(tree_copy, "std::_Rb_tree<unsigned long, .*::operator=\\(std::_Rb_tree<.*", copy_stub)
VC_CONTRACT(tree_insert, "std::pair<.*> std::_Rb_tree<unsigned long, .*::_M_insert_unique<.*", insert_stub)
VC_CONTRACT(tree_find, "std::_Rb_tree<unsigned long, .*::find\\(unsigned long const&\\).*", find_stub)
VC_CONTRACT(tree_erase, "std::_Rb_tree<unsigned long, .*::erase.*", erase_stub)
VC_CONTRACT(tree_clear, "std::_Rb_tree<unsigned long, .*::clear\\(\\)", clear_stub)

VC_HARNESS(update)
{
    Start();
    Neighbours();
    g_present = vc::any<bool>("another region begins there");
    const auto start = vc::any<std::uintptr_t>("start");
    const auto end = vc::any<std::uintptr_t>("end");
    vc::assume(start > 0U && start < end);
    const std::uint64_t latest = g_latest;
    Watch();
    const bool r = M().UpdateKnownRegion(start, end);
    __vc_region_off();
    const std::uint64_t now = g_latest;
    __vc_assert(g_copied && g_changed && Start(g_new) == start && End(g_new) == end, "the region given is added to those registered");
    if (r)
    {
        __vc_assert(now + 1U == g_version, "the version with the region added is the latest");
        __vc_assert(g_open == 2U, "readers may enter the latest version");
        __vc_assert(g_ke <= start || end <= g_ks, "a region is registered only if it overlaps none");
        __vc_cover("registered");
    }
    else
    {
        __vc_assert(now == latest, "a region refused is not registered");
        __vc_assert((g_u > 0U && End(g_before) > start) || (g_u < g_n && Start(g_after) < end), "a region is refused only if it overlaps another");
        __vc_cover("refused");
    }
}
VC_HARNESS(remove)
{
    Start();
    g_present = vc::any<bool>("registered");
    g_address = vc::any<std::uintptr_t>("start");
    Watch();
    M().RemoveKnownRegion(g_address);
    __vc_region_off();
    __vc_assert(g_present && g_copied && g_changed, "the region is removed");
    __vc_assert(g_latest + 1U == g_version && g_open == 2U, "the version without the region is the latest, open for readers");
    __vc_cover("end");
}
VC_HARNESS(clear)
{
    Start();
    Watch();
    M().ClearKnownRegions();
    __vc_region_off();
    __vc_assert(g_changed, "all regions are removed");
    __vc_assert(g_latest + 1U == g_version && g_open == 2U, "the version without regions is the latest, open for readers");
    __vc_cover("end");
}

VC_HARNESS(bounds)
{
    const auto a = vc::any<std::uint64_t>("start");
    const auto b = vc::any<std::uint64_t>("end");
    const auto c = vc::any<std::uint64_t>("other start");
    const auto d = vc::any<std::uint64_t>("other end");
    __vc_term_ok((a == 0U) != (b == 0U) || (c == 0U) != (d == 0U));
    MemoryRegionBounds x{a, b};
    const MemoryRegionBounds y{c, d};
    __vc_assert((a == 0U) == (b == 0U), "a region has both bounds or none");
    __vc_assert(x.GetStartAddress() == a && x.GetEndAddress() == b && x.has_value() == (a != 0U), "bounds are those given");
    __vc_assert((x == y) == (a == c && b == d) && (x != y) == !(a == c && b == d), "regions are equal exactly if both bounds are");
    if (vc::any<bool>("set"))
    {
        x.Set(c, d);
        __vc_assert(x.GetStartAddress() == c && x.GetEndAddress() == d, "bounds are those set");
    }
    else
    {
        x.Reset();
        __vc_assert(!x.has_value() && x == MemoryRegionBounds{}, "bounds that are reset are none");
    }
    __vc_cover("end");
}
VC_HARNESS(bounds_set)
{
    const auto a = vc::any<std::uint64_t>("start");
    const auto b = vc::any<std::uint64_t>("end");
    MemoryRegionBounds x{};
    __vc_term_ok((a == 0U) != (b == 0U));
    x.Set(a, b);
    __vc_assert((a == 0U) == (b == 0U), "a region has both bounds or none");
    __vc_cover("end");
}
VC_HARNESS(initially_one_version_is_open)
{
    auto& m = *new (g_place) Map{};
    const auto v = vc::any<std::uint64_t>("version");
    vc::assume(v < kVersions);
    const auto* const counts = reinterpret_cast<const std::uint32_t*>(&m.known_regions_versions_refcounts_);
    __vc_assert(counts[v] == (v == 0U ? 0U : kInvalid), "initially nobody reads, and only the first version may be read");
    __vc_cover("end");
}
