// VC-SOURCES: score/mw/com/impl/bindings/lola/linear_search_map.cpp score/mw/com/impl/service_element_map_view.cpp score/mw/com/impl/service_element_map_view_factory.cpp
// VC-USES: vc_view_find tree_find
// A map kept in a fixed array, with any capacity, any number of entries and any keys and values.
#include "score/mw/com/impl/bindings/lola/linear_search_map.h"
#include "score/mw/com/impl/service_element_map_view.h"
#include "score/mw/com/impl/service_element_map_view_factory.h"
#include "vc.h"
using namespace score::mw::com::impl::lola;

namespace
{
using Key = std::uint64_t;
// the allocator the map was given: it records what is reserved
std::uint64_t g_reserved;
void* g_memory;
template <typename T>
struct Memory
{
    using value_type = T;
    Memory() noexcept = default;
    explicit Memory(score::memory::shared::ManagedMemoryResource&) noexcept {}
    T* allocate(const std::size_t n)
    {
        g_reserved = n;
        return static_cast<T*>(g_memory);
    }
    void deallocate(T*, std::size_t) {}
};
using Map = LinearSearchMap<Key, std::uint64_t, std::equal_to<Key>, Memory<std::pair<Key, std::uint64_t>>>;
using Item = Map::value_type;
static_assert(sizeof(Item) == 16U, "layout");

struct State
{
    std::uint64_t capacity;
    std::uint64_t n;
    std::uint64_t j;
    Item* items;
    alignas(Map) unsigned char place[sizeof(Map)];
    Key kj;
    std::uint64_t vj;
    Key key;
    Map& map() { return *reinterpret_cast<Map*>(place); }
    std::uint64_t& word(std::uint64_t i) { return reinterpret_cast<std::uint64_t*>(items)[i]; }
    State() : capacity{vc::any<std::uint32_t>("capacity")}, n{vc::any<std::uint64_t>("n")}, j{vc::any<std::uint64_t>("j")}, key{vc::any<Key>("key")}
    {
        vc::assume(n <= capacity && j < n);
        items = static_cast<Item*>(__vc_alloc(capacity * 16U, "items", 8U, 8U));
        kj = word(2U * j);
        vj = word(2U * j + 1U);
        auto& s = map().storage_;
        s.capacity_ = capacity;
        s.size_ = n;
        s.data_ = items;
        s.raw_ = items;
        __vc_hint_index(2U * j, "j");
        __vc_hint_bound(2U * n, "n");
        __vc_hint_value(key, "key");
        __vc_hint_bool(kj == key, "j_has_key");
    }
    std::uint64_t position(const Item* p) const { return (reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(items)) / 16U; }
    bool unchanged() { return word(2U * j) == kj && word(2U * j + 1U) == vj; }
};
}  // namespace

VC_HARNESS(find)
{
    State s{};
    const bool fixed = vc::any<bool>("through a constant map");
    const std::uint64_t r = fixed ? s.position(static_cast<const Map&>(s.map()).find(s.key)) : s.position(s.map().find(s.key));
    __vc_assert(r <= s.n, "a search ends in the map");
    if (r == s.n)
    {
        __vc_assert(s.kj != s.key, "a key not found is not in the map");
        __vc_cover("not found");
    }
    else
    {
        __vc_assert(s.word(2U * r) == s.key, "the entry found has the key");
        __vc_cover("found");
    }
    __vc_assert(s.unchanged() && s.map().size() == s.n, "a search changes nothing");
}

VC_HARNESS(at)
{
    State s{};
    __vc_term_ok(s.kj != s.key);
    const bool fixed = vc::any<bool>("through a constant map");
    std::uint64_t& v = fixed ? const_cast<std::uint64_t&>(static_cast<const Map&>(s.map()).at(s.key)) : s.map().at(s.key);
    const std::uint64_t r = (reinterpret_cast<std::uint64_t>(&v) - reinterpret_cast<std::uint64_t>(s.items)) / 8U;
    __vc_assert(r % 2U == 1U && r < 2U * s.n, "the value accessed is one of the map");
    __vc_assert(s.word(r - 1U) == s.key, "the value accessed belongs to the key");
    __vc_assert(s.unchanged() && s.map().size() == s.n, "access changes nothing");
    __vc_cover("accessed");
}

namespace
{
void Emplace(const bool piecewise)
{
    State s{};
    const auto value = vc::any<std::uint64_t>("value");
    // beyond the capacity it terminates, but only if the key is not present
    __vc_term_ok(s.n == s.capacity && s.kj != s.key);
    const auto r = piecewise ? s.map().emplace(std::piecewise_construct, std::forward_as_tuple(s.key), std::forward_as_tuple(value))
                             : s.map().emplace(s.key, value);
    const auto at = s.position(r.first);
    __vc_assert(s.unchanged(), "no entry present is changed by an insertion");
    __vc_assert(at < s.map().size() && s.word(2U * at) == s.key, "the entry reported has the key");
    __vc_assert(s.map().size() <= s.capacity && s.map().capacity() == s.capacity, "the capacity is never exceeded");
    if (r.second)
    {
        __vc_assert(s.map().size() == s.n + 1U, "an insertion adds exactly one entry");
        __vc_assert(s.kj != s.key, "an entry is inserted only if its key is not present");
        __vc_assert(at == s.n && s.word(2U * at + 1U) == value, "the entry inserted has the value");
        __vc_cover("inserted");
    }
    else
    {
        __vc_assert(s.map().size() == s.n, "an insertion refused adds nothing");
        __vc_assert(at < s.n, "the entry reported is one that was present");
        __vc_cover("present");
    }
}
}  // namespace
VC_HARNESS(emplace) { Emplace(false); }
VC_HARNESS(emplace_piecewise) { Emplace(true); }

VC_HARNESS(new_map)
{
    // the states above have at least one entry
    const std::uint64_t capacity = vc::any<std::uint32_t>("capacity");
    vc::assume(capacity > 0U);
    auto* const items = static_cast<Item*>(__vc_alloc(capacity * 16U, "items", 8U, 8U));
    g_memory = items;
    Map map{capacity, *reinterpret_cast<score::memory::shared::ManagedMemoryResource*>(8U)};
    __vc_assert(g_reserved == capacity && map.capacity() == capacity, "the capacity asked for is reserved once and for all");
    const auto key = vc::any<Key>("key");
    const auto value = vc::any<std::uint64_t>("value");
    __vc_assert(map.empty() && map.size() == 0U && map.begin() == map.end() && map.cbegin() == map.cend(), "an empty map says so");
    __vc_assert(map.find(key) == map.end(), "nothing is found in an empty map");
    const auto r = map.emplace(key, value);
    __vc_assert(r.second && r.first == items && items->first == key && items->second == value && map.size() == 1U, "the first entry is inserted");
    __vc_assert(!map.empty() && map.begin() == items && map.end() == items + 1 && map.cend() == items + 1 && map.key_eq()(key, items->first), "it is the only one");
    __vc_cover("end");
}

// The view of the service elements of a binding: the map behind it is a std::map in any state.
namespace
{
using Elements = std::map<std::string_view, std::uint64_t>;
using View = score::mw::com::impl::ServiceElementMapView<std::uint64_t>;
using Factory = score::mw::com::impl::ServiceElementMapViewFactory<std::uint64_t>;
static_assert(sizeof(Elements) == 48U, "layout of std::map: comparison, colour, parent, leftmost, rightmost, count");
struct AnyMap
{
    alignas(Elements) unsigned char place[sizeof(Elements)];
    std::uint64_t* words() { return reinterpret_cast<std::uint64_t*>(place); }
    Elements& map() { return *reinterpret_cast<Elements*>(place); }
    AnyMap() { for (unsigned i = 0U; i < 6U; ++i) { words()[i] = vc::any<std::uint64_t>("map"); } }
};
void* g_searched;
const void* g_key;
std::uint64_t g_key_size;
unsigned g_searches;
std::uint64_t g_answer;
// contract of the map's search: some position, the same for the same map and key
std::_Rb_tree_node_base* tree_find_stub(void* const tree, const std::string_view& key)
{
    ++g_searches;
    g_searched = tree;
    g_key = key.data();
    g_key_size = key.size();
    return reinterpret_cast<std::_Rb_tree_node_base*>(g_answer);
}
}  // namespace
VC_CONTRACT(tree_find, "std::_Rb_tree<std::basic_string_view<char.*::find\\(std::basic_string_view<char.*", tree_find_stub)

VC_HARNESS(view_contents)
{
    AnyMap m{};
    AnyMap before{};
    for (unsigned i = 0U; i < 6U; ++i) { before.words()[i] = m.words()[i]; }
    const View v = Factory::Create(m.map());
    __vc_assert(v.size() == m.map().size(), "a view has as many elements as its map");
    __vc_assert(v.empty() == (m.map().size() == 0U), "a view is empty exactly if its map is");
    __vc_assert(v.begin() == m.map().begin() && v.end() == m.map().end(), "a view begins and ends where its map does");
    __vc_assert(v.cbegin() == m.map().cbegin() && v.cend() == m.map().cend(), "a constant view begins and ends where its map does");
    const auto& map = m.map();
    __vc_assert(v.cbegin() == map.begin() && v.cend() == map.end(), "both kinds of iteration are the same");
    for (unsigned i = 0U; i < 6U; ++i) { __vc_assert(before.words()[i] == m.words()[i], "viewing a map does not change it"); }
    __vc_cover("end");
}

VC_HARNESS(view_find)
{
    AnyMap m{};
    char text[8];
    View v = Factory::Create(m.map());
    const std::string_view key{text, vc::any<std::uint64_t>("length") & 7U};
    g_searches = 0U;
    g_answer = vc::any<std::uint64_t>("position");
    const bool fixed = vc::any<bool>("through a constant view");
    const auto found = fixed ? static_cast<const View&>(v).find(key)._M_node : const_cast<const std::_Rb_tree_node_base*>(v.find(key)._M_node);
    __vc_assert(g_searches == 1U && g_searched == m.place && g_key == text && g_key_size == key.size(), "a search in a view searches its map for the key");
    __vc_assert(reinterpret_cast<std::uint64_t>(found) == g_answer, "a search in a view finds what the map has");
    __vc_cover("end");
}
