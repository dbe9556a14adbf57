// VC-SOURCES: score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp
// The shared table that maps the identity of every application to its process.
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.h"
#include "vc.h"
using namespace score::mw::com::impl::lola;
using Entry = ApplicationIdPidMappingEntry;
using Status = Entry::MappingEntryStatus;
using Key = std::uint64_t;

namespace
{
constexpr Key kUnused = 0U;
constexpr Key kUsed = 1U;
constexpr Key kUpdating = 2U;
Key Make(Key status, std::uint32_t id) { return (status << 32U) | id; }
Key StatusOf(Key k) { return (k >> 32U) & 0xFFFFU; }
std::uint32_t IdOf(Key k) { return static_cast<std::uint32_t>(k); }
bool Valid(Key k) { return StatusOf(k) <= kUpdating && (k >> 48U) == 0U; }
}  // namespace

VC_HARNESS(entry_key)
{
    const auto s = vc::any<std::uint16_t>("status");
    const auto a = vc::any<std::uint32_t>("app");
    const Key k = Entry::CreateKey(static_cast<Status>(s), a);
    __vc_assert(k == Make(s, a), "status and application are kept side by side in one word");
    Entry e{};
    __vc_assert(StatusOf(e.key_application_id_status_.load()) == kUnused, "an entry is initially unused");
    e.SetStatusAndApplicationIdAtomic(static_cast<Status>(s), a);
    const auto r = e.GetStatusAndApplicationIdAtomic();
    __vc_assert(r.first == static_cast<Status>(s) && r.second == a, "status and application are read back as written");
    __vc_cover("end");
}
VC_HARNESS(entry_one_word)
{
    const Key w = vc::any<Key>("word");
    Entry e{};
    e.key_application_id_status_.store(w);
    const auto r = e.GetStatusAndApplicationIdAtomic();
    __vc_assert(r.first == static_cast<Status>(StatusOf(w)) && r.second == IdOf(w), "both are parts of one word");
    __vc_assert(e.key_application_id_status_.load() == w, "reading changes nothing");
    __vc_cover("end");
}

// ------------------------------------------------------------------ registration in a table of any size and content
// entries are named by the position of their first word in the table
namespace
{
constexpr std::uint64_t kWord = 8U;
constexpr std::uint64_t kSize = sizeof(Entry) / kWord;
static_assert(sizeof(Entry) == 16U, "layout");
Entry* g_table;
std::uint64_t g_last;
std::uint32_t g_app;
pid_t g_pid;
Key& KeyAt(std::uint64_t i) { return *reinterpret_cast<Key*>(reinterpret_cast<unsigned char*>(g_table) + i * kWord); }
pid_t& PidAt(std::uint64_t i) { return *reinterpret_cast<pid_t*>(reinterpret_cast<unsigned char*>(g_table) + (i + 1U) * kWord); }
std::uint64_t IndexOf(void* p) { return (reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(g_table)) / kWord; }

bool IsPid(void* p) { return IndexOf(p) % kSize != 0U; }
std::uint64_t load_seq(void* p, std::uint64_t)
{
    if (IsPid(p))
    {
        return static_cast<std::uint32_t>(*static_cast<pid_t*>(p));
    }
    g_last = IndexOf(p);
    return *static_cast<Key*>(p);
}
void store_seq(void* p, std::uint64_t, std::uint64_t now, std::uint64_t)
{
    if (IsPid(p))
    {
        *static_cast<pid_t*>(p) = static_cast<pid_t>(now);
        return;
    }
    g_last = IndexOf(p);
    *static_cast<Key*>(p) = now;
}

struct Table
{
    std::uint64_t n;
    std::uint64_t k;
    Key kk;
    pid_t pk;
    std::uint32_t app;
    pid_t pid;
    Table()
        : n{vc::any<std::uint16_t>("n")},
          k{vc::any<std::uint64_t>("k")},
          app{vc::any<std::uint32_t>("app")},
          pid{vc::any<pid_t>("pid")}
    {
        vc::assume(k < n * kSize && k % kSize == 0U);
        g_table = static_cast<Entry*>(__vc_alloc(n * kSize * kWord, "table", 8U, 8U));
        g_app = app;
        g_pid = pid;
        g_last = 0U;
        kk = KeyAt(k);
        pk = PidAt(k);
        vc::assume(Valid(kk));
        __vc_hint_bound(n * kSize, "n");
        __vc_hint_index(k, "k");
    }
    bool MineK() const { return IdOf(kk) == app && (StatusOf(kk) == kUsed || StatusOf(kk) == kUpdating); }
    std::optional<pid_t> Register() { return detail::RegisterPid<score::concurrency::AtomicIndirectorReal>(g_table, g_table + n, app, pid); }
};
}  // namespace

VC_HARNESS(register)
{
    Table t{};
    const auto W = vc::any<std::uint64_t>("W");
    vc::assume(W < t.n * kSize && W % kSize == 0U);
    const Key kw = KeyAt(W);
    const pid_t pw = PidAt(W);
    vc::assume(Valid(kw));
    __vc_hint_prophecy(W, "W");
    __vc_hint_bool(t.MineK(), "k_mine");
    __vc_hint_bool(StatusOf(t.kk) == kUnused, "k_unused");
    __vc_hint_value(t.kk, "kk");
    __vc_hint_value(kw, "kw");
    __vc_watch(&KeyAt(t.k), 8U, "key_k");
    __vc_watch(&KeyAt(W), 8U, "key_W");
    __vc_region(g_table, t.n * kSize * kWord, &load_seq, &store_seq);
    const auto r = t.Register();
    __vc_region_off();
    if (r.has_value())
    {
        vc::assume(g_last == W);
        __vc_assert(KeyAt(W) == Make(kUsed, t.app), "after registration an entry maps the application");
        __vc_assert(PidAt(W) == t.pid, "it maps it to the process registered");
        __vc_assert(t.k == W || (KeyAt(t.k) == t.kk && PidAt(t.k) == t.pk), "no other entry changes");
        if (kw == Make(kUsed, t.app))
        {
            __vc_assert(*r == pw, "the previous process is returned");
            __vc_cover("replaced");
        }
        else
        {
            __vc_assert(*r == t.pid, "without a previous process the one registered is returned");
            __vc_assert(kw == Make(kUpdating, t.app) || StatusOf(kw) == kUnused, "only a free or an own entry is taken");
            __vc_assert(kw == Make(kUpdating, t.app) || !t.MineK(), "a free entry is taken only if the application has none");
            __vc_cover("added");
        }
    }
    else
    {
        __vc_assert(!t.MineK(), "an application that has an entry is always registered");
        __vc_assert(KeyAt(t.k) == t.kk && PidAt(t.k) == t.pk, "a registration that fails changes nothing");
        __vc_cover("refused");
    }
}

// ------------------------------------------------------------------ with other applications registering at the same time
namespace
{
bool g_claimed;
std::uint64_t g_claimed_at;
Key g_loaded;
Key g_before;
std::uint64_t g_before_at;
std::uint64_t g_loaded_at;
bool g_done;
std::uint64_t load_any(void* p, std::uint64_t)
{
    if (IsPid(p))
    {
        return static_cast<std::uint32_t>(*static_cast<pid_t*>(p));
    }
    const Key w = vc::any<Key>("entry_now");
    vc::assume(Valid(w));
    g_before = g_loaded;
    g_before_at = g_loaded_at;
    g_loaded = w;
    g_loaded_at = IndexOf(p);
    return w;
}
void store_reg(void* p, std::uint64_t old, std::uint64_t now, std::uint64_t rmw)
{
    if (IsPid(p))
    {
        *static_cast<pid_t*>(p) = static_cast<pid_t>(now);
        return;
    }
    const std::uint64_t i = IndexOf(p);
    __vc_assert(!g_done, "nothing changes after the registration");
    if (now == Make(kUpdating, g_app))
    {
        __vc_assert(rmw == 1U, "an entry is claimed by an atomic read-modify-write");
        __vc_assert(StatusOf(old) == kUnused, "only an entry unused at that moment is claimed");
        __vc_assert(!g_claimed, "at most one entry is claimed");
        g_claimed = true;
        g_claimed_at = i;
    }
    else
    {
        __vc_assert(now == Make(kUsed, g_app), "an entry is only claimed or completed for the own application");
        __vc_assert((g_claimed && g_claimed_at == i) || (!g_claimed && g_before_at == i && g_before == Make(kUpdating, g_app)),
                    "only an own entry is completed");
        __vc_assert(PidAt(i) == g_pid, "the process is in place before the entry becomes visible");
        g_done = true;
    }
}
}  // namespace

VC_HARNESS(register_interference)
{
    Table t{};
    g_claimed = false;
    g_done = false;
    g_loaded = 0U;
    g_loaded_at = 0U;
    g_before = 0U;
    g_before_at = 0U;
    __vc_watch(&PidAt(t.k), 4U, "pid_k");
    __vc_region(g_table, t.n * kSize * kWord, &load_any, &store_reg);
    const auto r = t.Register();
    __vc_region_off();
    if (r.has_value())
    {
        if (g_claimed)
        {
            __vc_assert(g_done, "an entry claimed is completed");
            __vc_assert(PidAt(g_claimed_at) == t.pid && *r == t.pid, "it maps the application to the process registered");
            __vc_assert(t.k == g_claimed_at || PidAt(t.k) == t.pk, "no other entry changes");
            __vc_cover("claimed");
        }
        else
        {
            __vc_assert(g_loaded == Make(kUsed, t.app) || g_done, "only an own entry is replaced");
            __vc_assert(PidAt(g_loaded_at) == t.pid, "it maps the application to the process registered");
            __vc_assert(t.k == g_loaded_at || PidAt(t.k) == t.pk, "no other entry changes");
            __vc_cover("replaced");
        }
    }
    else
    {
        __vc_assert(!g_claimed && !g_done, "a registration that fails claims nothing");
        __vc_assert(PidAt(t.k) == t.pk, "a registration that fails changes nothing");
        __vc_cover("refused");
    }
}
