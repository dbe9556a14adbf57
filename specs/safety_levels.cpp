// VC-SOURCES: score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/configuration/shm_size_calc_mode.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/field_tags_store.cpp
// VC-USES: vc_quality_stream insert put
// VC-USES: vc_shm_mode_stream insert put
// Safety levels, modes and kinds: never confused, converted without loss.
#include "score/mw/com/impl/bindings/lola/messaging/asil_specific_cfg.h"
#include "score/mw/com/impl/bindings/lola/messaging/client_quality_type.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/quality_aware_container.h"
#include "score/mw/com/impl/configuration/quality_type.h"
#include "score/mw/com/impl/configuration/shm_size_calc_mode.h"
#include "score/mw/com/impl/field_tags_store.h"
#include "score/mw/com/impl/method_type.h"
#include "vc.h"
#include <cstring>
#include <ostream>
#include <string>
using namespace score::mw::com::impl;

namespace
{
bool Is(const char* p, std::size_t n, const char* lit)
{
    std::size_t m = 0U;
    while (lit[m] != '\0')
    {
        ++m;
    }
    if (n != m)
    {
        return false;
    }
    bool same = true;
    for (std::size_t i = 0U; i < m; ++i)
    {
        same = same & (p[i] == lit[i]);
    }
    return same;
}
bool Known(QualityType q) { return q == QualityType::kInvalid || q == QualityType::kASIL_QM || q == QualityType::kASIL_B; }
}  // namespace

VC_HARNESS(compatible)
{
    const auto a = static_cast<QualityType>(vc::any<std::uint16_t>("a"));
    const auto b = static_cast<QualityType>(vc::any<std::uint16_t>("b"));
    __vc_assert(areCompatible(a, b) == (a == b), "levels are compatible exactly if they are the same");
    __vc_cover("end");
}

VC_HARNESS(quality_to_string)
{
    const auto q = static_cast<QualityType>(vc::any<std::uint16_t>("q"));
    __vc_term_ok(!Known(q));
    const std::string s = ToString(q);
    __vc_assert(Known(q), "only a known level has a name");
    __vc_assert(Is(s.data(), s.size(), q == QualityType::kInvalid ? "kInvalid" : q == QualityType::kASIL_QM ? "kASIL_QM" : "kASIL_B"),
                "each level has its own name");
    const QualityType back = FromString(s);
    __vc_assert(back == q, "the name is read back as the same level");
    __vc_cover("end");
}

VC_HARNESS(quality_from_string)
{
    const auto n = vc::any<std::size_t>("n");
    vc::assume(n <= (1ULL << 40U));
    char* const p = static_cast<char*>(__vc_alloc(n, "name", 1U, 1U));
    const bool inv = Is(p, n, "kInvalid");
    const bool qm = Is(p, n, "kASIL_QM");
    const bool b = Is(p, n, "kASIL_B");
    __vc_term_ok(!inv && !qm && !b);
    const QualityType q = FromString(std::string{p, n});
    __vc_assert(inv || qm || b, "a name that is not known is refused");
    __vc_assert(q == (inv ? QualityType::kInvalid : qm ? QualityType::kASIL_QM : QualityType::kASIL_B), "a name is read as its own level");
    __vc_cover("end");
}

// ---------------------------------------------------------------- names written to a stream
namespace
{
char g_out[16];
std::size_t g_len;
// an output stream without formatting state: only what is written to it counts
struct Stream
{
    const std::ptrdiff_t* table;
    unsigned char ios[504];
    std::ostream& get() { return *reinterpret_cast<std::ostream*>(this); }
};
const std::ptrdiff_t g_table[4] = {8, 0, 0, 0};
alignas(16) Stream g_stream{&g_table[3], {}};
std::ostream& insert_stub(std::ostream& o, const char* s, std::streamsize n)
{
    for (std::streamsize i = 0; i < n; ++i)
    {
        g_out[g_len & 15U] = s[i];
        ++g_len;
    }
    return o;
}
std::ostream& put_stub(std::ostream* o, char c)
{
    g_out[g_len & 15U] = c;
    ++g_len;
    return *o;
}
bool Wrote(const char* lit) { return Is(g_out, g_len, lit); }
}  // namespace
VC_CONTRACT(insert, "std::basic_ostream<char, std::char_traits<char> ?>& std::__ostream_insert<", insert_stub)
VC_CONTRACT(put, "(std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)::put\\(char\\)", put_stub)

VC_HARNESS(quality_stream)
{
    const auto q = static_cast<QualityType>(vc::any<std::uint16_t>("q"));
    g_len = 0U;
    auto& o = g_stream.get();
    __vc_assert(&(o << q) == &o, "the stream is returned");
    __vc_assert(Wrote(q == QualityType::kInvalid ? "Invalid" : q == QualityType::kASIL_QM ? "QM" : q == QualityType::kASIL_B ? "B" : "(unknown)"),
                "each level is written under its own name");
    __vc_cover("end");
}
VC_HARNESS(shm_mode_stream)
{
    const auto m = static_cast<ShmSizeCalculationMode>(vc::any<std::uint8_t>("m"));
    g_len = 0U;
    auto& o = g_stream.get();
    __vc_assert(&(o << m) == &o, "the stream is returned");
    __vc_assert(Wrote(m == ShmSizeCalculationMode::kSimulation ? "SIMULATION" : m == ShmSizeCalculationMode::kAnalysis ? "ANALYSIS" : "(unknown)"),
                "each mode is written under its own name");
    __vc_cover("end");
}
VC_HARNESS(method_type_name)
{
    const auto t = static_cast<MethodType>(vc::any<std::underlying_type_t<MethodType>>("t"));
    const std::string_view s = to_string(t);
    __vc_assert(Is(s.data(), s.size(), t == MethodType::kMethod ? "Method" : t == MethodType::kGet ? "Get" : t == MethodType::kSet ? "Set" : t == MethodType::kUnknown ? "Unknown" : "Invalid"),
                "each kind of method has its own name");
    __vc_cover("end");
}

// ---------------------------------------------------------------- what is kept per level or capability
VC_HARNESS(per_level)
{
    lola::QualityAwareContainer<std::uint32_t> c{};
    __vc_assert(c.asil_b == 0U && c.asil_qm == 0U, "initially nothing is kept");
    const auto b = vc::any<std::uint32_t>("b");
    const auto qm = vc::any<std::uint32_t>("qm");
    c.asil_b = b;
    __vc_assert(c.asil_qm == 0U, "storing at one level leaves the other alone");
    c.asil_qm = qm;
    __vc_assert(c.asil_b == b && c.asil_qm == qm, "each level keeps its own");
    const auto d = c;
    __vc_assert(d.asil_b == b && d.asil_qm == qm, "copied level by level");
    __vc_assert(lola::ClientQualityType::kASIL_QM != lola::ClientQualityType::kASIL_QMfromB &&
                    lola::ClientQualityType::kASIL_QM != lola::ClientQualityType::kASIL_B &&
                    lola::ClientQualityType::kASIL_B != lola::ClientQualityType::kASIL_QMfromB,
                "client levels are distinct");
    __vc_cover("end");
}
VC_HARNESS(field_capabilities)
{
    const auto none = FieldTagsStore::Create<>();
    const auto g = FieldTagsStore::Create<WithGetter>();
    const auto s = FieldTagsStore::Create<WithSetter>();
    const auto n = FieldTagsStore::Create<WithNotifier>();
    const auto gs = FieldTagsStore::Create<WithGetter, WithSetter>();
    const auto all = FieldTagsStore::Create<WithNotifier, WithSetter, WithGetter>();
    __vc_assert(!none.HasGetter() && !none.HasSetter() && !none.HasNotifier(), "no capability unless given");
    __vc_assert(g.HasGetter() && !g.HasSetter() && !g.HasNotifier(), "only a getter");
    __vc_assert(!s.HasGetter() && s.HasSetter() && !s.HasNotifier(), "only a setter");
    __vc_assert(!n.HasGetter() && !n.HasSetter() && n.HasNotifier(), "only a notifier");
    __vc_assert(gs.HasGetter() && gs.HasSetter() && !gs.HasNotifier(), "getter and setter");
    __vc_assert(all.HasGetter() && all.HasSetter() && all.HasNotifier(), "all");
    const bool a1 = vc::any<bool>("a1");
    const bool a2 = vc::any<bool>("a2");
    const bool a3 = vc::any<bool>("a3");
    const bool b1 = vc::any<bool>("b1");
    const bool b2 = vc::any<bool>("b2");
    const bool b3 = vc::any<bool>("b3");
    const FieldTagsStore a{a1, a2, a3};
    const FieldTagsStore b{b1, b2, b3};
    __vc_assert((a == b) == (a1 == b1 && a2 == b2 && a3 == b3), "equal exactly if every capability is");
    __vc_cover("end");
}
