// VC-SOURCES: score/mw/com/impl/instance_specifier.cpp score/mw/com/impl/com_error.cpp
// VC-USES: * is_alpha is_alnum find_text
// VC-OPTIONS: vc_accepted_is_well_formed exitbounds=1 weight=2
// Instance names of any length and content.
#include "score/mw/com/impl/instance_specifier.h"
#include "vc.h"
#include <cctype>
#include <new>
#include <string>
using score::mw::com::impl::InstanceSpecifier;

namespace
{
// contracts of the library: character classes of the "C" locale
bool letter(const unsigned c) { return ((c | 32U) - 'a') < 26U; }
bool digit(const unsigned c) { return (c - '0') < 10U; }
int isalpha_stub(const int c)
{
    __vc_assert((static_cast<unsigned>(c) + 1U) <= 256U, "a character class is asked for a character");
    return letter(static_cast<unsigned>(c)) ? 1024 : 0;
}
int isalnum_stub(const int c)
{
    __vc_assert((static_cast<unsigned>(c) + 1U) <= 256U, "a character class is asked for a character");
    return (letter(static_cast<unsigned>(c)) | digit(static_cast<unsigned>(c))) ? 8 : 0;
}

struct Name
{
    std::uint64_t n;
    std::uint64_t k;
    char* text;
    unsigned char ck{0U};
    unsigned char next{0U};
    alignas(std::string) unsigned char place[sizeof(std::string)];
    std::string& string() { return *reinterpret_cast<std::string*>(place); }
    volatile unsigned char* raw() const { return reinterpret_cast<volatile unsigned char*>(text); }
};
Name* g;
bool g_fine;  // the whole name is assumed to be well-formed

bool allowed(const unsigned c) { return letter(c) | digit(c) | (c == '_') | (c == '/'); }
bool well_formed_at(const std::uint64_t p)
{
    const unsigned c = g->raw()[p];
    const bool last = p + 1U == g->n;
    const bool pair = (c == '/') & !last & (g->raw()[last ? p : p + 1U] == '/');
    const bool second = (c == '/') & (p != 0U) & (g->raw()[p == 0U ? p : p - 1U] == '/');
    return allowed(c) & !((p == 0U) & digit(c)) & !(last & (c == '/')) & !pair & !second;
}
std::uint64_t load_text(void* p, std::uint64_t)
{
    const auto at = reinterpret_cast<std::uint64_t>(p) - reinterpret_cast<std::uint64_t>(g->text);
    if (g_fine && at < g->n) { vc::assume(well_formed_at(at)); }
    return g->raw()[at];
}
void store_text(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "the text of a name is not changed"); }

// contract of the library's search for a text of two characters: the position of one, or npos if there is none (at k)
std::size_t find_stub(const std::string_view* const self, const char* const what, const std::size_t from, const std::size_t count)
{
    __vc_assert(count == 2U && self->data() == g->text && self->size() == g->n, "the name is searched");
    if (vc::any<bool>("found"))
    {
        const auto r = vc::any<std::size_t>("position");
        vc::assume(r >= from && r < g->n && r + 1U < g->n);
        vc::assume(self->data()[r] == what[0] && self->data()[r + 1U] == what[1]);
        return r;
    }
    if (g->k >= from && g->k + 1U < g->n) { vc::assume(!(g->ck == static_cast<unsigned char>(what[0]) && g->next == static_cast<unsigned char>(what[1]))); }
    return std::string_view::npos;
}

void make(Name& s, const bool fine)
{
    g = &s;
    g_fine = fine;
    s.n = vc::any<std::uint32_t>("length");
    s.k = vc::any<std::uint64_t>("k");
    s.text = static_cast<char*>(__vc_alloc(s.n + 1U, "text", 1U, 1U));
    auto* const words = reinterpret_cast<std::uint64_t*>(s.place);
    words[0] = reinterpret_cast<std::uint64_t>(s.text);
    words[1] = s.n;
    words[2] = s.n;
    vc::assume(s.raw()[s.n] == 0U);
    vc::assume(s.k < s.n || s.n == 0U);
    if (s.n != 0U)
    {
        s.ck = s.raw()[s.k];
        s.next = s.raw()[s.k + 1U];
    }
    __vc_hint_index(s.k, "k");
    __vc_hint_bound(s.n, "n");
    __vc_hint_bool(!allowed(s.ck), "k_not_allowed");
    __vc_region(s.text, s.n + 1U, load_text, store_text);
}
using R = score::Result<InstanceSpecifier>;
alignas(R) unsigned char g_result[sizeof(R)];
}  // namespace
VC_CONTRACT(is_alpha, "isalpha", isalpha_stub)
VC_CONTRACT(is_alnum, "isalnum", isalnum_stub)
VC_CONTRACT(find_text, "std::basic_string_view<char, std::char_traits<char>\\s?>::find\\(char const\\*, unsigned long, unsigned long\\) const", find_stub)

VC_HARNESS(accepted_is_well_formed)
{
    Name s;
    make(s, false);
    auto* const r = new (g_result) R{InstanceSpecifier::Create(std::move(s.string()))};
    if (r->has_value())
    {
        __vc_assert(s.n != 0U, "an empty name is not accepted");
        __vc_assert(allowed(s.ck), "a name accepted has letters, digits, underscores and slashes only");
        __vc_assert(s.k != 0U || !digit(s.ck), "a name accepted does not begin with a digit");
        __vc_assert(s.k + 1U != s.n || s.ck != '/', "a name accepted does not end with a slash");
        __vc_assert(s.k + 1U == s.n || s.ck != '/' || s.next != '/', "a name accepted has no two slashes in a row");
        const auto t = r->value().ToString();
        __vc_assert(t.data() == s.text && t.size() == s.n && s.raw()[s.k] == s.ck, "a name accepted is kept unchanged");
        __vc_cover("accepted");
    }
    else
    {
        __vc_cover("refused");
    }
}
VC_HARNESS(well_formed_is_accepted)
{
    Name s;
    make(s, true);
    vc::assume(s.n != 0U);
    auto* const r = new (g_result) R{InstanceSpecifier::Create(std::move(s.string()))};
    __vc_assert(r->has_value(), "a well-formed name is accepted");
    __vc_cover("end");
}
