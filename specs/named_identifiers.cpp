// VC-SOURCES: score/mw/com/impl/tracing/configuration/service_element_identifier.cpp score/mw/com/impl/tracing/configuration/service_element_identifier_view.cpp score/mw/com/impl/tracing/configuration/service_element_instance_identifier_view.cpp score/mw/com/impl/tracing/configuration/trace_point_key.cpp score/mw/com/impl/tracing/configuration/hash_helper_utility.cpp score/mw/com/impl/tracing/configuration/hash_helper_for_service_element_and_se_view.cpp
// VC-OPTIONS: * memcmp=1
// VC-USES: * hash
// Identifiers made of names of any length: equality, order and hash agree with what they denote.
#include "score/mw/com/impl/tracing/configuration/service_element_identifier.h"
#include "score/mw/com/impl/tracing/configuration/service_element_identifier_view.h"
#include "score/mw/com/impl/tracing/configuration/service_element_instance_identifier_view.h"
#include "score/mw/com/impl/tracing/configuration/trace_point_key.h"
#include "vc.h"
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
using namespace score::mw::com::impl;
using namespace score::mw::com::impl::tracing;

namespace
{
// a name of any length and content; its byte at the position of interest is remembered
std::uint64_t g_k;
struct Name
{
    char* p;
    std::size_t n;
    std::string_view View() const { return {p, n}; }
};
Name AnyName(const char* what)
{
    Name r{};
    r.n = vc::any<std::uint16_t>(what);
    r.p = static_cast<char*>(__vc_alloc(r.n, what, 1U, 1U));
    return r;
}
Name Copy(const Name& a, const char* what)
{
    Name r{};
    r.n = a.n;
    r.p = static_cast<char*>(__vc_alloc(a.n, what, 1U, 1U));
    std::memcpy(r.p, a.p, a.n);
    return r;
}
// equality of names by definition: if the code says equal, all bytes are (k is arbitrary); if all bytes are, it says equal
// (shown on a copy)
bool Differ(const Name& a, const Name& b) { return a.n != b.n || (g_k < a.n && a.p[g_k] != b.p[g_k]); }
ServiceElementType AnyType(const char* what) { return static_cast<ServiceElementType>(vc::any<std::uint8_t>(what)); }

// the hash function of the standard library is an unknown function of the bytes it is given
std::uint64_t g_hashes;
std::size_t g_hash_n;
std::size_t g_hash_seed;
char g_hash_byte;
bool g_hash_same;
std::size_t hash_stub(const void* p, std::size_t n, std::size_t seed)
{
    const char b = g_k < n ? static_cast<const char*>(p)[g_k] : '\0';
    if (g_hashes == 0U)
    {
        g_hash_n = n;
        g_hash_seed = seed;
        g_hash_byte = b;
    }
    else
    {
        __vc_assert(g_hash_n == n && g_hash_seed == seed && g_hash_byte == b, "equal identifiers have equal hashes");
    }
    ++g_hashes;
    return 0U;
}
void Start()
{
    g_k = vc::any<std::uint64_t>("k");
    __vc_hint_index(g_k, "k");
    g_hashes = 0U;
}
}  // namespace
VC_CONTRACT(hash, "^std::_Hash_bytes\\(", hash_stub)

VC_HARNESS(element_view_equal)
{
    Start();
    const Name t1 = AnyName("service_a");
    const Name t2 = AnyName("service_b");
    const Name e1 = AnyName("element_a");
    const Name e2 = AnyName("element_b");
    const ServiceElementIdentifierView a{t1.View(), e1.View(), AnyType("type_a")};
    const ServiceElementIdentifierView b{t2.View(), e2.View(), AnyType("type_b")};
    const bool differ = Differ(t1, t2) || Differ(e1, e2) || a.service_element_type != b.service_element_type;
    const bool eq = a == b;
    const bool lt = a < b;
    const bool gt = b < a;
    __vc_assert(!(eq && differ), "elements that differ in a part are not equal");
    __vc_assert(!(eq && (lt || gt)), "equal elements are not ordered before each other");
    __vc_assert(!(lt && gt), "the order of elements is antisymmetric");
    __vc_assert(eq || lt || gt, "elements that are not equal are ordered");
    __vc_cover("end");
}
VC_HARNESS(element_view_copy)
{
    Start();
    const Name t1 = AnyName("service");
    const Name t2 = Copy(t1, "service_copy");
    const Name e1 = AnyName("element");
    const Name e2 = Copy(e1, "element_copy");
    const auto type = AnyType("type");
    const ServiceElementIdentifierView a{t1.View(), e1.View(), type};
    const ServiceElementIdentifierView b{t2.View(), e2.View(), type};
    __vc_assert(a == b, "elements that agree in all parts are equal");
    __vc_assert(!(a < b), "elements that agree in all parts are not ordered before each other");
    __vc_term_ok(t1.n + e1.n + 1U > 1024U);
    (void)std::hash<ServiceElementIdentifierView>{}(a);
    (void)std::hash<ServiceElementIdentifierView>{}(b);
    __vc_cover("end");
}
VC_HARNESS(element_view_order)
{
    Start();
    const Name t1 = AnyName("service_a");
    const Name t2 = AnyName("service_b");
    const Name t3 = AnyName("service_c");
    const Name e1 = AnyName("element_a");
    const Name e2 = AnyName("element_b");
    const Name e3 = AnyName("element_c");
    const ServiceElementIdentifierView a{t1.View(), e1.View(), AnyType("type_a")};
    const ServiceElementIdentifierView b{t2.View(), e2.View(), AnyType("type_b")};
    const ServiceElementIdentifierView c{t3.View(), e3.View(), AnyType("type_c")};
    if (a < b && b < c)
    {
        __vc_assert(a < c, "the order of elements is transitive");
        __vc_cover("ordered");
    }
}
// a string of any length, represented as the standard library represents one too long for its internal buffer
struct Element
{
    alignas(ServiceElementIdentifier) unsigned char raw[sizeof(ServiceElementIdentifier)]{};
    static void Put(const std::string& s, const Name& n)
    {
        auto* const w = reinterpret_cast<std::uint64_t*>(const_cast<std::string*>(&s));
        *reinterpret_cast<char**>(w) = n.p;
        w[1] = n.n;
        w[2] = n.n;
    }
    Element(const Name& service, const Name& element, ServiceElementType type)
    {
        auto* const v = reinterpret_cast<ServiceElementIdentifier*>(raw);
        Put(v->service_type_name, service);
        Put(v->service_element_name, element);
        v->service_element_type = type;
    }
    const ServiceElementIdentifier& operator*() const { return *reinterpret_cast<const ServiceElementIdentifier*>(raw); }
};
VC_HARNESS(element_equal)
{
    Start();
    const Name t1 = AnyName("service_a");
    const Name t2 = AnyName("service_b");
    const Name e1 = AnyName("element_a");
    const Name e2 = AnyName("element_b");
    const auto y1 = AnyType("type_a");
    const auto y2 = AnyType("type_b");
    const Element a{t1, e1, y1};
    const Element b{t2, e2, y2};
    const bool differ = Differ(t1, t2) || Differ(e1, e2) || y1 != y2;
    const bool eq = *a == *b;
    const bool lt = *a < *b;
    const bool gt = *b < *a;
    __vc_assert(!(eq && differ), "elements that differ in a part are not equal");
    __vc_assert(!(eq && (lt || gt)), "equal elements are not ordered before each other");
    __vc_assert(!(lt && gt), "the order of elements is antisymmetric");
    __vc_assert(eq || lt || gt, "elements that are not equal are ordered");
    __vc_cover("end");
}
VC_HARNESS(element_copy)
{
    Start();
    const Name t1 = AnyName("service");
    const Name t2 = Copy(t1, "service_copy");
    const Name e1 = AnyName("element");
    const Name e2 = Copy(e1, "element_copy");
    const auto type = AnyType("type");
    const Element a{t1, e1, type};
    const Element b{t2, e2, type};
    const ServiceElementIdentifierView v{t1.View(), e1.View(), type};
    __vc_assert(*a == *b, "elements that agree in all parts are equal");
    __vc_assert(!(*a < *b), "elements that agree in all parts are not ordered before each other");
    __vc_term_ok(t1.n + e1.n + 1U > 1024U);
    (void)std::hash<ServiceElementIdentifier>{}(*a);
    (void)std::hash<ServiceElementIdentifier>{}(*b);
    (void)std::hash<ServiceElementIdentifierView>{}(v);
    __vc_cover("end");
}
VC_HARNESS(instance_view)
{
    Start();
    const Name t1 = AnyName("service");
    const Name e1 = AnyName("element");
    const Name i1 = AnyName("instance_a");
    const Name i2 = AnyName("instance_b");
    const auto y1 = AnyType("type_a");
    const auto y2 = AnyType("type_b");
    const ServiceElementInstanceIdentifierView a{{t1.View(), e1.View(), y1}, i1.View()};
    const ServiceElementInstanceIdentifierView b{{t1.View(), e1.View(), y2}, i2.View()};
    __vc_assert(!(a == b && (Differ(i1, i2) || y1 != y2)), "instances that differ in a part are not equal");
    __vc_cover("end");
}
VC_HARNESS(instance_view_copy)
{
    Start();
    const Name t1 = AnyName("service");
    const Name t2 = Copy(t1, "service_copy");
    const Name e1 = AnyName("element");
    const Name e2 = Copy(e1, "element_copy");
    const Name i1 = AnyName("instance");
    const Name i2 = Copy(i1, "instance_copy");
    const auto type = AnyType("type");
    const ServiceElementInstanceIdentifierView a{{t1.View(), e1.View(), type}, i1.View()};
    const ServiceElementInstanceIdentifierView b{{t2.View(), e2.View(), type}, i2.View()};
    __vc_assert(a == b, "instances that agree in all parts are equal");
    __vc_term_ok(t1.n + e1.n + i1.n + 1U > 1024U);
    (void)std::hash<ServiceElementInstanceIdentifierView>{}(a);
    (void)std::hash<ServiceElementInstanceIdentifierView>{}(b);
    __vc_cover("end");
}
VC_HARNESS(trace_point_key)
{
    Start();
    const Name t1 = AnyName("service");
    const Name t2 = AnyName("service_b");
    const Name e1 = AnyName("element");
    const auto y1 = AnyType("type_a");
    const auto y2 = AnyType("type_b");
    const TracePointKey a{{t1.View(), e1.View(), y1}, vc::any<std::uint8_t>("point_a")};
    const TracePointKey b{{t2.View(), e1.View(), y2}, vc::any<std::uint8_t>("point_b")};
    __vc_assert(!(a == b && (Differ(t1, t2) || y1 != y2 || a.trace_point_type != b.trace_point_type)), "trace points that differ in a part are not equal");
    __vc_cover("end");
}
VC_HARNESS(trace_point_key_copy)
{
    Start();
    const Name t1 = AnyName("service");
    const Name t2 = Copy(t1, "service_copy");
    const Name e1 = AnyName("element");
    const Name e2 = Copy(e1, "element_copy");
    const auto type = AnyType("type");
    const auto point = vc::any<std::uint8_t>("point");
    const TracePointKey a{{t1.View(), e1.View(), type}, point};
    const TracePointKey b{{t2.View(), e2.View(), type}, point};
    __vc_assert(a == b, "trace points that agree in all parts are equal");
    __vc_term_ok(t1.n + e1.n + 2U > 1024U);
    (void)std::hash<TracePointKey>{}(a);
    (void)std::hash<TracePointKey>{}(b);
    __vc_cover("end");
}
