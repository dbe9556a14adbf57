// VC-SOURCES: score/mw/com/impl/configuration/service_version_type.cpp score/mw/com/impl/configuration/service_identifier_type.cpp score/mw/com/impl/configuration/lola_service_instance_id.cpp score/mw/com/impl/configuration/service_instance_id.cpp score/mw/com/impl/bindings/lola/service_discovery/lola_service_instance_identifier.cpp verif:stubs/vc_tree.cpp
// VC-OPTIONS: * memcmp=1
// VC-USES: * text hashtext bindinghash
// Identifiers of the configuration: equality, order and hash agree with what they denote; stored and restored they are equal.
#include "score/mw/com/impl/bindings/lola/service_discovery/lola_service_instance_identifier.h"
#include "score/mw/com/impl/configuration/service_identifier_type.h"
#include "score/mw/com/impl/configuration/service_instance_id.h"
#include "vc.h"
#include <new>
using namespace score::mw::com::impl;
using namespace score::mw::com::impl::lola;

namespace
{
// the text forms are not looked at here
std::string text_stub(const score::json::Object&) { return std::string{}; }
std::string hashtext_stub(std::uint64_t, std::uint64_t) { return std::string{}; }
std::string bindinghash_stub(const ServiceInstanceId::BindingInformation&) { return std::string{}; }
}  // namespace
VC_CONTRACT(text, "::ToStringImpl", text_stub)
VC_CONTRACT(hashtext, "impl::ToHashStringImpl.*\\(unsigned", hashtext_stub)
VC_CONTRACT(bindinghash, "namespace.::ToHashStringImpl", bindinghash_stub)

VC_HARNESS(version)
{
    const auto a1 = vc::any<std::uint32_t>("a_major");
    const auto a2 = vc::any<std::uint32_t>("a_minor");
    const auto b1 = vc::any<std::uint32_t>("b_major");
    const auto b2 = vc::any<std::uint32_t>("b_minor");
    const auto a = make_ServiceVersionType(a1, a2);
    const auto b = make_ServiceVersionType(b1, b2);
    const bool same = a1 == b1 && a2 == b2;
    __vc_assert(ServiceVersionTypeView{a}.getMajor() == a1 && ServiceVersionTypeView{a}.getMinor() == a2, "a version keeps its numbers");
    __vc_assert((a == b) == same, "versions are equal exactly if both numbers are");
    __vc_assert((a < b) == (a1 < b1 || (a1 == b1 && a2 < b2)), "versions are ordered by major and then by minor number");
    __vc_assert((a == std::pair<std::uint32_t, std::uint32_t>{b1, b2}) == same, "a version equals exactly its pair of numbers");
    __vc_cover("end");
}
VC_HARNESS(version_stored)
{
    const auto a = make_ServiceVersionType(vc::any<std::uint32_t>("a_major"), vc::any<std::uint32_t>("a_minor"));
    const ServiceVersionType b{a.Serialize()};
    __vc_assert(a == b, "a version stored and restored is the same");
    __vc_cover("end");
}
VC_HARNESS(instance)
{
    const auto x = vc::any<std::uint16_t>("a");
    const auto y = vc::any<std::uint16_t>("b");
    const LolaServiceInstanceId a{x};
    const LolaServiceInstanceId b{y};
    __vc_assert(a.GetId() == x, "an instance keeps its number");
    __vc_assert((a == b) == (x == y), "instances are equal exactly if their numbers are");
    __vc_assert((a < b) == (x < y), "instances are ordered by their numbers");
    const ServiceInstanceId c{a};
    const ServiceInstanceId d{b};
    const ServiceInstanceId e{score::cpp::blank{}};
    __vc_assert((c == d) == (x == y), "identifiers of a binding are equal exactly if the instances are");
    __vc_assert((c < d) == (x < y), "identifiers of a binding are ordered as the instances are");
    __vc_assert(!(c == e) && !(e == c) && e == e, "identifiers of different bindings are not equal");
    __vc_assert((c < e) != (e < c) && !(e < e), "identifiers of different bindings are ordered");
    __vc_cover("end");
}
VC_HARNESS(instance_stored)
{
    const LolaServiceInstanceId a{vc::any<std::uint16_t>("a")};
    const LolaServiceInstanceId b{a.Serialize()};
    __vc_assert(a == b, "an instance stored and restored is the same");
    const ServiceInstanceId c{a};
    const ServiceInstanceId d{c.Serialize()};
    __vc_assert(c == d, "an identifier of a binding stored and restored is the same");
    __vc_cover("end");
}
namespace
{
LolaServiceInstanceIdentifier AnyFound(const char* s, const char* i, const char* any)
{
    LolaServiceInstanceIdentifier r{vc::any<std::uint16_t>(s)};
    if (vc::any<bool>(any))
    {
        r.instance_id_ = vc::any<std::uint16_t>(i);
    }
    return r;
}
}  // namespace
VC_HARNESS(found_instance)
{
    const auto a = AnyFound("a_service", "a_instance", "a_has");
    const auto b = AnyFound("b_service", "b_instance", "b_has");
    const bool same = a.service_id_ == b.service_id_ && a.instance_id_.has_value() == b.instance_id_.has_value() &&
                      (!a.instance_id_.has_value() || *a.instance_id_ == *b.instance_id_);
    __vc_assert((a == b) == same, "what is looked for is equal exactly if service and instance are, or both mean any instance");
    __vc_assert(!same || std::hash<LolaServiceInstanceIdentifier>{}(a) == std::hash<LolaServiceInstanceIdentifier>{}(b), "equal ones have equal hashes");
    __vc_cover("end");
}

// ------------------------------------------------------------------ services: a name of any length and a version
namespace
{
std::uint64_t g_k;
struct Name
{
    char* p;
    std::size_t n;
};
Name AnyName(const char* what)
{
    Name r{};
    r.n = vc::any<std::uint16_t>(what);
    r.p = static_cast<char*>(__vc_alloc(r.n, what, 1U, 1U));
    return r;
}
struct Service
{
    alignas(ServiceIdentifierType) unsigned char raw[sizeof(ServiceIdentifierType)]{};
    Service(const Name& n, std::uint32_t major, std::uint32_t minor)
    {
        auto* const v = reinterpret_cast<ServiceIdentifierType*>(raw);
        auto* const w = reinterpret_cast<std::uint64_t*>(&v->serviceTypeName_);
        *reinterpret_cast<char**>(w) = n.p;
        w[1] = n.n;
        w[2] = n.n;
        v->version_.major_ = major;
        v->version_.minor_ = minor;
    }
    const ServiceIdentifierType& operator*() const { return *reinterpret_cast<const ServiceIdentifierType*>(raw); }
};
}  // namespace
VC_HARNESS(service)
{
    g_k = vc::any<std::uint64_t>("k");
    __vc_hint_index(g_k, "k");
    const Name n1 = AnyName("name_a");
    const Name n2 = AnyName("name_b");
    const auto a1 = vc::any<std::uint32_t>("a_major");
    const auto a2 = vc::any<std::uint32_t>("a_minor");
    const auto b1 = vc::any<std::uint32_t>("b_major");
    const auto b2 = vc::any<std::uint32_t>("b_minor");
    const Service a{n1, a1, a2};
    const Service b{n2, b1, b2};
    const bool differ = n1.n != n2.n || (g_k < n1.n && n1.p[g_k] != n2.p[g_k]) || a1 != b1 || a2 != b2;
    const bool eq = *a == *b;
    const bool lt = *a < *b;
    const bool gt = *b < *a;
    __vc_assert(!(eq && differ), "services that differ in name or version are not equal");
    __vc_assert(!(eq && (lt || gt)), "equal services are not ordered before each other");
    __vc_assert(!(lt && gt), "the order of services is antisymmetric");
    __vc_assert(eq || lt || gt, "services that are not equal are ordered");
    __vc_cover("end");
}
VC_HARNESS(service_same)
{
    const Name n1 = AnyName("name");
    Name n2 = n1;
    n2.p = static_cast<char*>(__vc_alloc(n1.n, "copy", 1U, 1U));
    __builtin_memcpy(n2.p, n1.p, n1.n);
    const auto major = vc::any<std::uint32_t>("major");
    const auto minor = vc::any<std::uint32_t>("minor");
    const Service a{n1, major, minor};
    const Service b{n2, major, minor};
    __vc_assert(*a == *b, "services of the same name and version are equal");
    __vc_cover("end");
}
VC_HARNESS(service_order)
{
    const Name n1 = AnyName("name_a");
    const Name n2 = AnyName("name_b");
    const Name n3 = AnyName("name_c");
    const Service a{n1, vc::any<std::uint32_t>("a_major"), vc::any<std::uint32_t>("a_minor")};
    const Service b{n2, vc::any<std::uint32_t>("b_major"), vc::any<std::uint32_t>("b_minor")};
    const Service c{n3, vc::any<std::uint32_t>("c_major"), vc::any<std::uint32_t>("c_minor")};
    if (*a < *b && *b < *c)
    {
        __vc_assert(*a < *c, "the order of services is transitive");
        __vc_cover("ordered");
    }
}
