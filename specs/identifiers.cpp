// VC-SOURCES: score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/bindings/lola/transaction_log_id.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/method_type.cpp
// Identifiers made of numbers: equality, order and hash agree with what they denote.
#include "score/mw/com/impl/bindings/lola/element_fq_id.h"
#include "score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/methods/unique_method_identifier.h"
#include "score/mw/com/impl/bindings/lola/proxy_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/skeleton_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_id.h"
#include "vc.h"
#include <functional>
using namespace score::mw::com::impl;
using namespace score::mw::com::impl::lola;

namespace
{
template <typename T>
std::size_t Hash(const T& v)
{
    return std::hash<T>{}(v);
}
ElementFqId AnyElement()
{
    const auto s = vc::any<std::uint16_t>("service");
    const auto e = vc::any<std::uint16_t>("element");
    const auto i = vc::any<std::uint16_t>("instance");
    const auto t = vc::any<std::uint8_t>("type");
    return ElementFqId{s, e, i, static_cast<ServiceElementType>(t)};
}
bool Same(const ElementFqId& a, const ElementFqId& b)
{
    return a.service_id_ == b.service_id_ && a.element_id_ == b.element_id_ && a.instance_id_ == b.instance_id_;
}
}  // namespace

VC_HARNESS(element_parts)
{
    const auto s = vc::any<std::uint16_t>("service");
    const auto e = vc::any<std::uint16_t>("element");
    const auto i = vc::any<std::uint16_t>("instance");
    const auto t = vc::any<std::uint8_t>("type");
    __vc_term_ok(t > static_cast<std::uint8_t>(ServiceElementType::FIELD));
    const ElementFqId a{s, e, i, t};
    __vc_assert(t <= static_cast<std::uint8_t>(ServiceElementType::FIELD), "a kind of element that does not exist is never accepted");
    __vc_assert(a.service_id_ == s && a.element_id_ == e && a.instance_id_ == i, "an identifier keeps the parts it is made of");
    __vc_assert(static_cast<std::uint8_t>(a.element_type_) == t, "an identifier keeps the kind of its element");
    __vc_assert(IsElementEvent(a) == (a.element_type_ == ServiceElementType::EVENT), "an element is an event exactly if it is of that kind");
    __vc_assert(IsElementField(a) == (a.element_type_ == ServiceElementType::FIELD), "an element is a field exactly if it is of that kind");
    const ElementFqId invalid{};
    __vc_assert(!IsElementEvent(invalid) && !IsElementField(invalid), "an empty identifier denotes no element");
    __vc_assert(!(invalid == a) || (s == 0xFFFFU && e == 0xFFFFU && i == 0xFFFFU), "an empty identifier equals no other");
    __vc_cover("end");
}
VC_HARNESS(element_equal)
{
    const auto a = AnyElement();
    const auto b = AnyElement();
    __vc_assert((a == b) == Same(a, b), "elements are equal exactly if service, instance and element are");
    __vc_assert(!(a == b) || Hash(a) == Hash(b), "equal elements have equal hashes");
    __vc_assert(Same(a, b) == (!(a < b) && !(b < a)), "elements are ordered consistently with equality");
    __vc_assert(!((a < b) && (b < a)), "the order of elements is antisymmetric");
    __vc_cover("end");
}
VC_HARNESS(element_order)
{
    const auto a = AnyElement();
    const auto b = AnyElement();
    const auto c = AnyElement();
    __vc_assert(!((a < b) && (b < c)) || a < c, "the order of elements is transitive");
    __vc_cover("end");
}

VC_HARNESS(method)
{
    const UniqueMethodIdentifier a{vc::any<std::uint16_t>("a_id"), static_cast<MethodType>(vc::any<std::uint8_t>("a_type"))};
    const UniqueMethodIdentifier b{vc::any<std::uint16_t>("b_id"), static_cast<MethodType>(vc::any<std::uint8_t>("b_type"))};
    const bool same = a.method_or_field_id == b.method_or_field_id && a.method_type == b.method_type;
    __vc_assert((a == b) == same, "methods are equal exactly if identifier and kind are");
    __vc_assert((a != b) == !same, "methods differ exactly if they are not equal");
    __vc_assert(!same || Hash(a) == Hash(b), "equal methods have equal hashes");
    __vc_cover("end");
}
VC_HARNESS(proxy)
{
    const ProxyInstanceIdentifier a{vc::any<std::uint32_t>("a_app"), vc::any<std::uint16_t>("a_n")};
    const ProxyInstanceIdentifier b{vc::any<std::uint32_t>("b_app"), vc::any<std::uint16_t>("b_n")};
    const bool same = a.application_id == b.application_id && a.proxy_instance_counter == b.proxy_instance_counter;
    __vc_assert((a == b) == same, "proxies are equal exactly if application and number are");
    __vc_assert(!same || Hash(a) == Hash(b), "equal proxies have equal hashes");
    __vc_cover("end");
}
VC_HARNESS(proxy_method)
{
    const ProxyMethodInstanceIdentifier a{{vc::any<std::uint32_t>("a_app"), vc::any<std::uint16_t>("a_n")},
                                          {vc::any<std::uint16_t>("a_id"), static_cast<MethodType>(vc::any<std::uint8_t>("a_type"))}};
    const ProxyMethodInstanceIdentifier b{{vc::any<std::uint32_t>("b_app"), vc::any<std::uint16_t>("b_n")},
                                          {vc::any<std::uint16_t>("b_id"), static_cast<MethodType>(vc::any<std::uint8_t>("b_type"))}};
    const bool same = a.proxy_instance_identifier.application_id == b.proxy_instance_identifier.application_id &&
                      a.proxy_instance_identifier.proxy_instance_counter == b.proxy_instance_identifier.proxy_instance_counter &&
                      a.unique_method_identifier.method_or_field_id == b.unique_method_identifier.method_or_field_id &&
                      a.unique_method_identifier.method_type == b.unique_method_identifier.method_type;
    __vc_assert((a == b) == same, "methods of proxies are equal exactly if proxy and method are");
    __vc_assert(!same || Hash(a) == Hash(b), "equal methods of proxies have equal hashes");
    __vc_cover("end");
}
VC_HARNESS(skeleton)
{
    const SkeletonInstanceIdentifier a{vc::any<std::uint16_t>("a_s"), vc::any<std::uint16_t>("a_i")};
    const SkeletonInstanceIdentifier b{vc::any<std::uint16_t>("b_s"), vc::any<std::uint16_t>("b_i")};
    const bool same = a.service_id == b.service_id && a.instance_id == b.instance_id;
    __vc_assert((a == b) == same, "providers are equal exactly if service and instance are");
    __vc_assert(!same || Hash(a) == Hash(b), "equal providers have equal hashes");
    __vc_cover("end");
}
