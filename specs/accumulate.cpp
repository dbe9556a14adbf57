// VC-SOURCES: score/mw/com/impl/bindings/lola/skeleton_event_properties.cpp
// Sums are exact or reported; copies of shared flags and counters are independent.
#include "score/mw/com/impl/bindings/lola/skeleton_event_properties.h"
#include "score/mw/com/impl/tracing/configuration/hash_helper_utility.h"
#include "score/mw/com/impl/util/copyable_atomic.h"
#include "score/mw/com/impl/util/arithmetic_utils.h"
#include "vc.h"
#include <iterator>
#include <limits>
#include <utility>
using score::mw::com::impl::CopyableAtomic;
using score::mw::com::impl::tracing::configuration::Accumulate;

namespace
{
// A sequence of arbitrary length and content; the ghost sum is that of the elements passed.
template <typename T, typename E>
struct Seq
{
    static T sum;
    static bool passed_too_much;
    static E current;
    static std::uint64_t position;
    static std::uint64_t count;
    struct It
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using pointer = const E*;
        using reference = E;
        std::uint64_t pos;
        E value;
        E operator*() const
        {
            __vc_assert(pos < count, "nothing beyond the end of the sequence is read");
            return value;
        }
        It& operator++()
        {
            passed_too_much = passed_too_much || (static_cast<T>(sum + value) < sum);
            sum = static_cast<T>(sum + value);
            ++pos;
            value = vc::any<E>("element");
            current = value;
            position = pos;
            return *this;
        }
        It operator++(int)
        {
            It old = *this;
            ++*this;
            return old;
        }
        friend bool operator==(const It& a, const It& b) { return a.pos == b.pos; }
        friend bool operator!=(const It& a, const It& b) { return a.pos != b.pos; }
    };
};
template <typename T, typename E>
T Seq<T, E>::sum;
template <typename T, typename E>
bool Seq<T, E>::passed_too_much;
template <typename T, typename E>
E Seq<T, E>::current;
template <typename T, typename E>
std::uint64_t Seq<T, E>::position;
template <typename T, typename E>
std::uint64_t Seq<T, E>::count;

template <typename T, typename E>
void Exact()
{
    using S = Seq<T, E>;
    const auto n = vc::any<std::uint64_t>("n");
    __vc_hint_bound(n, "n");
    const T init = vc::any<T>("init");
    S::sum = init;
    S::passed_too_much = false;
    S::current = vc::any<E>("element");
    S::position = 0U;
    S::count = n;
    typename S::It first{0U, S::current};
    typename S::It last{n, E{}};
    const auto r = Accumulate<typename S::It, T>(first, last, init);
    if (!r.second)
    {
        __vc_assert(!S::passed_too_much, "no overflow reported: the sum can be represented");
        __vc_assert(r.first == S::sum, "no overflow reported: the sum is exact");
        __vc_assert(S::position == n, "no overflow reported: every element was added");
        __vc_cover("exact");
    }
    else
    {
        __vc_assert(n != 0U, "an empty sequence does not overflow");
        __vc_assert(S::passed_too_much || (static_cast<T>(S::sum + S::current) < S::sum),
                    "overflow reported: the exact sum cannot be represented");
        __vc_cover("overflow");
    }
}
}  // namespace

VC_HARNESS(sum_exact_64) { Exact<std::uint64_t, std::uint64_t>(); }
VC_HARNESS(sum_exact_32) { Exact<std::uint32_t, std::uint32_t>(); }
VC_HARNESS(sum_exact_8) { Exact<std::uint8_t, std::uint8_t>(); }
VC_HARNESS(sum_exact_mixed) { Exact<std::uint64_t, std::uint16_t>(); }

// ---------------------------------------------------------------- copies of shared flags and counters
template <typename T>
void Copies()
{
    const T a = vc::any<T>("a");
    const T b = vc::any<T>("b");
    const T c = vc::any<T>("c");
    CopyableAtomic<T> x{a};
    __vc_assert(static_cast<T>(x) == a && x.GetUnderlying().load() == a, "the value given is held");
    CopyableAtomic<T> y{x};
    __vc_assert(static_cast<T>(y) == a && static_cast<T>(x) == a, "a copy has the value, the source keeps it");
    y.GetUnderlying().store(b);
    __vc_assert(static_cast<T>(x) == a && static_cast<T>(y) == b, "changing a copy leaves the source alone");
    x = y;
    __vc_assert(static_cast<T>(x) == b && static_cast<T>(y) == b, "assigning transfers the value");
    x.GetUnderlying().store(c);
    __vc_assert(static_cast<T>(x) == c && static_cast<T>(y) == b, "afterwards both are independent");
    auto& alias = x;
    x = alias;
    __vc_assert(static_cast<T>(x) == c, "assigning to itself changes nothing");
    const CopyableAtomic<T>& cx = x;
    __vc_assert(cx.GetUnderlying().load() == c, "readers see the same");
    __vc_cover("end");
}
VC_HARNESS(copies_flag) { Copies<bool>(); }
VC_HARNESS(copies_counter) { Copies<std::uint32_t>(); }
VC_HARNESS(copies_counter64) { Copies<std::uint64_t>(); }

VC_HARNESS(slots_of_an_event)
{
    using P = score::mw::com::impl::lola::SkeletonEventProperties;
    const auto slots = vc::any<std::size_t>("slots");
    const auto tracing = vc::any<std::size_t>("slots for tracing");
    const auto getters = vc::any<std::size_t>("slots for field getters");
    const bool setter = vc::any<bool>("has a setter");
    const auto subscribers = vc::any<std::size_t>("subscribers");
    const bool enforce = vc::any<bool>("samples are enforced");
    const P p{slots, tracing, getters, setter, subscribers, enforce};
    // what cannot be represented never occurs: the numbers are configured as 16-bit ones
    const unsigned __int128 sum = static_cast<unsigned __int128>(slots) + tracing + getters + (setter ? 1U : 0U);
    vc::assume(sum <= std::numeric_limits<std::size_t>::max());
    __vc_assert(p.GetTotalNumberOfSlots() == static_cast<std::size_t>(sum), "an event has as many slots as all its uses together");
    __vc_assert(p.GetNumberOfFieldGetterSlots() == getters && p.max_subscribers == subscribers && p.enforce_max_samples == enforce, "the properties of an event are those given");
    __vc_cover("end");
}

// sums and products of constants: templates over the numbers, so contracts exist per number only; these are spread over the ranges
namespace
{
template <typename T, T a, T b>
void Constant()
{
    using W = unsigned __int128;
    __vc_assert(static_cast<W>(score::mw::com::impl::add_without_overflow<T, a, b>()) == static_cast<W>(a) + static_cast<W>(b), "a sum of constants is exact");
}
template <typename T, T a, T b>
void ConstantProduct()
{
    using W = unsigned __int128;
    __vc_assert(static_cast<W>(score::mw::com::impl::multiply_without_overflow<T, a, b>()) == static_cast<W>(a) * static_cast<W>(b), "a product of constants is exact");
}
}  // namespace
VC_HARNESS(constants)
{
    Constant<std::uint8_t, 0U, 0U>();
    Constant<std::uint8_t, 5U, 3U>();
    Constant<std::uint8_t, 1U, 254U>();
    Constant<std::uint16_t, 65535U, 0U>();
    Constant<std::uint16_t, 255U, 2U>();
    Constant<std::uint32_t, 4294967290U, 5U>();
    Constant<std::uint64_t, 18446744073709551610U, 5U>();
    Constant<std::uint64_t, 7U, 4294967296U>();
    ConstantProduct<std::uint8_t, 85U, 3U>();
    ConstantProduct<std::uint8_t, 0U, 255U>();
    ConstantProduct<std::uint16_t, 255U, 257U>();
    ConstantProduct<std::uint32_t, 65535U, 65537U>();
    ConstantProduct<std::uint64_t, 4294967295U, 4294967297U>();
    __vc_cover("end");
}
