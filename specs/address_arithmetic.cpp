// VC-SOURCES: score/memory/shared/pointer_arithmetic_util.cpp
// Address and size arithmetic: the mathematically exact result, or termination.
// VC-USES: vc_sequence_size rounding
#include "score/memory/shared/pointer_arithmetic_util.h"
#include "vc.h"
#include <limits>
#include <type_traits>
using namespace score::memory::shared;

namespace
{
using Wide = __int128;
using UWide = unsigned __int128;
constexpr UWide kMax = std::numeric_limits<std::uint64_t>::max();
const void* At(const std::uint64_t a) { return reinterpret_cast<const void*>(a); }
}  // namespace

VC_HARNESS(add_offset)
{
    const auto a = vc::any<std::uint64_t>("address");
    const auto o = vc::any<std::uint64_t>("offset");
    const UWide exact = static_cast<UWide>(a) + o;
    __vc_term_ok(exact > kMax);
    const auto r = AddOffsetToPointerAsInteger(a, o);
    __vc_assert(static_cast<UWide>(r) == exact, "adding an offset to an address yields the exact sum");
}

VC_HARNESS(subtract_offset)
{
    const auto a = vc::any<std::uint64_t>("address");
    const auto o = vc::any<std::uint64_t>("offset");
    __vc_term_ok(o > a);
    const auto r = SubtractOffsetFromPointerAsInteger(a, o);
    __vc_assert(static_cast<UWide>(r) + o == a, "subtracting an offset from an address yields the exact difference");
}

VC_HARNESS(add_signed_offset)
{
    const auto a = vc::any<std::uint64_t>("address");
    const auto o = vc::any<std::int64_t>("offset");
    const Wide exact = static_cast<Wide>(a) + o;
    __vc_term_ok(exact < 0 || exact > static_cast<Wide>(kMax));
    const auto r = AddSignedOffsetToPointerAsInteger(a, o);
    __vc_assert(static_cast<Wide>(r) == exact, "adding a signed offset to an address yields the exact sum");
}

VC_HARNESS(add_offset_to_pointer)
{
    const auto a = vc::any<std::uint64_t>("address");
    const auto o = vc::any<std::uint64_t>("offset");
    const UWide exact = static_cast<UWide>(a) + o;
    __vc_term_ok(exact > kMax);
    const std::uint32_t* const p = static_cast<const std::uint32_t*>(At(a));
    std::uint32_t* const r = AddOffsetToPointer(p, static_cast<std::size_t>(o));
    __vc_assert(static_cast<UWide>(CastPointerToInteger(r)) == exact, "adding an offset in bytes to a pointer designates exactly that many bytes further");
}

VC_HARNESS(add_signed_offset_to_pointer)
{
    const auto a = vc::any<std::uint64_t>("address");
    const auto o = vc::any<std::int64_t>("offset");
    const Wide exact = static_cast<Wide>(a) + o;
    __vc_term_ok(exact < 0 || exact > static_cast<Wide>(kMax));
    const std::uint32_t* const p = static_cast<const std::uint32_t*>(At(a));
    std::uint32_t* const r = AddOffsetToPointer(p, static_cast<std::ptrdiff_t>(o));
    __vc_assert(static_cast<Wide>(CastPointerToInteger(r)) == exact, "adding a signed offset in bytes to a pointer designates exactly that many bytes away");
}

VC_HARNESS(cast_round_trip)
{
    const auto a = vc::any<std::uint64_t>("address");
    __vc_assert(CastPointerToInteger(At(a)) == a, "an address as a number is the address");
    __vc_assert(CastPointerToInteger(CastIntegerToPointer<const void*>(a)) == a, "a number as an address and back is the number");
}

VC_HARNESS(subtract_pointers)
{
    const auto a = vc::any<std::uint64_t>("first");
    const auto b = vc::any<std::uint64_t>("second");
    const Wide exact = static_cast<Wide>(a) - static_cast<Wide>(b);
    __vc_term_ok(exact < static_cast<Wide>(std::numeric_limits<std::int64_t>::min()) || exact > static_cast<Wide>(std::numeric_limits<std::int64_t>::max()));
    const auto r = SubtractPointersBytes(At(a), At(b));
    __vc_assert(static_cast<Wide>(r) == exact, "the difference of two addresses is exact");
    __vc_cover("difference");
}

namespace
{
template <typename S>
void Signed()
{
    using U = std::make_unsigned_t<S>;
    const S s = vc::any<S>("signed");
    const U u = vc::any<U>("unsigned");
    const Wide magnitude = s < 0 ? -static_cast<Wide>(s) : static_cast<Wide>(s);
    __vc_assert(static_cast<Wide>(AbsoluteValue(s)) == magnitude, "the absolute value is exact, also of the smallest number");
    __vc_assert(UndoSignedToUnsignedIntegerCast(static_cast<U>(s)) == s, "undoing the conversion to unsigned gives the number back");
    const auto undone = UndoSignedToUnsignedIntegerCast(u);
    __vc_assert(static_cast<U>(undone) == u, "undoing the conversion loses nothing");
}
template <typename S>
void Add()
{
    using U = std::make_unsigned_t<S>;
    const S s = vc::any<S>("signed");
    const U u = vc::any<U>("unsigned");
    const Wide exact = static_cast<Wide>(s) + static_cast<Wide>(u);
    __vc_term_ok(exact > static_cast<Wide>(std::numeric_limits<S>::max()));
    __vc_assert(static_cast<Wide>(AddUnsignedToSigned(s, u)) == exact, "adding an unsigned to a signed number is exact");
}
template <typename S>
void Subtract()
{
    using U = std::make_unsigned_t<S>;
    const S s = vc::any<S>("signed");
    const U u = vc::any<U>("unsigned");
    const Wide exact = static_cast<Wide>(s) - static_cast<Wide>(u);
    __vc_term_ok(exact < static_cast<Wide>(std::numeric_limits<S>::min()));
    __vc_assert(static_cast<Wide>(SubtractUnsignedFromSigned(s, u)) == exact, "subtracting an unsigned from a signed number is exact");
}
}  // namespace
VC_HARNESS(signed_64) { Signed<std::int64_t>(); }
VC_HARNESS(signed_32) { Signed<std::int32_t>(); }
VC_HARNESS(signed_16) { Signed<std::int16_t>(); }
VC_HARNESS(signed_8) { Signed<std::int8_t>(); }
VC_HARNESS(add_64) { Add<std::int64_t>(); }
VC_HARNESS(add_32) { Add<std::int32_t>(); }
VC_HARNESS(add_16) { Add<std::int16_t>(); }
VC_HARNESS(add_8) { Add<std::int8_t>(); }
VC_HARNESS(subtract_64) { Subtract<std::int64_t>(); }
VC_HARNESS(subtract_32) { Subtract<std::int32_t>(); }
VC_HARNESS(subtract_16) { Subtract<std::int16_t>(); }
VC_HARNESS(subtract_8) { Subtract<std::int8_t>(); }

// ---------------------------------------------------------------- rounding up
namespace
{
// the smallest multiple of a not below s: s if a divides it, otherwise s + (a - s % a)
UWide RoundedUp(const std::uint64_t s, const std::uint64_t a)
{
    const std::uint64_t rest = s % a;
    return rest == 0U ? static_cast<UWide>(s) : static_cast<UWide>(s) + (a - rest);
}
}  // namespace
VC_HARNESS(aligned_size)
{
    const auto s = vc::any<std::uint64_t>("size");
    const auto a = vc::any<std::uint64_t>("alignment");
    __vc_term_ok(a == 0U || (s > a && s > std::numeric_limits<std::uint64_t>::max() - a));
    const auto r = CalculateAlignedSize(s, a);
    __vc_assert(a != 0U, "an alignment of zero is refused");
    __vc_assert(static_cast<UWide>(r) == RoundedUp(s, a), "rounding up yields the smallest multiple of the alignment not below the size");
    __vc_cover("rounded");
}

VC_HARNESS(aligned_size_power_of_two)
{
    const auto s = vc::any<std::uint64_t>("size");
    const auto k = vc::any<std::uint8_t>("exponent");
    vc::assume(k < 64U);
    const std::uint64_t a = std::uint64_t{1} << k;
    __vc_term_ok(s > std::numeric_limits<std::uint64_t>::max() - a);
    const auto r = CalculateAlignedSize(s, a);
    __vc_assert((r & (a - 1U)) == 0U && r >= s && r - s < a, "the result is aligned, not below the size, and nothing smaller is");
}

// ---------------------------------------------------------------- size of a sequence of objects laid out one after another
namespace
{
// contract of the rounding for its callers, discharged above: a function of size and alignment only, refused for an alignment
// of zero and for a size near the end of the range
std::uint64_t rounding_stub(const std::uint64_t s, const std::uint64_t a)
{
    if (a == 0U || (s > a && s > std::numeric_limits<std::uint64_t>::max() - a && vc::any<bool>("refused")))
    {
        std::terminate();
    }
    return __vc_function("rounded up", s, a);
}
VC_CONTRACT(rounding, "score::memory::shared::CalculateAlignedSize\\(unsigned long, unsigned long\\)", rounding_stub)

// ghost: g_start[i] is where the i-th object starts, g_start[n] where the last one ends.  It is defined by g_start[0] = 0 and
// g_start[i + 1] = the end of the i-th object, rounded up to the alignment of the one after it if there is one.
std::uint64_t* g_info;
std::uint64_t* g_start;
std::uint64_t g_n;
bool g_in_spec;

std::uint64_t Size(const std::uint64_t i) { return g_info[2U * i]; }
std::uint64_t Alignment(const std::uint64_t i) { return g_info[2U * i + 1U]; }

// whether the object at i or the place of the next one cannot be represented, or an alignment is zero
bool Refused(const std::uint64_t i)
{
    const std::uint64_t end = g_start[i] + Size(i);
    const std::uint64_t b = Alignment(i + 1U);
    const bool last = i + 1U >= g_n;
    return (Alignment(i) == 0U) | (end < Size(i)) | (!last & ((b == 0U) | ((end > b) & (end > std::numeric_limits<std::uint64_t>::max() - b))));
}
std::uint64_t LoadInfo(void* p, std::uint64_t)
{
    const std::uint64_t i = (reinterpret_cast<std::uintptr_t>(p) - reinterpret_cast<std::uintptr_t>(g_info)) / 16U;
    __vc_assert(i < g_n, "nothing beyond the sequence is read");
    // definition of the ghost sequence at the place that is being read
    const std::uint64_t end = g_start[i] + Size(i);
    const std::uint64_t b = Alignment(i + 1U);
    if (i + 1U == g_n)
    {
        vc::assume(g_start[i + 1U] == end);
    }
    else
    {
        vc::assume(g_start[i + 1U] == __vc_function("rounded up", end, b));
    }
    const std::uint64_t before = i - (i != 0U);
    __vc_term_ok(Refused(i) | Refused(before));
    return *static_cast<std::uint64_t*>(p);
}
// natively the ghost sequence is computed
void Ghost()
{
    std::uint64_t at = 0U;
    bool refused = false;
    for (std::uint64_t i = 0U; i < g_n; ++i)
    {
        g_start[i] = at;
        refused = refused || Refused(i);
        const std::uint64_t end = at + Size(i);
        const std::uint64_t b = i + 1U < g_n ? Alignment(i + 1U) : 1U;
        at = b == 0U ? end : end + (end % b == 0U ? 0U : b - end % b);
    }
    g_start[g_n] = at;
    __vc_term_ok(refused);
}
void StoreInfo(void*, std::uint64_t, std::uint64_t, std::uint64_t) { __vc_assert(false, "the sequence is not changed"); }
}  // namespace

VC_HARNESS(sequence_size)
{
    g_n = vc::any<std::uint64_t>("n");
    vc::assume(g_n <= (std::uint64_t{1} << 40U));
    g_info = static_cast<std::uint64_t*>(__vc_alloc((g_n + 1U) * 16U, "infos", 8U, 8U));
    g_start = static_cast<std::uint64_t*>(__vc_alloc((g_n + 1U) * 8U, "starts", 8U, 8U));
    if (__vc_symbolic())
    {
        vc::assume(g_start[0] == 0U);
    }
    else
    {
        Ghost();
    }
    __vc_hint_array(g_start, 8U, "starts");
    __vc_hint_bound(g_n, "n");
    std::vector<score::memory::DataTypeSizeInfo> infos{};
    auto* const raw = reinterpret_cast<std::uint64_t**>(&infos);
    raw[0] = g_info;
    raw[1] = g_info + 2U * g_n;
    raw[2] = raw[1];
    __vc_region(g_info, g_n * 16U, &LoadInfo, &StoreInfo);
    const auto r = CalculateAlignedSizeOfSequence(infos);
    __vc_region_off();
    raw[0] = nullptr;
    raw[1] = nullptr;
    raw[2] = nullptr;
    if (g_n == 0U)
    {
        __vc_assert(r == 0U, "no objects need no room");
    }
    else
    {
        __vc_assert(r == g_start[g_n], "the size is where the last object ends when each starts at the first place after the one before it that fits its alignment");
        __vc_cover("sequence");
    }
}
