// VC-SOURCES: score/mw/com/impl/flag_owner.cpp
// Roles that can be held once, and handles that follow an object when it is moved.
#include "score/mw/com/impl/enable_reference_to_moveable_from_this.h"
#include "score/mw/com/impl/flag_owner.h"
#include "score/mw/com/impl/methods/method_signature_element_ptr.h"
#include "score/mw/com/impl/reference_to_moveable.h"
#include "vc.h"
#include <utility>
using namespace score::mw::com::impl;

VC_HARNESS(flag_states)
{
    FlagOwner none{};
    __vc_assert(!none.IsSet(), "by default the role is not held");
    const bool a = vc::any<bool>("a");
    FlagOwner f{a};
    __vc_assert(f.IsSet() == a, "the role is held exactly if it was given");
    f.Set();
    __vc_assert(f.IsSet(), "taking the role holds it");
    f.Clear();
    __vc_assert(!f.IsSet(), "giving the role up ends it");
    __vc_cover("end");
}
VC_HARNESS(flag_move)
{
    const bool a = vc::any<bool>("a");
    const bool b = vc::any<bool>("b");
    FlagOwner x{a};
    FlagOwner y{std::move(x)};
    __vc_assert(y.IsSet() == a && !x.IsSet(), "moved: the new owner holds the role, the previous one does not");
    FlagOwner z{b};
    z = std::move(y);
    __vc_assert(z.IsSet() == a && !y.IsSet(), "assigned: the new owner holds what was passed on, the previous one nothing");
    auto& alias = z;
    z = std::move(alias);
    __vc_assert(z.IsSet() == a, "assigning to itself changes nothing");
    __vc_cover("end");
}

// ---------------------------------------------------------------- method arguments and results in use
namespace
{
using P = MethodSignatureElementPtr<std::uint32_t>;
using Q = MethodSignatureElementPtr<std::uint64_t>;
}  // namespace
VC_HARNESS(element_ptr)
{
    std::uint32_t value = vc::any<std::uint32_t>("value");
    bool active = vc::any<bool>("active");
    const auto pos = vc::any<std::size_t>("pos");
    {
        P p{value, active, pos};
        __vc_assert(active, "an element is marked in use while there is a handle to it");
        __vc_assert(p.get() == &value && &*p == &value && p.operator->() == &value && p.GetQueuePosition() == pos,
                    "the handle designates the element and queue position given");
        P q{std::move(p)};
        __vc_assert(active && q.get() == &value && q.GetQueuePosition() == pos, "moved: the new handle designates the same");
        __vc_assert(p.get() == nullptr, "moved: the previous handle designates nothing");
        P r{std::move(q)};
        __vc_assert(active && r.get() == &value && q.get() == nullptr, "moved on: the same");
    }
    __vc_assert(!active, "the element is free again when its last handle is gone");
    __vc_cover("end");
}
VC_HARNESS(element_ptr_released_once)
{
    std::uint32_t value = 0U;
    bool active = false;
    P p{value, active, 0U};
    {
        P q{std::move(p)};
        __vc_assert(active, "in use");
    }
    __vc_assert(!active, "free when the owner is gone");
    active = true;  // the next user of the element
    p.~P();
    __vc_assert(active, "a handle that was moved from frees nothing");
    new (&p) P{value, active, 0U};
    __vc_cover("end");
}
VC_HARNESS(element_ptr_converting)
{
    std::uint32_t value = 0U;
    std::uint64_t other = 0U;
    bool active = false;
    const auto pos = vc::any<std::size_t>("pos");
    {
        Q q{other, active, pos};
        {
            P p{value, std::move(q)};
            __vc_assert(active && p.get() == &value && p.GetQueuePosition() == pos, "converted: in use at the same position");
            __vc_assert(q.get() == nullptr, "converted: the previous handle designates nothing");
        }
        __vc_assert(!active, "free when the owner is gone");
        active = true;
    }
    __vc_assert(active, "a handle that was converted from frees nothing");
    __vc_cover("end");
}

// ---------------------------------------------------------------- handles to movable objects
namespace
{
struct Thing : EnableReferenceToMoveableFromThis<Thing>
{
    std::uint32_t value;
    explicit Thing(std::uint32_t v) : value{v} {}
    Thing(Thing&&) noexcept = default;
    Thing& operator=(Thing&&) & noexcept = default;
};
}  // namespace
VC_HARNESS(reference_follows_moves)
{
    const auto v = vc::any<std::uint32_t>("v");
    Thing a{v};
    auto& r = a.GetReferenceToMoveable();
    __vc_assert(&r.Get() == &a && &std::as_const(r).Get() == &a, "a handle designates its object");
    Thing b{std::move(a)};
    __vc_assert(&r.Get() == &b && &b.GetReferenceToMoveable() == &r, "moved: the handle designates the object's new place");
    __vc_assert(r.Get().value == v, "moved: its content is reached through the handle");
    Thing c{0U};
    c = std::move(b);
    __vc_assert(&r.Get() == &c && &c.GetReferenceToMoveable() == &r, "assigned: the handle designates the object's new place");
    auto& alias = c;
    c = std::move(alias);
    __vc_assert(&r.Get() == &c && &c.GetReferenceToMoveable() == &r, "assigning to itself changes nothing");
    __vc_cover("end");
}
VC_HARNESS(references_are_distinct)
{
    Thing a{1U};
    Thing b{2U};
    auto& ra = a.GetReferenceToMoveable();
    auto& rb = b.GetReferenceToMoveable();
    __vc_assert(&ra != &rb && &ra.Get() == &a && &rb.Get() == &b, "handles of different objects are different");
    Thing c{std::move(a)};
    Thing d{std::move(b)};
    __vc_assert(&ra.Get() == &c && &rb.Get() == &d, "each handle follows its own object");
    const auto& cr = std::as_const(ra);
    __vc_assert(&cr.Get() == &c && &c.ptr_wrapper_.Get() == &ra && &std::as_const(c.ptr_wrapper_).Get() == &ra, "also for readers");
    __vc_cover("end");
}

// an owner of something that can be held once cannot be copied
VC_HARNESS(owners_cannot_be_copied)
{
    __vc_assert(!std::is_copy_constructible<FlagOwner>::value && !std::is_copy_assignable<FlagOwner>::value, "a role cannot be copied");
    __vc_assert(!std::is_copy_constructible<MethodSignatureElementPtr<std::uint64_t>>::value && !std::is_copy_assignable<MethodSignatureElementPtr<std::uint64_t>>::value, "a pointer that holds an element cannot be copied");
    __vc_cover("end");
}
