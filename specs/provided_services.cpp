// VC-SOURCES: score/mw/service/provided_service.cpp
// The services an application provides: the container reports, starts and stops exactly what was handed in; a decorator
// owns exactly the service it was created with.
#include "score/mw/service/backend/mw_com/provided_service_builder.h"
#include "score/mw/service/backend/mw_com/provided_service_decorator.h"
#include "score/mw/service/provided_service_container.h"
#include "vc.h"
#include <utility>
using namespace score::mw::service;
using score::mw::service::backend::mw_com::ProvidedServiceDecorator;

namespace
{
std::uint64_t g_made;
std::uint64_t g_gone;
std::uint64_t g_started;
std::uint64_t g_stopped;
std::uint64_t g_removed;
std::uint64_t g_count;

struct A
{
    explicit A(std::uint32_t n) : number{n} { ++g_made; }
    A(A&& o) : number{o.number} { ++g_made; }
    ~A() { ++g_gone; }
    std::uint32_t number;
};
struct B
{
    std::uint32_t number;
};
template <typename T>
class Other : public ProvidedServiceDecorator<T>
{
};

// the collection the container holds: any implementation of its interface
class Collection final : public ProvidedServicesBase
{
  public:
    ~Collection() noexcept override { ++g_removed; }
    std::size_t Count() const noexcept override { return g_count; }
    void StartAll() override { ++g_started; }
    void StopAll() override { ++g_stopped; }
};

void Reset()
{
    g_made = 0U;
    g_gone = 0U;
    g_started = 0U;
    g_stopped = 0U;
    g_removed = 0U;
    g_count = vc::any<std::uint64_t>("count");
}
}  // namespace

VC_HARNESS(container_delegates)
{
    Reset();
    {
        ProvidedServiceContainer container{};
        __vc_assert(container.NumServices() == 0U, "a container without services reports none");
        container.StartServices();
        container.StopServices();
        __vc_assert(container.GetServices<ProvidedServiceDecorator>() == nullptr, "a container without services has no collection to hand out");
        container.services_ = std::make_unique<Collection>();
        __vc_assert(container.NumServices() == g_count, "the container reports the number of services it was handed");
        __vc_assert(g_started == 0U && g_stopped == 0U, "asking for the number starts and stops nothing");
        container.StartServices();
        __vc_assert(g_started == 1U && g_stopped == 0U, "starting starts every service once");
        container.StopServices();
        __vc_assert(g_started == 1U && g_stopped == 1U, "stopping stops every service once");
        __vc_assert(container.GetServices<ProvidedServiceDecorator>() == nullptr, "a collection of another kind is not handed out");
        ProvidedServiceContainer moved{std::move(container)};
        __vc_assert(moved.NumServices() == g_count, "the services pass on with the container");
        __vc_assert(container.NumServices() == 0U, "the container moved from has no service left");
        container.StartServices();
        container.StopServices();
        __vc_assert(g_started == 1U && g_stopped == 1U, "the container moved from starts and stops nothing");
        ProvidedServiceContainer assigned{};
        assigned.services_ = std::make_unique<Collection>();
        assigned = std::move(moved);
        __vc_assert(g_removed == 1U, "assigning removes the services held before, once");
        __vc_assert(assigned.NumServices() == g_count && moved.NumServices() == 0U, "assigning passes the services on");
    }
    __vc_assert(g_removed == 2U, "every collection is removed exactly once");
}

VC_HARNESS(container_of_collection)
{
    Reset();
    ProvidedServices<ProvidedServiceDecorator> services{};
    const auto before = vc::any<std::uint32_t>("services before");
    services.count_ = before;
    services.Add<A>(vc::any<std::uint32_t>("number"));
    __vc_assert(services.Count() == std::uint64_t{before} + 1U, "adding a service adds one");
    std::move(services).Add<B>();
    __vc_assert(services.Count() == std::uint64_t{before} + 2U, "adding a service to a temporary adds one");
    ProvidedServices<ProvidedServiceDecorator> other{};
    __vc_assert(other.Count() == 0U, "nothing is provided initially");
    other.Swap(services);
    __vc_assert(services.Count() == 0U && other.Count() == std::uint64_t{before} + 2U, "swapping exchanges the services");
    ProvidedServiceContainer container{std::move(other)};
    __vc_assert(container.NumServices() == std::uint64_t{before} + 2U, "the container reports the number of services it was made from");
    auto* const kept = container.GetServices<ProvidedServiceDecorator>();
    __vc_assert(kept != nullptr && static_cast<void*>(kept) == static_cast<void*>(container.services_.get()), "the collection is handed out under the kind it was handed in");
    const auto& constant = container;
    __vc_assert(constant.GetServices<ProvidedServiceDecorator>() == kept, "the collection handed out does not depend on constness");
    __vc_assert(container.GetServices<Other>() == nullptr, "the collection is not handed out under another kind");
    __vc_assert(kept->Count() == std::uint64_t{before} + 2U, "the collection handed out holds the services");
}

VC_HARNESS(builder)
{
    Reset();
    {
        ProvidedServiceBuilder builder{};
        __vc_assert(builder.services_.Count() == 0U, "a builder starts with no service");
        const auto before = vc::any<std::uint32_t>("services before");
        builder.services_.count_ = before;
        builder.With(A{vc::any<std::uint32_t>("number")}).With(B{});
        auto container = builder.GetServices();
        __vc_assert(container.NumServices() == std::uint64_t{before} + 2U, "the container built holds every service added");
        __vc_assert(container.GetServices<ProvidedServiceDecorator>() != nullptr, "the container built holds decorated services");
    }
    __vc_assert(g_made == g_gone, "no service object leaks");
}

VC_HARNESS(decorator_owns)
{
    Reset();
    const auto number = vc::any<std::uint32_t>("number");
    {
        ProvidedServiceDecorator<A> empty{};
        __vc_assert(empty.GetService() == nullptr && empty.GetServicePtr() == nullptr, "an empty decorator has no service");
        auto decorator = ProvidedServiceDecorator<A>::Create(number);
        __vc_assert(g_made == 1U && g_gone == 0U, "exactly one service is made");
        auto* const service = decorator.GetService();
        __vc_assert(service != nullptr && service->number == number, "the service is made from the arguments given");
        const auto& constant = decorator;
        __vc_assert(constant.GetService() == service && constant.GetServicePtr() == service && decorator.GetServicePtr() == service, "every access designates the service owned");
        ProvidedService& base = decorator;
        __vc_assert(base.GetServicePtr() == service, "the service is reached through the interface");
        ProvidedServiceDecorator<A> moved{std::move(decorator)};
        __vc_assert(moved.GetService() == service && decorator.GetService() == nullptr, "a move passes the service on and leaves nothing behind");
        auto second = ProvidedServiceDecorator<A>::Create(number);
        __vc_assert(second.GetService() != service, "every decorator owns a service of its own");
        second = std::move(moved);
        __vc_assert(second.GetService() == service && moved.GetService() == nullptr, "an assignment passes the service on");
        __vc_assert(g_made == 2U && g_gone == 1U, "an assignment removes the service held before, once");
        __vc_assert(service->number == number, "passing on does not change the service");
    }
    __vc_assert(g_made == 2U && g_gone == 2U, "every service is removed exactly once");
}

VC_HARNESS(decorator_of_object)
{
    Reset();
    const auto number = vc::any<std::uint32_t>("number");
    {
        A given{number};
        ProvidedServiceDecorator<A> decorator{std::move(given)};
        __vc_assert(decorator.GetService() != nullptr && decorator.GetService() != &given && decorator.GetService()->number == number, "a decorator made from an object owns an object of the same content");
    }
    __vc_assert(g_made == 2U && g_gone == 2U, "every object is removed exactly once");
}
