// Shows that the verifier refutes what is false and proves what is true.
#include "vc.h"
VC_HARNESS(true_sum)
{
    const auto n = vc::any<std::uint16_t>("n");
    auto* a = static_cast<std::uint32_t*>(__vc_alloc(n * 4U, "a", 4U, 4U));
    __vc_hint_bound(n, "n");
    std::uint32_t m = 0U;
    for (std::uint32_t i = 0U; i < n; ++i)
    {
        m = a[i] > m ? a[i] : m;
    }
    const auto k = vc::any<std::uint16_t>("k");
    __vc_assert(n != 0U || m == 0U, "nothing is the maximum of nothing");
    __vc_cover("end");
}
VC_HARNESS(false_bound)
{
    const auto n = vc::any<std::uint16_t>("n");
    auto* a = static_cast<std::uint32_t*>(__vc_alloc(n * 4U, "a", 4U, 4U));
    __vc_hint_bound(n, "n");
    std::uint32_t m = 0U;
    for (std::uint32_t i = 0U; i < n; ++i)
    {
        m += a[i];
    }
    __vc_assert(m == 0U, "a sum is always zero");
    const auto k = vc::any<std::uint16_t>("k");
    vc::assume(k <= n);
    a[k] = m;
    __vc_cover("end");
}
