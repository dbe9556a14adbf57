// Verification interface used by the contracts in /verif/specs.  A contract is a function with C linkage whose name
// starts with vc_: it makes the inputs arbitrary (vc::any), assumes the precondition, calls the real function from /repo
// and asserts the postcondition.  The verifier (vc/engine.py) executes it symbolically over the LLVM IR of the real code;
// the replay runtime (vc/native.cpp) executes it on the real code with the values of a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
std::uint64_t __vc_havoc(const char* name, unsigned bits);
void __vc_assume(bool c);
void __vc_assert(bool c, const char* label);
void __vc_cover(const char* label);
void __vc_term_ok(bool ok);
void* __vc_alloc(std::uint64_t size, const char* name, unsigned granule, unsigned align);
void __vc_region(const void* p, std::uint64_t size, std::uint64_t (*load)(void*, std::uint64_t),
                 void (*store)(void*, std::uint64_t, std::uint64_t, std::uint64_t));
void __vc_region_off();
// ghost terms for loop invariants: an arbitrary index of interest, a bound, a value, a guessed result (prophecy)
void __vc_hint_index(std::uint64_t v, const char* name);
void __vc_hint_bound(std::uint64_t v, const char* name);
void __vc_hint_value(std::uint64_t v, const char* name);
void __vc_hint_prophecy(std::uint64_t v, const char* name);
void __vc_hint_bool(bool v, const char* name);
void __vc_hint_array(const void* base, unsigned granule, const char* name);
void __vc_watch(const void* p, unsigned bytes, const char* name);
std::uint64_t __vc_base(const void* p);
// the value an uninterpreted function has at (a, b); for contracts of pure functions
std::uint64_t __vc_function(const char* name, std::uint64_t a, std::uint64_t b);
void __vc_lockhooks(const void* mutex, void (*on_lock)(void*), void (*on_unlock)(void*));
bool __vc_symbolic();
}

namespace vc
{
template <typename T>
inline T any(const char* name)
{
    static_assert(std::is_integral<T>::value || std::is_enum<T>::value, "scalar");
    if constexpr (std::is_same<T, bool>::value)
    {
        return (__vc_havoc(name, 1U) & 1U) != 0U;
    }
    else
    {
        return static_cast<T>(__vc_havoc(name, static_cast<unsigned>(sizeof(T) * 8U)));
    }
}
inline void assume(bool c) { __vc_assume(c); }
// every byte of a trivially copyable object arbitrary
template <typename T>
inline void fill(T* p, const char* name)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(p);
    for (std::size_t i = 0; i < sizeof(T); ++i)
    {
        b[i] = static_cast<unsigned char>(__vc_havoc(name, 8U));
    }
}
}  // namespace vc

// the stub `fn` (a contract: assert precondition, havoc, assume postcondition) replaces calls to functions whose demangled
// name matches `regex` in the harnesses that name `group` in a VC_USES list; the contract itself is proved by its own harness
struct VcContract
{
    const char* regex;
    void (*stub)();
};
#define VC_CONTRACT(group, regex, fn) \
    extern "C" __attribute__((used)) const VcContract __vc_contract_##group = {regex, reinterpret_cast<void (*)()>(&fn)};
#define VC_HARNESS(name) extern "C" __attribute__((used, noinline)) void vc_##name()
