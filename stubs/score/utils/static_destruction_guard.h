// Stub: the guarded singleton, created on first use and never destroyed
#pragma once
#include <new>
#include <utility>
namespace score::utils
{
template <typename T>
class StaticDestructionGuard
{
  public:
    static T& GetStorage() noexcept
    {
        static Holder h;
        return h.get();
    }

  private:
    struct Holder
    {
        Holder() { new (&storage) T(); }
        T& get() noexcept { return reinterpret_cast<T&>(storage); }
        struct alignas(T) Storage { unsigned char b[sizeof(T)]; } storage;
    };
};
}  // namespace score::utils
