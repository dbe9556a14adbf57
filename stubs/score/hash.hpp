#pragma once
#include <cstddef>
#include <cstdint>
namespace score { namespace cpp {
inline std::size_t hash_bytes_fnv(const void* p, std::size_t n, std::size_t seed = 1469598103934665603ULL)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    std::size_t h = seed;
    for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
inline std::size_t hash_bytes(const void* p, std::size_t n) { return hash_bytes_fnv(p, n); }
inline std::size_t hash_bytes(const void* p, std::size_t n, std::size_t s) { return hash_bytes_fnv(p, n, s); }
} }
