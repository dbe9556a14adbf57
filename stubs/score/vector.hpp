#pragma once
#include "score/memory_resource.hpp"
#include <vector>
namespace score { namespace cpp { namespace pmr {
template <typename T> class vector : public std::vector<T>
{
  public:
    using std::vector<T>::vector;
    using allocator_type = polymorphic_allocator<T>;
    vector() = default;
    explicit vector(memory_resource*) {}
    vector(std::size_t n, memory_resource*) : std::vector<T>(n) {}
};
} } }
