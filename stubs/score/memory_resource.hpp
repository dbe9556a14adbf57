#pragma once
#include <cstddef>
#include <memory>
#include <memory_resource>
namespace score { namespace cpp { namespace pmr {
using memory_resource = std::pmr::memory_resource;
inline memory_resource* new_delete_resource() noexcept { return std::pmr::new_delete_resource(); }
inline memory_resource* get_default_resource() noexcept { return std::pmr::get_default_resource(); }
template <typename T> using polymorphic_allocator = std::pmr::polymorphic_allocator<T>;
} } }
