#pragma once
#include "score/memory_resource.hpp"
#include <string>
namespace score { namespace cpp { namespace pmr {
class string : public std::string { public: using std::string::string; string() = default; string(const char* s, memory_resource*) : std::string(s) {} string(const std::string& s, memory_resource* = nullptr) : std::string(s) {} };
} } }
