#pragma once
#include <string_view>
namespace score { namespace cpp { using string_view = std::string_view; } }
