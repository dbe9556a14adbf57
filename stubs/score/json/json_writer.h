#pragma once
#include "score/json/json_parser.h"
namespace score { namespace json {
class JsonWriter
{
  public:
    template <typename T> score::Result<Blank> ToFile(const T&, std::string_view) { return score::MakeUnexpected(Error::kUnknownError); }
    template <typename T> score::Result<std::string> ToBuffer(const T&) { return std::string{}; }
};
} }
