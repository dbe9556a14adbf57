#pragma once
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
namespace score { namespace safecpp {
template <typename S, std::size_t = 64U>
class CopyableScopedFunction : public detail::ScopedFunctionImpl<S, detail::CopyableHolder>
{
  public:
    using Base = detail::ScopedFunctionImpl<S, detail::CopyableHolder>;
    using Base::Base;
    CopyableScopedFunction() = default;
};
} }
