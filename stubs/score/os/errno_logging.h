#pragma once
#include "score/os/errno.h"
#include "score/mw/log/logging.h"
namespace score { namespace os { inline mw::log::LogStream& operator<<(mw::log::LogStream& s, const Error&) { return s; } } }
