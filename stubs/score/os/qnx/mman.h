#pragma once
#include "score/os/mman.h"
namespace score { namespace os { namespace qnx { class MmanQnx { public: virtual ~MmanQnx() = default; }; } } }
