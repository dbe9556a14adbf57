#pragma once
#include "score/os/qnx/mman.h"
namespace score { namespace os { namespace qnx { class MmanQnxImpl final : public MmanQnx {}; } } }
