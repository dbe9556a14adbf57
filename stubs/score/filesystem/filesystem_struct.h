// Stand-in: never called by a contract
#pragma once
#include "score/filesystem/path.h"
namespace score { namespace filesystem { struct Filesystem { }; } }
