// Stand-in: never called by a contract
#pragma once
#include "score/filesystem/filesystem_struct.h"

