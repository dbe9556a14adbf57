#pragma once
#include "score/os/utils/acl/i_access_control_list.h"
