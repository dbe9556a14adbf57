#pragma once
#define DISABLE_WARNING_PUSH
#define DISABLE_WARNING_POP
#define DISABLE_WARNING(x)
#define DISABLE_WARNING_PADDED
#define DISABLE_WARNING_FLOAT_EQUAL
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
#define DISABLE_WARNING_SELF_ASSIGN_OVERLOADED
#define DISABLE_WARNING_UNUSED_VALUE
