#include "score/assert.hpp"
