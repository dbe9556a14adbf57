// Stand-in: never called by a contract
#pragma once
#include "score/concurrency/executor.h"
#include "score/stop_token.hpp"
namespace score { namespace concurrency { class LongRunningThreadsContainer { public: template <typename F> void Post(F&&) {} }; } }
