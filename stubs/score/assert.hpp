// Stand-in for score_baselibs (not in this sandbox): assertion macros.  A failed assertion terminates the process.
#pragma once
#include <exception>
#include <cstdlib>
#define VC_STUB_ASSERT(c) (static_cast<bool>(c) ? static_cast<void>(0) : std::terminate())
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(c, m) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PROD(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(c, m) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(c, m) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG(c) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(c, m) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG_MESSAGE(c, m) VC_STUB_ASSERT(c)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() std::terminate()
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m) std::terminate()
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_PRD() std::terminate()
