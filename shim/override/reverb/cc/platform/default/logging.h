// Logging model: failed checks and fatal logs are reported to the solver
// engine; everything else is discarded.
#ifndef REVERB_CC_PLATFORM_DEFAULT_LOGGING_H_
#define REVERB_CC_PLATFORM_DEFAULT_LOGGING_H_
#include "vshim/log.h"
#define REVERB_CHECK(c) V_CHECK_IMPL(c, #c)
#define REVERB_QCHECK(c) V_CHECK_IMPL(c, #c)
#define REVERB_CHECK_EQ(a, b) V_CHECK_IMPL((a) == (b), #a " == " #b)
#define REVERB_CHECK_NE(a, b) V_CHECK_IMPL((a) != (b), #a " != " #b)
#define REVERB_CHECK_LE(a, b) V_CHECK_IMPL((a) <= (b), #a " <= " #b)
#define REVERB_CHECK_LT(a, b) V_CHECK_IMPL((a) < (b), #a " < " #b)
#define REVERB_CHECK_GE(a, b) V_CHECK_IMPL((a) >= (b), #a " >= " #b)
#define REVERB_CHECK_GT(a, b) V_CHECK_IMPL((a) > (b), #a " > " #b)
#define REVERB_QCHECK_EQ REVERB_CHECK_EQ
#define REVERB_QCHECK_NE REVERB_CHECK_NE
#define REVERB_QCHECK_LE REVERB_CHECK_LE
#define REVERB_QCHECK_LT REVERB_CHECK_LT
#define REVERB_QCHECK_GE REVERB_CHECK_GE
#define REVERB_QCHECK_GT REVERB_CHECK_GT
#define V_SEV_REVERB_FATAL ::vlog::Fatal("fatal log (" V_LOC ")")
#define V_SEV_REVERB_QFATAL ::vlog::Fatal("fatal log (" V_LOC ")")
#define V_SEV_REVERB_INFO ::vlog::Null()
#define V_SEV_REVERB_WARNING ::vlog::Null()
#define V_SEV_REVERB_ERROR ::vlog::Null()
#define REVERB_LOG(l) V_SEV_##l
#define REVERB_VLOG(l) ::vlog::Null()
#define REVERB_LOG_IF(l, c) !(c) ? (void)0 : ::vlog::Void() & V_SEV_##l
#define REVERB_LOG_EVERY_N(l, n) ::vlog::Null()
#define REVERB_LOG_FIRST_N(l, n) ::vlog::Null()
#define REVERB_LOG_EVERY_POW_2(l) ::vlog::Null()
#endif
