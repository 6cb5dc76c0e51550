#pragma once
#include "symx.h"
#include "absl/base/optimization.h"
namespace symx_log { struct Sink { template <class T> Sink& operator<<(const T&) { return *this; } }; struct Voidify { void operator&(Sink&) {} void operator&(Sink&&) {} }; }
#define SYMX_CHK_(c, text) (c) ? (void)0 : ::symx_log::Voidify() & (symx_fatal(text), ::symx_log::Sink())
#define ABSL_CHECK(c) SYMX_CHK_((c), "CHECK failed: " #c)
#define ABSL_CHECK_EQ(a, b) SYMX_CHK_((a) == (b), "CHECK_EQ failed")
#define ABSL_CHECK_NE(a, b) SYMX_CHK_((a) != (b), "CHECK_NE failed")
#define ABSL_CHECK_LT(a, b) SYMX_CHK_((a) < (b), "CHECK_LT failed")
#define ABSL_CHECK_LE(a, b) SYMX_CHK_((a) <= (b), "CHECK_LE failed")
#define ABSL_CHECK_GT(a, b) SYMX_CHK_((a) > (b), "CHECK_GT failed")
#define ABSL_CHECK_GE(a, b) SYMX_CHK_((a) >= (b), "CHECK_GE failed")
#define ABSL_CHECK_OK(s) SYMX_CHK_((s).ok(), "CHECK_OK failed")
// DCHECKs are off, as in an optimised build.
#define ABSL_DCHECK(c) while (false && (c)) ::symx_log::Sink()
#define ABSL_DCHECK_EQ(a, b) while (false && ((a) == (b))) ::symx_log::Sink()
#define ABSL_DCHECK_NE(a, b) while (false && ((a) != (b))) ::symx_log::Sink()
#define ABSL_DCHECK_LT(a, b) while (false && ((a) < (b))) ::symx_log::Sink()
#define ABSL_DCHECK_LE(a, b) while (false && ((a) <= (b))) ::symx_log::Sink()
#define ABSL_DCHECK_GT(a, b) while (false && ((a) > (b))) ::symx_log::Sink()
#define ABSL_DCHECK_GE(a, b) while (false && ((a) >= (b))) ::symx_log::Sink()
