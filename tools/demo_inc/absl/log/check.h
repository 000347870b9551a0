#ifndef DEMO_ABSL_LOG_CHECK_H_
#define DEMO_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#define CHECK(c) (c) ? (void)0 : ::demo_log::Voidify{} && LOG(FATAL)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_OK(s) CHECK((s).ok())
#define QCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#endif
