#pragma once
#include <cstdlib>
#define RUY_CHECK(c) ((c) ? (void)0 : abort())
#define RUY_DCHECK(c) ((c) ? (void)0 : (void)0)
#define RUY_DCHECK_EQ(x, y) RUY_DCHECK((x) == (y))
#define RUY_DCHECK_NE(x, y) RUY_DCHECK((x) != (y))
#define RUY_DCHECK_LT(x, y) RUY_DCHECK((x) < (y))
#define RUY_DCHECK_LE(x, y) RUY_DCHECK((x) <= (y))
#define RUY_DCHECK_GT(x, y) RUY_DCHECK((x) > (y))
#define RUY_DCHECK_GE(x, y) RUY_DCHECK((x) >= (y))
#define RUY_CHECK_EQ(x, y) RUY_CHECK((x) == (y))
#define RUY_CHECK_LE(x, y) RUY_CHECK((x) <= (y))
#define RUY_CHECK_LT(x, y) RUY_CHECK((x) < (y))
