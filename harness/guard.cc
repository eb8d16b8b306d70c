/* The C++ guard that truncates a region at the end of a scope. */
#include <stddef.h>
#include "small/region.h"

extern "C" void
guard_scope(struct region *r, void (*body)(void *), void *arg)
{
	RegionGuard guard(r);
	body(arg);
}
