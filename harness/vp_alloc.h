#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include <stdlib.h>
#include "vp.h"
/* Observed allocator: counts live blocks on every abstract path and lets any
   allocation fail when vp_alloc_fail_budget > 0. */
int vp_live;
int vp_alloc_fail_budget;
int vp_alloc_failed;
void* vp_wrap_malloc(size_t n)
{
	if (vp_alloc_fail_budget > 0 && vp_nd_bool()) {
		--vp_alloc_fail_budget;
		vp_alloc_failed = 1;
		return NULL;
	}
	void* p = malloc(n ? n : 1);
	++vp_live;
	return p;
}
void* vp_wrap_calloc(size_t n, size_t m)
{
	if (vp_alloc_fail_budget > 0 && vp_nd_bool()) {
		--vp_alloc_fail_budget;
		vp_alloc_failed = 1;
		return NULL;
	}
	void* p = calloc(n, m);
	++vp_live;
	return p;
}
void vp_wrap_free(void* p)
{
	if (p)
		--vp_live;
	free(p);
}
#endif
