#ifndef VP_IN_H
#define VP_IN_H
#include "vp.h"
/* input of exactly len bytes (len <= cap), arbitrary content, placed at the end
   of its object so that any access past it is outside the object */
static const uint8_t* vp_input(uint8_t* arr, size_t cap, size_t len)
{
	vp_fill(arr, cap);
	return arr + (cap - len);
}
/* data reported by a decoder is readable and lies in [lo, hi) */
static inline void vp_touch(const void* p, size_t n)
{
	const uint8_t* b = p;
	uint8_t x = 0;
	for (size_t i = 0; i < n; ++i)
		x |= b[i];
}
#endif
