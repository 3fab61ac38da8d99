#ifndef VP_ENV_H
#define VP_ENV_H
/* environment shared by the harnesses: libc corner cases and debug sink */
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include "vp.h"
/* n == 0 accesses nothing (Frama-C's libc contracts are stricter) */
void* vp_wrap_memcpy(void* d, const void* s, size_t n)
{
	if (!n)
		return d;
	return memcpy(d, s, n);
}
void* vp_wrap_memset(void* d, int c, size_t n)
{
	if (!n)
		return d;
	return memset(d, c, n);
}
/* exact, byte by byte: keeps equal/different apart and learns equal bytes */
int vp_wrap_memcmp(const void* a, const void* b, size_t n)
{
	const uint8_t* x = a;
	const uint8_t* y = b;
	for (size_t i = 0; i < n; ++i) {
		if (x[i] != y[i])
			return x[i] < y[i] ? -1 : 1;
	}
	return 0;
}
#ifndef VP_OWN_DEBUG
#include "emv_debug.h"
#undef emv_debug_internal
/* sink for debug events: arguments are evaluated by the caller */
void emv_debug_internal(enum emv_debug_source_t source, enum emv_debug_level_t level,
	enum emv_debug_type_t debug_type, const char* fmt, const void* buf, size_t buf_len, ...)
{
#ifdef VP_DEBUG_READS
	const uint8_t* p = buf;
	unsigned long x = 0;
	if (debug_type != EMV_DEBUG_TYPE_ATR) { /* a structure with padding */
		for (size_t i = 0; i < buf_len; ++i)
			x |= p[i];
	}
	va_list ap;
	va_start(ap, buf_len);
	for (; *fmt; ++fmt) {
		if (*fmt != '%') continue;
		++fmt;
		while (*fmt == '0' || *fmt == '2' || *fmt == '4') ++fmt;
		if (*fmt == 's') { const char* s = va_arg(ap, const char*); while (*s) x |= (unsigned char)*s++; }
		else if (*fmt == 'p') { const void* q = va_arg(ap, const void*); (void)q; }
		else if (*fmt == 'h') { ++fmt; x |= va_arg(ap, unsigned); }
		else if (*fmt == 'z') { ++fmt; x |= va_arg(ap, size_t); }
		else if (*fmt == 'd') x |= (unsigned)va_arg(ap, int);
		else if (*fmt == 'u' || *fmt == 'X' || *fmt == 'x') x |= va_arg(ap, unsigned);
		else if (*fmt == 'c') x |= (unsigned)va_arg(ap, int);
	}
	va_end(ap);
#endif
}
#endif
#endif
