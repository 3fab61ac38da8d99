#ifndef VP_PRINTF_H
#define VP_PRINTF_H
/* formatted output with the C semantics for the conversions the code uses:
   every byte written is a byte of the real output or (for abstract numbers)
   some digit; the length is exact on every abstract path */
#include <stdarg.h>
#include "vp.h"
static char* vp_po; static size_t vp_pn, vp_pt;
static void vp_pc(char c)
{
	if (vp_pt + 1 < vp_pn)
		vp_po[vp_pt] = c;
	++vp_pt;
}
static void vp_pu(unsigned long v)
{
	/* one path per digit count */
	int d = vp_nd_split(1, 20);
	unsigned long lo = 1;
	for (int i = 1; i < d; ++i)
		lo *= 10;
	if (d > 1 && v < lo)
		VP_DISCARD();
	if (d < 20 && v >= lo * 10)
		VP_DISCARD();
	for (int i = 0; i < d; ++i) {
#ifdef VP_EXACT_DIGITS
		vp_pc((char)('0' + v / lo % 10));
		lo /= 10;
#else
		vp_pc((char)vp_nd('0', '9'));
#endif
	}
}
static void vp_ps(const char* s, size_t max)
{
	for (size_t i = 0; i < max && s[i]; ++i)
		vp_pc(s[i]);
}
#ifndef vp_dig
#define vp_dig(x) ((char)((x) < 10 ? '0' + (x) : 'A' - 10 + (x)))
#endif
int vp_vsnprintf(char* str, size_t n, const char* f, va_list ap)
{
	vp_po = str; vp_pn = n; vp_pt = 0;
	for (; *f; ++f) {
		if (*f != '%') { vp_pc(*f); continue; }
		++f;
		if (f[0] == 's') vp_ps(va_arg(ap, const char*), (size_t)-1);
		else if (f[0] == '.' && f[1] == '*' && f[2] == 's') {
			int p = va_arg(ap, int);
			vp_ps(va_arg(ap, const char*), p < 0 ? (size_t)-1 : (size_t)p);
			f += 2;
		}
		else if (f[0] == '.' && f[1] == '1' && f[2] == 'f') {
			double x = va_arg(ap, double);
			int d = vp_nd_split(1, 6);
			for (int i = 0; i < d; ++i) vp_pc((char)vp_nd('0', '9'));
			vp_pc('.'); vp_pc((char)vp_nd('0', '9'));
			f += 2;
		}
		else if (f[0] == '0' && f[1] == '2' && f[2] == 'X') {
			unsigned x = va_arg(ap, unsigned);
			if (x > 0xFF) VP_NEVER("C04: a byte is rendered as two hexadecimal digits");
			vp_pc(vp_dig(x >> 4)); vp_pc(vp_dig(x & 15));
			f += 2;
		}
		else if (f[0] == '0' && f[1] == '2' && f[2] == 'u') {
			unsigned x = va_arg(ap, unsigned);
			if (x < 10) vp_pc('0');
			vp_pu(x);
			f += 2;
		}
		else if (f[0] == 'u') vp_pu(va_arg(ap, unsigned));
		else if (f[0] == 'l' && f[1] == 'u') { vp_pu(va_arg(ap, unsigned long)); ++f; }
		else if (f[0] == 'z' && f[1] == 'u') { vp_pu(va_arg(ap, size_t)); ++f; }
		else if (f[0] == 'd') {
			int x = va_arg(ap, int);
			if (x < 0) { vp_pc('-'); vp_pu(0ul - (unsigned long)(long)x); } else vp_pu(x);
		}
		else if (f[0] == 'c') vp_pc((char)va_arg(ap, int));
		else if (f[0] == '%') vp_pc('%');
		else vp_fail("unmodelled conversion in a format string");
	}
	if (n)
		str[vp_pt < n ? vp_pt : n - 1] = 0;
	return (int)vp_pt;
}
int vp_snprintf(char* str, size_t n, const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vp_vsnprintf(str, n, f, ap);
	va_end(ap);
	return r;
}
#endif
