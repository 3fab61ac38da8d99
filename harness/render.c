/* C04: rendered text stays in its buffer, is terminated, and reads only its data */
#define VP_OWN_TABLES
#include "str_env.h"
#include "vp_printf.h"
#include "emv_strings.c"
#include "vp_alloc.h"
#include "iso7816_strings.h"
#include "emv_dol.h"

#ifndef REAL_LIST
/* string lists: contract decided by h_list below.  Everything between ptr and
   ptr + len is writable, arguments are readable, the text ends up terminated. */
void vp_wrap_emv_str_list_add(struct str_itr_t* itr, const char* fmt, ...)
{
	char tmp[1];
	va_list ap;
	va_start(ap, fmt);
	vp_vsnprintf(tmp, 0, fmt, ap);
	va_end(ap);
	if (itr->len) {
		itr->ptr[itr->len - 1] = 0;
		*itr->ptr = 0;
	}
}
#endif

static uint8_t in[256];
static char* out;
static size_t out_len;
#ifdef SMALL
#define SIZES 1: case 2: case 3: case 4: case 5: case 8
#endif
#ifdef FEWS
#define SIZES 1: case 2: case 64
#endif
#ifndef SIZES
#ifdef DEEP
#define SIZES 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 16: case 17: case 33: case 64: case 256
#else
#define SIZES 1: case 2: case 3: case 4: case 8: case 12: case 33: case 256
#endif
#endif
static void mkout(void)
{
	int n = vp_nd_split(1, 256);
	switch (n) { case SIZES: break; default: VP_DISCARD(); }
	out_len = n;
	out = malloc(n);
}
static void terminated(void)
{
	for (size_t i = 0; i < out_len; ++i)
		if (!out[i])
			return;
	VP_NEVER("C04: success without terminated output");
}
#ifdef LMAX
#define LENS n <= LMAX
#endif
#ifndef LENS
#ifdef DEEP
#define LENS (n <= 20 || n == 32 || n == 33 || n == 34)
#else
#define LENS (n <= 8 || n == 11 || n == 15 || n == 16 || n == 17 || n == 19 || n == 32 || n == 33)
#endif
#endif
/* walk of length-prefixed entries, one path per length byte */
void fix_asrpd(uint8_t* p, int n)
{
	for (int off = 0; off + 2 < n; ) {
		int l = vp_nd_split(0, 8);
		p[off + 2] = l == 8 ? 255 : l;
		off += 3 + p[off + 2];
	}
}
/* leading zeros then digits, one path per position */
void fix_digits(uint8_t* p, int n)
{
	int k = vp_nd_split(0, 8), c = vp_nd_split(0, 2), odd = k & 1;
	if (k > n)
		VP_DISCARD();
	for (int i = 0; i < n; ++i)
		p[i] = i < k ? 0 : i == k ? (odd ? 0x01 : 0x90) : 0x12;
	if (c && n)
		p[n - 1] = c == 1 ? 0x3F : 0x1A;
}
#ifdef FN
#ifndef BYTE
void h_buf(void)
{
	int n = vp_nd_split(0, 34);
	if (!(LENS))
		VP_DISCARD();
	const uint8_t* p = vp_input(in, sizeof(in), n);
#ifdef FIX
	FIX((uint8_t*)p, n);
#endif
	if (vp_nd_split(0, 1)) {
		FN((void*)p, n, NULL, vp_nd_split(0, 1));
		return;
	}
	mkout();
	int r = FN((void*)p, n, out, out_len);
	vp_reached("C04: rendered");
	if (r == 0) {
		VP_POSSIBLE(1, "C04: rendering succeeds");
		terminated();
	}
}
#else
void h_byte(void)
{
	uint8_t v = ND_U8();
	if (vp_nd_split(0, 1)) {
		FN(v, NULL, vp_nd_split(0, 1));
		return;
	}
	mkout();
	int r = FN(v, out, out_len);
	vp_reached("C04: rendered");
	if (r == 0) {
		VP_POSSIBLE(1, "C04: rendering succeeds");
		terminated();
	}
}
#endif
#endif
#ifdef REAL_LIST
/* the real list builder: any sequence of additions */
void h_list(void)
{
	static char text[8];
	mkout();
	struct str_itr_t itr;
	emv_str_list_init(&itr, out, out_len);
	terminated();
	int n = vp_nd_split(0, 3);
	for (int i = 0; i < n; ++i) {
		int l = vp_nd_split(0, 4);
		if (l == 3) l = 6;
		for (int k = 0; k < l; ++k)
			text[k] = 'a';
		text[l] = 0;
		emv_str_list_add(&itr, "%s", text);
		terminated();
	}
	VP_POSSIBLE(n == 3 && out_len == 8, "C04: list built");
}
#endif
