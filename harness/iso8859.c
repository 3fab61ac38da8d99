/* C28: the C back ends of ISO 8859 to UTF-8 conversion */
#include "vp.h"
#include <string.h>
#include "iso8859.h"
#ifdef ICONV
#include <iconv.h>
#include <errno.h>
#include <stdio.h>
#include "vp_printf.h"
#endif
#ifndef LEN
#define LEN 2
#endif
#ifndef OUT
#define OUT 6
#endif
#ifndef PAT
#define PAT 0
#endif
#ifndef CP
#define CP 1
#endif
static uint8_t in[LEN ? LEN : 1];
static char out[OUT ? OUT : 1];

static int nopen, nconv, nclose, bad_open, bad_conv, fail_conv, fail_open;

#ifdef ICONV
static const char* digits(unsigned n) { static char d[3]; d[0] = n > 9 ? '1' : '0' + n; d[1] = n > 9 ? '0' + (n - 10) : 0; d[2] = 0; return d; }
static int same(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static int handle;
iconv_t vp_wrap_iconv_open(const char* to, const char* from)
{
	++nopen;
	if (!same(to, "UTF-8")) bad_open = 1;
	const char* p = "ISO-8859-";
	while (*p && *p == *from) { ++p; ++from; }
	if (*p || !same(from, digits(CP))) bad_open = 1;
	if (fail_open) return (iconv_t)-1;
	return (iconv_t)&handle;
}
int vp_wrap_iconv_close(iconv_t cd) { ++nclose; if (cd != (iconv_t)&handle) bad_open = 1; return 0; }
/* a conversion which maps every byte as code page 1 does */
size_t vp_wrap_iconv(iconv_t cd, char** i, size_t* il, char** o, size_t* ol)
{
	++nconv;
	if (cd != (iconv_t)&handle || !nopen || nclose || !i || !il || !o || !ol || *i != (char*)in || *il != LEN)
		bad_conv = 1;
	if (fail_conv) return (size_t)-1;
	while (*il) {
		uint8_t c = (uint8_t)**i;
		size_t n = c < 0x80 ? 1 : 2;
		if (*ol < n) return (size_t)-1;
		if (n == 1) { (*o)[0] = (char)c; } else { (*o)[0] = (char)(0xC0 | c >> 6); (*o)[1] = (char)(0x80 | (c & 0x3F)); }
		*o += n; *ol -= n; ++*i; --*il;
	}
	return 0;
}
#endif

static uint8_t pat(int i)
{
	switch (PAT) {
		case 0: return 'A' + i;
		case 1: return 0xC0 + i;
		case 2: return i & 1 ? 0xFF : 'z';
		default: return i & 1 ? '~' : 0xA0;
	}
}

void h_convert(void)
{
	int pos = vp_nd_split(0, LEN - 1);
#if LEN == 1
	uint8_t v = (uint8_t)vp_nd_split(0, 255);
#else
	static const uint8_t edge[] = { 0, 1, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF };
	uint8_t v = edge[vp_nd_split(0, sizeof(edge) - 1)];
#endif
#ifdef ICONV
	fail_open = vp_nd_split(0, 1);
	fail_conv = vp_nd_split(0, 1);
#endif
	char want[2 * LEN + 1];
	size_t n = 0, fit = 0;
	int control = 0, ended = 0;
	for (int i = 0; i < LEN; ++i) {
		uint8_t c = i == pos ? v : pat(i);
		in[i] = c;
		if (!c) ended = 1;
		if (ended) continue;
		if (c < 0x20 || (c >= 0x7F && c < 0xA0)) control = 1;
		if (c < 0x80) {
			want[n++] = (char)c;
		} else {
			want[n++] = (char)(0xC0 | (c >> 6));
			want[n++] = (char)(0x80 | (c & 0x3F));
		}
		if (n + 1 <= OUT) fit = n;
	}
	want[n] = 0;
#ifdef ICONV
	if (ended)
		return; /* texts do not contain NUL */
#endif
	for (int i = 0; i < OUT; ++i) out[i] = 0x55;
	int r = iso8859_to_utf8(CP, in, LEN, out, OUT);
#ifdef ICONV
	VP_CHECK(!bad_open && !bad_conv, "C28: the conversion is requested for this code page and this text");
	VP_CHECK(nopen == 1 && nconv == !fail_open && nclose == nconv, "C28: the converter is used and released once");
	if (fail_open) {
		VP_CHECK(r < 0, "C28: missing converter reported");
		return;
	}
	if (fail_conv) {
		VP_CHECK(r > 0, "C28: failed conversion reported");
		return;
	}
#endif
	if (control && r)
		return; /* control characters are not displayable: may be refused */
	/* text which does not fit is cut at a character or refused */
	if (r > 0 && n + 1 > OUT)
		return;
	VP_CHECK(r == 0, "C28: displayable text is converted");
	for (size_t i = 0; i < fit; ++i)
		VP_CHECK(out[i] == want[i], "C28: output is the equivalent UTF-8 text");
	VP_CHECK(out[fit] == 0, "C28: output ends with the last character that fits");
	for (int i = 0; i < LEN; ++i)
		VP_CHECK(in[i] == (i == pos ? v : pat(i)), "C28: input unchanged");
}

void h_codepage(void)
{
	unsigned cp = (unsigned)vp_nd_split(0, 64);
	if (cp == 64) cp = (unsigned)Frama_C_unsigned_int_interval(64, 0xFFFFFFFF);
#ifdef ICONV
	int want = cp >= 1 && cp <= 15 && cp != 12;
#else
	int want = cp == 1;
#endif
	VP_CHECK(iso8859_is_supported(cp) == want, "C28: support reported correctly");
	if (!want) {
		in[0] = 'A';
		out[0] = 'x';
		int r = iso8859_to_utf8(cp, in, 1, out, OUT);
		VP_CHECK(r > 0, "C28: unsupported code page reported");
		VP_CHECK(out[0] == 0, "C28: no text for an unsupported code page");
		VP_CHECK(nopen == 0, "C28: no conversion for an unsupported code page");
	}
}

void h_args(void)
{
	in[0] = 'A';
	VP_CHECK(iso8859_to_utf8(1, 0, 1, out, OUT) < 0 && iso8859_to_utf8(1, in, 0, out, OUT) < 0
		&& iso8859_to_utf8(1, in, 1, 0, OUT) < 0 && iso8859_to_utf8(1, in, 1, out, 0) < 0, "C28: missing arguments refused");
}
