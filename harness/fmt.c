/* C20: conversions between packed fields, integers and text are exact */
#include "str_env.h"
#ifndef LEN
#define LEN 3
#endif
static int POS; /* which position varies */
#ifndef NPOS
#define NPOS (LEN ? LEN : 1)
#endif
static void choose(void) { POS = vp_nd_split(0, NPOS - 1); }
#ifndef PAT
#define PAT 0
#endif
static uint8_t buf[16];
static char out[64];
/* the byte at POS takes every value, one path per value; the others follow a pattern */
static uint8_t pick(void)
{
#if LEN <= 2 && !defined(FEW)
	return (uint8_t)vp_nd_split(0, 255);
#else
	/* every value of either half */
	int k = vp_nd_split(0, 31);
	return (uint8_t)(k < 16 ? (k << 4 | 5) : (0x30 | (k - 16)));
#endif
}
static uint8_t pat(int i)
{
	switch (PAT) {
		case 0: return 0x00;
		case 1: return 0x99;
		case 2: return (uint8_t)(0x12 + 0x11 * i);
		default: return 0x42;
	}
}
static const uint8_t* field(uint8_t v)
{
	uint8_t* p = buf + sizeof(buf) - LEN;
	for (int i = 0; i < LEN; ++i)
		p[i] = i == POS ? v : pat(i);
	return p;
}
static int bad(uint8_t v) { return (v >> 4) > 9 || (v & 15) > 9; }

void h_n_to_uint(void)
{
	choose();
	uint8_t v = pick();
	const uint8_t* p = field(v);
	uint64_t want = 0;
	int invalid = 0;
	for (int i = 0; i < LEN; ++i) {
		if (bad(p[i]))
			invalid = 1;
		want = want * 100 + (p[i] >> 4) * 10 + (p[i] & 15);
	}
	uint32_t got = 0;
	int r = emv_format_n_to_uint(p, LEN, &got);
	if (invalid)
		VP_CHECK(r > 0, "C20: invalid digit refused");
	else if (want > 0xFFFFFFFFULL)
		VP_CHECK(r > 0, "C20: value beyond 32 bits refused");
	else
		VP_CHECK(r == 0 && got == want, "C20: packed decimal to integer");
}
/* values around the largest 32-bit integer: 4294967295 */
void h_n_limit(void)
{
	static const uint8_t lim[5] = { 0x42, 0x94, 0x96, 0x72, 0x95 };
	uint8_t* p = buf + sizeof(buf) - LEN;
	uint64_t want = 0;
	int d = vp_nd_split(-15, 15);
	uint64_t x = 4294967295ULL + d;
	for (int i = LEN - 1; i >= 0; --i) {
		p[i] = (uint8_t)(((x / 10) % 10) * 16 + x % 10);
		x /= 100;
	}
	uint32_t got = 0;
	int r = emv_format_n_to_uint(p, LEN, &got);
	if (d > 0)
		VP_CHECK(r > 0, "C20: value just beyond 32 bits refused");
	else
		VP_CHECK(r == 0 && got == (uint32_t)(4294967295ULL + d), "C20: largest 32-bit values");
}
void h_b_to_uint(void)
{
	choose();
	uint8_t v = pick();
	const uint8_t* p = field(v);
	uint32_t want = 0, got = 0;
	for (int i = 0; i < LEN; ++i)
		want = want * 256 + p[i];
	int r = emv_format_b_to_uint(p, LEN, &got);
	if (LEN <= 4)
		VP_CHECK(r == 0 && got == want, "C20: binary to integer");
	else
		VP_CHECK(r < 0, "C20: binary field longer than an integer refused");
}
/* integer to field: one decimal/binary position varies */
static uint32_t value_dec(uint32_t* digit)
{
	static const uint32_t base[4] = { 0, 4000000000U, 1234567890U, 999999999U };
	static const uint32_t pw[10] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000 };
	uint32_t b = base[PAT], d = vp_nd_split(0, 9), old;
	uint32_t p = pw[POS];
	old = (b / p) % 10;
	uint64_t v = (uint64_t)b - (uint64_t)old * p + (uint64_t)d * p;
	VP_ASSUME(v <= 0xFFFFFFFFULL);
	*digit = d;
	return (uint32_t)v;
}
void h_uint_to_n(void)
{
	choose();
	uint32_t d, v = value_dec(&d), x = v;
	uint8_t* p = buf + sizeof(buf) - LEN;
	vp_fill(p, LEN);
	const uint8_t* r = emv_uint_to_format_n(v, p, LEN);
	VP_CHECK(r == p, "C20: integer to packed decimal returns its buffer");
	for (int i = LEN - 1; i >= 0; --i) {
		uint8_t e = (uint8_t)(((x / 10) % 10) << 4 | x % 10);
		VP_CHECK(p[i] == e, "C20: integer to packed decimal");
		x /= 100;
	}
	if (!x) {
		uint32_t back = ~v;
		int q = emv_format_n_to_uint(p, LEN, &back);
		VP_CHECK(q == 0 && back == v, "C20: packed decimal round trip");
	}
}
void h_uint_to_b(void)
{
	choose();
	uint32_t v = ((uint32_t)(uint8_t)vp_nd_split(0, 255) << (8 * POS)) | (PAT == 1 ? ~(0xFFU << (8 * POS)) : PAT == 2 ? 0x12345678U & ~(0xFFU << (8 * POS)) : 0), x = v;
	uint8_t* p = buf + sizeof(buf) - LEN;
	vp_fill(p, LEN);
	const uint8_t* r = emv_uint_to_format_b(v, p, LEN);
	VP_CHECK(r == p, "C20: integer to binary returns its buffer");
	for (int i = LEN - 1; i >= 0; --i) {
		VP_CHECK(p[i] == (uint8_t)x, "C20: integer to binary");
		x >>= 8;
	}
	if (LEN >= 4) {
		uint32_t back = ~v;
		int q = emv_format_b_to_uint(p + (LEN - 4), 4, &back);
		VP_CHECK(q == 0 && back == v, "C20: binary round trip");
	}
}
/* text of a packed field */
void h_n_str(void)
{
	choose();
	uint8_t v = pick();
	const uint8_t* p = field(v);
	char want[2 * LEN + 2];
	size_t n = 0;
	int invalid = 0;
	for (int i = 0; i < 2 * LEN; ++i) {
		uint8_t d = i & 1 ? p[i / 2] & 15 : p[i / 2] >> 4;
		if (d > 9)
			invalid = 1;
		if (d || n || i == 2 * LEN - 1)
			want[n++] = '0' + d;
	}
	want[n] = 0;
	size_t cap = vp_nd_split(0, 2) == 0 ? n : vp_nd_split(0, 1) ? n + 1 : 2 * LEN + 2;
	char* o = out + sizeof(out) - cap;
	int r = emv_format_n_get_string(p, LEN, o, cap);
	if (invalid)
		VP_CHECK(r != 0, "C20: text of invalid packed decimal refused");
	else if (cap <= n)
		VP_CHECK(r < 0, "C20: text longer than the output refused");
	else {
		VP_CHECK(r == 0, "C20: text of packed decimal accepted");
		for (size_t i = 0; i <= n; ++i)
			VP_CHECK(o[i] == want[i], "C20: text of packed decimal");
	}
}
void h_cn_str(void)
{
	choose();
	uint8_t v = pick();
	const uint8_t* p = field(v);
	char want[2 * LEN + 2];
	size_t n = 0;
	int invalid = 0, padded = 0;
	for (int i = 0; i < 2 * LEN && !padded && !invalid; ++i) {
		uint8_t d = i & 1 ? p[i / 2] & 15 : p[i / 2] >> 4;
		if (d == 15)
			padded = 1;
		else if (d > 9)
			invalid = 1;
		else
			want[n++] = '0' + d;
	}
	want[n] = 0;
	size_t cap = 2 * LEN + vp_nd_split(0, 2);
	char* o = out + sizeof(out) - cap;
	int r = emv_format_cn_get_string(p, LEN, o, cap);
	if (invalid)
		VP_CHECK(r != 0, "C20: text of invalid compressed decimal refused");
	else if (cap <= n)
		VP_CHECK(r < 0, "C20: compressed decimal text longer than the output refused");
	else if (cap > 2 * LEN) {
		VP_CHECK(r == 0, "C20: text of compressed decimal accepted");
		for (size_t i = 0; i <= n; ++i)
			VP_CHECK(o[i] == want[i], "C20: text of compressed decimal");
	}
}
/* packed field from text: text of LEN characters into fields of OUT bytes */
#ifndef OUTL
#define OUTL 3
#endif
static char text[16];
static const char* mktext(uint8_t v)
{
	char* t = text + sizeof(text) - LEN - 1;
	for (int i = 0; i < LEN; ++i)
		t[i] = i == POS ? (char)v : (char)('1' + (i + PAT) % 9);
	t[LEN] = 0;
	return t;
}
void h_to_cn(void)
{
	choose();
	uint8_t v = LEN ? (uint8_t)vp_nd_split(1, 255) : '1';
	const char* t = mktext(v);
	uint8_t* o = buf + sizeof(buf) - OUTL;
	vp_fill(o, OUTL);
	int r = emv_str_to_format_cn(t, o, OUTL);
	int used = LEN < 2 * OUTL ? LEN : 2 * OUTL;
	int invalid = 0;
	for (int i = 0; i < used; ++i)
		if (t[i] < '0' || t[i] > '9')
			invalid = 1;
	if (invalid) {
		VP_CHECK(r > 0, "C20: invalid character for compressed decimal refused");
		return;
	}
	VP_CHECK(r == 0 || LEN > 2 * OUTL, "C20: text to compressed decimal accepted");
	if (r == 0)
		for (int i = 0; i < 2 * OUTL; ++i) {
			uint8_t d = i & 1 ? o[i / 2] & 15 : o[i / 2] >> 4;
			VP_CHECK(d == (i < LEN ? t[i] - '0' : 15), "C20: text to compressed decimal");
		}
}
void h_to_n(void)
{
	choose();
	uint8_t v = LEN ? (uint8_t)vp_nd_split(1, 255) : '1';
	const char* t = mktext(v);
	uint8_t* o = buf + sizeof(buf) - OUTL;
	vp_fill(o, OUTL);
	int r = emv_str_to_format_n(t, o, OUTL);
	int used = LEN < 2 * OUTL ? LEN : 2 * OUTL;
	int invalid = 0;
	for (int i = LEN - used; i < LEN; ++i)
		if (t[i] < '0' || t[i] > '9')
			invalid = 1;
	if (invalid) {
		VP_CHECK(r > 0, "C20: invalid character for packed decimal refused");
		return;
	}
	VP_CHECK(r == 0 || LEN > 2 * OUTL, "C20: text to packed decimal accepted");
	if (r == 0)
		for (int i = 0; i < 2 * OUTL; ++i) {
			uint8_t d = i & 1 ? o[i / 2] & 15 : o[i / 2] >> 4;
			int j = i - (2 * OUTL - LEN);
			VP_CHECK(d == (j >= 0 ? t[j] - '0' : 0), "C20: text to packed decimal");
		}
}
/* character fields */
#ifndef FMT
#define FMT 0
#endif
static int in_format(uint8_t c)
{
	int al = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
	int dg = c >= '0' && c <= '9';
	switch (FMT) {
		case 0: return al;
		case 1: return al || dg;
		case 2: return al || dg || c == ' ';
		default: return c >= 0x20 && c < 0x7F;
	}
}
void h_text(void)
{
	choose();
	uint8_t v = pick();
	VP_ASSUME(FMT != 3 || v != 0x7F);
	uint8_t* p = buf + sizeof(buf) - LEN;
	for (int i = 0; i < LEN; ++i)
		p[i] = i == POS ? v : (uint8_t)vp_nd('A', 'Z');
	size_t cap = LEN + vp_nd_split(0, 2);
	char* o = out + sizeof(out) - cap;
	int r = FMT == 0 ? emv_format_a_get_string(p, LEN, o, cap) : FMT == 1 ? emv_format_an_get_string(p, LEN, o, cap) :
		FMT == 2 ? emv_format_ans_only_space_get_string(p, LEN, o, cap) : emv_format_ans_ccs_get_string(p, LEN, o, cap);
	if (!in_format(v))
		VP_CHECK(r != 0, "C20: character outside the format refused");
	else if (cap < LEN + 1)
		VP_CHECK(r < 0, "C20: text without room for its terminator refused");
	else {
		VP_CHECK(r == 0, "C20: characters of the format accepted");
		VP_CHECK(o[LEN] == 0 && (uint8_t)o[POS] == v, "C20: characters copied exactly");
		for (int i = 0; i < LEN; ++i)
			VP_CHECK(o[i] != 0, "C20: text of full length");
	}
}
void h_amount(void)
{
	choose();
	uint32_t d, v = value_dec(&d), x = v;
	uint8_t* p = buf + sizeof(buf) - 4;
	for (int i = 3; i >= 0; --i) {
		p[i] = (uint8_t)x;
		x >>= 8;
	}
	char want[11];
	size_t n = 0;
	uint32_t y = v;
	char rev[10];
	do {
		rev[n++] = '0' + y % 10;
		y /= 10;
	} while (y);
	for (size_t i = 0; i < n; ++i)
		want[i] = rev[n - 1 - i];
	want[n] = 0;
	size_t cap = n + vp_nd_split(0, 2);
	char* o = out + sizeof(out) - cap;
	int r = emv_amount_get_string(p, 4, o, cap);
	if (cap <= n)
		VP_CHECK(r != 0, "C20: amount text longer than the output refused");
	else {
		VP_CHECK(r == 0, "C20: amount text accepted");
		for (size_t i = 0; i <= n; ++i)
			VP_CHECK(o[i] == want[i], "C20: amount text");
	}
	uint8_t big[5] = { 0, 1, 2, 3, 4 };
	VP_CHECK(emv_amount_get_string(big, 5, out, 20) != 0, "C20: amount of more than four octets refused");
}
/* lenient conversions used for display names */
void h_hex(void)
{
	choose();
	uint8_t v = pick();
	const uint8_t* p = field(v);
	size_t cap = 1 + vp_nd_split(0, 2 * LEN + 1);
	char* o = out + sizeof(out) - cap;
	int r = emv_format_b_to_str(p, LEN, o, cap);
	VP_CHECK(r == 0, "C20: hexadecimal text accepted");
	size_t n = 2 * LEN < cap - 1 ? 2 * LEN : cap - 1;
	for (size_t i = 0; i < n; ++i) {
		uint8_t d = i & 1 ? p[i / 2] & 15 : p[i / 2] >> 4;
		VP_CHECK(o[i] == "0123456789ABCDEF"[d], "C20: hexadecimal text");
	}
	VP_CHECK(o[n] == 0, "C20: hexadecimal text terminated");
}
void h_fmt_args(void)
{
	uint8_t b[2] = { 0x12, 0x34 };
	char s[8];
	uint32_t v;
	size_t z = vp_nd_split(0, 2);
	/* z selects which argument is missing */
	const uint8_t* p = z == 0 ? NULL : b;
	size_t pl = z == 1 ? 0 : 2;
	char* o = z == 2 ? NULL : s;
	VP_CHECK(emv_format_a_get_string(p, pl, o, 8) < 0 && emv_format_an_get_string(p, pl, o, 8) < 0 &&
		emv_format_ans_only_space_get_string(p, pl, o, 8) < 0 && emv_format_ans_ccs_get_string(p, pl, o, 8) < 0 &&
		emv_format_cn_get_string(p, pl, o, 8) < 0 && emv_format_n_get_string(p, pl, o, 8) < 0 &&
		emv_format_b_to_str(p, pl, o, 8) < 0, "C20: missing arguments refused");
	VP_CHECK(emv_format_n_to_uint(p, pl, z == 2 ? NULL : &v) < 0 && emv_format_b_to_uint(p, pl, z == 2 ? NULL : &v) < 0, "C20: missing integer arguments refused");
	VP_CHECK(emv_str_to_format_cn(z == 0 ? NULL : "1", z == 1 ? NULL : b, z == 2 ? 0 : 2) < 0 && emv_str_to_format_n(z == 0 ? NULL : "1", z == 1 ? NULL : b, z == 2 ? 0 : 2) < 0, "C20: missing text arguments refused");
	VP_CHECK(emv_uint_to_format_n(1, z == 0 ? NULL : b, z ? 0 : 2) == NULL && emv_uint_to_format_b(1, z == 0 ? NULL : b, z ? 0 : 2) == NULL, "C20: missing output refused");
	VP_CHECK(emv_format_a_get_string(b, 2, s, 0) < 0 && emv_format_n_get_string(b, 2, s, 0) < 0 && emv_format_cn_get_string(b, 2, s, 0) < 0, "C20: empty output refused");
}

/* display text: characters that cannot be displayed are left out, the others kept in order */
#ifndef ANSF
#define ANSF 0
#endif
static int kept(uint8_t c)
{
	int alnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == ' ';
	return ANSF ? alnum : (c >= 0x20 && c <= 0x7E) || c >= 0xA0;
}
void h_ans(void)
{
	static const uint8_t others[4] = { 'x', 0x1B, '7', 0x9F };
	uint8_t* p = buf + sizeof(buf) - LEN;
	int at = vp_nd_split(0, LEN - 1), rot = LEN == 3 ? 0 : vp_nd_split(0, 3);
	for (int i = 0; i < LEN; ++i)
		p[i] = i == at ? (uint8_t)vp_nd_split(0, 255) : others[(i + rot) & 3];
	size_t cap = 1 + vp_nd_split(0, LEN);
	char* o = out + sizeof(out) - cap;
	int r = ANSF ? emv_format_ans_to_alnum_space_str(p, LEN, o, cap) : emv_format_ans_to_non_control_str(p, LEN, o, cap);
	VP_CHECK(r == 0, "C20: display text accepted");
	if (r)
		return;
	size_t w = 0;
	for (int i = 0; i < LEN && w + 1 < cap; ++i)
		if (kept(p[i])) {
			VP_CHECK((uint8_t)o[w] == p[i], "C20: displayable characters kept in order");
			++w;
		}
	VP_CHECK(o[w] == 0, "C20: display text terminated after the characters that fit");
}
void h_ans_args(void)
{
	uint8_t b[2] = { 'a', 'b' };
	char s[4];
	int (*f)(const uint8_t*, size_t, char*, size_t) = vp_nd_bool() ? emv_format_ans_to_alnum_space_str : emv_format_ans_to_non_control_str;
	VP_CHECK(f(NULL, 2, s, 4) < 0 && f(b, 0, s, 4) < 0 && f(b, 2, NULL, 4) < 0 && f(b, 2, s, 0) < 0, "C20: missing argument refused");
}
