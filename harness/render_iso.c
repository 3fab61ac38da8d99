/* C04: rendering of APDUs, status words, card data and ATR bytes */
#include "vp_env.h"
#include "vp_in.h"
#include "vp_printf.h"
size_t vp_wrap_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
char* vp_wrap_strncpy(char* d, const char* s, size_t n)
{
	size_t i = 0;
	while (i < n && s[i]) { d[i] = s[i]; ++i; }
	while (i < n) d[i++] = 0;
	return d;
}
int vp_wrap_isprint(int c) { return c >= 0x20 && c < 0x7F; }
#include "iso7816_strings.c"
#include "iso7816.h"
#ifndef REAL_LIST
void vp_wrap_iso7816_str_list_add(struct str_itr_t* itr, const char* str)
{
	for (size_t n = 0; str[n]; ++n) ;
	if (itr->len) {
		itr->ptr[itr->len - 1] = 0;
		*itr->ptr = 0;
	}
}
#endif
static uint8_t in[272];
static char* out;
static size_t out_len;
#ifdef FEWS
#define SIZES 1: case 12: case 64
#endif
#ifndef SIZES
#define SIZES 1: case 2: case 3: case 8: case 12: case 33: case 64: case 128
#endif
static void mkout(void)
{
	int n = vp_nd_split(1, 256);
	switch (n) { case SIZES: break; default: VP_DISCARD(); }
	out_len = n;
	out = malloc(n);
}
static void terminated(void)
{
	for (size_t i = 0; i < out_len; ++i)
		if (!out[i])
			return;
	VP_NEVER("C04: success without terminated output");
}
void h_capdu(void)
{
	int n = vp_nd_split(0, NMAX);
	uint8_t* p = (uint8_t*)vp_input(in, sizeof(in), n);
	if (n > 1)
		p[1] = INSV;
	if (n > 4) {
		int k = vp_nd_split(0, 5);
		p[4] = k == 0 ? n - 5 : k == 1 ? n - 6 : k == 2 ? 0 : k == 3 ? 255 : k == 4 ? 2 : 1;
	}
	mkout();
	const char* s = iso7816_capdu_get_string(p, n, out, out_len);
	vp_reached("C04: rendered");
	if (s) {
		VP_CHECK(s == out, "C04: rendered into the given buffer");
		terminated();
		VP_POSSIBLE(1, "C04: rendering succeeds");
	}
	if (vp_nd_split(0, 1))
		iso7816_capdu_get_string(p, n, NULL, vp_nd_split(0, 1));
}
/* the longest SELECT */
void h_select(void)
{
	int n = vp_nd_split(258, 261), len = n;
	uint8_t* p = (uint8_t*)vp_input(in, sizeof(in), len);
	p[0] = 0; p[1] = 0xA4; p[2] = 4; p[3] = 0;
	p[4] = vp_nd_split(252, 255);
	int pr = vp_nd_split(0, 1);
	for (int i = 5; i < n; ++i)
		p[i] = pr ? 'A' : 0x07;
	out_len = 530;
	out = malloc(out_len);
	const char* s = iso7816_capdu_get_string(p, len, out, out_len);
	vp_reached("C04: rendered");
	if (s)
		terminated();
	VP_POSSIBLE(s != NULL, "C04: rendering succeeds");
}
void h_sw(void)
{
	uint8_t a = SW1V + vp_nd_split(0, 3), b = ND_U8();
	mkout();
	const char* s = iso7816_sw1sw2_get_string(a, b, out, out_len);
	vp_reached("C04: rendered");
	if (s)
		terminated();
	VP_POSSIBLE(s != NULL, "C04: rendering succeeds");
}
void h_svc(void)
{
	uint8_t v = ND_U8();
	mkout();
	int r = iso7816_card_service_data_get_string_list(v, out, out_len);
	VP_CHECK(iso7816_lcs_get_string(v), "C04: every life cycle status has a text");
	if (r == 0)
		terminated();
	VP_POSSIBLE(r == 0, "C04: rendering succeeds");
}
void h_caps(void)
{
	int n = vp_nd_split(0, 5);
	uint8_t* p = (uint8_t*)vp_input(in, sizeof(in), n);
	/* the last significant byte takes every value, earlier ones two each */
	if (n > 1)
		p[0] = vp_nd_split(0, 1) ? 0xFF : 0;
	if (n > 2)
		p[1] = vp_nd_split(0, 1) ? 0xF5 : 0x20;
	mkout();
	int r = iso7816_card_capabilities_get_string_list(p, n, out, out_len);
	if (r == 0)
		terminated();
	VP_POSSIBLE(r == 0, "C04: rendering succeeds");
}
#ifdef REAL_LIST
void h_list(void)
{
	static char text[8];
	mkout();
	struct str_itr_t itr;
	iso7816_str_list_init(&itr, out, out_len);
	terminated();
	int n = vp_nd_split(0, 3);
	for (int i = 0; i < n; ++i) {
		int l = vp_nd_split(0, 4);
		if (l == 3) l = 6;
		for (int k = 0; k < l; ++k)
			text[k] = 'a';
		text[l] = 0;
		iso7816_str_list_add(&itr, text);
		terminated();
	}
	VP_POSSIBLE(n == 3 && out_len == 8, "C04: list built");
}
#endif
