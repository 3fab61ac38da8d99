/* C07: commands sent by the transport layer's command functions */
#include "vp_env.h"
#include "vp_in.h"
#include "emv_ttl.h"
#include "iso7816_apdu.h"
#ifndef WHICH
#define WHICH 0
#endif
#ifndef ALEN
#define ALEN 6
#endif
#define INS_ (WHICH == 2 ? 0xB2 : WHICH == 3 ? 0xA8 : 0xA4)
static int nx, failing;
static uint8_t want[300];
static size_t want_len;
static size_t dlen; /* response data length */
static int sw1, sw2;
static struct emv_ttl_t ttl;
static int rdr(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	uint8_t* o = rx;
	VP_CHECK(c == &ttl, "C07: reader context passed through");
	VP_CHECK(nx == 0, "C07: one exchange for one final answer");
	++nx;
	VP_CHECK(n == want_len, "C07: command length");
	if (n != want_len)
		VP_DISCARD();
	for (size_t i = 0; i < want_len; ++i)
		VP_CHECK(t[i] == want[i], "C07: command bytes");
	if (failing)
		return vp_nd_bool() ? -7 : 9;
	for (size_t i = 0; i < dlen; ++i)
		o[i] = (uint8_t)(i * 7 + 1);
	o[dlen] = sw1;
	o[dlen + 1] = sw2;
	*rn = dlen + 2;
	return 0;
}
static uint8_t resp[300];
static uint8_t arg[300];
static void setup(void)
{
	ttl.cardreader.mode = EMV_CARDREADER_MODE_APDU;
	ttl.cardreader.ctx = &ttl;
	ttl.cardreader.trx = &rdr;
}
static void answers(void)
{
	static const int sws[6] = { 0x9000, 0x6A82, 0x6283, 0x6985, 0x6310, 0x6D00 };
	failing = vp_nd_bool();
	static const int lens[6] = { 0, 1, 2, 3, 255, 256 };
	dlen = lens[vp_nd_split(0, 5)];
	int k = vp_nd_split(0, 5);
	VP_ASSUME(dlen < 4 || (k == 0 && ALEN < 20));
	VP_ASSUME(ALEN < 20 || k < 2);
	/* warnings without data are followed by response retrieval: see C06 */
	VP_ASSUME(dlen || WHICH == 2 || (k != 2 && k != 4));
	sw1 = sws[k] >> 8;
	sw2 = sws[k] & 0xFF;
}
static int call(struct emv_ttl_t* t, const void* a, size_t n, int sfi, int rec, void* o, size_t* on, uint16_t* s)
{
	switch (WHICH) {
		case 0: return emv_ttl_select_by_df_name(t, a, n, o, on, s);
		case 1: return emv_ttl_select_by_df_name_next(t, a, n, o, on, s);
		case 2: return emv_ttl_read_record(t, (uint8_t)sfi, (uint8_t)rec, o, on, s);
		default: return emv_ttl_get_processing_options(t, a, n, o, on, s);
	}
}
void h_cmd(void)
{
	setup();
	size_t n = ALEN;
	int sfi = 1, rec = 1, ok = 1, nul = 0;
	uint8_t* a = arg + sizeof(arg) - n;
	for (size_t i = 0; i < n; ++i)
		a[i] = (uint8_t)(0x30 + i * 3);
	if (WHICH == 3) {
		if (n && vp_nd_bool())
			a[0] = 0x83;
		nul = n == 0;
		ok = nul || (n >= 2 && n <= 255 && a[0] == 0x83);
	} else if (WHICH == 2) {
#ifdef SFI
		sfi = SFI;
#else
		sfi = vp_nd_split(0, 255);
#endif
		rec = vp_nd_bool() ? 0xFF : 2;
		ok = sfi >= 1 && sfi <= 30;
	} else {
		ok = n >= 5 && n <= 16;
	}
	size_t cap = 256 + vp_nd_split(-1, 1);
	if (cap < 256)
		ok = 0;
	answers();
	size_t w = 0;
	want[w++] = WHICH == 3 ? 0x80 : 0x00;
	want[w++] = INS_;
	want[w++] = WHICH == 2 ? rec : WHICH == 3 ? 0 : 4;
	want[w++] = WHICH == 1 ? 2 : WHICH == 2 ? (sfi << 3 | 4) & 0xFF : 0;
	if (WHICH != 2) {
		if (nul) {
			want[w++] = 2;
			want[w++] = 0x83;
			want[w++] = 0;
		} else {
			want[w++] = (uint8_t)n;
			for (size_t i = 0; i < n && i < 255; ++i)
				want[w++] = a[i];
		}
	}
	want[w++] = 0;
	want_len = w;
	uint8_t* o = resp + sizeof(resp) - cap;
	size_t on = cap;
	uint16_t s = 0xFFFF;
	int r = call(&ttl, nul ? NULL : a, n, sfi, rec, o, &on, &s);
	if (!ok) {
		VP_CHECK(nx == 0 && r < 0, "C07: argument outside its range refused before anything is sent");
		return;
	}
	VP_CHECK(nx == 1, "C07: command sent");
	if (failing) {
		VP_CHECK(r != 0, "C07,C08: reader failure reported");
		return;
	}
	VP_CHECK(r == 0 && on == dlen && s == (sw1 << 8 | sw2), "C07: response length and status");
	if (r == 0)
		for (size_t i = 0; i < dlen && i < on; ++i)
			VP_CHECK(o[i] == (uint8_t)(i * 7 + 1), "C07: response data");
	for (size_t i = 0; i < n; ++i)
		VP_CHECK(a[i] == (WHICH == 3 && i == 0 && a[0] == 0x83 ? 0x83 : (uint8_t)(0x30 + i * 3)), "C07,C24: arguments not altered");
}
void h_cmd_args(void)
{
	setup();
	int k = vp_nd_split(0, 5);
	size_t on = 256, zero = 0;
	uint16_t s;
	uint8_t* o = resp;
	int r = call(k == 0 ? NULL : &ttl, k == 1 && WHICH < 2 ? NULL : arg, WHICH == 3 ? 0 : 6, 1, 1, k == 2 || (k == 1 && WHICH >= 2) ? NULL : o, k == 3 ? NULL : k == 4 ? &zero : &on, k == 5 ? NULL : &s);
	VP_CHECK(r < 0 && nx == 0, "C07: missing argument refused before anything is sent");
}
/* command classification: exhaustive over lengths and the three length bytes */
#ifndef VP_C5
#define VP_C5 0
#endif
static uint8_t apdu[8];
void h_case(void)
{
	size_t n = vp_nd_split(0, 270);
	apdu[4] = VP_C5;
	apdu[5] = vp_nd_split(0, 2);
	apdu[6] = vp_nd_split(0, 3);
	unsigned int e = apdu[5] * 256 + apdu[6];
	int want = -1;
	if (n == 4) want = ISO7816_APDU_CASE_1;
	else if (n == 5) want = ISO7816_APDU_CASE_2S;
	else if (n > 5 && VP_C5) want = n == 5 + VP_C5 ? ISO7816_APDU_CASE_3S : n == 6 + VP_C5 ? ISO7816_APDU_CASE_4S : -1;
	else if (n == 7) want = ISO7816_APDU_CASE_2E;
	else if (n > 7 && e) want = n == 7 + e ? ISO7816_APDU_CASE_3E : n == 9 + e ? ISO7816_APDU_CASE_4E : -1;
	int r = iso7816_apdu_case(n ? apdu : apdu, n);
	VP_CHECK(want < 0 ? r < 0 : r == want, "C07: command case");
	VP_CHECK(iso7816_apdu_case(NULL, n) < 0, "C07: missing command has no case");
}
void h_sw(void)
{
	int a = vp_nd_split(0x5F, 0x91), c = vp_nd_split(0, 2);
	int ok = a == 0x90 && c == 0, norm = ok || a == 0x61, warn = a == 0x62 || a == 0x63;
	VP_CHECK(iso7816_sw1sw2_is_success(a, c) == ok && iso7816_sw1sw2_is_normal(a, c) == norm && iso7816_sw1sw2_is_warning(a, c) == warn &&
		iso7816_sw1sw2_is_error(a, c) == (!norm && !warn), "C07: status classes");
}
