/* C21 (and C01): answer-to-reset parsing and EMV acceptance.
   The ATR is assembled from a fixed shape (which bytes are announced, which
   protocols are named) with one byte taking every value, and the library's
   verdict and reported parameters are compared with those of an independent
   reading of the bytes. */
#include "vp_env.h"
#include "vp_in.h"
#include "iso7816.h"
#include "emv.h"
#include <stdbool.h>
#include "iso8859.h"
bool iso8859_is_supported(unsigned int codepage) { return false; }
int iso8859_to_utf8(unsigned int codepage, const uint8_t* in, size_t n, char* out, size_t on) { return -1; }
/* announced bytes: 1 TA, 2 TB, 4 TC, 8 TD (TD has its protocol in Pi) */
#ifndef Y1
#define Y1 0
#endif
#ifndef Y2
#define Y2 0
#endif
#ifndef Y3
#define Y3 0
#endif
#ifndef Y4
#define Y4 0
#endif
#ifndef QP1
#define QP1 0
#endif
#ifndef QP2
#define QP2 0
#endif
#ifndef QP3
#define QP3 0
#endif
#ifndef QP4
#define QP4 0
#endif
/* which byte varies: 10*i + {1 TA, 2 TB, 3 TC, 4 TD protocol}; 1 TS, 2 TCK; 0 none */
#ifndef VAR
#define VAR 0
#endif
/* historical bytes */
#ifndef HK
#define HK 0
#endif
/* other values for the bytes which stay fixed */
#ifndef TA1V
#define TA1V 0x13
#endif
#ifndef TB1V
#define TB1V 0x00
#endif
#ifndef TC1V
#define TC1V 0x00
#endif
static uint8_t buf[40];
static int n;
static int ta[5], tb[5], tc[5], td[5]; /* -1 absent, else value */
static int hpos, hlen, tck_at;
static int var(int id, int dflt)
{
#ifdef FEWV
	static const uint8_t few[] = { 0, 1, 2, 3, 4, 5, 9, 0xA, 0xB, 0xF, 0x10, 0x11, 0x13, 0x14, 0x20, 0x25, 0x31, 0x32, 0x33, 0x3B, 0x3F, 0x40,
		0x41, 0x45, 0x46, 0x47, 0x48, 0x4D, 0x50, 0x55, 0x60, 0x7F, 0x80, 0x81, 0x91, 0x99, 0xA5, 0xC0, 0xC7, 0xFA, 0xFB, 0xFE, 0xFF };
	return VAR == id ? few[vp_nd_split(0, (int)sizeof(few) - 1)] : dflt;
#else
	return VAR == id ? vp_nd_split(0, 255) : dflt;
#endif
}
static const uint8_t HB[12][16] = {
	{ 0 },
	{ 0xC1, 0x11, 0x22, 0x33 },                   /* proprietary */
	{ 0x00, 0x41, 0xAA, 0x07, 0x90, 0x00 },       /* compact TLV, then status indicator */
	{ 0x80, 0x41, 0xAA, 0x81, 0x05 },             /* status indicator of 1, 2, 3 bytes */
	{ 0x80, 0x82, 0x62, 0x83, 0x31, 0xBB },
	{ 0x80, 0x31, 0xBB, 0x83, 0x03, 0x69, 0x85 },
	{ 0x80, 0x31, 0xBB },                         /* none */
	{ 0x10, 0x85 },                               /* directory data reference */
	{ 0x00, 0x05, 0x90, 0x00 },                   /* just the status indicator */
	{ 0x80 },                                     /* nothing after the category */
	{ 0x00, 0x90, 0x00 },                         /* too short for the mandatory status indicator */
	{ 0x80, 0x43, 0xAA },                         /* field longer than the historical bytes */
};
static const int HL[12] = { 0, 4, 6, 5, 6, 7, 3, 2, 4, 1, 3, 3 };
static int build(void)
{
	static const int Y[5] = { 0, Y1, Y2, Y3, Y4 };
	static const int P[5] = { 0, QP1, QP2, QP3, QP4 };
	int tckm = 0;
	buf[n++] = var(1, 0x3B);
	buf[n++] = Y1 << 4 | HL[HK];
	int prot = 0;
	for (int i = 1; i < 5; ++i) {
		ta[i] = tb[i] = tc[i] = td[i] = -1;
	}
	for (int i = 1; i < 5; ++i) {
		if (Y[i] & 1) ta[i] = buf[n++] = var(10 * i + 1, i == 1 ? TA1V : i == 2 ? QP1 : prot == 15 ? 0x03 : 0x20);
		if (Y[i] & 2) tb[i] = buf[n++] = var(10 * i + 2, i == 1 ? TB1V : i == 2 ? 50 : prot == 15 ? 0x80 : 0x45);
		if (Y[i] & 4) tc[i] = buf[n++] = var(10 * i + 3, i == 1 ? TC1V : i == 2 ? 0x0A : 0);
		if (!(Y[i] & 8)) break;
		int p = VAR == 10 * i + 4 ? vp_nd_split(0, 15) : P[i];
		td[i] = buf[n++] = (i < 4 ? Y[i + 1] << 4 : 0) | p;
		prot = p;
		if (p) tckm = 1;
	}
	hpos = n;
	hlen = HL[HK];
	for (int i = 0; i < hlen; ++i) buf[n++] = HB[HK][i];
	if (tckm) {
		uint8_t x = 0;
		for (int i = 1; i < n; ++i) x ^= buf[i];
		tck_at = n;
		buf[n++] = x ^ var(2, 0);
	}
	return tckm;
}
static int first(const int* t, int p)
{
	for (int i = 3; i < 5; ++i)
		if (td[i - 1] >= 0 && (td[i - 1] & 15) == p && t[i] >= 0) return t[i];
	return -1;
}
static const int DI[16] = { 0, 1, 2, 4, 8, 16, 32, 64, 12, 20 };
static const int FI[16] = { 372, 372, 558, 744, 1116, 1488, 1860, 0, 0, 512, 768, 1024, 1536, 2048 };
static const float FM[16] = { 4, 5, 6, 8, 12, 16, 20, 0, 0, 5, 7.5f, 10, 15, 20 };
static int iso_ok(int tckm)
{
	if (buf[0] != 0x3B && buf[0] != 0x3F) return 0;
	int a1 = ta[1] >= 0 ? ta[1] : 0x11;
	if (!DI[a1 & 15] || !FI[a1 >> 4]) return 0;
	int b1 = tb[1] >= 0 ? tb[1] : 0x25;
	if (b1 && ((b1 & 31) < 5 || (b1 & 31) > 25 || (b1 & 0x60) == 0x60)) return 0;
	if (tb[2] >= 0 && (!b1 || tb[2] < 50 || tb[2] > 250)) return 0;
	if (tc[2] == 0) return 0;
	if (td[1] >= 0 && (td[1] & 15) > 1) return 0;
	for (int i = 2; i < 5; ++i)
		if (td[i] >= 0 && (td[i] & 15) > 1 && (td[i] & 15) != 15) return 0;
	for (int i = 3; i < 5; ++i) {
		int p = td[i - 1] & 15;
		if (td[i - 1] < 0) break;
		if (p == 15 && ta[i] >= 0 && ((ta[i] & 0x3F) < 1 || (ta[i] & 0x3F) > 7)) return 0;
		if (p == 1 && (ta[i] == 0 || ta[i] == 0xFF)) return 0;
		if (p == 1 && tb[i] >= 0 && tb[i] >> 4 > 9) return 0;
	}
	if (HK >= 10) return 0;
	if (tckm && VAR == 2) {
		uint8_t x = 0;
		for (int i = 1; i <= tck_at; ++i) x ^= buf[i];
		if (x) return 0;
	}
	return 1;
}
static int emv_ok(int iso)
{
	if (!iso) return 0;
	int p1 = td[1] >= 0 ? td[1] & 15 : 0;
	if (ta[1] >= 0) {
		if (ta[2] >= 0 ? ta[1] < 0x11 || ta[1] > 0x13 : ta[1] < 0x10 || (ta[1] & 15) < 3) return 0;
	}
	if (tc[1] > 0 && tc[1] != 0xFF) return 0;
	if (ta[2] >= 0 && ((ta[2] & 15) != p1 || ta[2] & 0x10)) return 0;
	if (tc[2] >= 0 && (p1 != 0 || tc[2] != 10)) return 0;
	if (td[2] >= 0 && (td[2] & 15) != (p1 ? 1 : 15)) return 0;
	if (td[2] < 0 && p1) return 0;
	if (td[2] >= 0 && (td[2] & 15) == 1) {
		if (ta[3] >= 0 && ta[3] < 0x10) return 0;
		if (tb[3] < 0 || tb[3] >> 4 > 4 || (tb[3] & 15) > 5) return 0;
		if (tc[3] > 0) return 0;
	}
	return 1;
}
static struct iso7816_atr_info_t info;
/* announced byte reported as encoded, absent byte as null */
static int same(const uint8_t* p, int v) { return v < 0 ? p == NULL : p != NULL && *p == v; }
static void check_info(int tckm)
{
	int a1 = ta[1] >= 0 ? ta[1] : 0x11, b1 = tb[1] >= 0 ? tb[1] : 0x25, N = tc[1] >= 0 ? tc[1] : 0;
	int p1 = td[1] >= 0 ? td[1] & 15 : 0;
	VP_CHECK(info.TS == buf[0] && info.T0 == buf[1] && info.K_count == hlen, "C21: characters reported as encoded");
	for (int i = 1; i < 5; ++i)
		VP_CHECK(same(info.TA[i], ta[i]) && same(info.TB[i], tb[i]) && same(info.TC[i], tc[i]) && same(info.TD[i], td[i]), "C21: interface bytes reported as encoded");
	int di = DI[a1 & 15], fi = FI[a1 >> 4];
	VP_CHECK(info.global.Di == di && info.global.Fi == fi && info.global.fmax == FM[a1 >> 4], "C21: rate parameters");
	VP_CHECK(info.global.Vpp_connected == (b1 != 0), "C21: programming voltage connection");
	if (b1) {
		VP_CHECK(info.global.Vpp_course == (b1 & 31) * 1000 && info.global.Vpp == (tb[2] >= 0 ? tb[2] * 100 : (b1 & 31) * 1000), "C21: programming voltage");
		VP_CHECK(info.global.Ipp == (25 << (b1 >> 5 & 3)), "C21: programming current");
	}
	VP_CHECK(info.global.N == N && info.global.GT == (N != 255 ? 12 + N : p1 ? 11 : 12) && info.protocol_T1.CGT == (N != 255 ? 12 + N : 11), "C21: guard times");
	VP_CHECK(info.global.protocol == p1, "C21: preferred protocol");
	VP_CHECK(info.global.specific_mode == (ta[2] >= 0), "C21: specific mode");
	if (ta[2] >= 0)
		VP_CHECK(info.global.specific_mode_protocol == (ta[2] & 15) && info.global.etu_is_implicit == (ta[2] >> 4 & 1) && info.global.specific_mode_may_change == !(ta[2] >> 7), "C21: specific mode parameters");
	int a15 = first(ta, 15), b15 = first(tb, 15), at1 = first(ta, 1), bt1 = first(tb, 1), ct1 = first(tc, 1);
	VP_CHECK(info.global.card_classes == (a15 >= 0 ? a15 & 0x3F : 1) && info.global.clock_stop == (a15 >= 0 ? a15 >> 6 : 0), "C21: card classes and clock stop");
	VP_CHECK(info.global.spu == (b15 <= 0 ? ISO7816_SPU_NOT_USED : b15 & 0x80 ? ISO7816_SPU_PROPRIETARY : ISO7816_SPU_STANDARD), "C21: contact C6 use");
	int wi = tc[2] >= 0 ? tc[2] : 10;
	VP_CHECK(info.protocol_T0.WI == wi && info.protocol_T0.WT == 960 * di * wi, "C21: waiting time T=0");
	VP_CHECK(info.protocol_T1.IFSI == (at1 >= 0 ? at1 : 32), "C21: information field size");
	int cwi = bt1 >= 0 ? bt1 & 15 : 13, bwi = bt1 >= 0 ? bt1 >> 4 : 4;
	VP_CHECK(info.protocol_T1.CWI == cwi && info.protocol_T1.CWT == 11 + (1 << cwi), "C21: character waiting time");
	VP_CHECK(info.protocol_T1.BWI == bwi && info.protocol_T1.BWT == 11 + ((unsigned long long)(1 << bwi) * 960 * 372 * di) / fi, "C21: block waiting time");
	VP_CHECK(info.protocol_T1.error_detection_code == (ct1 > 0 && ct1 & 1 ? ISO7816_ERROR_DETECTION_CODE_CRC : ISO7816_ERROR_DETECTION_CODE_LRC), "C21: error detection code");
	if (tckm) VP_CHECK(info.TCK == buf[tck_at], "C21: check character");
	if (hlen) {
		VP_CHECK(info.T1 == HB[HK][0], "C21: category indicator");
		int h = hlen - 1 - (HB[HK][0] == 0 ? 3 : 0);
		VP_CHECK(info.historical_bytes != NULL && info.historical_bytes_len == h, "C21: historical bytes");
		if (info.historical_bytes != NULL && info.historical_bytes_len == h)
			for (int i = 0; i < h; ++i)
				VP_CHECK(info.historical_bytes[i] == HB[HK][1 + i], "C21: historical bytes");
	} else {
		VP_CHECK(info.historical_bytes == NULL && info.historical_bytes_len == 0, "C21: no historical bytes");
	}
	static const int SI[12][3] = { { 0 }, { 0 }, { 7, 0x90, 0 }, { 5, 0, 0 }, { 0, 0x62, 0x83 }, { 3, 0x69, 0x85 }, { 0 }, { 0 }, { 5, 0x90, 0 } };
	VP_CHECK(info.status_indicator.LCS == SI[HK][0] && info.status_indicator.SW1 == SI[HK][1] && info.status_indicator.SW2 == SI[HK][2], "C21: status indicator");
}
void h_atr(void)
{
	int tckm = build();
	int iso = iso_ok(tckm), ev = emv_ok(iso);
	vp_fill(&info, sizeof(info));
	const uint8_t* exact = buf;
	int r = iso7816_atr_parse(exact, n, &info);
	if (HK == 8 || HK == 9) {
		/* whether compact TLV bytes may be absent altogether is left open */
		if (r > 0) return;
	} else {
		VP_CHECK((r == 0) == iso && r >= 0, "C21: accepted exactly when consistent and free of reserved values");
	}
	if (r == 0) check_info(tckm);
	r = emv_atr_parse(exact, n);
	VP_CHECK(ev ? r == 0 : r == EMV_OUTCOME_CARD_ERROR, "C21: EMV acceptance rules");
}
/* every proper prefix lacks announced bytes */
void h_atr_short(void)
{
	build();
	int l = vp_nd_split(0, n - 1);
	uint8_t* exact = buf + 40 - n;
	for (int i = n - 1; i >= 0; --i) exact[i] = buf[i];
	exact += n - l;
	for (int i = 0; i < l; ++i) exact[i] = buf[40 - n + i];
	vp_fill(&info, sizeof(info));
	int r = iso7816_atr_parse(exact, l, &info);
	VP_CHECK(r > 0, "C21: answers lacking announced bytes are refused");
	r = emv_atr_parse(exact, l);
	VP_CHECK(l ? r == EMV_OUTCOME_CARD_ERROR : r < 0, "C21: answers lacking announced bytes are refused");
	/* more bytes than any answer can have */
	static uint8_t big[40];
	for (int i = 0; i < 40; ++i) big[i] = i < n ? buf[i] : 0;
	l = vp_nd_split(34, 40);
	r = iso7816_atr_parse(big, l, &info);
	VP_CHECK(r > 0, "C21: overlong answers are refused");
}
void h_atr_args(void)
{
	build();
	int r = iso7816_atr_parse(NULL, n, &info);
	VP_CHECK(r < 0, "C21: missing arguments are refused");
	r = iso7816_atr_parse(buf, n, NULL);
	VP_CHECK(r < 0, "C21: missing arguments are refused");
	r = emv_atr_parse(NULL, n);
	VP_CHECK(r < 0, "C21: missing arguments are refused");
	r = emv_atr_parse(buf, 0);
	VP_CHECK(r < 0, "C21: missing arguments are refused");
}
/* any arrangement of historical bytes, exactly as long as stated: two objects of
   any length and either kind, then fillers of either kind */
#ifdef KLEN
void h_atr_any(void)
{
	build();
	int l = hpos + KLEN + (Y1 & 8 ? 1 : 0) - vp_nd_split(0, 1);
	static uint8_t a[40];
	uint8_t* p = a + 40 - l;
	for (int i = 0; i < 40; ++i)
		if (i < hpos && i < l) p[i] = buf[i];
	if (l < 2) VP_DISCARD();
	p[1] = (p[1] & 0xF0) | KLEN;
	static const uint8_t cat[4] = { 0, 0x80, 0x10, 0xC0 };
	int tag1 = vp_nd_bool(), tag2 = vp_nd_bool(), fill = vp_nd_bool();
	int l1 = vp_nd_split(0, KLEN + 1), l2 = vp_nd_split(0, KLEN);
	if (hpos < l) p[hpos] = cat[vp_nd_split(0, KLEN ? 3 : 0)];
	for (int i = hpos + 1; i < 40; ++i) {
		if (i >= l) break;
		int k = i - hpos - 1;
		p[i] = k == 0 ? (tag1 ? 0x80 : 0x30) | (l1 & 15) : k == 1 + l1 ? (tag2 ? 0x80 : 0x30) | (l2 & 15) : fill ? 0x80 : 0x4F;
	}
	if (Y1 & 8 && l > hpos) {
		uint8_t x = 0;
		for (int i = 1; i + 1 < l; ++i) x ^= p[i];
		p[l - 1] = x;
	}
	vp_fill(&info, sizeof(info));
	int r = iso7816_atr_parse(p, l, &info);
	if (r == 0) {
		const uint8_t* e = info.atr + l;
		if (info.historical_bytes) {
			vp_touch(info.historical_bytes, info.historical_bytes_len);
			VP_CHECK(info.historical_bytes + info.historical_bytes_len <= e, "C01,C21: historical bytes lie inside the answer");
		}
		if (info.status_indicator_bytes) {
			vp_touch(info.status_indicator_bytes, info.status_indicator_bytes_len);
			VP_CHECK(info.status_indicator_bytes + info.status_indicator_bytes_len <= e, "C01,C21: status indicator lies inside the answer");
		}
	}
	r = emv_atr_parse(p, l);
}
#endif
