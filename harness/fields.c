/* C29: card data structures decode to exactly what is encoded */
#include "vp_env.h"
#include "vp_in.h"
#include "emv_fields.h"
#include "iso7816_compact_tlv.h"
#ifndef VP_LO
#define VP_LO 0
#define VP_HI 0
#endif
/* registered application identifiers and what they stand for */
static const struct { uint8_t b[10]; int n, scheme, product; } reg[] = {
	{ { 0xA0, 0x00, 0x00, 0x00, 0x03 }, 5, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10, 0x10 }, 7, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x03, 0x20, 0x10 }, 7, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_ELECTRON },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x03, 0x20, 0x20 }, 7, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_VPAY },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x03, 0x80, 0x10 }, 7, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_PLUS },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x98 }, 5, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_USA_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x04 }, 5, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x04, 0x10, 0x10 }, 7, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x04, 0x30, 0x60 }, 7, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x04, 0x60, 0x00 }, 7, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CIRRUS },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x04, 0x22, 0x03 }, 7, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x05 }, 5, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK },
	{ { 0xB0, 0x12, 0x34, 0x56, 0x78 }, 5, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_TEST },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x25 }, 5, EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x07, 0x90 }, 5, EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x01, 0x52 }, 5, EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x01, 0x52, 0x30, 0x10 }, 7, EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_CARD },
	{ { 0xA0, 0x00, 0x00, 0x01, 0x52, 0x40, 0x10 }, 7, EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x24 }, 5, EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_ZIP },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x42 }, 5, EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x42, 0x10, 0x10 }, 7, EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_CREDIT_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x42, 0x20, 0x10 }, 7, EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x00, 0x65 }, 5, EMV_CARD_SCHEME_JCB, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x01, 0x21 }, 5, EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x01, 0x21, 0x47, 0x11 }, 7, EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_VISADANKORT },
	{ { 0xA0, 0x00, 0x00, 0x01, 0x21, 0x47, 0x12 }, 7, EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_JSPEEDY },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x33 }, 5, EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x33, 0x01, 0x01, 0x01 }, 8, EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x33, 0x01, 0x01, 0x02 }, 8, EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_CREDIT },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x33, 0x01, 0x01, 0x03 }, 8, EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x33, 0x01, 0x01, 0x06 }, 8, EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x33, 0x01, 0x01, 0x08 }, 8, EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37 }, 5, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37, 0x10, 0x10, 0x00 }, 8, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_STANDARD },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37, 0x10, 0x10, 0x01 }, 8, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37, 0x10, 0x20, 0x00 }, 8, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37, 0x10, 0x20, 0x01 }, 8, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37, 0x30, 0x10, 0x00 }, 8, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x37, 0x60, 0x10, 0x01 }, 8, EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x59, 0x10, 0x10, 0x02, 0x80, 0x01 }, 10, EMV_CARD_SCHEME_DK, EMV_CARD_PRODUCT_DK_GIROCARD },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x71 }, 5, EMV_CARD_SCHEME_VERVE, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x84 }, 5, EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x84, 0x10 }, 6, EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_SAVINGS },
	{ { 0xA0, 0x00, 0x00, 0x03, 0x84, 0x20 }, 6, EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_CHEQUE },
	{ { 0xA0, 0x00, 0x00, 0x05, 0x24 }, 5, EMV_CARD_SCHEME_RUPAY, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x06, 0x58 }, 5, EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_UNKNOWN },
	{ { 0xA0, 0x00, 0x00, 0x06, 0x58, 0x10, 0x10 }, 7, EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_CREDIT },
	{ { 0xA0, 0x00, 0x00, 0x06, 0x58, 0x20, 0x10 }, 7, EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_DEBIT },
	{ { 0xA0, 0x00, 0x00, 0x07, 0x32 }, 5, EMV_CARD_SCHEME_MEEZA, EMV_CARD_PRODUCT_UNKNOWN },
};
#define NREG ((int)(sizeof(reg) / sizeof(reg[0])))
static void aid_is(const uint8_t* p, size_t n)
{
	int best = -1;
	for (int i = 0; i < NREG; ++i) {
		int m = n >= (size_t)reg[i].n;
		for (int j = 0; m && j < reg[i].n; ++j)
			m = p[j] == reg[i].b[j];
		if (m && (best < 0 || reg[i].n > reg[best].n))
			best = i;
	}
	struct emv_aid_info_t info;
	info.scheme = 99;
	info.product = 99;
	int r = emv_aid_get_info(p, n, &info);
	if (n < 5 || n > 16) {
		VP_CHECK(r != 0, "C29: identifier of invalid length refused");
		return;
	}
	if (best < 0) {
		VP_CHECK(r != 0 || (info.scheme == EMV_CARD_SCHEME_UNKNOWN && info.product == EMV_CARD_PRODUCT_UNKNOWN), "C29: unregistered identifier has no scheme");
		return;
	}
	VP_CHECK(r == 0 && (int)info.scheme == reg[best].scheme, "C29: scheme of a registered identifier");
	VP_CHECK(r != 0 || (int)info.product == reg[best].product, "C29: product of a registered identifier");
}
static uint8_t abuf[20];
/* every prefix and continuation of each registered identifier */
void h_aid(void)
{
	int k = vp_nd_split(VP_LO, VP_HI < NREG ? VP_HI : NREG - 1);
	size_t n = vp_nd_split(1, 18);
	uint8_t* p = abuf + sizeof(abuf) - n;
	uint8_t fill = vp_nd_split(0, 1) ? 0x10 : 0xE7;
	for (size_t i = 0; i < n; ++i)
		p[i] = (int)i < reg[k].n ? reg[k].b[i] : fill;
	aid_is(p, n);
}
/* one byte of a registered identifier replaced */
void h_aid_near(void)
{
	int k = vp_nd_split(VP_LO, VP_HI < NREG ? VP_HI : NREG - 1);
	size_t n = 16;
	uint8_t* p = abuf + sizeof(abuf) - n;
	int at = vp_nd_split(0, 9);
	VP_ASSUME(at < reg[k].n);
	static const uint8_t other[10] = { 0, 1, 2, 3, 5, 0x10, 0x20, 0x90, 0xB0, 0xFF };
	for (size_t i = 0; i < n; ++i)
		p[i] = (int)i < reg[k].n ? reg[k].b[i] : 0xE7;
	p[at] = other[vp_nd_split(0, 9)];
	aid_is(p, n);
}
void h_aid_args(void)
{
	struct emv_aid_info_t info;
	VP_CHECK(emv_aid_get_info(0, 7, &info) < 0 && emv_aid_get_info(abuf, 0, &info) < 0 && emv_aid_get_info(abuf, 7, 0) < 0, "C29: missing argument refused");
}

/* CVM list: amounts and rules */
static uint8_t cbuf[300];
void h_cvm(void)
{
	size_t n = vp_nd_split(0, 22);
	n = n < 17 ? n : n == 17 ? 250 : n == 18 ? 251 : n == 19 ? 252 : n == 20 ? 253 : n == 21 ? 254 : 256;
	uint8_t* p = cbuf + sizeof(cbuf) - n;
	for (size_t i = 0; i < n; ++i)
		p[i] = (uint8_t)(0xF1 - i * 29);
	int at = n >= 10 && n < 17 ? vp_nd_split(0, 10) : 0;
	if (n > (size_t)at) {
		static const uint8_t vals[6] = { 0, 1, 0x7F, 0x80, 0xFE, 0xFF };
		p[at] = vals[vp_nd_split(0, 5)];
	}
	struct emv_cvmlist_itr_t itr;
	struct emv_cvmlist_amounts_t am = { 1, 2 };
	int r = emv_cvmlist_itr_init(p, n, &am, &itr);
	if (n < 10 || (n & 1) || n > 252) {
		VP_CHECK(r != 0, "C29: verification method list of invalid length refused");
		return;
	}
	VP_CHECK(r == 0, "C29: verification method list accepted");
	if (r)
		return;
	uint32_t x = (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
	uint32_t y = (uint32_t)p[4] << 24 | (uint32_t)p[5] << 16 | (uint32_t)p[6] << 8 | p[7];
	VP_CHECK(am.X == x && am.Y == y, "C29: amounts of a verification method list");
	for (size_t i = 8; i < n; i += 2) {
		struct emv_cv_rule_t rule;
		r = emv_cvmlist_itr_next(&itr, &rule);
		VP_CHECK(r == 2, "C29: every rule is reported");
		if (r != 2)
			return;
		VP_CHECK(rule.cvm == p[i] && rule.cvm_cond == p[i + 1], "C29: rule and condition in order");
	}
	struct emv_cv_rule_t rule;
	VP_CHECK(emv_cvmlist_itr_next(&itr, &rule) == 0, "C29: nothing after the last rule");
	VP_CHECK(emv_cvmlist_itr_next(0, &rule) < 0 && emv_cvmlist_itr_next(&itr, 0) < 0, "C29: missing argument refused");
}
void h_cvm_args(void)
{
	struct emv_cvmlist_itr_t itr;
	struct emv_cvmlist_amounts_t am;
	VP_CHECK(emv_cvmlist_itr_init(0, 10, &am, &itr) < 0 && emv_cvmlist_itr_init(cbuf, 10, 0, &itr) < 0 && emv_cvmlist_itr_init(cbuf, 10, &am, 0) < 0, "C29: missing argument refused");
}

/* file locator: entries */
void h_afl(void)
{
	static const int NE[6] = { 1, 2, 3, 5, 62, 63 };
	int ne = NE[vp_nd_split(0, 5)];
	uint8_t* p = cbuf + sizeof(cbuf) - 4 * ne;
	for (int i = 0; i < ne; ++i) {
		p[4 * i] = (uint8_t)(1 + i % 30) << 3;
		p[4 * i + 1] = (uint8_t)(1 + i * 3);
		p[4 * i + 2] = (uint8_t)(1 + i * 3 + i % 4);
		p[4 * i + 3] = i % 2;
	}
	struct emv_afl_itr_t itr;
	struct emv_afl_entry_t e;
	int r = emv_afl_itr_init(p, 4 * ne, &itr);
	VP_CHECK(r == 0, "C29: file locator accepted");
	if (r)
		return;
	for (int i = 0; i < ne; ++i) {
		r = emv_afl_itr_next(&itr, &e);
		VP_CHECK(r == 4, "C29: every file locator entry is reported");
		if (r != 4)
			return;
		VP_CHECK(e.sfi == 1 + i % 30 && e.first_record == 1 + i * 3 && e.last_record == 1 + i * 3 + i % 4 && e.oda_record_count == i % 2, "C29: file locator entry as encoded");
	}
	VP_CHECK(emv_afl_itr_next(&itr, &e) == 0, "C29: nothing after the last file locator entry");
}

/* format of the issuer application data */
#ifndef IADN
#define IADN 32
#endif
void h_iad(void)
{
	size_t n = IADN;
	uint8_t* p = cbuf + sizeof(cbuf) - n;
	int k = vp_nd_split(0, 3);
	for (size_t i = 0; i < n; ++i)
		p[i] = 0x55;
	if (n > 0) {
		static const uint8_t b0[4] = { 0x06, 0x0F, 0x1F, 0x07 };
		p[0] = b0[vp_nd_split(0, 3)];
	}
	static const uint8_t bb[4] = { 0x03, 0x0F, 0x00, 0x04 };
	if (n > 3) p[3] = bb[k];
	if (n > 16) p[16] = k == 1 ? 0x0F : 0x0E;
	if (n > 8) p[8] = k == 2 ? 0x10 : k == 0 ? 0x80 : 0x0F;
	/* second and third octet: one of them takes every interesting value */
	static const uint8_t b1[8] = { 0x10, 0x15, 0x12, 0x18, 0x22, 0x42, 0xA5, 0xA6 };
	static const uint8_t b2[9] = { 0x00, 0x0A, 0x11, 0x1F, 0x22, 0x33, 0x40, 0x3F, 0xF0 };
	int every = vp_nd_split(0, 1);
	if (n > 1) p[1] = every ? vp_nd_split(0, 255) : b1[vp_nd_split(0, 7)];
	if (n > 2) p[2] = every ? 0x33 : b2[vp_nd_split(0, 8)];
	int f = emv_iad_get_format(p, n);
	int want = EMV_IAD_FORMAT_UNKNOWN;
	if (n == 0) want = EMV_IAD_FORMAT_INVALID;
	else if (n == 32 && p[0] == 0x0F && (p[1] == 0xA5 || p[1] == 0xA6) && p[16] == 0x0F) want = EMV_IAD_FORMAT_CCD;
	else if ((n == 18 || n == 20 || n == 26 || n == 28) && (p[1] & 0xFA) == 0x10) want = n == 18 ? EMV_IAD_FORMAT_MCHIP4 : EMV_IAD_FORMAT_MCHIP_ADVANCE;
	else if (n >= 7 && p[0] == 6 && p[3] == 3) {
		int c = p[2] >> 4;
		want = c == 0 ? EMV_IAD_FORMAT_VSDC_0 : c == 1 ? EMV_IAD_FORMAT_VSDC_1 : c == 3 ? EMV_IAD_FORMAT_VSDC_3 : EMV_IAD_FORMAT_INVALID;
	} else if (n == 32 && p[0] == 0x1F && p[8] < 0x10) {
		int c = p[1] >> 4;
		want = c == 2 ? EMV_IAD_FORMAT_VSDC_2 : c == 4 ? EMV_IAD_FORMAT_VSDC_4 : EMV_IAD_FORMAT_INVALID;
	}
	VP_CHECK(f == want, "C29: format of issuer application data");
}
/* historical bytes: compact elements */
void h_compact(void)
{
	static const int N2[5] = { -1, 0, 1, 7, 15 };
	int n1 = vp_nd_split(0, 15), n2 = N2[vp_nd_split(0, 4)], cut = vp_nd_split(0, 2);
	int t1 = (n1 * 5 + 2) & 15, t2 = (t1 * 7 + 3) & 15;
	int n = 1 + n1 + (n2 < 0 ? 0 : 1 + n2) - cut;
	VP_ASSUME(n > 0);
	uint8_t* p = cbuf + sizeof(cbuf) - n;
	for (int i = 0; i < n; ++i)
		p[i] = i == 0 ? t1 << 4 | n1 : i == 1 + n1 ? t2 << 4 | n2 : (uint8_t)(0x21 + i * 5);
	struct iso7816_compact_tlv_itr_t itr;
	struct iso7816_compact_tlv_t tlv;
	int r = iso7816_compact_tlv_itr_init(p, n, &itr);
	VP_CHECK(r == 0, "C29: compact data accepted");
	r = iso7816_compact_tlv_itr_next(&itr, &tlv);
	if (n < 1 + n1) {
		VP_CHECK(r < 0, "C29: truncated compact element refused");
		return;
	}
	VP_CHECK(r == 1 + n1 && tlv.tag == t1 && tlv.length == n1 && tlv.value == p + 1, "C29: compact element as encoded");
	if (r != 1 + n1)
		return;
	r = iso7816_compact_tlv_itr_next(&itr, &tlv);
	if (n == 1 + n1) {
		VP_CHECK(r == 0, "C29: nothing after the last compact element");
		return;
	}
	if (n < 2 + n1 + n2) {
		VP_CHECK(r < 0, "C29: truncated compact element refused");
		return;
	}
	VP_CHECK(r == 1 + n2 && tlv.tag == t2 && tlv.length == n2 && tlv.value == p + 2 + n1, "C29: compact element as encoded");
	if (r == 1 + n2)
		VP_CHECK(iso7816_compact_tlv_itr_next(&itr, &tlv) == 0, "C29: nothing after the last compact element");
}
