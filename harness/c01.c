/* C01: decoders stay inside the bytes they were given, for arbitrary content */
#include "vp_env.h"
#include "vp_in.h"
#include "iso8825_ber.h"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
#include "emv_dol.h"
#include "emv_fields.h"
#include "emv_tlv.h"
#include "emv_strings.h"
#ifndef NOSPLIT
#include "vp_ber_split.h"
#endif
#ifndef LEN
#define LEN 6
#endif
#ifndef LO
#define LO 0
#endif

/* BER tag */
void h_tag(void)
{
	uint8_t a[LEN];
	size_t n = vp_nd_split(0, LEN);
	const uint8_t* p = vp_input(a, LEN, n);
	unsigned int tag;
	int r = iso8825_ber_tag_decode(p, n, &tag);
	if (r > 0) {
		VP_CHECK(r <= n, "tag octets inside input");
		unsigned int t = tag;
	}
	VP_CHECK(iso8825_ber_tag_decode(NULL, n, &tag) < 0, "null input refused");
	VP_CHECK(iso8825_ber_tag_decode(p, n, NULL) < 0, "null output refused");
}

/* BER elements incl. indefinite length, iterated to the end */
void h_ber(void)
{
	uint8_t a[LEN];
	size_t n = vp_nd_split(LO, LEN);
	const uint8_t* p = vp_input(a, LEN, n);
#ifdef VP_HEAD /* indefinite length, then arbitrary octets */
	VP_ASSUME(n > 1 && p[0] == VP_HEAD && p[1] == 0x80);
#endif
	struct iso8825_ber_itr_t itr;
	struct iso8825_tlv_t tlv;
	int r = iso8825_ber_itr_init(p, n, &itr);
	if (r)
		return;
	size_t used = 0;
	while ((r = iso8825_ber_itr_next(&itr, &tlv)) > 0) {
		VP_CHECK(r <= n - used, "element inside input");
		if (r > n - used)
			return;
		vp_touch(tlv.value, tlv.length);
		iso8825_ber_is_string(&tlv);
		iso8825_ber_is_constructed(&tlv);
		used += r;
	}
}

/* one definite length element in inputs up to 300 bytes */
void h_ber_long(void)
{
	uint8_t a[300];
	int sel = vp_nd_split(0, 9);
	size_t n = sel == 0 ? 7 : sel == 1 ? 8 : sel == 2 ? 20 : sel == 3 ? 127 : sel == 4 ? 128 : sel == 5 ? 130
		: sel == 6 ? 255 : sel == 7 ? 256 : sel == 8 ? 258 : 300;
	const uint8_t* p = vp_input(a, 300, n);
	VP_ASSUME(p[1] != 0x80 && p[2] != 0x80 && p[3] != 0x80 && p[4] != 0x80);
	struct iso8825_tlv_t tlv;
	int r = iso8825_ber_decode(p, n, &tlv);
	if (r > 0) {
		VP_CHECK(r <= n, "long element inside input");
		if (tlv.length) {
			uint8_t x = tlv.value[0];
			x = tlv.value[tlv.length - 1];
		}
	}
}

void h_oid(void)
{
	uint8_t a[LEN];
	size_t n = vp_nd_split(0, LEN);
	const uint8_t* p = vp_input(a, LEN, n);
	struct iso8825_oid_t oid;
	int r = iso8825_ber_oid_decode(p, n, &oid);
	if (!r) {
		VP_CHECK(oid.length <= sizeof(oid.value) / sizeof(oid.value[0]), "oid length inside array");
		if (oid.length <= sizeof(oid.value) / sizeof(oid.value[0]))
			vp_touch(oid.value, oid.length * sizeof(oid.value[0]));
	}
	VP_CHECK(iso8825_ber_oid_decode(NULL, n, &oid) < 0, "null oid input refused");
	VP_CHECK(iso8825_ber_oid_decode(p, n, NULL) < 0, "null oid output refused");
}

void h_oid_short(void)
{
	uint8_t a[44];
	size_t n = vp_nd_split(1, 44);
	const uint8_t* p = vp_input(a, 44, n);
	for (size_t i = 1; i < n; ++i)
		VP_ASSUME(p[i] < 0x80);
	struct iso8825_oid_t oid;
	int r = iso8825_ber_oid_decode(p, n, &oid);
	if (!r)
		VP_CHECK(oid.length <= sizeof(oid.value) / sizeof(oid.value[0]), "long oid length inside array");
}

void h_compact(void)
{
	uint8_t a[LEN];
	size_t n = vp_nd_split(0, LEN);
	const uint8_t* p = vp_input(a, LEN, n);
	struct iso7816_compact_tlv_itr_t itr;
	struct iso7816_compact_tlv_t tlv;
	if (iso7816_compact_tlv_itr_init(p, n, &itr))
		return;
	int r;
	size_t used = 0;
	while ((r = iso7816_compact_tlv_itr_next(&itr, &tlv)) > 0) {
		size_t l = tlv.length;
		//@ split r;
		VP_CHECK(r <= n - used, "compact element inside input");
		if (r > n - used)
			return;
		VP_CHECK(l + 1 == r || l + 1 < r, "compact value inside element");
		vp_touch(tlv.value, r - 1);
		used += r;
	}
}

void h_dol(void)
{
	uint8_t a[LEN];
	size_t n = vp_nd_split(0, LEN);
	const uint8_t* p = vp_input(a, LEN, n);
	struct emv_dol_itr_t itr;
	struct emv_dol_entry_t e;
	int r = emv_dol_compute_data_length(p, n);
	if (emv_dol_itr_init(p, n, &itr))
		return;
	size_t used = 0;
	while ((r = emv_dol_itr_next(&itr, &e)) > 0) {
		VP_CHECK(r <= n - used, "dol entry inside input");
		if (r > n - used)
			return;
		used += r;
		unsigned int t = e.tag, l = e.length;
	}
}

static size_t vp_len_sel(int s)
{
	return s < 21 ? s : s == 21 ? 252 : s == 22 ? 253 : s == 23 ? 254 : s == 24 ? 256 : 260;
}
void h_afl(void)
{
	uint8_t a[260];
	size_t n = vp_len_sel(vp_nd_split(0, 25));
	const uint8_t* p = vp_input(a, 260, n);
	struct emv_afl_itr_t itr;
	struct emv_afl_entry_t e;
	if (emv_afl_itr_init(p, n, &itr))
		return;
	int r, i = 0;
	while ((r = emv_afl_itr_next(&itr, &e)) > 0) {
		VP_CHECK(++i <= 65, "afl iteration ends");
		if (i > 65)
			return;
		unsigned int x = e.sfi + e.first_record + e.last_record + e.oda_record_count;
	}
}
void h_cvm(void)
{
	uint8_t a[260];
	size_t n = vp_len_sel(vp_nd_split(0, 25));
	const uint8_t* p = vp_input(a, 260, n);
	struct emv_cvmlist_amounts_t am;
	struct emv_cvmlist_itr_t itr;
	struct emv_cv_rule_t e;
	if (emv_cvmlist_itr_init(p, n, &am, &itr))
		return;
	int r, i = 0;
	while ((r = emv_cvmlist_itr_next(&itr, &e)) > 0) {
		VP_CHECK(++i <= 130, "cvm iteration ends");
		if (i > 130)
			return;
		unsigned int x = e.cvm + e.cvm_cond;
	}
}
void h_iad(void)
{
	uint8_t a[40];
	size_t n = vp_nd_split(0, 40);
	const uint8_t* p = vp_input(a, 40, n);
	int f = emv_iad_get_format(p, n);
	VP_CHECK(emv_iad_get_format(NULL, n) == EMV_IAD_FORMAT_INVALID, "null iad refused");
}
void h_aid(void)
{
	uint8_t a[18];
	size_t n = vp_nd_split(0, 18);
	const uint8_t* p = vp_input(a, 18, n);
	struct emv_aid_info_t info;
	int r = emv_aid_get_info(p, n, &info);
	if (!r) {
		int x = info.scheme;
		int y = info.product;
		VP_CHECK(n >= 5 && n <= 16, "aid length validated");
	}
}
