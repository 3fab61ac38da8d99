/* C19: data built from a data object list has exactly the requested layout */
#include "vp_in.h"
#include "vp_env.h"
#include "emv_dol.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#ifndef FORM
#define FORM 0
#endif
#ifndef NENT
#define NENT 1
#endif
/* the fields a terminal provides that are numeric (EMV 4.4 Book 3, Annex A) */
static const unsigned int numeric[16] = { 0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03,
	0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41 };
static int is_numeric(unsigned int tag)
{
	for (int i = 0; i < 16; ++i)
		if (numeric[i] == tag)
			return 1;
	return 0;
}
void h_numeric(void)
{
	int i = vp_nd_split(0, 15);
	VP_CHECK(emv_tlv_is_terminal_format_n(numeric[i]), "C19: numeric terminal field");
	static const unsigned int other[] = { 0x95, 0x9B, 0x9F33, 0x9F37, 0x9F34, 0x9F1C, 0x9F1E, 0x9F40, 0x9F4E, 0x81, 0x9F04, 0x9F06, 0x9F66, 0x5F24, 0x5A, 0x57, 0x9F16, 0x9F53, 0x9F35FF, 0 };
	int k = vp_nd_split(0, 19);
	VP_CHECK(!emv_tlv_is_terminal_format_n(other[k]), "C19: other field");
}
/* entry classes */
#ifndef T1
#define T1 0x9F37
#endif
#ifndef T2
#define T2 0x9A
#endif
static const unsigned int tags[2] = { T1, T2 };
#ifndef MAXV
#define MAXV 3
#endif
static uint8_t dol[12], obuf[24];
static struct emv_tlv_t node[3][2];
static uint8_t val[3][2][4];
static struct emv_tlv_list_t lists[3];
static size_t put_tag(uint8_t* p, unsigned int tag)
{
	size_t n = 0;
	if (tag > 0xFF)
		p[n++] = (uint8_t)(tag >> 8);
	p[n++] = (uint8_t)tag;
	return n;
}
static int have[3][2];
static size_t vlen[3][2];
static void mk_sources(void)
{
	for (int s = 0; s < 3; ++s) {
		struct emv_tlv_t* last = NULL;
		for (int e = 0; e < NENT; ++e) {
#ifdef SRC
			have[s][e] = (SRC >> (s + 3 * e)) & 1;
#else
			have[s][e] = vp_nd_bool();
#endif
			if (!have[s][e])
				continue;
			vlen[s][e] = vp_nd_split(0, MAXV);
			for (size_t i = 0; i < 4; ++i)
				val[s][e][i] = (uint8_t)(0x10 * (s + 1) + 4 * e + i);
			node[s][e].tag = tags[e];
			node[s][e].length = (unsigned int)vlen[s][e];
			node[s][e].value = vlen[s][e] ? val[s][e] + 4 - vlen[s][e] : NULL;
			node[s][e].next = NULL;
			if (last)
				last->next = &node[s][e];
			else
				lists[s].front = &node[s][e];
			last = &node[s][e];
		}
		lists[s].back = last;
	}
}
void h_build(void)
{
	size_t n = 0, total = 0, req[NENT];
	for (int e = 0; e < NENT; ++e) {
		n += put_tag(dol + n, tags[e]);
		req[e] = vp_nd_split(0, MAXV + 1);
		dol[n++] = (uint8_t)req[e];
		total += req[e];
	}
	mk_sources();
	/* exact-fit list */
	uint8_t list[12];
	uint8_t* lp = list + 12 - n;
	for (size_t i = 0; i < n; ++i)
		lp[i] = dol[i];
	const struct emv_tlv_list_t* src[3] = { &lists[0], &lists[1], &lists[2] };
	int r = emv_dol_compute_data_length(lp, n);
	VP_CHECK(r == (int)total, "C19: total length is the sum of requested lengths");
	/* expected */
	uint8_t want[2 * (MAXV + 1)];
	size_t w = 0;
	for (int e = 0; e < NENT; ++e) {
		int s = have[0][e] ? 0 : have[1][e] ? 1 : have[2][e] ? 2 : -1;
		size_t l = s < 0 ? 0 : vlen[s][e];
		for (size_t i = 0; i < req[e]; ++i) {
			uint8_t b = 0;
			if (is_numeric(tags[e])) {
				size_t back = req[e] - i; /* distance from the end */
				if (back <= l)
					b = val[s][e][4 - back];
			} else if (i < l) {
				b = val[s][e][4 - l + i];
			}
			want[w++] = b;
		}
	}
	int slack = vp_nd_split(-1, 1);
	size_t cap = total + slack, out = cap;
	VP_ASSUME(total + slack > 0 && total + slack < 20);
	uint8_t* o = obuf + sizeof(obuf) - cap;
	vp_fill(o, cap);
	r = emv_dol_build_data(lp, n, src, 3, o, &out);
	if (slack < 0) {
		VP_CHECK(r != 0, "C19: too small an output refused");
		return;
	}
	VP_CHECK(r == 0 && out == total, "C19: data built with the requested length");
	if (r == 0)
		for (size_t i = 0; i < total; ++i)
			VP_CHECK(o[i] == want[i], "C19: data layout");
	for (size_t i = 0; i < n; ++i)
		VP_CHECK(lp[i] == dol[i], "C24: list not altered");
}
/* malformed lists: last entry cut, or a tag that never ends */
void h_bad(void)
{
	static const uint8_t bad[8][6] = {
		{ 0x9F, 0x37, 0x04, 0x95 }, { 0x9F, 0x37, 0x04, 0x9F }, { 0x9F, 0x37, 0x04, 0x9F, 0x02 },
		{ 0x9F, 0x81, 0x82, 0x83, 0x84, 0x01 }, { 0x95 }, { 0x9F, 0x02 }, { 0x95, 0x05, 0x9F, 0x82 }, { 0x95, 0x05, 0x9F, 0x82, 0x01 } };
	static const size_t blen[8] = { 4, 4, 5, 6, 1, 2, 4, 5 };
	int k = vp_nd_split(0, 7);
	uint8_t list[6];
	uint8_t* lp = list + 6 - blen[k];
	for (size_t i = 0; i < blen[k]; ++i)
		lp[i] = bad[k][i];
	const struct emv_tlv_list_t* src[3] = { &lists[0], &lists[1], &lists[2] };
	uint8_t o[16];
	size_t out = 16;
	VP_CHECK(emv_dol_compute_data_length(lp, blen[k]) < 0, "C19: malformed list has no length");
	VP_CHECK(emv_dol_build_data(lp, blen[k], src, 3, o, &out) != 0, "C19: malformed list refused");
}
/* many entries: lengths add up without wrapping */
void h_total(void)
{
	uint8_t list[40];
	size_t n = vp_nd_split(1, 20), total = 0;
	uint8_t* lp = list + 40 - 2 * n;
	for (size_t i = 0; i < n; ++i) {
		lp[2 * i] = (uint8_t)(0x80 + i);
		lp[2 * i + 1] = (uint8_t)(255 - i);
		total += 255 - i;
	}
	VP_CHECK(emv_dol_compute_data_length(lp, 2 * n) == (int)total, "C19: total length of long lists");
	const struct emv_tlv_list_t* src[1] = { &lists[0] };
	static uint8_t big[5200];
	uint8_t* o = big + 5200 - total;
	size_t out = total;
	vp_fill(o, total);
	int r = emv_dol_build_data(lp, 2 * n, src, 1, o, &out);
	VP_CHECK(r == 0 && out == total, "C19: long list built");
	size_t p = vp_nd_split(0, 4) * 64;
	if (p < total)
		VP_CHECK(o[p] == 0 && o[total - 1] == 0, "C19: unknown fields are zeros");
}
/* entries come out of the list exactly as encoded */
void h_entries(void)
{
	uint8_t list[8];
	int form = FORM;
	uint8_t t0 = (uint8_t)vp_nd_split(0, 255), l = (uint8_t)(vp_nd_split(0, 3) * 85);
	VP_ASSUME(form ? (t0 & 0x1F) == 0x1F : (t0 & 0x1F) != 0x1F);
	uint8_t t1 = (uint8_t)(form == 2 ? vp_nd(0x81, 0xFF) : vp_nd(0x1F, 0x7F)), t2 = (uint8_t)vp_nd(0, 0x7F);
	size_t n = 2 + form;
	uint8_t* lp = list + 8 - n;
	lp[0] = t0;
	if (form)
		lp[1] = t1;
	if (form == 2)
		lp[2] = t2;
	lp[n - 1] = l;
	struct emv_dol_entry_t e;
	struct emv_dol_itr_t it;
	VP_CHECK(emv_dol_itr_init(lp, n, &it) == 0, "C19: iterator starts");
	int r = emv_dol_itr_next(&it, &e);
	VP_CHECK(r == (int)n, "C19,C22: entry consumed");
	VP_CHECK(e.length == lp[n - 1], "C19: entry length");
	VP_CHECK(form || e.tag == t0, "C19: entry tag");
	VP_CHECK(form != 1 || (e.tag >> 8) == t0, "C19: entry tag, two octets");
	VP_CHECK(form != 2 || (e.tag >> 16) == t0, "C19: entry tag, three octets");
	VP_CHECK(emv_dol_itr_next(&it, &e) == 0, "C19,C22: end of list");
	VP_CHECK(emv_dol_decode(lp, 0, &e) == 0 && emv_dol_decode(lp, n - 1, &e) < 0, "C19: cut entry refused");
}
void h_dol_args(void)
{
	uint8_t list[2] = { 0x95, 5 }, o[8];
	size_t out = 8, z = 0;
	const struct emv_tlv_list_t* src[2] = { &lists[0], &lists[1] };
	const struct emv_tlv_list_t* hole[2] = { &lists[0], NULL };
	int k = vp_nd_split(0, 8);
	int r = emv_dol_build_data(k == 0 ? NULL : list, k == 1 ? 0 : 2, k == 2 ? NULL : k == 3 ? hole : src, k == 4 ? 0 : 2,
		k == 5 ? NULL : o, k == 6 ? NULL : k == 7 ? &z : &out);
	VP_CHECK(k == 8 ? r == 0 && out == 5 : r < 0, "C19: missing arguments refused");
	VP_CHECK(emv_dol_compute_data_length(NULL, 2) < 0 && emv_dol_compute_data_length(list, 0) < 0, "C19: missing list refused");
	struct emv_dol_entry_t e;
	struct emv_dol_itr_t it;
	VP_CHECK(emv_dol_decode(NULL, 2, &e) < 0 && emv_dol_decode(list, 2, NULL) < 0 && emv_dol_itr_init(NULL, 2, &it) < 0 &&
		emv_dol_itr_init(list, 2, NULL) < 0 && emv_dol_itr_next(NULL, &e) < 0 && emv_dol_itr_next(&it, NULL) < 0, "C19: missing iterator arguments refused");
}
