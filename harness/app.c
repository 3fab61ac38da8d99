/* C11 / C13 / C18: application objects and candidate list operations */
#include "vp_env.h"
#include "vp_in.h"
#include "vp_alloc.h"
#include "emv_app.h"
#include "emv_tlv.h"
#include "emv_fields.h"
#include "iso8859.h"
#ifndef NAPP
#define NAPP 3
#endif
#ifndef FAILS
#define FAILS 0
#endif

/* ---------------- C11: lists ---------------- */
static struct emv_app_t apps[4];
static struct emv_app_t* ref[4];
static int nref;
static const uint8_t prios[4] = { 0, 1, 2, 15 };

static void check_list(const struct emv_app_list_t* l)
{
	struct emv_app_t* a = l->front;
	struct emv_app_t* last = 0;
	for (int i = 0; i < nref; ++i) {
		VP_CHECK(a == ref[i], "C11: applications in the required order");
		if (a != ref[i])
			return;
		last = a;
		a = a->next;
	}
	VP_CHECK(a == 0, "C11: no further applications");
	VP_CHECK(l->back == last, "C11: back of list is the last application");
	VP_CHECK(emv_app_list_is_empty(l) == (nref == 0), "C11: emptiness reported");
}
static void fill(struct emv_app_list_t* l)
{
	for (int i = 0; i < NAPP; ++i) {
		apps[i].priority = prios[i == 3 ? vp_nd_split(0, 2) : vp_nd_split(0, 3)];
		apps[i].confirmation_required = i == 1;
		apps[i].next = (i & 1) ? &apps[i] : 0; /* push must not trust it */
		VP_CHECK(emv_app_list_push(l, &apps[i]) == 0, "C11: push succeeds");
		ref[nref++] = &apps[i];
	}
}
void h_sort(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	fill(&l);
	check_list(&l);
	VP_CHECK(emv_app_list_sort_priority(&l) == 0, "C11: sorting succeeds");
	/* reference: stable order by priority, none last */
	struct emv_app_t* s[4];
	int n = 0;
	for (int p = 1; p <= 16; ++p)
		for (int i = 0; i < NAPP; ++i)
			if ((apps[i].priority ? apps[i].priority : 16) == p)
				s[n++] = &apps[i];
	for (int i = 0; i < n; ++i)
		ref[i] = s[i];
	check_list(&l);
	for (int i = 0; i < NAPP; ++i)
		VP_CHECK(apps[i].confirmation_required == (i == 1), "C11: sorting alters no application");
	/* usable afterwards */
	struct emv_app_t extra;
	extra.priority = 3; extra.next = &extra;
	VP_CHECK(emv_app_list_push(&l, &extra) == 0 && l.back == &extra && extra.next == 0, "C11: list usable after sorting");
}
void h_remove(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	for (int i = 0; i < NAPP; ++i) {
		emv_app_list_push(&l, &apps[i]);
		ref[nref++] = &apps[i];
	}
	for (int step = 0; step < 2; ++step) {
		unsigned idx = vp_nd_split(0, NAPP + 1);
		if (idx == NAPP + 1)
			idx = 0xFFFFFFFF;
		struct emv_app_t* a = emv_app_list_remove_index(&l, idx);
		VP_CHECK(a == (idx < (unsigned)nref ? ref[idx] : 0), "C11: removal returns exactly that application");
		if (idx < (unsigned)nref) {
			if (a)
				VP_CHECK(a->next == 0, "C11: removed application is detached");
			for (int i = idx; i + 1 < nref; ++i)
				ref[i] = ref[i + 1];
			--nref;
		}
		check_list(&l);
	}
	struct emv_app_t* p = emv_app_list_pop(&l);
	VP_CHECK(p == (nref ? ref[0] : 0), "C11: pop returns the first application");
	if (nref) {
		for (int i = 0; i + 1 < nref; ++i) ref[i] = ref[i + 1];
		--nref;
		VP_CHECK(p != 0 && p->next == 0, "C11: popped application is detached");
	}
	check_list(&l);
	apps[NAPP].next = &apps[NAPP];
	VP_CHECK(emv_app_list_push(&l, &apps[NAPP]) == 0, "C11: push succeeds");
	ref[nref++] = &apps[NAPP];
	check_list(&l);
}
void h_selreq(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	int n = vp_nd_split(0, 3);
	for (int i = 0; i < n; ++i) {
		apps[i].confirmation_required = vp_nd_bool();
		emv_app_list_push(&l, &apps[i]);
	}
	VP_CHECK(emv_app_list_selection_is_required(&l) == (n > 1 || (n == 1 && apps[0].confirmation_required)), "C11: cardholder selection required");
}
void h_app_args(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	VP_CHECK(emv_app_list_push(0, &apps[0]) < 0 && emv_app_list_push(&l, 0) < 0, "C11: invalid push refused");
	VP_CHECK(emv_app_list_pop(0) == 0 && emv_app_list_pop(&l) == 0, "C11: nothing to pop");
	VP_CHECK(emv_app_list_remove_index(0, 0) == 0 && emv_app_list_remove_index(&l, 0) == 0, "C11: nothing to remove");
	VP_CHECK(emv_app_list_sort_priority(0) < 0 && emv_app_list_sort_priority(&l) == 0, "C11: nothing to sort");
	VP_CHECK(!emv_app_list_selection_is_required(0), "C11: no list");
	VP_CHECK(emv_app_list_is_empty(0), "C11: missing list is empty");
	VP_CHECK(emv_app_free(0) < 0, "C11: nothing to free");
	emv_app_list_clear(0);
	l.back = &apps[0];
	VP_CHECK(emv_app_list_push(&l, &apps[1]) < 0 && emv_app_list_sort_priority(&l) < 0, "C11: inconsistent list refused");
	emv_app_list_clear(&l);
	VP_CHECK(l.front == 0 && l.back == 0, "C11: inconsistent list emptied");
	check_list(&l);
}

/* ---------------- C13: creation ---------------- */
static int conv_fail, conv_called, conv_page;
bool iso8859_is_supported(unsigned int codepage) { return codepage >= 1 && codepage <= 15 && codepage != 12; }
int iso8859_to_utf8(unsigned int codepage, const uint8_t* in, size_t n, char* out, size_t on)
{
	conv_called = 1;
	conv_page = codepage;
	if (!in || !n || !out || !on)
		return -1;
	out[0] = 0;
	VP_CHECK(on == 33, "C13: converted within the display name");
	if (conv_fail || on != 33)
		return 3;
	size_t i = 0;
	for (; i < n && i < on - 1; ++i)
		out[i] = in[i];
	out[i] = 0;
	return 0;
}

#ifndef SRC
#define SRC 0
#endif
#ifndef VARIANT
#define VARIANT 0   /* 0: directory entry, 1: control information */
#endif
static uint8_t enc[160];
static int en;
static const uint8_t AIDV[16] = { 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10, 0x10, 0x9F, 0xAB, 0xCD, 0xEF, 0x12, 0x34, 0x56, 0x78, 0x90 };
/* characters: displayable in both, control, displayable in preferred name only, space ... */
static const uint8_t CH[8] = { 'V', 0x1F, 'i', 0x7F, '-', 0xE9, ' ', '7' };
static const uint8_t CH2[8] = { 0x20, 0x7E, 0x80, 0x9F, 0xA0, 0xFF, '@', '[' };
static const uint8_t CH3[8] = { '`', '{', '/', ':', '0', '9', 'A', 'z' };
static const uint8_t* chars;
static int pref_ok(uint8_t c) { return (c >= 0x20 && c <= 0x7E) || c >= 0xA0; }
static int label_ok(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == ' '; }
static char hexd(int d) { return d < 10 ? '0' + d : 'A' + d - 10; }
static void tag1(uint8_t t, int n) { enc[en++] = t; enc[en++] = n; }
static void tag2(uint8_t t, uint8_t u, int n) { enc[en++] = t; enc[en++] = u; enc[en++] = n; }

void h_create(void)
{
	char exp[40];
	int xn = 0;
	int variant = VARIANT;
	/* which optional fields are there */
	int has_label = (variant & 1);
	int has_pref = (variant & 2) >> 1;
	int has_idx = (variant & 4) >> 2;
	int k = has_idx ? vp_nd_split(0, 4) : 0;
	/* a code table index inside the directory entry itself is not that of the directory */
	int own = SRC == 0 && has_pref ? vp_nd_bool() : 0;
	int page = k == 0 ? 1 : k == 1 ? 15 : k == 2 ? 12 : k == 3 ? 0 : 16;
	int clen = has_label || has_pref ? vp_nd_split(0, 3) : 0;
	int alen = variant == 0 ? vp_nd_split(0, 2) : clen % 3;
	alen = alen == 0 ? 5 : alen == 1 ? 7 : 16;
	chars = clen == 3 ? CH3 : clen == 2 ? CH2 : CH;
	clen = clen == 0 ? 1 : clen == 1 ? 8 : 16 ;
	conv_fail = has_idx && has_pref && k <= 1 ? vp_nd_bool() : 0;
	int pk = variant == 0 ? vp_nd_split(0, 4) : (clen + k + variant) % 5;
	int prio = pk == 0 ? -1 : pk == 1 ? 0x01 : pk == 2 ? 0x8F : pk == 3 ? 0x70 : 0x80;

	struct emv_tlv_list_t pse = EMV_TLV_LIST_INIT;
	int tp = 0, lp = 0;
	if (SRC == 1) { enc[en++] = 0x6F; tp = en++; }
	tag1(SRC ? 0x84 : 0x4F, alen);
	for (int i = 0; i < alen; ++i) enc[en++] = AIDV[i];
	if (SRC == 1) { enc[en++] = 0xA5; lp = en++; }
	if (has_label) {
		tag1(0x50, clen);
		for (int i = 0; i < clen; ++i) enc[en++] = chars[i & 7];
	}
	if (prio >= 0) { tag1(0x87, 1); enc[en++] = prio; }
	if (has_pref) {
		tag2(0x9F, 0x12, clen);
		for (int i = 0; i < clen; ++i) enc[en++] = chars[i & 7];
	}
	if (own) { tag2(0x9F, 0x11, 1); enc[en++] = 2; }
	if (has_idx) {
		uint8_t pg = page;
		if (SRC == 1) { tag2(0x9F, 0x11, 1); enc[en++] = pg; }
		else { VP_CHECK(emv_tlv_list_push(&pse, 0x9F11, 1, &pg, 0) == 0, "C13: push"); }
	}
	if (SRC == 1) { enc[lp] = en - lp - 1; enc[tp] = en - tp - 1; }
	int other = vp_live;

	vp_alloc_fail_budget = FAILS;
	struct emv_app_t* a = SRC ? emv_app_create_from_fci(enc, en) : emv_app_create_from_pse(&pse, enc, en);
	vp_alloc_fail_budget = 0;
	if (vp_alloc_failed) {
		VP_CHECK(a == 0, "C18: no application when memory runs out");
		VP_CHECK(vp_live == other, "C18: partial application released");
		return;
	}
	VP_CHECK(a != 0, "C13: application created from valid data");
	if (!a)
		return;
	VP_CHECK(a->aid && a->aid->length == (unsigned)alen, "C13: identifier length");
	if (a->aid && a->aid->length == (unsigned)alen)
		for (int i = 0; i < alen; ++i)
			VP_CHECK(a->aid->value[i] == AIDV[i], "C13: identifier value");
	VP_CHECK(a->priority == (prio < 0 ? 0 : prio & 0x0F), "C13: priority as encoded");
	VP_CHECK(a->confirmation_required == (prio < 0 ? 0 : (prio & 0x80) != 0), "C13: confirmation flag as encoded");
	VP_CHECK(a->next == 0, "C13: application is not listed");

	/* display name */
	int np = 0;
	for (int i = 0; has_pref && i < clen; ++i) np += pref_ok(chars[i & 7]);
	if (has_pref && has_idx && page >= 1 && page <= 15 && page != 12 && !conv_fail && np) {
		for (int i = 0; i < clen; ++i) if (pref_ok(chars[i & 7])) exp[xn++] = chars[i & 7];
		VP_CHECK(conv_called && conv_page == page, "C13: converted from the indicated code table");
	} else if (has_label) {
		for (int i = 0; i < clen; ++i) if (label_ok(chars[i & 7])) exp[xn++] = chars[i & 7];
	} else {
		for (int i = 0; i < alen; ++i) { exp[xn++] = hexd(AIDV[i] >> 4); exp[xn++] = hexd(AIDV[i] & 15); }
	}
	exp[xn] = 0;
	for (int i = 0; i <= xn; ++i)
		VP_CHECK(a->display_name[i] == exp[i], "C13: display name from preferred name, label or identifier");
	VP_CHECK(emv_app_free(a) == 0, "C13,C18: application can be released");
	VP_CHECK(vp_live == other, "C13,C18: everything released");
}

/* over-long names stay within the display name */
void h_create_long(void)
{
	int l = 60;
	if (SRC) { tag1(0x6F, 2 + 7 + 2 + l); tag1(0x84, 7); } else tag1(0x4F, 7);
	for (int i = 0; i < 7; ++i) enc[en++] = AIDV[i];
	tag1(0x50, l);
	for (int i = 0; i < l; ++i) enc[en++] = 'a' + (i % 26);
	struct emv_app_t* a = SRC ? emv_app_create_from_fci(enc, en) : emv_app_create_from_pse(0, enc, en);
	VP_CHECK(a != 0, "C13: application with long label");
	if (!a) return;
	for (int i = 0; i < 32; ++i)
		VP_CHECK(a->display_name[i] == 'a' + (i % 26), "C13: long label truncated");
	VP_CHECK(a->display_name[32] == 0, "C13: display name terminated");
	VP_CHECK(a->priority == 0 && !a->confirmation_required, "C13: no priority without indicator");
}

/* data that is not an application */
void h_reject(void)
{
	int k = vp_nd_split(0, 7);
	int tp = 0;
	if (SRC) { enc[en++] = k == 0 ? 0x70 : 0x6F; tp = en++; }
	if (k != 1) {
		tag1(SRC ? (k == 2 ? 0x4F : 0x84) : (k == 2 ? 0x84 : 0x4F), 5);
		for (int i = 0; i < 5; ++i) enc[en++] = AIDV[i];
	}
	tag1(0x50, k == 3 ? 9 : 1); enc[en++] = 'A';
	tag1(0x87, 1); enc[en++] = 1;
	if (k == 4) tag1(0x5A, 3);              /* truncated */
	if (k == 5) { enc[en++] = 0x9F; }       /* truncated tag */
	if (SRC) enc[tp] = en - tp - 1 + (k == 6 ? 1 : 0);
	if (k == 7) enc[en++] = 0;              /* trailing byte */
	int bad = SRC ? 1 : !(k == 0 || k == 6);
	struct emv_app_t* a = SRC ? emv_app_create_from_fci(enc, en) : emv_app_create_from_pse(0, enc, en);
	if (bad) {
		VP_CHECK(a == 0, "C13,C12: no application from invalid data");
		VP_CHECK(vp_live == 0, "C13,C18: nothing kept from invalid data");
	}
	VP_CHECK((SRC ? emv_app_create_from_fci(0, 5) : emv_app_create_from_pse(0, 0, 5)) == 0, "C13: no application without data");
	VP_CHECK(k != 1 || vp_live == 0, "C13,C18: nothing kept without data");
}

/* ---------------- C10: support by identifier ---------------- */
void h_supported(void)
{
	struct emv_tlv_list_t aids = EMV_TLV_LIST_INIT;
	int n = vp_nd_split(0, 2);
	uint8_t len[2], flg[2], diff[2];
	for (int i = 0; i < n; ++i) {
		uint8_t v[16];
		for (int k = 0; k < 16; ++k) v[k] = AIDV[k];
		int l = vp_nd_split(0, 2);
		len[i] = l == 0 ? 5 : l == 1 ? 7 : 8;
		flg[i] = vp_nd_bool() ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH;
		diff[i] = vp_nd_split(0, 2);
		if (diff[i] == 1) v[0] ^= 1;
		if (diff[i] == 2) v[len[i] - 1] ^= 0x80;
		VP_CHECK(emv_tlv_list_push(&aids, 0x9F06, len[i], v, flg[i]) == 0, "C10: push");
	}
	struct emv_tlv_t aid;
	uint8_t val[16];
	for (int k = 0; k < 16; ++k) val[k] = AIDV[k];
	aid.tag = 0x4F; aid.length = 7; aid.value = val; aid.flags = 0; aid.next = 0;
	apps[0].aid = &aid;
	int exp = 0;
	for (int i = 0; i < n; ++i)
		if (!diff[i] && (len[i] == 7 || (len[i] < 7 && flg[i] == EMV_ASI_PARTIAL_MATCH)))
			exp = 1;
	VP_CHECK(emv_app_is_supported(&apps[0], &aids) == exp, "C10: supported exactly if equal or allowed partial match");
	apps[0].aid = 0;
	VP_CHECK(!emv_app_is_supported(&apps[0], &aids) && !emv_app_is_supported(0, &aids), "C10: no identifier, not supported");
}
