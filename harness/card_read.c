/* C08 C09 C15 C16 C18 C22: reading application data */
#include "card.h"
#ifndef AFLK
#define AFLK 0
#endif
#ifndef MISS
#define MISS -1
#endif
static const uint8_t AF[20][12] = {
	{ 0x08, 1, 2, 1 },
	{ 0x08, 3, 3, 0, 0x50, 2, 3, 1 },
	{ 0x08, 1, 1, 1, 0x58, 5, 6, 2 },
	{ 0xF0, 254, 255, 2, 0x10, 1, 1, 1 },
	{ 0x10, 255, 255, 1 },
	/* second entry invalid */
	{ 0x08, 1, 1, 1, 0x00, 1, 1, 0 },
	{ 0x08, 1, 1, 1, 0xF8, 1, 1, 0 },
	{ 0x08, 1, 1, 1, 0x11, 1, 1, 0 },
	{ 0x08, 1, 1, 1, 0x10, 0, 1, 0 },
	{ 0x08, 1, 1, 1, 0x10, 2, 1, 0 },
	{ 0x08, 1, 1, 1, 0x10, 1, 2, 3 },
	/* invalid as a whole */
	{ 0x0C, 1, 1, 0 },
	{ 0x08, 1, 1 },
	{ 0x08, 1, 1, 0, 0x10 },
	{ 0 },
};
static const int AFN[20] = { 4, 8, 8, 8, 4, 8, 8, 8, 8, 8, 8, 4, 3, 5, 0 };
/* expected records: entry, then number */
static int ent, rn_, total, valid_entries, bad_after, done_;
static int exp_tal, odainv, have, dup, gotdup;
static struct { unsigned tag; int len; uint8_t v; } xf[12];
static int xn;
/* independent reading of the locator */
static int entry_ok(const uint8_t* e)
{
	int s = e[0] >> 3;
	return (e[0] & 7) == 0 && s >= 1 && s <= 30 && e[1] >= 1 && e[2] >= e[1] && e[3] <= e[2] - e[1] + 1;
}
static void plan(void)
{
	int n = AFN[AFLK];
	if (n == 0 || n % 4) { bad_after = 1; return; }
	for (int i = 0; i < n / 4; ++i) {
		if (!entry_ok(AF[AFLK] + 4 * i)) { bad_after = 1; return; }
		++valid_entries;
		total += AF[AFLK][4 * i + 2] - AF[AFLK][4 * i + 1] + 1;
	}
}
static const unsigned FT[4] = { 0x5F24, 0x5A, 0x8C, 0x8D };
static void field(unsigned tag, int len, int v)
{
	if (tag > 0xFF) b(tag >> 8);
	b(tag & 0xFF);
	b(len);
	for (int i = 0; i < len; ++i) b(v);
	for (int i = 0; i < xn; ++i)
		if (xf[i].tag == tag) dup = 1;
	xf[xn].tag = tag; xf[xn].len = len; xf[xn].v = v; ++xn;
	for (int i = 0; i < 4; ++i)
		if (FT[i] == tag) have |= 1 << i;
}
/* the fields of the idx-th record */
static int flen(int idx)
{
	int s = 0;
	for (int f = 0; f < 4; ++f)
		if ((AFLK == 2 ? 0 : f % total) == idx && f != MISS) s += (FT[f] > 0xFF ? 3 : 2) + f;
	return s;
}
static void fields(int idx)
{
	for (int f = 0; f < 4; ++f)
		if ((AFLK == 2 ? 0 : f % total) == idx && f != MISS) field(FT[f], f, 0x10 + f);
}
static int nrec;
static void decided(int tal) { over = 1; exp_tal = tal; }
static int okend(size_t* rn)
{
	sw(0x9000);
	return end(rn);
}
int vp_card_rec(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	begin(c, tx, n, rx, rn);
	VP_CHECK(ent < valid_entries, "C15,C22: only records of the locator are read");
	if (ent >= valid_entries) VP_DISCARD();
	const uint8_t* e = AF[AFLK] + 4 * ent;
	int sfi = e[0] >> 3;
	if (!rn_) rn_ = e[1];
	VP_CHECK(n == 5 && t[0] == 0 && t[1] == 0xB2 && t[2] == rn_ && t[3] == (sfi << 3 | 4) && t[4] == 0, "C07,C15: records read in locator order");
	if (rn_ == e[2]) { ++ent; rn_ = 0; } else ++rn_;
	int idx = nrec++;
	int emvfile = sfi <= 10;
	int m = flen(idx);
	int k = choose(12);
	switch (k) {
		case 0: decided(EMV_TAL_ERROR_TTL_FAILURE); return fail_reader();
		case 1:
			decided(EMV_TAL_ERROR_READ_RECORD_FAILED);
			k = vp_nd_split(0, 3);
			b(0x70); b(m); fields(idx);
			sw(k == 0 ? 0x6A83 : k == 1 ? 0x6A82 : k == 2 ? 0x6283 : 0x9001);
			return end(rn);
		case 2: b(0x70); b(m); fields(idx); return okend(rn);
		case 3: b(0x70); b(0); return okend(rn);
		case 4: /* other template */
			b(0x77); b(3); b(0x5A); b(1); b(1);
			if (emvfile) decided(EMV_TAL_ERROR_READ_RECORD_INVALID); else odainv = 1;
			return okend(rn);
		case 5: /* no record data */
			if (emvfile) decided(EMV_TAL_ERROR_READ_RECORD_INVALID); else odainv = 1;
			return okend(rn);
		case 6: /* more than one template */
			b(0x70); b(m); fields(idx);
			if (emvfile) { decided(EMV_TAL_ERROR_READ_RECORD_INVALID); b(0x70); b(3); b(0x9F); b(0x42); b(0); }
			else { b(0x70); b(3); field(0x9F42, 0, 0); }
			return okend(rn);
		case 7: /* malformed content */
			b(0x70); b(m + 3); fields(idx); b(0x9F); b(0x42); b(2);
			decided(EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED);
			return okend(rn);
		case 8: /* redundant field */
			b(0x70); b(m + 8); field(0x9F07, 1, 1); fields(idx); field(0x9F07, 1, 2);
			return okend(rn);
		case 9: /* same field may return in another record */
			b(0x70); b(m + 4); fields(idx); field(0x9F42, 1, 7);
			return okend(rn);
		case 10: /* two octet length */
			b(0x70); b(0x81); b(m); fields(idx); return okend(rn);
		case 11: /* record shorter than announced */
			b(0x70); b(m + 1); fields(idx);
			decided(emvfile ? EMV_TAL_ERROR_READ_RECORD_INVALID : EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED);
			return okend(rn);
		case 12: /* nested template */
			b(0x70); b(2 + m + 4); b(0xE1); b(m); fields(idx); field(0x9F42, 1, 3);
			return okend(rn);
	}
	return end(rn);
}
static void expected(void)
{
	if (!over) {
		if (bad_after) exp_tal = EMV_TAL_ERROR_AFL_INVALID;
		else exp_tal = odainv ? EMV_TAL_RESULT_ODA_RECORD_INVALID : 0;
	}
}
static void checklist(const struct emv_tlv_t* t)
{
	for (int i = 0; i < xn; ++i) {
		VP_CHECK(t != 0, "C16: every record field kept");
		if (!t) return;
		VP_CHECK(t->tag == xf[i].tag && t->length == (unsigned)xf[i].len, "C16: record fields in order");
		for (int j = 0; j < xf[i].len && t->length == (unsigned)xf[i].len; ++j)
			VP_CHECK(t->value[j] == xf[i].v, "C16: record field value");
		t = t->next;
	}
	VP_CHECK(t == 0, "C15,C16: nothing but record fields added");
}
void h_read(void)
{
	struct emv_ctx_t ctx;
	card_init(&vp_card_rec);
	emv_ctx_init(&ctx, &ttl);
	plan();
	static const uint8_t five[3] = { 5, 5, 5 };
	emv_tlv_list_push(&ctx.icc, 0x82, 2, five, 0);
	emv_tlv_list_push(&ctx.icc, 0x94, AFN[AFLK], AF[AFLK], 0);
	emv_tlv_list_push(&ctx.icc, 0x8C, 3, five, 0);
	emv_tlv_list_push(&ctx.terminal, 0x95, 3, five, 0);
	struct emv_tlv_t* f0 = ctx.icc.front;
	struct emv_tlv_t* l0 = ctx.icc.back;
	int before = vp_live;
	vp_alloc_fail_budget = FAILS;
	int r = emv_read_application_data(&ctx);
	vp_alloc_fail_budget = 0;
	expected();
	if (!vp_alloc_failed) {
		if (exp_tal == 0 || exp_tal == EMV_TAL_RESULT_ODA_RECORD_INVALID) {
			VP_CHECK(nx == total, "C15: every record of the locator read once");
			VP_CHECK((r == 0) == (have == 15 && !dup), "C16: success exactly when complete and unambiguous");
			if (have != 15 || dup) VP_CHECK(r == EMV_OUTCOME_CARD_ERROR, "C16: incomplete or redundant data is a card error");
		} else {
			VP_CHECK(r == EMV_OUTCOME_CARD_ERROR, "C08,C09,C15,C16: failed reading is a card error");
		}
		if (over || bad_after) VP_CHECK(r != 0, "C08,C09,C15,C16: failed reading is never success");
	} else {
		VP_CHECK(r != 0, "C18: no success when memory runs out");
	}
	VP_CHECK(ctx.icc.front == f0 && f0->next && f0->next->next == l0, "C16: card data kept");
	if (r == 0) {
		checklist(l0->next);
		for (struct emv_tlv_t* t = l0; t; t = t->next)
			if (!t->next) VP_CHECK(ctx.icc.back == t, "C16: list consistent");
	} else {
		VP_CHECK(l0->next == 0 && ctx.icc.back == l0, "C16: card data exactly as before on failure");
		VP_CHECK(vp_live == before, "C16,C18: nothing kept on failure");
	}
	VP_CHECK(ctx.terminal.front && ctx.terminal.front->next == 0 && ctx.terminal.front->value[0] == 5, "C16: terminal data untouched");
	if (!bad_after && MISS < 0 && K1 < 0)
		VP_POSSIBLE(r == 0, "C15,C16: reading possible");
	if (AFLK == 2 && K1 == 2)
		VP_POSSIBLE(r == 0 && odainv, "C16: success although authentication is impossible");
	emv_ctx_clear(&ctx);
	VP_CHECK(vp_live == 0, "C16,C18: everything released");
}
void h_read_tal(void)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	card_init(&vp_card_rec);
	plan();
	vp_alloc_fail_budget = FAILS;
	int r = emv_tal_read_afl_records(&ttl, AF[AFLK], AFN[AFLK], &l);
	vp_alloc_fail_budget = 0;
	expected();
	if (!vp_alloc_failed) {
		VP_CHECK(r == exp_tal, "C08,C09,C15: documented reading result");
		if (r == 0 || r == EMV_TAL_RESULT_ODA_RECORD_INVALID) checklist(l.front);
	} else
		VP_CHECK(r < 0, "C18: memory failure is an error");
	emv_tlv_list_clear(&l);
	VP_CHECK(vp_live == 0, "C18: everything released");
}
void h_read_none(void)
{
	struct emv_ctx_t ctx;
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	card_init(&vp_card_rec);
	emv_ctx_init(&ctx, &ttl);
	VP_CHECK(emv_read_application_data(0) < 0, "C16: missing context refused");
	emv_tlv_list_push(&ctx.icc, 0x82, 2, AF[0], 0);
	VP_CHECK(emv_read_application_data(&ctx) == EMV_OUTCOME_CARD_ERROR && nx == 0, "C16: no locator is a card error");
	VP_CHECK(ctx.icc.front && ctx.icc.front->next == 0, "C16: card data kept");
	VP_CHECK(emv_tal_read_afl_records(0, AF[0], 4, &l) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_read_afl_records(&ttl, 0, 4, &l) == EMV_TAL_ERROR_INVALID_PARAMETER
		&& emv_tal_read_afl_records(&ttl, AF[0], 4, 0) == EMV_TAL_ERROR_INVALID_PARAMETER && nx == 0, "C15: invalid arguments refused");
	VP_CHECK(emv_tal_read_afl_records(&ttl, AF[0], 0, &l) == EMV_TAL_ERROR_AFL_INVALID, "C15: empty locator refused");
	uint8_t big[256];
	for (int i = 0; i < 256; i += 4) { big[i] = 0x08; big[i + 1] = 1; big[i + 2] = 1; big[i + 3] = 0; }
	emv_ctx_clear(&ctx);
	VP_CHECK(vp_live == 0, "C18: everything released");
}
/* the locator decoder on every entry with first record FIRST */
#ifndef FIRST
#define FIRST 1
#endif
void h_afl_entry(void)
{
	uint8_t a[4];
	struct emv_afl_itr_t it;
	struct emv_afl_entry_t e;
	int which = vp_nd_bool();
	if (which) {
		a[0] = vp_nd_split(0, 255); a[1] = FIRST; a[2] = FIRST == 255 ? 255 : FIRST + 1; a[3] = vp_nd(0, 1);
	} else {
		a[0] = 0x50; a[1] = FIRST; a[2] = vp_nd_split(0, 255); a[3] = ND_U8();
		/* split the count at its limit */
		int lim = a[2] >= a[1] ? a[2] - a[1] + 1 : 0;
		if (a[3] <= lim) { }
	}
	VP_CHECK(emv_afl_itr_init(a, 4, &it) == 0, "C15: locator of four bytes accepted");
	int r = emv_afl_itr_next(&it, &e);
	VP_CHECK((r > 0) == (entry_ok(a) != 0), "C15: entry accepted exactly when valid");
	if (r > 0) {
		VP_CHECK(r == 4, "C15: entry size");
		VP_CHECK(e.sfi == a[0] >> 3 && e.first_record == a[1] && e.last_record == a[2], "C15: entry decoded exactly");
		VP_CHECK(emv_afl_itr_next(&it, &e) == 0, "C15: end of locator");
	} else
		VP_CHECK(r < 0, "C15: invalid entry is an error");
}
void h_afl_len(void)
{
	uint8_t a[256];
	struct emv_afl_itr_t it;
	int n = vp_nd_split(0, 256);
	vp_fill(a, 256);
	int r = emv_afl_itr_init(a, n, &it);
	VP_CHECK((r == 0) == (n > 0 && n % 4 == 0 && n <= 252), "C15: locator length a positive multiple of four");
}
