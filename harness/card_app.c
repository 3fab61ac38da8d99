/* C08 C09 C12 C14 C18: application selection and initiation */
#include "card.h"
static const uint8_t A1[7] = { 0xA0, 0, 0, 0, 3, 0x10, 0x10 };
static const uint8_t A2[8] = { 0xA0, 0, 0, 0, 4, 0x30, 0x60, 0x99 };
static uint8_t fbuf[64];
/* plain control information for a name */
static int mkfci(const uint8_t* a, int n, const uint8_t* pdol, int pn)
{
	int m = 0;
	fbuf[m++] = 0x6F; fbuf[m++] = 2 + n + (pn >= 0 ? 5 + pn : 0);
	fbuf[m++] = 0x84; fbuf[m++] = n;
	for (int i = 0; i < n; ++i) fbuf[m++] = a[i];
	if (pn >= 0) {
		fbuf[m++] = 0xA5; fbuf[m++] = 3 + pn;
		fbuf[m++] = 0x9F; fbuf[m++] = 0x38; fbuf[m++] = pn;
		for (int i = 0; i < pn; ++i) fbuf[m++] = pdol[i];
	}
	return m;
}
/* ------------------------------------------------ selection */
#ifndef NLIST
#define NLIST 2
#endif
static int idx, answered, good;
static int exp_class; /* 0 ok, 1 card error, 2 blocked, 3 try next */
static int exp_tal;
int vp_card_sel(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	begin(c, tx, n, rx, rn);
	const uint8_t* a = idx == 0 ? A1 : A2;
	int al = idx == 0 ? 7 : 8;
	VP_CHECK(n == 6 + (size_t)al && t[0] == 0 && t[1] == 0xA4 && t[2] == 4 && t[3] == 0 && t[4] == al && t[n - 1] == 0, "C07,C12: application selected by its identifier");
	for (int i = 0; i < al && n == 6 + (size_t)al; ++i)
		VP_CHECK(t[5 + i] == a[i], "C07,C12: identifier of the requested application");
	over = 1;
	int k = choose(12);
	exp_class = 3;
	exp_tal = EMV_TAL_RESULT_APP_SELECTION_FAILED;
	int nl = al, d = 0;
	switch (k) {
		case 0: exp_class = 1; return fail_reader();
		case 1: exp_class = 2; sw(0x6A81); return end(rn);
		case 2: exp_tal = EMV_TAL_RESULT_APP_NOT_FOUND; sw(0x6A82); return end(rn);
		case 3: exp_tal = EMV_TAL_RESULT_APP_BLOCKED; b(0x6F); b(2 + al); b(0x84); b(al); for (int i = 0; i < al; ++i) b(a[i]); sw(0x6283); return end(rn);
		case 4: b(0x6F); b(2 + al); b(0x84); b(al); for (int i = 0; i < al; ++i) b(a[i]); sw(vp_nd_bool() ? 0x6985 : 0x6300); return end(rn);
		case 5: exp_tal = EMV_TAL_RESULT_APP_FCI_PARSE_FAILED; b(0x6F); b(9); b(0x84); b(0); sw(0x9000); return end(rn);
		case 6: exp_tal = EMV_TAL_RESULT_APP_FCI_PARSE_FAILED; b(0x6F); b(3); b(0x50); b(1); b('A'); sw(0x9000); return end(rn);
		case 7: nl = al - 1; break;
		case 8: nl = al + 1; break;
		case 9: d = al - 1 + 1; break;
		case 10: d = 1; break;
		case 11: exp_tal = EMV_TAL_RESULT_APP_FCI_PARSE_FAILED; sw(0x9000); return end(rn);
		case 12: exp_class = 0; exp_tal = 0; break;
	}
	b(0x6F); b(2 + nl + 3);
	b(0x84); b(nl);
	for (int i = 0; i < nl; ++i) b((i < al ? a[i] : 0x77) ^ (d && i == d - 1 ? 1 : 0));
	b(0x50); b(1); b('A' + idx);
	sw(0x9000);
	return end(rn);
}
void h_select(void)
{
	struct emv_ctx_t ctx;
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	card_init(&vp_card_sel);
	emv_ctx_init(&ctx, &ttl);
	int prev = vp_nd_bool();
	if (prev)
		ctx.selected_app = emv_app_create_from_fci(fbuf, mkfci(A2, 5, 0, -1));
	int n = NLIST;
	struct emv_app_t* in[2];
	for (int i = 0; i < n; ++i) {
		in[i] = emv_app_create_from_fci(fbuf, i == 0 ? mkfci(A1, 7, 0, -1) : mkfci(A2, 8, 0, -1));
		emv_app_list_push(&l, in[i]);
	}
	int before = vp_live;
	idx = vp_nd_split(0, 2);
	vp_alloc_fail_budget = FAILS;
	int r = emv_select_application(&ctx, &l, idx);
	vp_alloc_fail_budget = 0;
	if (idx >= n) {
		VP_CHECK(r < 0 && nx == 0, "C12: no such candidate");
		VP_CHECK(ctx.selected_app == 0, "C12: nothing selected on failure");
		VP_CHECK(n < 1 || l.front == in[0], "C12: candidates kept");
	} else {
		VP_CHECK(nx == 1, "C12: one selection command");
		if (n == 2)
			VP_CHECK(l.front == in[1 - idx] && l.back == in[1 - idx], "C12: candidate removed from the list");
		else
			VP_CHECK(l.front == 0 && l.back == 0, "C12: last candidate removed from the list");
		int fail = vp_alloc_failed;
		if (exp_class == 0 && !fail) {
			VP_CHECK(r == 0, "C09,C12: confirmed selection succeeds");
			VP_CHECK(ctx.selected_app != 0, "C12: application selected");
			if (ctx.selected_app) {
				VP_CHECK(ctx.selected_app->aid->length == (unsigned)(idx ? 8 : 7) && ctx.selected_app->aid->value[4] == 3 + idx, "C12: selected application is the requested one");
				VP_CHECK(ctx.selected_app->display_name[0] == 'A' + idx, "C12: selected application holds the card's answer");
			}
		} else {
			VP_CHECK(r > 0, "C08,C09,C12: unconfirmed selection is an outcome");
			VP_CHECK(ctx.selected_app == 0, "C08,C12: nothing selected on failure");
			if (rfail)
				VP_CHECK(r == EMV_OUTCOME_CARD_ERROR, "C08,C12: reader failure is a card error");
			else if (exp_class == 2)
				VP_CHECK(r == EMV_OUTCOME_CARD_BLOCKED, "C09,C12: blocked card");
			else if (!fail)
				VP_CHECK(r == (n == 2 ? EMV_OUTCOME_TRY_AGAIN : EMV_OUTCOME_NOT_ACCEPTED), "C09,C12: try again while candidates remain");
		}
	}
	emv_app_list_clear(&l);
	emv_ctx_clear(&ctx);
	VP_CHECK(vp_live == 0, "C12,C18: everything released");
	if (NLIST == 2) {
		VP_POSSIBLE(r == 0, "C12: selection possible");
		VP_POSSIBLE(r == EMV_OUTCOME_TRY_AGAIN, "C12: try again possible");
	}
}
void h_select_tal(void)
{
	struct emv_app_t* a = (struct emv_app_t*)fbuf;
	card_init(&vp_card_sel);
	idx = vp_nd_bool();
	int r = emv_tal_select_app(&ttl, idx ? A2 : A1, idx ? 8 : 7, &a);
	if (rfail) VP_CHECK(r == EMV_TAL_ERROR_TTL_FAILURE, "C08: transport failure reported");
	else if (exp_class == 2) VP_CHECK(r == EMV_TAL_ERROR_CARD_BLOCKED, "C09: 6A81");
	else VP_CHECK(r == exp_tal, "C09,C12: documented selection result");
	VP_CHECK((a != 0) == (exp_class == 0), "C12,C18: application only on success");
	if (a) emv_app_free(a);
	VP_CHECK(vp_live == 0, "C12,C18: everything released");
	uint8_t x[17];
	nx = 0;
	VP_CHECK(emv_tal_select_app(0, A1, 7, &a) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_select_app(&ttl, 0, 7, &a) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_select_app(&ttl, A1, 7, 0) == EMV_TAL_ERROR_INVALID_PARAMETER
		&& emv_tal_select_app(&ttl, A1, 4, &a) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_select_app(&ttl, x, 17, &a) == EMV_TAL_ERROR_INVALID_PARAMETER && nx == 0, "C07,C12: invalid identifier refused");
	struct emv_ctx_t ctx;
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	emv_ctx_init(&ctx, &ttl);
	VP_CHECK(emv_select_application(0, &l, 0) < 0 && emv_select_application(&ctx, 0, 0) < 0, "C12: invalid arguments refused");
}

/* ------------------------------------------------ initiation */
#ifndef PDOL
#define PDOL 0
#endif
/* sources: 9F02 (numeric) in params and config, 9F1A in config only, 9F39 in terminal, 9F66 (binary) in params */
static const uint8_t PD[8][16] = {
	{ 0x9F, 0x02, 6, 0x9F, 0x1A, 2, 0x9F, 0x39, 1, 0x9F, 0x06, 7 },
	{ 0x9F, 0x02, 3, 0x5F, 0x2A, 2, 0x9F, 0x66, 4, 0x95, 5 },
	{ 0x9F, 0x66, 2, 0x9B, 2, 0x9F, 0x1A, 4 },
	{ 0x9F },
	{ 0x9F, 0x02, 0xFD },
	{ 0x9F, 0x02, 0xFC },
	{ 0x9F, 0x02, 0x7F },
	{ 0x9F, 0x02, 0x80 },
};
static const int PL[8] = { 12, 11, 8, 1, 3, 3, 3, 3 };
static const uint8_t GD[3][20] = {
	{ 1, 2, 3, 4, 5, 6, 0x08, 0x40, 0x05, 0xA0, 0, 0, 0, 3, 0x10, 0x10 },
	{ 4, 5, 6, 0, 0, 0xF6, 0x66, 0, 0, 0, 0, 0, 0, 0 },
	{ 0xF6, 0x66, 0, 0, 0, 0, 0x08, 0x40 },
};
static const int GL[3] = { 16, 14, 8 };
static const uint8_t AIP[2] = { 0x39, 0x80 };
static const uint8_t AFL[4] = { 0x08, 0x01, 0x02, 0x01 };
static int gclass, gfmt;
int vp_card_gpo(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	begin(c, tx, n, rx, rn);
	over = 1;
	VP_CHECK(t[0] == 0x80 && t[1] == 0xA8 && t[2] == 0 && t[3] == 0, "C07,C14: processing options command");
	if (PDOL < 0) {
		VP_CHECK(n == 8 && t[4] == 2 && t[5] == 0x83 && t[6] == 0 && t[7] == 0, "C07,C14: empty command template when nothing is requested");
	} else if (PDOL >= 5) {
		const int g = PDOL == 5 ? 0xFC : PDOL == 6 ? 0x7F : 0x80, h = g < 0x80 ? 2 : 3;
		VP_CHECK(n == 5 + (size_t)h + g + 1 && t[4] == h + g && t[5] == 0x83 && (h == 2 ? t[6] == g : t[6] == 0x81 && t[7] == g) && t[n - 1] == 0, "C07,C14: command template with long length");
		if (n == 5 + (size_t)h + g + 1) {
			for (int i = 0; i < g; ++i)
				VP_CHECK(t[5 + h + i] == (i < g - 6 ? 0 : i - (g - 6) + 1), "C14: requested field padded");
		}
	} else if (PDOL < 3) {
		int g = GL[PDOL];
		VP_CHECK(n == 8 + (size_t)g && t[4] == 2 + g && t[5] == 0x83 && t[6] == g && t[n - 1] == 0, "C07,C14: command template holds exactly the requested lengths");
		if (n == 8 + (size_t)g)
			for (int i = 0; i < g; ++i)
				VP_CHECK(t[7 + i] == GD[PDOL][i], "C14: requested fields in order from the first source");
	} else {
		VP_NEVER("C14: malformed or oversized request sends nothing");
	}
	int k = choose(14);
	gclass = 1;
	switch (k) {
		case 0: return fail_reader();
		case 1: gclass = 2; sw(0x6985); break;
		case 2: b(0x80); b(6); b(AIP[0]); b(AIP[1]); b(8); b(1); b(2); b(1); sw(vp_nd_bool() ? 0x6A81 : 0x6300); break;
		case 3: gclass = 0; gfmt = 1; b(0x80); b(6); b(AIP[0]); b(AIP[1]); for (int i = 0; i < 4; ++i) b(AFL[i]); sw(0x9000); break;
		case 4: b(0x80); b(2); b(AIP[0]); b(AIP[1]); sw(0x9000); break;
		case 5: b(0x80); b(7); b(AIP[0]); b(AIP[1]); b(8); b(1); b(2); b(1); b(0); sw(0x9000); break;
		case 6: gclass = 0; gfmt = 2; b(0x77); b(10); b(0x82); b(2); b(AIP[0]); b(AIP[1]); b(0x94); b(4); for (int i = 0; i < 4; ++i) b(AFL[i]); sw(0x9000); break;
		case 7: gclass = 0; gfmt = 3; b(0x77); b(14); b(0x94); b(4); for (int i = 0; i < 4; ++i) b(AFL[i]); b(0x9F); b(0x36); b(1); b(0x40); b(0x82); b(2); b(AIP[0]); b(AIP[1]); sw(0x9000); break;
		case 8: b(0x77); b(4); b(0x82); b(2); b(AIP[0]); b(AIP[1]); sw(0x9000); break;
		case 9: b(0x77); b(6); b(0x94); b(4); for (int i = 0; i < 4; ++i) b(AFL[i]); sw(0x9000); break;
		case 10: b(0x77); b(12); b(0x82); b(2); b(AIP[0]); b(AIP[1]); b(0x94); b(4); for (int i = 0; i < 4; ++i) b(AFL[i]); b(0x5A); b(4); sw(0x9000); break;
		case 11: b(0x70); b(10); b(0x82); b(2); b(AIP[0]); b(AIP[1]); b(0x94); b(4); for (int i = 0; i < 4; ++i) b(AFL[i]); sw(0x9000); break;
		case 12: sw(0x9000); break;
		case 13: b(0x77); b(20); b(0x82); b(2); b(AIP[0]); b(AIP[1]); sw(0x9000); break;
		case 14: gclass = 0; gfmt = 4; b(0x80); b(10); b(AIP[0]); b(AIP[1]); for (int i = 0; i < 4; ++i) b(AFL[i]); for (int i = 0; i < 4; ++i) b(0x10 + i); sw(0x9000); break;
	}
	return end(rn);
}
static void chk(const struct emv_tlv_t* t, unsigned tag, unsigned len, const uint8_t* v)
{
	VP_CHECK(t != 0, "C14: field present");
	if (!t) return;
	VP_CHECK(t->tag == tag && t->length == len, "C14: field tag and length");
	if (t->length == len)
		for (unsigned i = 0; i < len; ++i)
			VP_CHECK(t->value[i] == v[i], "C14: field value unaltered");
}
void h_init(void)
{
	struct emv_ctx_t ctx;
	card_init(&vp_card_gpo);
	emv_ctx_init(&ctx, &ttl);
	uint8_t v[6] = { 1, 2, 3, 4, 5, 6 }, u[6] = { 9, 9, 9, 9, 9, 9 };
	emv_tlv_list_push(&ctx.params, 0x9F02, 6, v, 0);
	uint8_t q[2] = { 0xF6, 0x66 };
	emv_tlv_list_push(&ctx.params, 0x9F66, 2, q, 0);
	emv_tlv_list_push(&ctx.config, 0x9F02, 6, u, 0);
	uint8_t cc[2] = { 0x08, 0x40 };
	emv_tlv_list_push(&ctx.config, 0x9F1A, 2, cc, 0);
	/* left over from an earlier transaction */
	emv_tlv_list_push(&ctx.icc, 0x94, 6, u, 0);
	emv_tlv_list_push(&ctx.terminal, 0x9F39, 1, u, 0);
	ctx.selected_app = emv_app_create_from_fci(fbuf, mkfci(A1, 7, PDOL >= 0 ? PD[PDOL] : 0, PDOL >= 0 ? PL[PDOL] : -1));
	VP_CHECK(ctx.selected_app != 0, "C14: setup");
	if (!ctx.selected_app) return;
	vp_alloc_fail_budget = FAILS;
	int r = emv_initiate_application_processing(&ctx, 0x05);
	vp_alloc_fail_budget = 0;
	if (vp_alloc_failed) {
		VP_CHECK(r != 0, "C18: no success when memory runs out");
	} else {
		/* terminal data started afresh */
		uint8_t pos = 5, z[5] = { 0 };
		const struct emv_tlv_t* t = ctx.terminal.front;
		chk(t, 0x9F39, 1, &pos); t = t ? t->next : 0;
		chk(t, 0x9F06, 7, A1); t = t ? t->next : 0;
		chk(t, 0x9B, 2, z); t = t ? t->next : 0;
		chk(t, 0x95, 5, z); t = t ? t->next : 0;
		VP_CHECK(t == 0, "C14,C17: no other terminal data");
		if (PDOL == 3 || PDOL == 4) {
			VP_CHECK(nx == 0 && r == EMV_OUTCOME_CARD_ERROR, "C14: malformed or oversized request is a card error");
			gclass = 1;
		} else {
			VP_CHECK(nx == 1, "C14: one command");
			if (rfail) VP_CHECK(r == EMV_OUTCOME_CARD_ERROR, "C08: reader failure is a card error");
			else if (gclass == 0) VP_CHECK(r == 0, "C09,C14: valid response accepted");
			else if (gclass == 1) VP_CHECK(r == EMV_OUTCOME_CARD_ERROR, "C09,C14: invalid response or status is a card error");
			else VP_CHECK(r == EMV_OUTCOME_GPO_NOT_ACCEPTED, "C09,C14: conditions of use not satisfied");
		}
		if (r == 0) {
			const struct emv_tlv_t* i = ctx.icc.front;
			chk(i, 0x84, 7, A1); i = i ? i->next : 0;
			if (PDOL >= 0) { chk(i, 0x9F38, PL[PDOL], PD[PDOL]); i = i ? i->next : 0; }
			uint8_t two[8] = { 8, 1, 2, 1, 0x10, 0x11, 0x12, 0x13 };
			if (gfmt == 3) { chk(i, 0x94, 4, AFL); i = i ? i->next : 0; }
			if (gfmt == 3) { uint8_t x = 0x40; chk(i, 0x9F36, 1, &x); i = i ? i->next : 0; }
			chk(i, 0x82, 2, AIP); i = i ? i->next : 0;
			if (gfmt == 1 || gfmt == 2) { chk(i, 0x94, 4, AFL); i = i ? i->next : 0; }
			if (gfmt == 4) { chk(i, 0x94, 8, two); i = i ? i->next : 0; }
			VP_CHECK(i == 0, "C14: no other card data");
			VP_CHECK(ctx.selected_app && ctx.selected_app->tlv_list.front == 0, "C14,C18: application data moved");
			/* refused until selected again, without effect */
			over = 0;
			nx = 0;
			int r2 = emv_initiate_application_processing(&ctx, 0x07);
			VP_CHECK(r2 < 0 && nx == 0 && ctx.icc.front != 0, "C14,C18: initiated application is not initiated again");
		} else {
			VP_CHECK(ctx.icc.front == 0 && ctx.icc.back == 0, "C08,C14: no card data kept on failure");
			VP_CHECK(ctx.selected_app && ctx.selected_app->aid->length == 7, "C14: application stays selected");
		}
		/* sources untouched */
		chk(ctx.params.front, 0x9F02, 6, v);
		chk(ctx.config.front, 0x9F02, 6, u);
	}
	VP_POSSIBLE(r == 0 || PDOL == 3 || PDOL == 4, "C14: initiation possible");
	emv_ctx_clear(&ctx);
	VP_CHECK(vp_live == 0, "C14,C18: everything released");
}
void h_init_args(void)
{
	struct emv_ctx_t ctx;
	card_init(&vp_card_gpo);
	emv_ctx_init(&ctx, &ttl);
	VP_CHECK(emv_initiate_application_processing(0, 1) < 0, "C14: missing context refused");
	VP_CHECK(emv_initiate_application_processing(&ctx, 1) < 0, "C14: nothing selected");
	VP_CHECK(nx == 0, "C14: nothing sent");
}
/* application layer: documented results and output pointers */
void h_gpo(void)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	const struct emv_tlv_t* aip = (void*)fbuf;
	const struct emv_tlv_t* afl = (void*)fbuf;
	card_init(&vp_card_gpo);
	emv_tlv_list_push(&l, 0x5A, 2, AIP, 0);
	int r = emv_tal_get_processing_options(&ttl, 0, 0, &l, &aip, &afl);
	if (rfail) VP_CHECK(r == EMV_TAL_ERROR_TTL_FAILURE, "C08: transport failure reported");
	else if (gclass == 2) VP_CHECK(r == EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED, "C09: 6985");
	else if (gclass == 0) VP_CHECK(r == 0, "C09,C14: valid response");
	else VP_CHECK(r < 0 && r != EMV_TAL_ERROR_INTERNAL && r != EMV_TAL_ERROR_INVALID_PARAMETER, "C09,C14: invalid response");
	if (r == 0) {
		chk(aip, 0x82, 2, AIP);
		uint8_t two[8] = { 8, 1, 2, 1, 0x10, 0x11, 0x12, 0x13 };
		chk(afl, 0x94, gfmt == 4 ? 8 : 4, two);
		VP_CHECK(l.front && l.front->tag == 0x5A && l.front->next != 0, "C14: fields appended");
	} else {
		VP_CHECK(aip == 0 && afl == 0, "C14,C18: no dangling output");
		VP_CHECK(l.front && l.front->next == 0, "C14: nothing appended on failure");
	}
	emv_tlv_list_clear(&l);
	VP_CHECK(vp_live == 0, "C18: everything released");
	nx = 0;
	uint8_t d[256];
	d[0] = 0x83; d[1] = 0;
	VP_CHECK(emv_tal_get_processing_options(0, d, 2, &l, 0, 0) < 0 && emv_tal_get_processing_options(&ttl, d, 2, 0, 0, 0) < 0 && emv_tal_get_processing_options(&ttl, d, 1, &l, 0, 0) < 0
		&& emv_tal_get_processing_options(&ttl, d, 256, &l, 0, 0) < 0 && emv_tal_get_processing_options(&ttl, 0, 2, &l, 0, 0) < 0 && nx == 0, "C07,C14: invalid arguments refused");
}
