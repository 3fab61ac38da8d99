/* C08 C09 C10 C11 C18 C22: building the candidate list */
#include "card.h"
#ifndef MAXREC
#define MAXREC 2
#endif
#ifndef MAXSEL
#define MAXSEL 3
#endif
#ifndef NOAIDS
#define NOAIDS 0   /* 1: identifier based discovery finds nothing */
#endif
static const uint8_t PSE_CMD[20] = { 0x00, 0xA4, 0x04, 0x00, 0x0E, '1','P','A','Y','.','S','Y','S','.','D','D','F','0','1', 0x00 };
/* supported: partial match on 5 bytes, exact match on 7 bytes */
static const uint8_t SA[2][7] = { { 0xA0, 0, 0, 0, 3, 0x10, 0x10 }, { 0xA0, 0, 0, 0, 4, 0x30, 0x60 } };
static const int SL[2] = { 5, 7 };
static int phase, sfi, rec, cur, next_sel, nsel;
static int exp_res = -99, use_aid;
static int viafind;

/* expected candidates: identifier (which, length), priority */
static uint8_t xa[6], xl[6], xp[6];
static int xn;
static void expect(int which, int len, int prio) { xa[xn] = which; xl[xn] = len; xp[xn] = prio; ++xn; }

static void aidv(int which, int len)
{
	for (int i = 0; i < len; ++i)
		b(i < 7 ? SA[which][i] : 0x50 + i);
}
/* 61 { 4F aid, 87 prio } */
static void entry(int which, int len, int prio, int foreign)
{
	b(0x61); b(2 + len + (prio ? 3 : 0));
	b(0x4F); b(len);
	int s = w;
	aidv(which, len);
	if (foreign) o[s + 4] ^= 0x40;
	if (prio) { b(0x87); b(1); b(prio); }
}
/* 6F { 84 aid, A5 { 87 prio } } */
static void fci(int which, int len, int prio)
{
	b(0x6F); b(2 + len + 5);
	b(0x84); b(len);
	aidv(which, len);
	b(0xA5); b(3); b(0x87); b(1); b(prio);
}
static void next_aid(void)
{
	++cur; next_sel = 0;
	if (cur >= 2) {
		over = 1;
		exp_res = xn ? 0 : EMV_OUTCOME_NOT_ACCEPTED;
	}
}
static int any_sw(void)
{
	int k = vp_nd_split(0, 2);
	return k == 0 ? 0x6985 : k == 1 ? 0x6A00 : 0x6700;
}
int vp_card(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	begin(c, tx, n, rx, rn);
	if (phase == 0) {
		VP_CHECK(n == 20, "C07,C10: directory selected first");
		for (int i = 0; i < 20 && n == 20; ++i)
			VP_CHECK(t[i] == PSE_CMD[i], "C07,C10: directory selection command");
		int k = choose(9);
		phase = 2;
		switch (k) {
			case 0: exp_res = EMV_OUTCOME_CARD_ERROR; over = 1; return fail_reader();
			case 1: sw(0x6A81); exp_res = EMV_OUTCOME_CARD_BLOCKED; over = 1; break;
			case 2: sw(0x6A82); break;
			case 3: b(0x6F); b(0); sw(0x6283); break;
			case 4: b(0x6F); b(0x05); b(0xA5); b(3); b(0x88); b(1); b(1); sw(any_sw()); break;
			case 5: b(0x6F); b(2); b(0x84); b(0); sw(0x9000); break;                        /* no SFI */
			case 6: b(0x6F); b(6); b(0xA5); b(4); b(0x88); b(2); b(1); b(1); sw(0x9000); break; /* bad SFI */
			case 7: sw(0x9000); break;                                                    /* empty */
			default:
				sfi = k == 8 ? 1 : 10;
				b(0x6F); b(5); b(0xA5); b(3); b(0x88); b(1); b(sfi); sw(0x9000);
				phase = 1; rec = 1;
				break;
		}
		use_aid = phase == 2;
		return end(rn);
	}
	if (phase == 1) {
		VP_CHECK(n == 5 && t[0] == 0 && t[1] == 0xB2 && t[2] == rec && t[3] == (sfi << 3 | 4) && t[4] == 0, "C07,C10: directory records read in order");
		int k = rec > MAXREC ? 1 : choose(11);
		++rec;
		switch (k) {
			case 0: exp_res = EMV_OUTCOME_CARD_ERROR; over = 1; xn = 0; return fail_reader();
			case 1:
				sw(0x6A83);
				if (xn) { over = 1; exp_res = 0; } else phase = 2;
				break;
			case 2: b(0x70); b(11); entry(0, 7, 1, 0); sw(any_sw()); break;      /* other status: ignored */
			case 3: b(0x77); b(14); entry(0, 7, 1, 0); sw(0x9000); break;        /* not a directory template */
			case 4: b(0x70); b(20); entry(0, 7, 1, 0); sw(0x9000); break;        /* malformed */
			case 5: b(0x70); b(14); entry(1, 7, 2, 0); sw(0x9000); expect(1, 7, 2); break;
			case 6: b(0x70); b(14); entry(0, 7, 2, 0); sw(0x9000); expect(0, 7, 2); break;
			case 7: b(0x70); b(14); entry(rec & 1, 7, 1, 1); sw(0x9000); break;  /* not supported */
			case 8: b(0x70); b(14 + 3 + 14); entry(0, 7, 5, 0); b(0x50); b(1); b('A'); entry(1, 7, 1, 0); sw(0x9000);
				expect(0, 7, 5); expect(1, 7, 1); break;
			case 9: b(0x70); b(5); b(0x61); b(3); b(0x87); b(1); b(1); sw(0x9000); break;   /* no identifier */
			case 10: b(0x70); b(12); entry(1, 8, 0, 0); sw(0x9000); break;       /* longer than an exact match */
			case 11: b(0x70); b(9); entry(0, 5, 0, 0); sw(0x9000); expect(0, 5, 0); break;
		}
		use_aid = phase == 2;
		return end(rn);
	}
	/* list of identifiers */
	VP_CHECK(n == 6 + (size_t)SL[cur] && t[0] == 0 && t[1] == 0xA4 && t[2] == 4 && t[4] == SL[cur] && t[n - 1] == 0, "C07,C10: supported identifiers tried in order");
	VP_CHECK(n > 3 && t[3] == (next_sel ? 2 : 0), "C07,C10: further match requested only after a partial match");
	for (int i = 0; i < SL[cur] && n == 6 + (size_t)SL[cur]; ++i)
		VP_CHECK(t[5 + i] == SA[cur][i], "C07,C10: identifier in selection command");
	int k = NOAIDS || nsel >= MAXSEL ? 2 : choose(9);
	++nsel;
	int was_next = next_sel;
	switch (k) {
		case 0: exp_res = EMV_OUTCOME_CARD_ERROR; over = 1; return fail_reader();
		case 1:
			sw(0x6A81);
			if (!was_next) { exp_res = EMV_OUTCOME_CARD_BLOCKED; over = 1; }
			else next_aid();
			break;
		case 2: sw(0x6A82); next_aid(); break;
		case 3: fci(cur, SL[cur], 1); sw(0x6283); next_aid(); break;             /* blocked */
		case 4: fci(cur, SL[cur] + 2, 1); sw(0x6283);                            /* blocked partial match */
			if (cur == 0) next_sel = 1; else next_aid(); break;
		case 5: fci(cur, SL[cur], 3 - cur); sw(0x9000); expect(cur, SL[cur], 3 - cur); next_aid(); break;
		case 6: fci(cur, SL[cur] + 2, 2); sw(0x9000);
			if (cur == 0) { expect(cur, SL[cur] + 2, 2); next_sel = 1; } else next_aid();
			break;
		case 7: b(0x6F); b(3); b(0xA5); b(1); b(0x87); sw(0x9000); next_aid(); break; /* invalid */
		case 8: fci(cur, SL[cur], 1); sw(any_sw()); next_aid(); break;
		case 9: b(0x6F); b(0x20); b(0x84); b(SL[cur]); aidv(cur, SL[cur]); sw(0x9000); next_aid(); break; /* wrong length */
	}
	return end(rn);
}

void h_candidates(void)
{
	struct emv_ctx_t ctx;
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	card_init(&vp_card);
	VP_CHECK(emv_ctx_init(&ctx, &ttl) == 0, "C17: init");
	emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 5, SA[0], EMV_ASI_PARTIAL_MATCH);
	emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 7, SA[1], EMV_ASI_EXACT_MATCH);
	int base = vp_live;
	vp_alloc_fail_budget = FAILS;
	int r = emv_build_candidate_list(&ctx, &l);
	vp_alloc_fail_budget = 0;
	if (!vp_alloc_failed) {
		VP_CHECK(over, "C08,C09,C10: result only when decided by the card");
		if (!over)
			return;
		if (rfail)
			VP_CHECK(r == EMV_OUTCOME_CARD_ERROR, "C08: reader failure reported as card error");
		else
			VP_CHECK(r == exp_res, "C09,C10: documented outcome");
		VP_CHECK(r >= 0, "C09: outcomes are not library errors");
		if (r == 0 && exp_res == 0) {
			/* stable order by priority, none last */
			struct emv_app_t* a = l.front;
			for (int p = 1; p <= 16; ++p)
				for (int i = 0; i < xn; ++i)
					if ((xp[i] ? xp[i] : 16) == p) {
						VP_CHECK(a != 0, "C10: every supported application is listed");
						if (!a) return;
						VP_CHECK(a->aid->length == xl[i], "C10,C11: listed application identifier length");
						VP_CHECK(a->priority == xp[i], "C10,C11: ordered by priority");
						if (a->aid->length == xl[i])
							for (int m = 0; m < xl[i]; ++m)
								VP_CHECK(a->aid->value[m] == (m < 7 ? SA[xa[i]][m] : 0x50 + m), "C10: listed application identifier");
						a = a->next;
					}
			VP_CHECK(a == 0, "C10: no other application is listed");
		} else if (exp_res == EMV_OUTCOME_NOT_ACCEPTED) {
			VP_CHECK(l.front == 0, "C10: nothing listed");
		}
	}
	VP_POSSIBLE(r == 0, "C09,C10: candidates can be found");
	VP_POSSIBLE(r == EMV_OUTCOME_NOT_ACCEPTED || NOAIDS || K1 == 0 || K1 == 1, "C09: not accepted is possible");
	emv_app_list_clear(&l);
	VP_CHECK(l.front == 0, "C18: list cleared");
	VP_CHECK(vp_live == base, "C18: everything is owned by the candidate list");
	emv_ctx_clear(&ctx);
	VP_CHECK(vp_live == 0, "C18: everything released");
}

/* reading the directory directly: documented results */
void h_read_pse(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct emv_tlv_list_t aids = EMV_TLV_LIST_INIT;
	card_init(&vp_card);
	emv_tlv_list_push(&aids, 0x9F06, 5, SA[0], EMV_ASI_PARTIAL_MATCH);
	emv_tlv_list_push(&aids, 0x9F06, 7, SA[1], EMV_ASI_EXACT_MATCH);
	int r = emv_tal_read_pse(&ttl, &aids, &l);
	int k = K1; /* fixed by the job */
	if (rfail) {
		VP_CHECK(r == EMV_TAL_ERROR_TTL_FAILURE, "C08: transport failure reported");
		VP_CHECK(l.front == 0, "C08: no data after transport failure");
	} else if (k == 1) VP_CHECK(r == EMV_TAL_ERROR_CARD_BLOCKED, "C09: directory selection 6A81");
	else if (k == 2) VP_CHECK(r == EMV_TAL_RESULT_PSE_NOT_FOUND, "C09: directory selection 6A82");
	else if (k == 3) VP_CHECK(r == EMV_TAL_RESULT_PSE_BLOCKED, "C09: directory selection 6283");
	else if (k == 4) VP_CHECK(r == EMV_TAL_RESULT_PSE_SELECT_FAILED, "C09: directory selection other status");
	else if (k == 5) VP_CHECK(r == EMV_TAL_RESULT_PSE_SFI_NOT_FOUND, "C09: directory without file identifier");
	else if (k == 6) VP_CHECK(r == EMV_TAL_RESULT_PSE_SFI_INVALID, "C09: directory with invalid file identifier");
	else if (k >= 8) VP_CHECK(r == 0, "C09: directory read");
	if (r)
		VP_CHECK(l.front == 0 && l.back == 0, "C09,C10: nothing listed unless the directory was read");
	emv_app_list_clear(&l);
	emv_tlv_list_clear(&aids);
	VP_CHECK(vp_live == 0, "C18: everything released");
	VP_CHECK(emv_tal_read_pse(0, &aids, &l) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_read_pse(&ttl, &aids, 0) == EMV_TAL_ERROR_INVALID_PARAMETER, "C09: invalid arguments refused");
}
void h_find_apps(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct emv_tlv_list_t aids = EMV_TLV_LIST_INIT;
	card_init(&vp_card);
	phase = 2;
	emv_tlv_list_push(&aids, 0x9F06, 5, SA[0], EMV_ASI_PARTIAL_MATCH);
	emv_tlv_list_push(&aids, 0x9F06, 7, SA[1], EMV_ASI_EXACT_MATCH);
	int r = emv_tal_find_supported_apps(&ttl, &aids, &l);
	if (rfail)
		VP_CHECK(r == EMV_TAL_ERROR_TTL_FAILURE, "C08: transport failure reported");
	else if (exp_res == EMV_OUTCOME_CARD_BLOCKED)
		VP_CHECK(r == EMV_TAL_ERROR_CARD_BLOCKED, "C09: blocked card reported");
	else
		VP_CHECK(r == 0, "C09: identifiers tried");
	VP_CHECK(emv_tal_find_supported_apps(0, &aids, &l) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_find_supported_apps(&ttl, 0, &l) == EMV_TAL_ERROR_INVALID_PARAMETER && emv_tal_find_supported_apps(&ttl, &aids, 0) == EMV_TAL_ERROR_INVALID_PARAMETER, "C09: invalid arguments refused");
	emv_app_list_clear(&l);
	emv_tlv_list_clear(&aids);
	VP_CHECK(vp_live == 0, "C18: everything released");
}

/* C22: cards that never come to an end */
#ifndef ENDLESS
#define ENDLESS 0
#endif
static int cnt;
int vp_card_endless(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	++cnt;
	VP_CHECK(cnt <= 600, "C22: number of exchanges is bounded whatever the card answers");
	if (cnt > 600)
		VP_DISCARD();
	o = rx; w = 0;
	if (t[1] == 0xA4 && n == 20) { b(0x6F); b(5); b(0xA5); b(3); b(0x88); b(1); b(1); sw(0x9000); }
	else if (t[1] == 0xB2) {
		if (ENDLESS == 0) { b(0x77); b(0); sw(0x9000); }
		else if (ENDLESS == 1) sw(0x6A88);
		else sw(0x6A83);
	} else {
		if (ENDLESS == 2) { fci(0, 7, 1); sw(0x9000); }
		else if (ENDLESS == 3) { fci(0, 7, 1); sw(0x6283); }
		else sw(0x6A82);
	}
	return end(rn);
}
/* the application object is irrelevant for the number of exchanges: only its identifier length matters */
#ifdef STUB_APP
static struct emv_app_t sa;
static struct emv_tlv_t st;
static uint8_t sv[7];
struct emv_app_t* vp_wrap_emv_app_create_from_fci(const void* f, size_t n) { st.length = 7; st.value = sv; sa.aid = &st; return &sa; }
int vp_wrap_emv_app_free(struct emv_app_t* a) { return 0; }
int vp_wrap_emv_app_list_push(struct emv_app_list_t* l, struct emv_app_t* a) { l->front = a; l->back = a; return 0; }
#endif
void h_endless(void)
{
	struct emv_ctx_t ctx;
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	card_init(&vp_card_endless);
	emv_ctx_init(&ctx, &ttl);
	emv_tlv_list_push(&ctx.supported_aids, 0x9F06, 5, SA[0], EMV_ASI_PARTIAL_MATCH);
	int r = emv_build_candidate_list(&ctx, &l);
	VP_CHECK(cnt >= 1, "C22: operation ends");
}
