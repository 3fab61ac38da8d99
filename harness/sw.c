/* C09: every status other than the documented ones, with an otherwise perfect answer */
#include "card.h"
#ifndef WHICH
#define WHICH 0
#endif
static const uint8_t A[7] = { 0xA0, 0, 0, 0, 0x03, 0x10, 0x10 };
static const int odd[48] = { 0x9001, 0x9080, 0x90FF, 0x8000, 0x6200, 0x6202, 0x6281, 0x6282, 0x6284, 0x6285, 0x6286, 0x62FF,
	0x6300, 0x6310, 0x6381, 0x63C0, 0x63C3, 0x6400, 0x6401, 0x6500, 0x6581, 0x6600, 0x6700, 0x6800, 0x6881, 0x6882,
	0x6900, 0x6981, 0x6982, 0x6983, 0x6984, 0x6986, 0x6A00, 0x6A80, 0x6A84, 0x6A86, 0x6A87, 0x6A88, 0x6A89, 0x6B00,
	0x6D00, 0x6E00, 0x6F00, 0x9100, 0x9300, 0x9400, 0x9F10, 0x9900 };
static int S, plain;
static void fci(int blocked)
{
	b(0x6F); b(11 + 5); b(0x84); b(7);
	for (int i = 0; i < 7; ++i) b(A[i]);
	b(0xA5); b(5); b(0x50); b(3); b('V'); b('I'); b('S');
}
int vp_card(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	const uint8_t* t = tx;
	begin(c, tx, n, rx, rn);
	switch (WHICH) {
		case 0: /* directory selection */
			over = 1;
			b(0x6F); b(0x05); b(0xA5); b(3); b(0x88); b(1); b(1);
			sw(S);
			break;
		case 1: /* directory record: the first is odd, the second good, then the end */
			if (nx == 1) { b(0x6F); b(0x05); b(0xA5); b(3); b(0x88); b(1); b(1); sw(0x9000); break; }
			VP_CHECK(t[1] == 0xB2 && t[2] == nx - 1, "C10: directory records read in order");
			if (nx > 3) { over = 1; sw(0x6A83); break; }
			b(0x70); b(11); b(0x61); b(9); b(0x4F); b(7);
			for (int i = 0; i < 7; ++i) b(nx == 2 && i == 6 ? 0x20 : A[i]);
			sw(nx == 2 ? S : 0x9000);
			break;
		case 2: over = 1; fci(0); sw(S); break; /* discovery by identifier */
		case 3: over = 1; fci(0); sw(S); break; /* selection of a candidate */
		case 4: over = 1; b(0x80); b(6); b(0x39); b(0); b(8); b(1); b(1); b(0); sw(S); break; /* processing options */
		default: over = 1; b(0x70); b(3); b(0x5A); b(1); b(0x47); sw(S); break; /* record */
	}
	return end(rn);
}
void h_odd(void)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct emv_tlv_list_t aids = EMV_TLV_LIST_INIT, data = EMV_TLV_LIST_INIT, oda = EMV_TLV_LIST_INIT;
	struct emv_app_t* a = NULL;
	int r;
	card_init(&vp_card);
	S = odd[vp_nd_split(0, 47)];
	plain = vp_nd_bool();
	if (plain) { /* further codes that are documented for another command only */
		static const int other[5] = { 0x6A83, 0x6985, 0x6283, 0x6A82, 0x6A81 };
		int k = vp_nd_split(0, 4);
		S = other[k];
		VP_ASSUME(WHICH == 4 ? k != 1 : WHICH == 5 ? 1 : WHICH == 1 ? k != 0 : k < 2);
	}
	emv_tlv_list_push(&aids, 0x9F06, 5, A, EMV_ASI_PARTIAL_MATCH);
	switch (WHICH) {
		case 0:
			r = emv_tal_read_pse(&ttl, &aids, &l);
			VP_CHECK(r == EMV_TAL_RESULT_PSE_SELECT_FAILED && l.front == NULL, "C09: any other directory selection status is the generic failure");
			break;
		case 1:
			r = emv_tal_read_pse(&ttl, &aids, &l);
			VP_CHECK(r == 0, "C09: directory read in spite of one unreadable record");
			VP_CHECK(l.front && l.front == l.back && l.front->aid && l.front->aid->length == 7 && l.front->aid->value[6] == 0x10, "C09,C10: only records answered with 9000 are used");
			break;
		case 2:
			r = emv_tal_find_supported_apps(&ttl, &aids, &l);
			VP_CHECK(r == 0 && l.front == NULL, "C09,C10: application answering with any other status is not listed");
			break;
		case 3:
			r = emv_tal_select_app(&ttl, A, 7, &a);
			VP_CHECK(r == EMV_TAL_RESULT_APP_SELECTION_FAILED && a == NULL, "C09: any other selection status is the generic failure");
			break;
		case 4: {
			uint8_t p[2] = { 0x83, 0 };
			const struct emv_tlv_t* aip = NULL;
			const struct emv_tlv_t* afl = NULL;
			r = emv_tal_get_processing_options(&ttl, p, 2, &data, &aip, &afl);
			VP_CHECK(r == EMV_TAL_ERROR_GPO_FAILED && data.front == NULL, "C09: any other processing options status is the generic failure");
			break;
		}
		default: {
			uint8_t f[4] = { 8, 1, 1, 0 };
			r = emv_tal_read_afl_records(&ttl, f, 4, &data);
			VP_CHECK(r == EMV_TAL_ERROR_READ_RECORD_FAILED && data.front == NULL, "C09: any other record status is the generic failure");
			break;
		}
	}
	if (a)
		emv_app_free(a);
	emv_app_list_clear(&l);
	emv_tlv_list_clear(&aids);
	emv_tlv_list_clear(&data);
}
