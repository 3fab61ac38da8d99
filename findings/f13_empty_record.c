// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f13/C15: empty record: decision depends on stale stack bytes (run under valgrind/msan); here stale byte 70 from earlier record */
static int k; static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return ++k == 1 ? put(o, "70 03 5A 01 11 9000") : put(o, "9000"); }
int main(void) { struct emv_tlv_list_t a = EMV_TLV_LIST_INIT; const uint8_t afl[] = { 0x58, 1, 2, 0 };
 int r = emv_tal_read_afl_records(&ttl, afl, 4, &a); printf("r=%d (expect %d)\n", r, EMV_TAL_RESULT_ODA_RECORD_INVALID); emv_tlv_list_clear(&a); return r != EMV_TAL_RESULT_ODA_RECORD_INVALID; }
