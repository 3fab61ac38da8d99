// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f12/C22,C15: last record 255 */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return put(o, "70 00 9000"); }
int main(void) { struct emv_tlv_list_t a = EMV_TLV_LIST_INIT; const uint8_t afl[] = { 0x08, 0xFE, 0xFF, 0 };
 int r = emv_tal_read_afl_records(&ttl, afl, 4, &a); printf("r=%d after %d exchanges\n", r, n_exch); return r || n_exch != 2; }
