// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f10/C22: PSE records never end (9000 for every record); f11/C25: record without template 70 makes the debug event read uninitialised tag */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return c[1] == 0xA4 ? put(o, "6F 05 A5 03 88 01 01 9000") : put(o, "61 02 4F 00 9000"); }
static void dbg(struct timespec* t, unsigned s, unsigned l, unsigned ty, const char* str, const void* b, size_t n) { }
int main(void) { struct emv_tlv_list_t a = EMV_TLV_LIST_INIT; struct emv_app_list_t al = EMV_APP_LIST_INIT;
 int r = emv_tal_read_pse(&ttl, &a, &al); printf("r=%d after %d exchanges\n", r, n_exch); return 0; }
