// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f17/C18: *aip left dangling when AFL is missing */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return put(o, "77 04 82 02 1234 9000"); }
int main(void) { struct emv_tlv_list_t a = EMV_TLV_LIST_INIT; const struct emv_tlv_t *aip, *afl;
 int r = emv_tal_get_processing_options(&ttl, NULL, 0, &a, &aip, &afl); printf("r=%d aip=%s\n", r, aip ? "non-NULL" : "NULL"); return aip && aip->value[0]; }
