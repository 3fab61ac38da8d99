// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
#include "emv_fields.h"
/* f14/C22: card answers every SELECT next with another partial match */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return put(o, "6F 08 84 06 A00000000301 9000"); }
int main(void) { struct emv_tlv_list_t a = EMV_TLV_LIST_INIT; struct emv_app_list_t al = EMV_APP_LIST_INIT;
 emv_tlv_list_push(&a, 0x9F06, 5, (uint8_t[]){0xA0,0,0,0,3}, EMV_ASI_PARTIAL_MATCH);
 int r = emv_tal_find_supported_apps(&ttl, &a, &al); printf("r=%d after %d exchanges\n", r, n_exch); emv_app_list_clear(&al); emv_tlv_list_clear(&a); return 0; }
