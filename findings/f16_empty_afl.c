// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f16/C16: empty AFL from card is reported as an internal error instead of a card error */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return put(o, "9000"); }
int main(void) { struct emv_ctx_t ctx; emv_ctx_init(&ctx, &ttl); emv_tlv_list_push(&ctx.icc, 0x94, 0, (uint8_t*)"", 0);
 int r = emv_read_application_data(&ctx); printf("r=%d\n", r); emv_ctx_clear(&ctx); return r != EMV_OUTCOME_CARD_ERROR; }
