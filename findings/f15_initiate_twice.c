// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f15/C18,C14: initiating the same application twice uses the freed AID; NULL context */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return c[1] == 0xA4 ? put(o, "6F 09 84 07 A0000000030101 9000") : put(o, "80 06 0000 08010100 9000"); }
int main(int argc, char** argv) { struct emv_ctx_t ctx; emv_ctx_init(&ctx, &ttl);
 if (emv_tal_select_app(&ttl, (uint8_t[]){0xA0,0,0,0,3,1,1}, 7, &ctx.selected_app)) return 3;
 int r = emv_initiate_application_processing(&ctx, 5); printf("r=%d\n", r);
 r = emv_initiate_application_processing(&ctx, 5); printf("r=%d\n", r);
 emv_ctx_clear(&ctx);
 r = emv_initiate_application_processing(NULL, 5); printf("r=%d\n", r); return 0; }
