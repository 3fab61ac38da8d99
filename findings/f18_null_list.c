// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
#include "card.h"
/* f18/C03,C11: clearing a NULL list dereferences it although NULL is handled as an invalid list */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o) { return 0; }
int main(void) { emv_tlv_list_clear(NULL); emv_app_list_clear(NULL); return 0; }
