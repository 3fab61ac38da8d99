// SRCS: emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c iso7816.c iso7816_compact_tlv.c iso8859_simple.c emv_debug.c
/* f20/C01: empty File Control Information: the decision depends on stale stack bytes; compile with clang -fsanitize=memory to see the read */
#include "emv_app.h"
#include <stdint.h>
#include <string.h>
#include <stdio.h>
/* leave a plausible decoded element on the stack: tag 6F with a valid value */
static const uint8_t v[] = { 0x84, 5, 1, 2, 3, 4, 5 };
__attribute__((noinline)) static void dirty(void) { const void* p[64]; for (int i = 0; i < 64; ++i) p[i] = (i & 1) ? (const void*)0x6F : (const void*)v; __asm__ volatile("" :: "r"(p) : "memory"); }
int main(void) { dirty(); struct emv_app_t* a = emv_app_create_from_fci("", 0); printf("%p (expect NULL)\n", (void*)a); return a != 0; }
