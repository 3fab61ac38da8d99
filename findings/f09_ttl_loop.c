// SRCS: emv_ttl.c emv_debug.c
#include "emv_ttl.h"
#include <stdio.h>
#include <stdlib.h>
/* card that answers 6C10 (or 6110) forever */
static int n; static unsigned char s1;
static int trx(void* c, const void* tx, size_t l, void* rx, size_t* rn) { unsigned char* o = rx; if (++n > 100000) { printf("still exchanging after 100000\n"); exit(1); } o[0] = s1; o[1] = 0x10; *rn = 2; return 0; }
int main(void) {
 unsigned char c[] = { 0, 0xB2, 1, 0x0C, 0 }; struct emv_ttl_t t = { { EMV_CARDREADER_MODE_APDU, NULL, trx } };
 unsigned char r[258]; size_t rl = sizeof r; uint16_t sw;
 s1 = 0x6C; int x = emv_ttl_trx(&t, c, 5, r, &rl, &sw); printf("r=%d\n", x);
 s1 = 0x61; rl = sizeof r; x = emv_ttl_trx(&t, c, 5, r, &rl, &sw); printf("r=%d\n", x); return 0; }
