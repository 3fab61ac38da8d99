// SRCS: emv_ttl.c emv_debug.c
#include "emv_ttl.h"
#include <stdio.h>
#include <stdlib.h>
/* response capacity of one byte */
static int trx(void* c, const void* tx, size_t n, void* rx, size_t* rn) { unsigned char* o = rx; o[0] = 0x90; o[1] = 0; *rn = 2; return 0; }
int main(void) {
 unsigned char c[] = { 0, 0xB2, 1, 0x0C }; struct emv_ttl_t t = { { EMV_CARDREADER_MODE_APDU, NULL, trx } };
 unsigned char* r = malloc(1); size_t rl = 1; uint16_t sw;
 int x = emv_ttl_trx(&t, c, 4, r, &rl, &sw); free(r); printf("r=%d\n", x); return x >= 0; }
