// SRCS: emv_ttl.c emv_debug.c
#include "emv_ttl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* TPDU mode, case 3S, Lc=3. Card: ~INS (1 byte), then INS (rest), then 9000.
   Transmitted data must be exactly the 3 data bytes. */
static int step; static unsigned char sent[64]; static size_t nsent;
static int trx(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
 unsigned char* o = rx;
 if (step) { memcpy(sent + nsent, tx, n); nsent += n; }
 switch (step++) {
  case 0: o[0] = 0xA4 ^ 0xFF; *rn = 1; return 0;
  case 1: o[0] = 0xA4; *rn = 1; return 0;
  default: o[0] = 0x90; o[1] = 0; *rn = 2; return 0;
 }
}
int main(void) {
 unsigned char* c = malloc(8); memcpy(c, (unsigned char[]){ 0, 0xA4, 4, 0, 3, 0x11, 0x22, 0x33 }, 8);
 struct emv_ttl_t t = { { EMV_CARDREADER_MODE_TPDU, NULL, trx } };
 unsigned char r[258]; size_t rl = sizeof r; uint16_t sw;
 int x = emv_ttl_trx(&t, c, 8, r, &rl, &sw);
 free(c); printf("r=%d sent=%zu\n", x, nsent);
 return !(x == 0 && nsent == 3); }
