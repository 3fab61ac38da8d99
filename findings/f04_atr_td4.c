// SRCS: iso7816.c iso7816_compact_tlv.c
#include "iso7816.h"
#include <stdio.h>
/* TD1..TD4 present, one historical byte b[6], TCK 00 */
int main(void) { unsigned char b[] = { 0x3B, 0x81, 0x80, 0x81, 0x8F, 0x0F, 0x42, 0x00 }; struct iso7816_atr_info_t i;
 b[6] = 0; for (int k = 1; k < 6; ++k) b[6] ^= b[k]; b[7] = 0;
 int r = iso7816_atr_parse(b, sizeof b, &i); printf("r=%d T1=%02x\n", r, i.T1); return !(r > 0 || i.T1 == b[6]); }
