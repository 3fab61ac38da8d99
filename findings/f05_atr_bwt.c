// SRCS: iso7816.c iso7816_compact_tlv.c
#include "iso7816.h"
#include <stdio.h>
/* TA1=17 (Di 64, Fi 372), T=1, TB3=90 (BWI 9) */
int main(void) { unsigned char b[] = { 0x3B, 0x90, 0x17, 0x81, 0x21, 0x90, 0x00 }; struct iso7816_atr_info_t i;
 for (int k = 1; k < 6; ++k) b[6] ^= b[k];
 int r = iso7816_atr_parse(b, sizeof b, &i); printf("r=%d BWT=%u want %llu\n", r, i.protocol_T1.BWT, 11 + 512ULL*960*372*64/372); return i.protocol_T1.BWT != 11 + 512ULL*960*372*64/372; }
