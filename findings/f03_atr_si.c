// SRCS: iso7816.c iso7816_compact_tlv.c
#include "iso7816.h"
#include <stdio.h>
int main(void) { unsigned char b[] = { 0x3B, 0x01, 0x00 }; struct iso7816_atr_info_t i;
 int r = iso7816_atr_parse(b, sizeof b, &i); printf("r=%d hist_len=%zu\n", r, i.historical_bytes_len); return r <= 0; }
