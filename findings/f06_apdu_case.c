// SRCS:
#include "iso7816_apdu.h"
#include <stdio.h>
/* case 3E: CLA INS P1 P2 00 | 00 03 | AA BB CC */
int main(void) { unsigned char b[] = { 0, 0xA4, 4, 0, 0, 0, 3, 0xAA, 0xBB, 0xCC };
 int r = iso7816_apdu_case(b, sizeof b); printf("case=%d want %d\n", r, ISO7816_APDU_CASE_3E); return r != ISO7816_APDU_CASE_3E; }
