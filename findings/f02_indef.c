// SRCS: iso8825_ber.c
#include "iso8825_ber.h"
#include <stdio.h>
/* 30 80 [04 01 AA] 00 00 then 04 00: expect consumed 7, then tag 4 */
int main(void) { unsigned char b[] = { 0x30,0x80,0x04,0x01,0xAA,0,0,0x04,0 }; struct iso8825_ber_itr_t i; struct iso8825_tlv_t t;
 iso8825_ber_itr_init(b, sizeof b, &i); int r, bad = 0;
 r = iso8825_ber_itr_next(&i, &t); printf("r=%d tag=%x len=%u\n", r, t.tag, t.length); bad |= r != 7;
 r = iso8825_ber_itr_next(&i, &t); printf("r=%d tag=%x len=%u\n", r, t.tag, t.length); bad |= t.tag != 4;
 return bad; }
