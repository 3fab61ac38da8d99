// SRCS: iso8825_ber.c
#include "iso8825_ber.h"
#include <stdio.h>
int main(void) { unsigned char b[20] = { 0x2A }; struct iso8825_oid_t o;
 printf("%d %d\n", iso8825_ber_oid_decode(b, sizeof b, &o), iso8825_ber_oid_decode(b, 1, NULL)); return 0; }
