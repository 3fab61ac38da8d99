// SRCS: iso7816_strings.c
// empty ISO string list left unterminated; C-APDU shorter than 4 bytes read out of bounds;
// last digit lost when rendering SELECT of 255 unprintable bytes
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "iso7816_strings.h"
int main(int c, char** v)
{
	char s[8] = "XXXXXXX"; unsigned char z = 0;
	int r = iso7816_card_capabilities_get_string_list(&z, 1, s, sizeof(s));
	if (r == 0 && s[0]) { printf("list unterminated\n"); return 1; }
	static unsigned char sel[261] = { 0, 0xA4, 4, 0, 255, 1 };
	char t[600]; iso7816_capdu_get_string(sel, 261, t, sizeof(t));
	if (strlen(t) != strlen("SELECT first ") + 510) { printf("digits lost: %zu\n", strlen(t)); return 1; }
	unsigned char* p = malloc(1); *p = 0x00; char u[8];
	if (iso7816_capdu_get_string(p, 1, u, sizeof(u))) return 1;
	free(p); return 0;
}
