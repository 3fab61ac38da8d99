// SRCS: emv_strings.c emv_tlv.c emv_fields.c iso8825_ber.c emv_dol.c iso7816_strings.c iso7816.c iso7816_compact_tlv.c
/* f21 C20: 12-digit amounts wrap; f22 C04: emv_uint_to_str writes one byte past; f23 C04: date/time; f24 C04 track2; f25 C23 tag 84; f26 C23 JCB; f27 C04 unterminated lists
   (run once per case: argument = case number) */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "emv_strings.h"
#include "emv_fields.h"
#include "emv_tlv.h"
#include "emv_tags.h"
int isocodes_init(const char* p) { return 0; } int mcc_init(const char* p) { return 0; } const char* mcc_lookup(unsigned x) { return 0; }
const char* isocodes_lookup_country_by_alpha2(const char* c) { return 0; } const char* isocodes_lookup_country_by_alpha3(const char* c) { return 0; } const char* isocodes_lookup_country_by_numeric(unsigned c) { return 0; }
const char* isocodes_lookup_currency_by_numeric(unsigned c) { return 0; } const char* isocodes_lookup_currency_by_alpha3(const char* c) { return 0; } const char* isocodes_lookup_language_by_alpha2(const char* c) { return 0; } const char* isocodes_lookup_language_by_alpha3(const char* c) { return 0; }
int main(int c, char** v) {
	char* s; int r; struct emv_tlv_info_t info; struct emv_tlv_t t; int n = c > 1 ? atoi(v[1]) : 21;
	memset(&t, 0, sizeof t);
	switch (n) {
	case 21: { uint8_t a[6] = { 0x01, 0x23, 0x45, 0x67, 0x89, 0x01 }; char b[20]; r = emv_format_n_get_string(a, 6, b, 20); printf("%d %s (expect 12345678901)\n", r, b); uint32_t u; printf("n_to_uint %d\n", emv_format_n_to_uint(a, 6, &u)); return strcmp(b, "12345678901") != 0; }
	case 22: { uint8_t a[1] = { 0x12 }; s = malloc(2); r = emv_amount_get_string(a, 1, s, 2); printf("%d\n", r); return r == 0; }
	case 24: { uint8_t a[4] = { 0x40, 0x12, 0x34, 0x56 }; s = malloc(4); r = emv_track2_equivalent_data_get_string(a, 4, s, 4); printf("%d\n", r); return r == 0; }
	case 25: { char b[64]; t.tag = 0x84; t.length = 14; t.value = (uint8_t*)"1PAY.SYS.DDF01"; r = emv_tlv_get_info(&t, &info, b, 64); printf("%d '%s'\n", r, b); return strcmp(b, "1PAY.SYS.DDF01") != 0; }
	case 26: { char b[64]; uint8_t a[7] = { 0xA0, 0, 0, 0, 0x65, 0x10, 0x10 }; r = emv_aid_get_string(a, 7, b, 64); printf("%d '%s'\n", r, r ? "" : b); return r != 0; }
	case 27: { char b[8]; memset(b, 'x', 8); uint8_t a[2] = { 0, 0 }; r = emv_aip_get_string_list(a, 2, b, 8); printf("%d %c\n", r, b[0]); return r == 0 && !memchr(b, 0, 8); }
	}
	return 0; }
