// SRCS: emv_strings.c emv_fields.c emv_tlv.c iso8825_ber.c emv_dol.c iso7816_strings.c
// Mastercard Third Party Data of 5 bytes announcing a Device Type is read past its end
#include <stdlib.h>
#include <string.h>
#include "emv_strings.h"
int isocodes_init(const char* p){return 0;} int mcc_init(const char* p){return 0;}
const char* mcc_lookup(unsigned x){return 0;}
const char* isocodes_lookup_country_by_alpha2(const char* c){return 0;}
const char* isocodes_lookup_country_by_alpha3(const char* c){return 0;}
const char* isocodes_lookup_country_by_numeric(unsigned c){return 0;}
const char* isocodes_lookup_currency_by_alpha3(const char* c){return 0;}
const char* isocodes_lookup_currency_by_numeric(unsigned c){return 0;}
const char* isocodes_lookup_language_by_alpha2(const char* c){return 0;}
const char* isocodes_lookup_language_by_alpha3(const char* c){return 0;}
int main(void){ static const unsigned char t[5]={0x08,0x40,0,3,'1'}; unsigned char*p=malloc(5); memcpy(p,t,5); char s[256];
 int r=emv_mastercard_third_party_data_get_string_list(p,5,s,sizeof s); free(p); return r>0?0:1; }
