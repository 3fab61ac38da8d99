// SRCS: emv_strings.c emv_fields.c emv_tlv.c iso8825_ber.c emv_dol.c iso7816_strings.c
// emv_tlv_get_info: zero-length fields (9C 00 etc) read one byte past their value; list entries (no
// value) for 84 of 14 bytes and 9F12 dereference null
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "emv_strings.h"
#include "emv_tlv.h"
#include "emv_tags.h"
int isocodes_init(const char* p){return 0;} int mcc_init(const char* p){return 0;}
const char* mcc_lookup(unsigned x){return 0;}
const char* isocodes_lookup_country_by_alpha2(const char* c){return 0;}
const char* isocodes_lookup_country_by_alpha3(const char* c){return 0;}
const char* isocodes_lookup_country_by_numeric(unsigned c){return 0;}
const char* isocodes_lookup_currency_by_alpha3(const char* c){return 0;}
const char* isocodes_lookup_currency_by_numeric(unsigned c){return 0;}
const char* isocodes_lookup_language_by_alpha2(const char* c){return 0;}
const char* isocodes_lookup_language_by_alpha3(const char* c){return 0;}
int main(int argc,char**argv){
 static const unsigned t[]={0x9C,0x5F57,0x9F27,0x9F35,0x9F39};
 struct emv_tlv_t v; struct emv_tlv_info_t i; char s[256];
 for(int k=0;k<5;++k){ memset(&v,0,sizeof v); v.tag=t[k]; v.value=malloc(0); emv_tlv_get_info(&v,&i,s,sizeof s); free(v.value); }
 memset(&v,0,sizeof v); v.tag=0x84; v.length=14; emv_tlv_get_info(&v,&i,NULL,0);
 memset(&v,0,sizeof v); v.tag=0x9F12; v.length=4; emv_tlv_get_info(&v,&i,s,sizeof s);
 return 0; }
