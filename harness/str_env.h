/* environment of the rendering code: lookups and formatted output */
#ifndef VP_STR_ENV_H
#define VP_STR_ENV_H
#include "vp_env.h"
#include "vp_in.h"
#include <stdarg.h>
#include "emv_strings.h"
#include "emv_fields.h"
#include "emv_tlv.h"
#include "emv_tags.h"
/* lookups: unknown, a short name or a name longer than any local buffer */
static char vp_long_name[200];
static const char* vp_lookup(void)
{
#ifdef LOOKUP1 /* one outcome per analysis */
	int k = LOOKUP1;
#else
	int k = vp_nd_split(0, 2);
#endif
	if (k == 0)
		return NULL;
	if (k == 1)
		return "Xy";
	for (int i = 0; i < 199; ++i)
		vp_long_name[i] = 'n';
	return vp_long_name;
}
int isocodes_init(const char* p) { return 0; }
int mcc_init(const char* p) { return 0; }
static size_t vp_len(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
const char* mcc_lookup(unsigned int x) { return vp_lookup(); }
const char* isocodes_lookup_country_by_alpha2(const char* c) { vp_len(c); return vp_lookup(); }
const char* isocodes_lookup_country_by_alpha3(const char* c) { vp_len(c); return vp_lookup(); }
const char* isocodes_lookup_country_by_numeric(unsigned int c) { return vp_lookup(); }
const char* isocodes_lookup_currency_by_alpha3(const char* c) { vp_len(c); return vp_lookup(); }
const char* isocodes_lookup_currency_by_numeric(unsigned int c) { return vp_lookup(); }
const char* isocodes_lookup_language_by_alpha2(const char* c) { vp_len(c); return vp_lookup(); }
const char* isocodes_lookup_language_by_alpha3(const char* c) { vp_len(c); return vp_lookup(); }
/* exact counterparts of libc text functions */
char* vp_wrap_strncpy(char* d, const char* s, size_t n)
{
	size_t i = 0;
	while (i < n && s[i]) { d[i] = s[i]; ++i; }
	while (i < n) d[i++] = 0;
	return d;
}
size_t vp_wrap_strlen(const char* s) { return vp_len(s); }
int vp_wrap_strncmp(const char* a, const char* b, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
		if (!a[i]) return 0;
	}
	return 0;
}
int vp_wrap_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vp_wrap_isprint(int c) { return c >= 0x20 && c < 0x7F; }
int vp_wrap_isdigit(int c) { return c >= '0' && c <= '9'; }
int vp_wrap_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
#endif
