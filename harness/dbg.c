/* C25: event filtering in emv_debug.c */
#define VP_OWN_DEBUG
#include "vp_env.h"
#include <stdio.h>
#include <time.h>
#include "vp_printf.h"
#include "emv_debug.h"
int vp_wrap_vsnprintf(char* s, size_t n, const char* f, va_list ap)
{
	VP_CHECK(n >= 1, "C25: room for the text");
	return vp_vsnprintf(s, n, f, ap);
}
int vp_wrap_timespec_get(struct timespec* t, int base) { t->tv_sec = vp_nd(0, 2000000000); t->tv_nsec = vp_nd(0, 999999999); return base; }
int vp_wrap_clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = vp_nd(0, 2000000000); t->tv_nsec = vp_nd(0, 999999999); return 0; }

static int ncall, wrong;
static unsigned esource, elevel, etype;
static const void* ebuf;
static size_t elen, estr;
static char echar;
static void cb(unsigned int ts, enum emv_debug_source_t source, enum emv_debug_level_t level, enum emv_debug_type_t type,
	const char* str, const void* buf, size_t len)
{
	++ncall;
	if (source != esource || level != elevel || type != etype || buf != ebuf || len != elen)
		wrong = 1;
	size_t n = 0;
	while (str[n]) { /* must be terminated within its buffer */
		if (str[n] != echar)
			wrong = 1;
		++n;
	}
	/* long texts may be cut */
	if (n != estr && !(estr > 200 && n >= 200 && n < estr))
		wrong = 1;
}
static int nother;
static void other(unsigned int ts, enum emv_debug_source_t source, enum emv_debug_level_t level, enum emv_debug_type_t type,
	const char* str, const void* buf, size_t len)
{
	++nother;
}

static const unsigned masks[] = { 0, 1, 2, 4, 8, 3, 5, 6, 9, 10, 12, 15, 0xFF };
static uint8_t data[4];
static char text[2001];
#ifndef TYPE
#define TYPE 2
#endif
#ifndef SET
#define SET 1
#endif
#ifndef TLEN
#define TLEN 3
#endif

void h_filter(void)
{
	unsigned mask = masks[vp_nd_split(0, sizeof(masks) / sizeof(masks[0]) - 1)];
	unsigned level = vp_nd_split(EMV_DEBUG_NONE, EMV_DEBUG_ALL);
	unsigned src = 1u << vp_nd_split(0, 3);
	int elv = vp_nd_split(EMV_DEBUG_ERROR, EMV_DEBUG_TRACE);
	int set = SET; /* never configured; configured; callback removed */
	esource = src; elevel = elv; etype = TYPE;
	uint8_t d[4] = { 1, 2, 3, 4 };
	ebuf = etype == EMV_DEBUG_TYPE_MSG ? 0 : d;
	elen = etype == EMV_DEBUG_TYPE_MSG ? 0 : sizeof(d);
	echar = 'a'; estr = 3;
	if (set == 1) {
		emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, other);
		VP_CHECK(emv_debug_init(mask, level, cb) == 0, "C25: configuration accepted");
	} else if (set == 2) {
		emv_debug_init(mask, level, cb);
		emv_debug_init(mask, level, 0);
	}
	emv_debug_internal(esource, elevel, etype, "aaa", ebuf, elen);
	int want = set == 1 && (mask & src) && elevel <= level;
	VP_CHECK(ncall == want, "C25: an event is delivered exactly when enabled");
	VP_CHECK(!nother, "C25: a replaced callback is not called");
	VP_CHECK(!wrong, "C25: the event is delivered unchanged");
	VP_CHECK(d[0] == 1 && d[1] == 2 && d[2] == 3 && d[3] == 4, "C25: event data is not modified");
	/* the filter has no memory */
	emv_debug_internal(esource, elevel, etype, "aaa", ebuf, elen);
	VP_CHECK(ncall == 2 * want && !wrong, "C25: the next event is filtered alike");
}

void h_text(void)
{
	for (int i = 0; i < TLEN; ++i) text[i] = 'b';
	text[TLEN] = 0;
	echar = 'b'; estr = TLEN; esource = EMV_DEBUG_SOURCE_EMV; elevel = EMV_DEBUG_INFO; etype = EMV_DEBUG_TYPE_DATA;
	ebuf = data; elen = sizeof(data);
	emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, cb);
	emv_debug_internal(esource, elevel, etype, "%s", ebuf, elen, text);
	VP_CHECK(ncall == 1 && !wrong, "C25: text formatted and terminated");
}
