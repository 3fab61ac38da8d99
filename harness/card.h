/* whole stack (transaction, application, transport layers) against a model card
   that answers in single APDU frames; shared by the card_*.c harnesses */
#ifndef VP_CARD_H
#define VP_CARD_H
#include "vp_env.h"
#include "vp_in.h"
#include "vp_alloc.h"
#include "emv.h"
#include "emv_tal.h"
#include "emv_ttl.h"
#include "emv_app.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_fields.h"
#include "iso8859.h"
#ifndef FAILS
#define FAILS 0
#endif
bool iso8859_is_supported(unsigned int codepage) { return codepage == 1; }
int iso8859_to_utf8(unsigned int codepage, const uint8_t* in, size_t n, char* out, size_t on)
{
	if (!in || !n || !out || !on)
		return -1;
	out[0] = 0;
	return 3;
}
static int nx;          /* exchanges so far */
static int over;        /* nothing may be exchanged any more */
static int rfail;       /* reader failure happened */
static uint8_t* o;      /* response being built */
static int w;
static void b(int x) { o[w++] = x; }
static void sw(int x) { b(x >> 8); b(x & 0xFF); }
static struct emv_ttl_t ttl;
static void card_init(int (*trx)(void*, const void*, size_t, void*, size_t*))
{
	ttl.cardreader.mode = EMV_CARDREADER_MODE_APDU;
	ttl.cardreader.ctx = &ttl;
	ttl.cardreader.trx = trx;
}
/* value of -DNAME or free choice for the i-th decision */
#ifndef K1
#define K1 -1
#endif
#ifndef K2
#define K2 -1
#endif
#ifndef K3
#define K3 -1
#endif
static int nk;
static int choose(int hi)
{
	++nk;
	int f = nk == 1 ? K1 : nk == 2 ? K2 : nk == 3 ? K3 : -1;
	if (f >= 0)
		return f;
	return vp_nd_split(0, hi);
}
static int begin(void* c, const void* tx, size_t n, void* rx, size_t* rn)
{
	VP_CHECK(c == &ttl, "C07: reader context passed through");
	VP_CHECK(!rfail, "C08: no exchange after a reader failure");
	VP_CHECK(!over, "C09,C10,C12,C14,C15,C16,C22: no exchange after the result is decided");
	if (rfail || over)
		VP_DISCARD();
	++nx;
	o = rx;
	w = 0;
	return 0;
}
static int fail_reader(void) { rfail = 1; return vp_nd_bool() ? -3 : 4; }
static int end(size_t* rn) { *rn = w; return 0; }
#endif
