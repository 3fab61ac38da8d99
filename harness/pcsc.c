/* C26: PC/SC driver against a model of the PC/SC service */
#include "vp_env.h"
#include "vp_alloc.h"
#include <winscard.h>
#include <reader.h>
#include "pcsc.h"
#ifndef NR
#define NR 1            /* readers */
#endif
#ifndef FEAT
#define FEAT 3          /* feature list returned by the reader */
#endif
#ifndef FAILS
#define FAILS 0         /* PC/SC calls which may fail, anywhere */
#endif
#ifndef PLEN
#define PLEN 6          /* length of the property list */
#endif
#ifndef SHORTP
#define SHORTP 0
#endif
#ifndef TLV_L1
#define TLV_L1 2
#endif
#ifndef ATRK
#define ATRK 0
#endif
#ifndef ULEN
#define ULEN 6          /* response to the identifier request */
#endif
#ifndef VCAP
#define VCAP 4
#endif
#define CTXH 0x1234

static int est, est_live, est_bad, live[64], nhandle, temp_open, handle_bad, fails_left, disc_card, name_bad, use_bad;
static const char names[] = "A\0Bc";            /* and the implicit second NUL */
static size_t names_size(void) { return NR == 0 ? 1 : NR == 1 ? 3 : 6; }
static uint8_t plist[264];
static uint8_t atr[33];
static size_t atr_n;
static uint8_t uidresp[264];
static DWORD active = SCARD_PROTOCOL_T0;
const SCARD_IO_REQUEST g_rgSCardT0Pci, g_rgSCardT1Pci, g_rgSCardRawPci;

static int flop(void)
{
	if (fails_left > 0 && vp_nd_split(0, 1)) { --fails_left; return 1; }
	return 0;
}
uint32_t vp_wrap_ntohl(uint32_t x) { return x >> 24 | (x >> 8 & 0xFF00) | (x << 8 & 0xFF0000) | x << 24; }
const char* pcsc_stringify_error(const LONG e) { return "error"; }

LONG SCardEstablishContext(DWORD scope, LPCVOID a, LPCVOID b, LPSCARDCONTEXT c)
{
	if (flop()) return SCARD_E_NO_SERVICE;
	++est; est_live = 1;
	*c = CTXH;
	return SCARD_S_SUCCESS;
}
LONG SCardReleaseContext(SCARDCONTEXT c)
{
	VP_CHECK(est_live && c == CTXH, "C26: only an established context is released, once");
	est_live = 0;
	return flop() ? SCARD_E_INVALID_HANDLE : SCARD_S_SUCCESS;
}
static void inctx(SCARDCONTEXT c) { VP_CHECK(est_live && c == CTXH, "C26: the context is used only while established"); }
LONG SCardListReaders(SCARDCONTEXT c, LPCSTR g, LPSTR out, LPDWORD n)
{
	inctx(c);
	if (flop()) return SCARD_E_NO_READERS_AVAILABLE;
	if (out) {
		if (*n < names_size()) return SCARD_E_INSUFFICIENT_BUFFER;
		for (size_t i = 0; i < names_size(); ++i) out[i] = i + 1 < names_size() ? names[i] : 0;
	}
	*n = names_size();
	return SCARD_S_SUCCESS;
}
static int same(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
LONG SCardConnect(SCARDCONTEXT c, LPCSTR name, DWORD mode, DWORD prot, LPSCARDHANDLE h, LPDWORD p)
{
	inctx(c);
	VP_CHECK(same(name, "A") || (NR > 1 && same(name, "Bc")), "C26: connection to a listed reader");
	if (flop()) return SCARD_E_NO_SMARTCARD;     /* handle not written */
	++nhandle;
	live[nhandle] = 1;
	if (mode == SCARD_SHARE_DIRECT) ++temp_open;
	*h = 0x100 + nhandle;
	*p = mode == SCARD_SHARE_DIRECT ? 0 : active;
	return SCARD_S_SUCCESS;
}
static int idx(SCARDHANDLE h)
{
	int k = (int)(h - 0x100);
	VP_CHECK(h > 0x100 && h <= 0x100 + (SCARDHANDLE)nhandle && live[k], "C26: only a live connection is used");
	return h > 0x100 && h <= 0x100 + (SCARDHANDLE)nhandle ? k : 0;
}
static int allow_null_disconnect, disc_failed;
LONG SCardDisconnect(SCARDHANDLE h, DWORD how)
{
	if (allow_null_disconnect && h == 0) return SCARD_E_INVALID_HANDLE;
	int k = idx(h);
	int f = flop();
	if (f) disc_failed = 1;
	/* a failed disconnection leaves nothing to release either (invalid handle, reader gone) */
	live[k] = 0;
	return f ? SCARD_E_READER_UNAVAILABLE : SCARD_S_SUCCESS;
}
static void put(uint8_t* p, uint8_t tag, uint8_t len, uint32_t v)
{
	p[0] = tag; p[1] = len; p[2] = v >> 24; p[3] = v >> 16; p[4] = v >> 8; p[5] = v;
}
LONG SCardControl(SCARDHANDLE h, DWORD code, LPCVOID in, DWORD inlen, LPVOID out, DWORD cap, LPDWORD got)
{
	idx(h);
	if (flop()) return SCARD_E_NOT_TRANSACTED;
	uint8_t* p = out;
	if (code == 1 || code == 2) { /* PIN and display properties */
		size_t n = code == SHORTP ? cap - 1 : cap;
		if (code == 2 && cap < 4) VP_NEVER("C26: room for the display properties");
		for (size_t i = 0; i < n; ++i) p[i] = code == 1 ? 0x21 + i : 0x41 + i;
		*got = n;
	} else if (code == 3) {
		size_t n = PLEN < cap ? PLEN : cap;
		for (size_t i = 0; i < n; ++i) p[i] = plist[i];
		*got = n;
	} else {
		switch (FEAT) {
			case 1: *got = 0; break;
			case 2: *got = 7; vp_fill(p, 7); break;
			case 3: put(p, 0x0A, 4, 1); put(p + 6, 0x11, 4, 2); put(p + 12, 0x12, 4, 3); *got = 18; break;
			case 4: vp_fill(p, 12); *got = 12; break;
			case 5: /* as many entries as fit */
				for (size_t i = 0; i + 6 <= cap; i += 6) put(p + i, i + 12 > cap ? 0x12 : 0x20 + i / 6, 4, 3);
				*got = cap - cap % 6; break;
			case 6: put(p, 0x06, 4, 7); put(p + 6, 0x12, 4, 3); *got = 12; break;
			case 7: put(p, 0x0A, 4, 1); put(p + 6, 0x11, 3, 2); *got = 12; break;
			default: return SCARD_E_NOT_TRANSACTED;
		}
	}
	return SCARD_S_SUCCESS;
}
LONG SCardStatus(SCARDHANDLE h, LPSTR n, LPDWORD nl, LPDWORD st, LPDWORD pr, LPBYTE a, LPDWORD al)
{
	idx(h);
	if (flop()) return SCARD_W_REMOVED_CARD;
	VP_CHECK(*al >= 33, "C26: room for any ATR");
	for (size_t i = 0; i < atr_n; ++i) a[i] = atr[i];
	*al = atr_n;
	*st = SCARD_SPECIFIC;
	*pr = active;
	return SCARD_S_SUCCESS;
}
static int ntrx;
static size_t trx_n, trx_len;
static const uint8_t* trx_in;
LONG SCardTransmit(SCARDHANDLE h, const SCARD_IO_REQUEST* pci, LPCBYTE in, DWORD inlen, SCARD_IO_REQUEST* rp, LPBYTE out, LPDWORD got)
{
	idx(h);
	++ntrx;
	VP_CHECK(pci == (active == SCARD_PROTOCOL_T0 ? &g_rgSCardT0Pci : &g_rgSCardT1Pci), "C26: protocol of the connection");
	trx_in = in; trx_len = inlen;
	uint8_t x = 0;
	for (size_t i = 0; i < inlen; ++i) x |= in[i];
	if (flop()) return SCARD_E_NOT_TRANSACTED;
	if (trx_n > *got) return SCARD_E_INSUFFICIENT_BUFFER;
	for (size_t i = 0; i < trx_n; ++i) out[i] = uidresp[i];
	*got = trx_n;
	return SCARD_S_SUCCESS;
}
static unsigned present;
LONG SCardGetStatusChange(SCARDCONTEXT c, DWORD t, SCARD_READERSTATE* s, DWORD n)
{
	inctx(c);
	if (flop()) return vp_nd_split(0, 1) ? SCARD_E_TIMEOUT : SCARD_E_READER_UNAVAILABLE;
	for (DWORD i = 0; i < n; ++i) {
		if (s[i].dwCurrentState & SCARD_STATE_IGNORE) s[i].dwEventState = SCARD_STATE_IGNORE;
		else s[i].dwEventState = (present >> (s[i].szReader[0] == 'B')) & 1 ? SCARD_STATE_CHANGED | SCARD_STATE_PRESENT : SCARD_STATE_CHANGED | SCARD_STATE_EMPTY;
	}
	return SCARD_S_SUCCESS;
}

static void all_released(pcsc_ctx_t ctx)
{
	VP_CHECK(!ctx, "C26: released context is null");
	VP_CHECK(!est_live, "C26: PC/SC context released");
	VP_CHECK(vp_live == 0, "C26: memory released");
	for (int i = 1; i <= nhandle; ++i)
		VP_CHECK(!live[i], "C26: connections closed");
}
static pcsc_ctx_t start(void)
{
	pcsc_ctx_t ctx = 0;
	int r = pcsc_init(&ctx);
	for (int i = 1; i <= nhandle; ++i)
		VP_CHECK(!live[i], "C26: temporary connections closed");
	if (r) {
		VP_CHECK(r < 0, "C26: failed initialisation is an error");
		all_released(ctx);
		VP_DISCARD();
	}
	VP_CHECK(est_live && ctx, "C26: initialised");
	VP_CHECK(pcsc_get_reader_count(ctx) == NR, "C26: every reader listed");
	return ctx;
}

/* initialisation and release, with failures anywhere */
void h_init(void)
{
	fails_left = FAILS;
#ifdef AFAILS
	vp_alloc_fail_budget = AFAILS;
#endif
	for (int i = 0; i < PLEN; ++i) plist[i] = i;
	pcsc_ctx_t ctx = start();
	VP_CHECK(pcsc_get_reader(ctx, NR) == 0, "C26: absent reader");
	for (size_t i = 0; i < NR; ++i) {
		pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, i);
		VP_CHECK(rd && same(pcsc_reader_get_name(rd), i ? "Bc" : "A"), "C26: reader name");
		int f = pcsc_reader_has_feature(rd, 0x12);
		if (FEAT < 3)
			VP_CHECK(!pcsc_reader_has_feature(rd, 0x12), "C26: no features from an empty or misaligned list");
		if (FEAT == 3 || FEAT == 5 || FEAT == 6) {
			int a = pcsc_reader_has_feature(rd, 0x0A), b = pcsc_reader_has_feature(rd, 0x06), z = pcsc_reader_has_feature(rd, 0);
			if (fails_left == FAILS && !vp_alloc_failed) {
				VP_CHECK(f, "C26: last listed feature found");
				VP_CHECK((a == 1) == (FEAT == 3) && (b == 1) == (FEAT == 6), "C26: feature presence as listed");
			}
			VP_CHECK(!z, "C26: unlisted feature absent");
		}
		pcsc_reader_has_feature(rd, vp_nd(0, 255));
	}
	pcsc_release(&ctx);
	all_released(ctx);
	pcsc_release(&ctx);
	pcsc_release(0);
}

/* properties */
void h_prop(void)
{
	uint8_t val[VCAP ? VCAP : 1];
#ifdef PABS
	vp_fill(plist, PLEN);
#if PLEN > 3
	plist[1] = TLV_L1;
	for (size_t o = 2 + TLV_L1; o + 2 <= PLEN; ) { /* every sequence of lengths, ending with one that is too long */
		size_t left = PLEN - o - 2, l = vp_nd_split(0, left + 1);
		plist[o + 1] = l > left ? (size_t)vp_nd(l, 255) : l;
		o += 2 + l;
	}
#endif
#else
	static const uint8_t tags[] = { 4, 6, 1, 9 };
	int t1 = tags[vp_nd_split(0, 1)], l1 = TLV_L1, t2 = tags[vp_nd_split(0, 3)], l2 = vp_nd_split(0, 5);
	for (int i = 0; i < PLEN; ++i) plist[i] = 0xE0 + i;
	plist[0] = t1; plist[1] = l1; plist[2 + l1] = t2; plist[3 + l1] = l2;
#endif
	pcsc_ctx_t ctx = start();
	pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, 0);
	static const uint8_t props[] = { 1, 4, 5, 6 };
	unsigned prop = props[vp_nd_split(0, 3)];
	size_t len = VCAP;
	for (int i = 0; i < VCAP; ++i) val[i] = 0x55;
	int r = pcsc_reader_get_property(rd, prop, val, &len);
	VP_CHECK(len <= VCAP, "C26: property length within the output");
	VP_CHECK(r == 0 || len == 0, "C26: no length without a property");
#ifndef PABS
	/* entry offsets of the well-formed part */
	size_t o = 0;
	const uint8_t* want = 0;
	size_t wl = 0;
	int malformed = 0;
	while (o + 2 <= PLEN) {
		if (o + 2 + plist[o + 1] > PLEN) { malformed = 1; break; }
		if (plist[o] == prop) { want = plist + o + 2; wl = plist[o + 1]; break; }
		o += 2 + plist[o + 1];
	}
	if (SHORTP) { /* malformed display properties stop the enumeration */
		if (r == 0) {
			VP_CHECK(SHORTP == 2 && prop == PCSC_PROPERTY_wLcdLayout && VCAP >= 2 && val[0] == 0x21, "C26: malformed display properties are not used");
		}
	} else if (want) {
		VP_CHECK((r == 0) == (wl <= VCAP), "C26: property of the list found when it fits");
		if (r == 0) {
			VP_CHECK(len == wl, "C26: property length");
			for (size_t i = 0; i < wl && i < VCAP; ++i)
				VP_CHECK(val[i] == want[i], "C26: property value");
		} else {
			VP_CHECK(r < 0, "C26: property which does not fit is an error");
		}
	} else if (prop != PCSC_PROPERTY_wLcdLayout && prop != PCSC_PROPERTY_wLcdMaxCharacters && prop != PCSC_PROPERTY_wLcdMaxLines) {
		VP_CHECK(malformed ? r != 0 : r > 0, "C26: unknown property reported");
	} else if (r == 0) {
		VP_CHECK(len == 2, "C26: display property length");
		uint8_t b = prop == PCSC_PROPERTY_wLcdLayout ? 0x21 : prop == PCSC_PROPERTY_wLcdMaxCharacters ? 0x41 : 0x43;
		VP_CHECK(VCAP >= 2 && val[0] == b && val[1] == b + 1, "C26: display property value");
	}
#endif
	VP_CHECK(pcsc_reader_get_property(0, prop, val, &len) < 0 && pcsc_reader_get_property(rd, prop, 0, &len) < 0
		&& pcsc_reader_get_property(rd, prop, val, 0) < 0, "C26: missing arguments refused");
	pcsc_release(&ctx);
	all_released(ctx);
}

static void set_atr(void)
{
	switch (ATRK) {
		case 0: atr_n = 4; atr[0] = 0x3B; atr[1] = 0x02; atr[2] = 0x14; atr[3] = 0x50; break; /* contact */
		case 1: /* looks contactless */
			atr_n = 13; for (size_t i = 0; i < 13; ++i) atr[i] = 0x80 + i;
			atr[0] = 0x3B; atr[1] = 0x88; atr[2] = 0x80; atr[3] = 0x01; break;
		case 2: atr_n = 33; vp_fill(atr, 33); break;
		case 3: atr_n = 0; break;
		case 4: atr_n = 5; vp_fill(atr, 5); break;
	}
}
#ifndef RXCAP
#define RXCAP 258
#endif

void h_connect(void)
{
	uint8_t out[33], cmd[5] = { 0, 0xA4, 4, 0, 0 }, rx[RXCAP];
	pcsc_ctx_t ctx = start();
	pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, 0);
	int base = nhandle;
	active = vp_nd_split(0, 1) ? SCARD_PROTOCOL_T0 : SCARD_PROTOCOL_T1;
	set_atr();
	trx_n = ULEN;
	vp_fill(uidresp, sizeof(uidresp));
	int sw = vp_nd_split(0, 3);
	if (ULEN >= 2) {
		uidresp[ULEN - 2] = sw == 1 ? 0x6A : sw == 2 ? 0x6A : 0x90;
		uidresp[ULEN - 1] = sw == 1 ? 0x81 : sw == 2 ? 0x82 : sw == 3 ? 0x01 : 0x00;
	}
	fails_left = FAILS;
	/* not connected yet: no exchange */
	size_t l = RXCAP;
	VP_CHECK(pcsc_reader_trx(rd, cmd, 5, rx, &l) < 0 && ntrx == 0, "C26: no exchange without a connection");
	size_t al = 33;
	VP_CHECK(pcsc_reader_get_atr(rd, out, &al) > 0, "C26: no ATR without a connection");
	int r = pcsc_reader_connect(rd);
	if (r < 0) {
		VP_CHECK(fails_left < FAILS || ATRK == 1 || ATRK == 2 || ATRK == 4, "C26: connection fails only when the reader or card does");
		for (int i = 1; i <= nhandle; ++i)
			VP_CHECK(!live[i], "C26: failed connection closed");
		fails_left = 0;
		l = RXCAP;
		if (!disc_failed)
			VP_CHECK(pcsc_reader_trx(rd, cmd, 5, rx, &l) < 0, "C26: no exchange after a failed connection");
	} else {
		VP_CHECK(nhandle == base + 1 && live[nhandle], "C26: connected");
		VP_CHECK(r == PCSC_CARD_TYPE_CONTACT || r == PCSC_CARD_TYPE_CONTACTLESS, "C26: card type");
		if (ATRK == 0 || ATRK == 3)
			VP_CHECK(r == PCSC_CARD_TYPE_CONTACT && ntrx == 0, "C26: contact card");
		if (ATRK == 1 && fails_left == FAILS)
			VP_CHECK(ULEN >= 2 && ULEN <= 12 && (r == PCSC_CARD_TYPE_CONTACTLESS ? sw == 0 : sw == 1), "C26: type follows the identifier request");
		for (int i = 0; i < 33; ++i) out[i] = 0x55;
		int g = pcsc_reader_get_atr(rd, out, &al);
		if (r == PCSC_CARD_TYPE_CONTACT && atr_n) {
			VP_CHECK(g == 0 && al == atr_n, "C26: ATR length");
			if (ATRK < 2)
				for (size_t i = 0; i < atr_n; ++i)
					VP_CHECK(out[i] == atr[i], "C26: ATR bytes");
		} else {
			VP_CHECK(g > 0, "C26: no ATR for this card");
		}
		/* exchange */
		int n = ntrx;
		l = RXCAP;
		trx_n = vp_nd_split(0, 2) == 0 ? 2 : vp_nd_split(0, 1) ? RXCAP : RXCAP + 1;
		int f = fails_left;
		int t = pcsc_reader_trx(rd, cmd, 5, rx, &l);
		VP_CHECK(ntrx == n + 1 && trx_in == cmd && trx_len == 5, "C26: command passed on");
		VP_CHECK((t == 0) == (fails_left == f && trx_n <= RXCAP), "C26: exchange reported");
		if (t == 0)
			VP_CHECK(l == trx_n, "C26: response length");
		f = fails_left;
		int d = pcsc_reader_disconnect(rd);
		VP_CHECK(!live[nhandle], "C26: disconnected");
		VP_CHECK((d == 0) == (fails_left == f), "C26: disconnection reported");
		if (d == 0) {
			n = ntrx;
			l = RXCAP;
			VP_CHECK(pcsc_reader_trx(rd, cmd, 5, rx, &l) < 0 && ntrx == n, "C26: no exchange after disconnection");
			VP_CHECK(pcsc_reader_get_atr(rd, out, &al) > 0, "C26: no ATR after disconnection");
			allow_null_disconnect = 1;
			VP_CHECK(pcsc_reader_disconnect(rd) < 0, "C26: nothing left to disconnect");
		}
	}
	fails_left = 0;
	pcsc_release(&ctx);
	all_released(ctx);
}

void h_wait(void)
{
	pcsc_ctx_t ctx = start();
	present = (unsigned)vp_nd_split(0, 3);
	int which = vp_nd_split(0, NR);
	size_t i = which == NR ? PCSC_READER_ANY : (size_t)which;
	fails_left = FAILS;
	int r = pcsc_wait_for_card(ctx, 100, &i);
	if (fails_left < FAILS) {
		VP_CHECK(r != 0, "C26: failure or timeout reported");
	} else {
		unsigned m = present & ((1u << NR) - 1);
		if (which < NR) m &= 1u << which;
		VP_CHECK((r == 0) == (m != 0), "C26: card detected when present");
		if (r == 0)
			VP_CHECK(i < NR && (m >> i & 1) && !(m & ((1u << i) - 1)), "C26: first reader with a card");
	}
	fails_left = FAILS;
	unsigned st = 0;
	r = pcsc_reader_get_state(pcsc_get_reader(ctx, 0), &st);
	VP_CHECK((r == 0) == (fails_left == FAILS), "C26: state reported");
	if (r == 0)
		VP_CHECK(!(st & PCSC_STATE_PRESENT) == !(present & 1), "C26: presence reported");
	fails_left = 0;
	VP_CHECK(pcsc_wait_for_card(0, 1, &i) < 0 && pcsc_wait_for_card(ctx, 1, 0) < 0 && pcsc_reader_get_state(0, &st) < 0
		&& pcsc_reader_connect(0) < 0 && pcsc_reader_disconnect(0) < 0 && pcsc_init(0) < 0 && !pcsc_get_reader_count(0)
		&& !pcsc_get_reader(0, 0) && !pcsc_reader_get_name(0) && !pcsc_reader_has_feature(0, 1), "C26: missing arguments refused");
	pcsc_release(&ctx);
	all_released(ctx);
}
