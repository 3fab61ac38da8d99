/* C05 / C06 / C22: terminal transport layer against an arbitrary card reader.
   The card reader stub chooses any response; a reference automaton kept beside it
   says what may be transmitted next and what must be returned. */
#include "vp_env.h"
#include "vp_in.h"
#include "emv_ttl.h"
#include "iso7816_apdu.h"
#ifndef MODE
#define MODE EMV_CARDREADER_MODE_TPDU
#endif
#ifndef CASE
#define CASE 4
#endif
#ifndef LC
#define LC 3
#endif
#ifndef CAP
#define CAP 8
#endif
#ifndef MAXX
#define MAXX 3
#endif
#ifndef PRE1
#define PRE1 -1
#endif
#ifndef PRE2
#define PRE2 -1
#endif
#ifndef PRE3
#define PRE3 -1
#endif
#define TPDU (MODE == EMV_CARDREADER_MODE_TPDU)
#define INS_ 0xA8
#define LEN_ (CASE == 1 ? 4 : CASE == 2 ? 5 : CASE == 3 ? 5 + LC : 6 + LC)
#ifdef ONLY_TX   /* C05: containment only */
#define CHECK6(c, n) do { } while (0)
#else
#define CHECK6(c, n) VP_CHECK(c, n)
#endif

static uint8_t cmd[LEN_];
static uint8_t exp_tx[LEN_ < 5 ? 5 : LEN_];
static int exp_len;
static uint8_t hdr[5];
static int pos, left;
static int getresp, leupd;
static unsigned warn;
static uint8_t out[300];
static int outlen;
static int done, dret, dsw; /* dret: 0 success, 1 protocol error, -1 local error, 2 any failure, else exact */
static int exact;
static int nx;

/* response data: markers, or bytes that look like status or procedure bytes */
static int dat(int n, int i) { return n == 1 ? INS_ : n == 2 ? (i ? 0x6C : 0x61) : 0x40 + ((nx * 16 + i) & 0x3F); }
static void next_hdr(void) { for (int i = 0; i < 5; ++i) exp_tx[i] = hdr[i]; exp_len = 5; }
static void fin(int r) { done = 1; dret = r; }

int vp_trx(void* c, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	const uint8_t* t = tx;
	uint8_t* o = rx;
	CHECK6(!done, "no exchange after the result is decided");
	if (done)
		VP_DISCARD();
	VP_CHECK(tx_len == exp_len, "transmitted length");
	if (tx_len != exp_len)
		VP_DISCARD();
	for (int i = 0; i < exp_len; ++i)
		VP_CHECK(t[i] == exp_tx[i], "transmitted bytes");
	VP_CHECK(*rx_len >= 1 && *rx_len <= 258, "receive capacity announced");
	if (nx++ >= MAXX)
		VP_DISCARD();

	/* the first responses may be fixed by the job (PRE), the others are free */
	static const int pre[] = { PRE1, PRE2, PRE3 };
	int k = nx <= 3 && pre[nx - 1] >= 0 ? pre[nx - 1] : vp_nd_split(0, 12);
	int n = 0;          /* data bytes */
	int sw1 = 0, sw2 = 0;
	if (k == 0) { /* reader failure */
		int f = vp_nd_bool() ? -7 : 5;
		fin(9); exact = f;
		return f;
	}
	if (k == 1) { /* nothing received */
		*rx_len = 0;
		fin(1);
		return 0;
	}
	if (k <= 5) { /* single procedure byte */
		*rx_len = 1;
		o[0] = k == 2 ? hdr[1] : k == 3 ? (hdr[1] ^ 0xFF) : k == 4 ? 0x60 : 0x3C;
		if (CASE == 1 || k > 3 || left == 0) {
			fin(1);
			return 0;
		}
		int m = k == 2 ? left : 1;
		for (int i = 0; i < m; ++i)
			exp_tx[i] = cmd[5 + pos + i];
		exp_len = m;
		pos += m;
		left -= m;
		return 0;
	}
	/* status, optionally preceded by data */
	switch (k) {
		case 6: sw1 = 0x90; sw2 = 0; break;
		case 7: sw1 = 0x61; sw2 = vp_nd_bool() ? 0x07 : 0x00; break;
		case 8: sw1 = 0x6C; sw2 = vp_nd_bool() ? 0x09 : 0x00; break;
		case 9: sw1 = 0x62; sw2 = vp_nd_split(0, 4); sw2 = sw2 == 0 ? 0 : sw2 == 1 ? 0x02 : sw2 == 2 ? 0x80 : sw2 == 3 ? 0x83 : 0x01; break;
		case 10: sw1 = 0x63; sw2 = 0xC2; break;
		case 11: sw1 = 0x6A; sw2 = 0x82; break;
		case 12: sw1 = 0x69; sw2 = 0x61; break;
	}
	int lead = 0;
	n = vp_nd_split(0, 5);
	n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? CAP - 2 : n == 4 ? CAP - 1 : CAP + 1;
	VP_ASSUME(n >= 0 && n <= 255);
	int w = 0;
	if (TPDU && n > 0) {
		lead = n == 2 ? vp_nd_bool() : 0;
		o[w++] = lead ? 0x3D : hdr[1];
	}
	for (int i = 0; i < n; ++i)
		o[w++] = dat(n, i);
	o[w++] = sw1;
	o[w++] = sw2;
	*rx_len = w;

	if (CASE == 1) {
		if (n) { fin(1); return 0; }
		if (CAP < 2) { fin(-1); return 0; }
		out[0] = sw1; out[1] = sw2; outlen = 2; dsw = sw1 << 8 | sw2;
		fin(0);
		return 0;
	}
	int bad = 0, small = 0;
	if (CASE == 3 && (sw1 == 0x61 || sw1 == 0x6C || n)) bad = 1;
	if (sw1 == 0x61 && getresp && n == 0) bad = 1;
	if (sw1 == 0x6C && leupd) bad = 1;
	if (n && lead) bad = 1;
	if (n && outlen + n + 2 > CAP) small = 1;
	if (bad && small) { fin(2); return 0; }
	if (bad) { fin(1); return 0; }
	if (small) { fin(-1); return 0; }
	for (int i = 0; i < n; ++i)
		out[outlen + i] = dat(n, i);
	outlen += n;
	if (sw1 == 0x61) {
		hdr[0] = 0; hdr[1] = 0xC0; hdr[2] = 0; hdr[3] = 0; hdr[4] = sw2;
		getresp = 1; leupd = 0;
		next_hdr();
		return 0;
	}
	if (sw1 == 0x6C) {
		hdr[4] = sw2;
		leupd = 1;
		next_hdr();
		return 0;
	}
	if (!warn) {
		warn = sw1 << 8 | sw2;
		if (CASE == 4 && n == 0 && (sw1 == 0x62 || sw1 == 0x63)) {
			hdr[0] = 0; hdr[1] = 0xC0; hdr[2] = 0; hdr[3] = 0;
			hdr[4] = sw1 == 0x62 && sw2 >= 2 && sw2 <= 0x80 ? sw2 : 0;
			getresp = 1; leupd = 0;
			next_hdr();
			return 0;
		}
	}
	dsw = warn;
	if (outlen + 2 > CAP) { fin(-1); return 0; }
	out[outlen++] = warn >> 8;
	out[outlen++] = warn & 0xFF;
	fin(0);
	return 0;
}

void h_ttl(void)
{
	struct emv_ttl_t ttl;
	ttl.cardreader.mode = MODE;
	ttl.cardreader.ctx = &ttl;
	ttl.cardreader.trx = &vp_trx;
	cmd[0] = 0x80; cmd[1] = INS_; cmd[2] = 0x11; cmd[3] = 0x22;
	if (CASE == 2) cmd[4] = 0x2A;
	if (CASE >= 3) {
		cmd[4] = LC;
		for (int i = 0; i < LC; ++i)
			cmd[5 + i] = 0x81 + i;
		if (CASE == 4) cmd[5 + LC] = 0x2B;
	}
	for (int i = 0; i < 4; ++i) hdr[i] = cmd[i];
	hdr[4] = CASE == 1 ? 0 : cmd[4];
	left = TPDU && CASE >= 3 ? LC : 0;
	if (TPDU) {
		next_hdr();
	} else {
		for (int i = 0; i < LEN_; ++i) exp_tx[i] = cmd[i];
		exp_len = LEN_;
	}
	uint8_t resp[CAP];
	size_t n = CAP;
	uint16_t sw = 0x1234;
	int r = emv_ttl_trx(&ttl, cmd, LEN_, resp, &n, &sw);
	CHECK6(done, "result only after a deciding response");
	VP_CHECK(r != 0 || n <= CAP, "reported response length within capacity");
	VP_CHECK(r != 0 || n >= 2, "reported response includes status bytes");
	if (!done)
		return;
	if (dret == 0) {
		CHECK6(r == 0, "completed exchange succeeds");
		if (r == 0) {
			CHECK6(n == outlen, "response length is received data plus status");
			CHECK6(sw == dsw, "first final status reported");
			if (n == outlen && n <= CAP)
				for (int i = 0; i < outlen; ++i)
					CHECK6(resp[i] == out[i], "response is received data followed by status");
		}
	} else if (dret == 1) {
		CHECK6(r > 0, "out of protocol reported as invalid response");
	} else if (dret == -1) {
		CHECK6(r < 0, "too small response buffer refused");
	} else if (dret == 9) {
		CHECK6(r == exact, "reader failure reported as is");
	} else {
		CHECK6(r != 0, "failure reported");
	}
#ifndef ONLY_TX
	VP_POSSIBLE(r == 0, "exchange can succeed");
	VP_POSSIBLE(CASE == 1 || r == 0 && n > 2 || CASE == 3, "response data can be delivered");
	VP_POSSIBLE(CASE == 1 || CASE == 3 || warn > 0 && r == 0 && nx >= 2, "multi step exchange can succeed");
#endif
}

/* argument validation: nothing is transmitted */
static int calls;
int vp_trx_never(void* c, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	calls = 1;
	return -1;
}
void h_ttl_args(void)
{
	struct emv_ttl_t ttl;
	ttl.cardreader.mode = vp_nd_split(0, 4);
	ttl.cardreader.ctx = 0;
	ttl.cardreader.trx = &vp_trx_never;
	uint8_t c[16], rsp[16];
	vp_fill(c, 16);
	size_t n = vp_nd_split(0, 12);
	c[4] = vp_nd_split(0, 9);
	size_t rn = vp_nd_bool() ? 16 : 0;
	int k = vp_nd_split(0, 5);
	uint16_t sw;
	int r = emv_ttl_trx(k == 1 ? 0 : &ttl, k == 2 ? 0 : c, n, k == 3 ? 0 : rsp, k == 4 ? 0 : &rn, k == 5 ? 0 : &sw);
	VP_CHECK(r != 0, "no success without response");
	int wf = n == 4 || n == 5 || (n > 5 && c[4] && (n == 5 + c[4] || n == 6 + c[4]));
	int md = ttl.cardreader.mode == EMV_CARDREADER_MODE_APDU || ttl.cardreader.mode == EMV_CARDREADER_MODE_TPDU;
	if (k || !rn || !wf || !md) {
		VP_CHECK(!calls && r < 0, "invalid command or argument refused before transmission");
	} else {
		VP_CHECK(calls, "valid command transmitted");
	}
}

/* C22: arbitrary card, number of exchanges bounded by command and capacity alone */
#ifndef BOUND
#define BOUND (LC + 3 * CAP + 8)
#endif
static int cnt;
int vp_trx_any(void* c, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	uint8_t* o = rx;
	VP_CHECK(++cnt <= BOUND, "number of exchanges of one command is bounded");
	if (cnt > BOUND)
		VP_DISCARD();
	int k = vp_nd_split(0, 6);
	int w = 0;
	if (k == 0) { *rx_len = 1; o[0] = INS_; return 0; }
	if (k == 1) { *rx_len = 1; o[0] = INS_ ^ 0xFF; return 0; }
	if (k == 2) { *rx_len = 1; o[0] = 0xC0; return 0; }
	if (k == 3) { *rx_len = 1; o[0] = 0x60; return 0; }
	int n = vp_nd_split(0, 2);
	int ins = vp_nd_bool();
	if (TPDU && vp_nd_bool()) o[w++] = ins ? 0xC0 : INS_;
	for (int i = 0; i < n; ++i) o[w++] = 0x55;
	o[w++] = k == 4 ? 0x61 : k == 5 ? 0x6C : 0x62;
	o[w++] = 0x10;
	*rx_len = w;
	return 0;
}
void h_ttl_bound(void)
{
	struct emv_ttl_t ttl;
	ttl.cardreader.mode = MODE;
	ttl.cardreader.ctx = &ttl;
	ttl.cardreader.trx = &vp_trx_any;
	cmd[0] = 0x80; cmd[1] = INS_; cmd[2] = 0x11; cmd[3] = 0x22;
	if (CASE == 2) cmd[4] = 0x2A;
	if (CASE >= 3) {
		cmd[4] = LC;
		for (int i = 0; i < LC; ++i)
			cmd[5 + i] = 0x33;
		if (CASE == 4) cmd[5 + LC] = 0x2B;
	}
	uint8_t resp[CAP];
	size_t n = CAP;
	uint16_t sw;
	int r = emv_ttl_trx(&ttl, cmd, LEN_, resp, &n, &sw);
	VP_CHECK(cnt >= 1, "command exchanged");
}
