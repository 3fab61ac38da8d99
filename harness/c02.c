/* C02: BER decoding reports exactly what is encoded and always advances.
   Inputs are generated by class (form of tag, form of length, nesting, fit), so
   the expected result is known by construction while octets that must not
   influence it stay abstract. */
#include "vp_env.h"
#include "vp_in.h"
#include "iso8825_ber.h"

static int vp_nd2(int a, int b) { return vp_nd_bool() ? a : b; }

/* ---- tag octets: every first octet, every number of continuation octets ---- */
void h_tag_low(void)
{
	uint8_t a[4];
	int b0 = vp_nd_split(0, 255);
	VP_ASSUME((b0 & 0x1F) != 0x1F);
	vp_fill(a, 4);
	a[0] = b0;
	unsigned int tag = 0;
	int r = iso8825_ber_tag_decode(a, 1, &tag);
	VP_CHECK(r == 1 && tag == b0, "low form tag");
	r = iso8825_ber_tag_decode(a, 4, &tag);
	VP_CHECK(r == 1 && tag == b0, "low form tag with more data");
}
void h_tag(void)
{
	uint8_t a[7];
	int b0 = (vp_nd_split(0, 7) << 5) | 0x1F;
	int more = vp_nd_split(0, 5);   /* continuation octets with the more bit set */
	int n = vp_nd_split(0, 7);      /* bytes available */
	vp_fill(a, 7);
	a[0] = b0;
	for (int i = 1; i <= more + 1; ++i)
		a[i] = i <= more ? vp_nd(0x80, 0xFF) : vp_nd(0, 0x7F);
	unsigned int tag = 0;
	int r = iso8825_ber_tag_decode(a, n, &tag);
	int want = more + 2;
	if (n == 0) {
		VP_CHECK(r == 0, "empty tag input is end of data");
	} else if (want > 4) {
		VP_CHECK(r < 0, "tag longer than four octets refused");
	} else if (n < want) {
		VP_CHECK(r < 0, "truncated tag refused");
	} else {
		VP_CHECK(r == want, "tag octet count");
		VP_CHECK(tag >> (8 * (want - 1)) == b0, "first tag octet is most significant");
	}
}

/* ---- tag octets: value, by octet position (two marker values per octet) ---- */
void h_tagval(void)
{
	uint8_t a[5];
	int nt = vp_nd_split(1, 4);
	a[0] = nt == 1 ? vp_nd2(0x5A, 0x85) : vp_nd2(0x5F, 0xBF);
	unsigned int want = a[0];
	for (int i = 1; i < nt; ++i) {
		a[i] = i + 1 < nt ? vp_nd2(0x81 + i, 0xF4 + i) : vp_nd2(0x02, 0x7B);
		want = (want << 8) | a[i];
	}
	for (int i = nt; i < 5; ++i)
		a[i] = ND_U8();
	unsigned int tag = 0;
	int r = iso8825_ber_tag_decode(a, 5, &tag);
	VP_CHECK(r == nt && tag == want, "tag octets in order");
	/* the same through the element decoder */
	a[nt] = 0;
	struct iso8825_tlv_t tlv;
	if (nt < 5) {
		r = iso8825_ber_decode(a, nt + 1, &tlv);
		VP_CHECK(r == nt + 1 && tlv.tag == want && tlv.length == 0, "element tag octets in order");
	}
}

/* ---- definite length forms ---- */
#define CAP 140
#ifndef FORM
#define FORM 0
#define NT 1
#endif
void h_len(void)
{
	uint8_t a[CAP];
	int nt = NT;
	int o = 0;
	int cls = FORM == 0 ? vp_nd_split(0, 7) << 5 : 0x60;
	vp_fill(a, CAP);
	a[o++] = nt == 1 ? cls | 0x0E : cls | 0x1F;
	if (nt == 2)
		a[o++] = vp_nd(0, 0x7F);
	int form = FORM; /* number of extra length octets, 0 = short form; 5 = too many */
	int len = vp_nd_split(0, 9);
	len = len == 6 ? 0x7E : len == 7 ? 0x7F : len == 8 ? 0x80 : len == 9 ? 0x81 : len;
	VP_ASSUME(form > 0 || len < 0x80);
	VP_ASSUME(form < 5 || len < 3);
	if (form == 0) {
		a[o++] = len;
	} else {
		a[o++] = 0x80 | form;
		for (int i = form; i > 1; --i)
			a[o++] = 0;
		a[o++] = len;
	}
	int hdr = o;
	int fit = vp_nd_split(0, 4); /* 0: cut in header, 1: one byte short, 2: exact, 3: one spare, 4: more spare */
	int n = fit == 0 ? vp_nd_split(1, hdr - 1) : fit == 1 ? hdr + len - 1 : fit == 2 ? hdr + len : fit == 3 ? hdr + len + 1 : CAP;
	VP_ASSUME(n >= 0 && n <= CAP);
	VP_ASSUME(n >= 1);
	struct iso8825_tlv_t tlv;
	int r = iso8825_ber_decode(a + 0, n, &tlv);
	if (form == 5) {
		VP_CHECK(r < 0, "length of more than four octets refused");
	} else if (n < hdr + len) {
		VP_CHECK(r < 0, "value running past the input refused");
	} else {
		VP_CHECK(r == hdr + len, "consumed header and value");
		VP_CHECK(tlv.length == len, "length as encoded");
		VP_CHECK(tlv.value == a + hdr, "value position");
		VP_CHECK(tlv.flags == cls, "class and constructed flags");
		VP_CHECK(iso8825_ber_get_class(&tlv) == (cls & 0xC0), "class");
		VP_CHECK(iso8825_ber_is_constructed(&tlv) == !!(cls & 0x20), "constructed");
		if (nt == 1)
			VP_CHECK(tlv.tag == (cls | 0x0E), "tag of element");
	}
}

/* big long-form lengths: every octet position counts */
void h_len_big(void)
{
	uint8_t a[32];
	int form = vp_nd_split(1, 4);
	int pos = vp_nd_split(0, 3);
	VP_ASSUME(pos < form);
	vp_fill(a, 32);
	a[0] = 0x70;
	a[1] = 0x80 | form;
	for (int i = 0; i < form; ++i)
		a[2 + i] = i == pos ? vp_nd(form - 1 == pos ? 32 : 1, 255) : vp_nd(0, 255);
	struct iso8825_tlv_t tlv;
	VP_CHECK(iso8825_ber_decode(a, 32, &tlv) < 0, "oversized long form length refused");
	/* 0x0104 bytes of value really present */
	static uint8_t b[4 + 0x104 + 2];
	vp_fill(b, sizeof(b));
	b[0] = 0x70; b[1] = 0x82; b[2] = 1; b[3] = 4;
	int r = iso8825_ber_decode(b, sizeof(b), &tlv);
	VP_CHECK(r == 4 + 0x104 && tlv.length == 0x104 && tlv.value == b + 4, "two octet length");
	r = iso8825_ber_decode(b, 4 + 0x103, &tlv);
	VP_CHECK(r < 0, "two octet length past the input refused");
}

/* ---- indefinite lengths, nested ---- */
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef PRIM
#define PRIM 0
#endif
static uint8_t g[40];
static int g_n;
static int g_ok;
/* emits the content of a constructed element: up to 2 children and the EOC */
static int g_children(int depth);
static void g_element(int depth)
{
	int k = vp_nd_split(0, depth > 0 ? 2 : 1);
	if (k == 0) { /* primitive, definite, may contain 00 00 */
		int l = vp_nd2(0, 2);
		g[g_n++] = vp_nd(0x41, 0x5E);
		g[g_n++] = l;
		for (int i = 0; i < l; ++i)
			g[g_n++] = vp_nd(0, 255);
	} else if (k == 1) { /* constructed definite, content not inspected */
		g[g_n++] = vp_nd(0x61, 0x7E);
		g[g_n++] = 1;
		g[g_n++] = vp_nd(0, 255);
	} else { /* nested indefinite */
		g[g_n++] = 0xBF;
		g[g_n++] = vp_nd(0, 0x7F);
		g[g_n++] = 0x80;
		g_children(depth - 1);
	}
}
static int g_children(int depth)
{
	int start = g_n;
	int c = vp_nd_split(0, depth >= DEPTH ? 2 : 1);
	for (int i = 0; i < c; ++i)
		g_element(depth);
	int content = g_n - start;
	g[g_n++] = 0;
	g[g_n++] = 0;
	return content;
}
void h_indef(void)
{
	int prim = PRIM;
	g_n = 0;
	vp_fill(g, sizeof(g));
	g[g_n++] = prim ? vp_nd(0x41, 0x5E) : vp_nd(0x61, 0x7E);
	g[g_n++] = 0x80;
	int content = g_children(DEPTH);
	int end = g_n;
	struct iso8825_tlv_t tlv;
	int cut = vp_nd_split(0, 2); /* drop the last EOC octets */
	if (cut) {
		int r = iso8825_ber_decode(g, end - cut, &tlv);
		VP_CHECK(r < 0, "unterminated indefinite length refused");
		return;
	}
	int r = iso8825_ber_decode(g, end + vp_nd2(0, 3), &tlv);
	if (prim) {
		VP_CHECK(r < 0, "indefinite length on primitive element refused");
	} else {
		VP_CHECK(r == end, "consumed includes end of contents");
		VP_CHECK(tlv.length == content && tlv.value == g + 2, "content of indefinite element");
		VP_CHECK(iso8825_ber_is_constructed(&tlv), "indefinite element is constructed");
	}
}

/* ---- iteration visits the elements one after the other ---- */
#ifndef CNT
#define CNT 1
#endif
void h_iter(void)
{
	uint8_t a[32];
	int pos[5], val[5], vl[5], n = 0;
	int cnt = CNT;
	for (int i = 0; i < cnt; ++i) {
		int k = vp_nd_split(0, 2);
		pos[i] = n;
		if (k == 2) { /* indefinite with one inner element */
			a[n++] = 0x70; a[n++] = 0x80;
			a[n++] = 0x5A; a[n++] = 1; a[n++] = ND_U8();
			a[n++] = 0; a[n++] = 0;
			val[i] = pos[i] + 2; vl[i] = 3;
		} else {
			int l = vp_nd2(0, 2);
			a[n++] = 0x40 + i;
			if (k)
				a[n++] = 0x81;
			a[n++] = l;
			val[i] = n; vl[i] = l;
			for (int j = 0; j < l; ++j)
				a[n++] = ND_U8();
		}
	}
	pos[cnt] = n;
	int bad = vp_nd_bool();
	if (bad) { /* trailing fragment */
		a[n++] = 0x5A;
		int m = vp_nd_split(0, 2);
		if (m) { a[n++] = m; for (int j = 1; j < m; ++j) a[n++] = ND_U8(); }
	}
	struct iso8825_ber_itr_t itr;
	struct iso8825_tlv_t tlv;
	VP_CHECK(iso8825_ber_itr_init(a, n, &itr) == 0, "iterator init");
	for (int i = 0; i < cnt; ++i) {
		int r = iso8825_ber_itr_next(&itr, &tlv);
		VP_CHECK(r == pos[i + 1] - pos[i], "iterator advances by one element");
		VP_CHECK(tlv.value == a + val[i] && tlv.length == vl[i], "iterator element value");
	}
	int r = iso8825_ber_itr_next(&itr, &tlv);
	if (bad)
		VP_CHECK(r < 0, "trailing fragment refused");
	else
		VP_CHECK(r == 0, "end of data after last element");
}

void h_null(void)
{
	uint8_t a[4];
	int n = vp_nd_split(0, 4);
	vp_fill(a, 4);
	struct iso8825_tlv_t tlv;
	struct iso8825_ber_itr_t itr;
	unsigned int tag;
	VP_CHECK(iso8825_ber_decode(NULL, n, &tlv) < 0, "null element input");
	VP_CHECK(iso8825_ber_decode(a, n, NULL) < 0, "null element output");
	VP_CHECK(iso8825_ber_decode(a, 0, &tlv) == 0, "empty input is end of data");
	VP_CHECK(iso8825_ber_itr_init(NULL, n, &itr) != 0, "null iterator input");
	VP_CHECK(iso8825_ber_itr_init(a, n, NULL) != 0, "null iterator");
	VP_CHECK(iso8825_ber_itr_next(NULL, &tlv) < 0, "null iterator next");
	VP_CHECK(iso8825_ber_decode(a, 1, &tlv) < 0, "single octet refused");
}

/* OID: arcs as encoded */
void h_oid(void)
{
	uint8_t a[16];
	struct iso8825_oid_t oid;
	int b0 = vp_nd_split(0, 7);
	b0 = b0 == 0 ? 0 : b0 == 1 ? 39 : b0 == 2 ? 40 : b0 == 3 ? 79 : b0 == 4 ? 80 : b0 == 5 ? 127 : b0 == 6 ? 0x2A : 0x55;
	int arcs = vp_nd_split(0, 9);
	VP_ASSUME(b0 == 0x2A || arcs == 2);
	vp_fill(a, 16);
	uint32_t want[12];
	int n = 1;
	a[0] = b0;
	for (int i = 0; i < arcs; ++i) {
		int w = i == 0 ? vp_nd_split(1, 2) : 1;
		if (w == 2) {
			a[n++] = 0x86;
			a[n++] = 0x48;
			want[i] = 6 * 128 + a[n - 1];
		} else {
			a[n++] = 0x7F - i;
			want[i] = a[n - 1];
		}
	}
	int r = iso8825_ber_oid_decode(a, n, &oid);
	if (arcs + 2 > 10) {
		VP_CHECK(r != 0, "oid with too many arcs refused");
	} else {
		VP_CHECK(r == 0 && oid.length == arcs + 2, "oid arc count");
		VP_CHECK(oid.value[0] == (b0 < 40 ? 0 : b0 < 80 ? 1 : 2), "oid root arc");
		VP_CHECK(oid.value[1] == (b0 < 40 ? b0 : b0 < 80 ? b0 - 40 : b0 - 80), "oid second arc");
		for (int i = 0; i < arcs; ++i)
			VP_CHECK(oid.value[i + 2] == want[i], "oid arc value");
	}
}
