/* C03 / C18: TLV list operations and parsing into lists */
#include "vp_env.h"
#include "vp_in.h"
#include "vp_alloc.h"
#include "emv_tlv.h"
#ifndef N1
#define N1 2
#endif
#ifndef N2
#define N2 2
#endif
#ifndef FAILS
#define FAILS 0
#endif
/* reference: what the list must hold */
#define MAXE 8
static unsigned rtag[MAXE];
static unsigned rlen[MAXE];
static uint8_t rval[MAXE][4];
static uint8_t rflags[MAXE];
static int rn;

static void check_list(const struct emv_tlv_list_t* l, int from, int to)
{
	const struct emv_tlv_t* t = l->front;
	const struct emv_tlv_t* last = 0;
	for (int i = from; i < to; ++i) {
		VP_CHECK(t != 0, "C03: every entry is listed");
		if (!t)
			return;
		VP_CHECK(t->tag == rtag[i], "C03: entries in order with their tag");
		VP_CHECK(t->length == rlen[i], "C03: entries keep their length");
		VP_CHECK(t->flags == rflags[i], "C03: entries keep their flags");
		if (t->length == rlen[i])
			for (unsigned k = 0; k < rlen[i] && k < 4; ++k)
				VP_CHECK(t->value[k] == rval[i][k], "C03: entries own the value");
		last = t;
		t = t->next;
	}
	VP_CHECK(t == 0, "C03: no further entries");
	VP_CHECK(l->back == last, "C03: back of list is the last entry");
	VP_CHECK(emv_tlv_list_is_empty(l) == (from == to), "C03: emptiness reported");
}

static uint8_t buf[4];
static int push_ref(struct emv_tlv_list_t* l, unsigned tag, unsigned len, int seed)
{
	for (unsigned k = 0; k < 4; ++k)
		buf[k] = seed * 16 + k;
	int f0 = vp_alloc_failed;
	int r = emv_tlv_list_push(l, tag, len, buf, seed);
	if (vp_alloc_failed) {
		if (!f0)
			VP_CHECK(r < 0, "C03,C18: failed allocation reported");
	} else {
		VP_CHECK(r == 0, "C03: push succeeds");
	}
	/* entry must not depend on the caller's buffer any more */
	for (unsigned k = 0; k < 4; ++k)
		buf[k] = 0xEE;
	if (r == 0) {
		rtag[rn] = tag; rlen[rn] = len; rflags[rn] = seed;
		for (unsigned k = 0; k < 4; ++k) rval[rn][k] = seed * 16 + k;
		++rn;
	}
	return r;
}

static unsigned pick_tag(void)
{
	return vp_nd_bool() ? 0x9F02 : 0x5F24;
}

/* push / find / duplicates / pop / append / clear on arbitrary small lists */
void h_list(void)
{
	struct emv_tlv_list_t a = EMV_TLV_LIST_INIT, b = EMV_TLV_LIST_INIT;
	vp_alloc_fail_budget = FAILS;
	for (int i = 0; i < N1; ++i)
		push_ref(&a, i == 2 ? 0x5F24 : pick_tag(), 3 - i, 1 + i);
	int na = rn;
	check_list(&a, 0, na);
	for (int i = 0; i < N2; ++i)
		push_ref(&b, 0x9F02, 2 * i, 5 + i);
	check_list(&b, na, rn);
	VP_CHECK(vp_live == 2 * rn, "C03,C18: live blocks are exactly the entries");

	/* find: first entry with the tag */
	unsigned q = pick_tag();
	struct emv_tlv_t* f = emv_tlv_list_find(&a, q);
	struct emv_tlv_t* e = a.front;
	int i = 0;
	while (i < na && rtag[i] != q) { ++i; e = e->next; }
	VP_CHECK(f == (i < na ? e : 0), "C03: find returns first entry with the tag");
	VP_CHECK(emv_tlv_list_find(&a, 0x1234) == 0, "C03: find reports absent tag");

	int dup = 0;
	for (int x = 0; x < na; ++x)
		for (int y = x + 1; y < na; ++y)
			if (rtag[x] == rtag[y]) dup = 1;
	VP_CHECK(emv_tlv_list_has_duplicate(&a) == dup, "C03,C16: duplicate detection");

	VP_CHECK(emv_tlv_list_append(&a, &b) == 0, "C03: append succeeds");
	check_list(&a, 0, rn);
	VP_CHECK(b.front == 0 && b.back == 0, "C03: append empties the source");
	/* source is usable again */
	if (!FAILS) {
		int keep = rn;
		push_ref(&b, 0x8C, 1, 9);
		check_list(&b, keep, rn);
		emv_tlv_list_clear(&b);
		rn = keep;
	}
	int k = 0;
	if (vp_nd_bool()) {
		while (k < rn) {
			struct emv_tlv_t* t = emv_tlv_list_pop(&a);
			VP_CHECK(t != 0, "C03: pop returns an entry");
			if (!t) return;
			VP_CHECK(t->tag == rtag[k] && t->length == rlen[k] && t->flags == rflags[k], "C03: pop removes the first entry");
			VP_CHECK(t->next == 0, "C03: popped entry is detached");
			VP_CHECK(emv_tlv_free(t) == 0, "C03,C18: popped entry can be released");
			++k;
			check_list(&a, k, rn);
		}
	} else {
		if (a.front && a.front->next)
			VP_CHECK(emv_tlv_free(a.front) > 0, "C03,C18: listed entry is not released");
		emv_tlv_list_clear(&a);
		check_list(&a, 0, 0);
	}
	VP_CHECK(emv_tlv_list_pop(&a) == 0, "C03: empty list yields nothing");
	VP_CHECK(vp_live == 0, "C03,C18: everything released");
}

/* invalid arguments */
void h_list_args(void)
{
	struct emv_tlv_list_t a = EMV_TLV_LIST_INIT;
	struct emv_tlv_t one = { 0 };
	VP_CHECK(emv_tlv_list_push(0, 1, 1, buf, 0) < 0, "C03: push without list refused");
	VP_CHECK(emv_tlv_list_pop(0) == 0, "C03: pop without list");
	VP_CHECK(emv_tlv_list_find(0, 1) == 0, "C03: find without list");
	VP_CHECK(!emv_tlv_list_has_duplicate(0), "C03: duplicates without list");
	VP_CHECK(emv_tlv_list_append(0, &a) < 0 && emv_tlv_list_append(&a, 0) < 0, "C03: append without list refused");
	VP_CHECK(emv_tlv_list_is_empty(0), "C03: missing list is empty");
	emv_tlv_list_clear(0);
	VP_CHECK(emv_tlv_free(0) < 0, "C03: nothing to free");
	a.front = &one;
	VP_CHECK(emv_tlv_list_push(&a, 1, 1, buf, 0) < 0 && emv_tlv_list_pop(&a) == 0, "C03: inconsistent list refused");
	VP_CHECK(emv_tlv_list_find(&a, 0) == 0, "C03: inconsistent list not searched");
	emv_tlv_list_clear(&a);
	VP_CHECK(a.front == 0 && a.back == 0, "C03: inconsistent list emptied");
	VP_CHECK(vp_live == 0, "C03,C18: nothing left");
	VP_CHECK(1, "C03: done");
}

/* ---- parsing: tree generator with known primitive leaves ---- */
static uint8_t enc[40];
static int en;
static int seq;
static int bad; /* malformed element emitted */
static int base;
static int prim(void)
{
	int k = (base + rn) & 3, s = en;
	if (k == 3) { /* constructed looking second byte must not matter; three byte tag, long length */
		enc[en++] = 0x9F; enc[en++] = 0x81; enc[en++] = 0x24;
		enc[en++] = 0x81; enc[en++] = 2;
		rtag[rn] = 0x9F8124; rlen[rn] = 2;
	} else if (k == 2) {
		enc[en++] = 0x9F; enc[en++] = 0x21; enc[en++] = 1;
		rtag[rn] = 0x9F21; rlen[rn] = 1;
	} else {
		enc[en++] = 0x5A; enc[en++] = k;
		rtag[rn] = 0x5A; rlen[rn] = k;
	}
	for (unsigned i = 0; i < rlen[rn]; ++i) {
		rval[rn][i] = 0x61 + seq++; /* value bytes that look like constructed tags */
		enc[en++] = rval[rn][i];
	}
	rflags[rn] = 0;
	++rn;
	return en - s;
}
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef CNT
#define CNT 2
#endif
static void cons(int d, int cnt)
{
	for (int i = 0; i < cnt; ++i) {
		if (d > 0 && vp_nd_bool()) {
			int two = (rn + d + base) & 1;
			int c = vp_nd_split(0, 2);
			if (two) enc[en++] = 0xBF;
			enc[en++] = two ? 0x0C : 0x70;
			int lp = en++;
			cons(d - 1, c);
			enc[lp] = en - lp - 1;
		} else {
			prim();
		}
	}
}
void h_parse(void)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	vp_alloc_fail_budget = 0;
	base = vp_nd_split(0, 3);
	int pre = base >> 1;
	if (pre)
		push_ref(&l, 0x84, 1, 1);
	vp_alloc_fail_budget = FAILS;
	cons(DEPTH, CNT);
#ifdef BAD
	/* truncated element at the end */
	enc[en++] = 0x5A; enc[en++] = 5; enc[en++] = 1;
	bad = 1;
#endif
	int r = emv_tlv_parse(enc, en, &l);
	if (vp_alloc_failed) {
		VP_CHECK(r < 0, "C03,C18: failed allocation reported as library error");
	} else if (bad) {
		VP_CHECK(r > 0, "C03: malformed data reported");
	} else {
		VP_CHECK(r == 0, "C03: well-formed data accepted");
		for (int i = 0; i < 40; ++i)
			enc[i] = 0xDD; /* entries must not depend on the input any more */
		check_list(&l, 0, rn);
	}
	VP_POSSIBLE(r == 0 && rn > 1, "C03: several fields can be listed");
	emv_tlv_list_clear(&l);
	VP_CHECK(vp_live == 0, "C03,C18: everything released");
}
void h_parse_args(void)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	uint8_t e[2] = { 0x5A, 0 };
	VP_CHECK(emv_tlv_parse(0, 2, &l) < 0, "C03: missing data refused");
	VP_CHECK(emv_tlv_parse(e, 2, 0) < 0, "C03: missing list refused");
	VP_CHECK(emv_tlv_parse(e, 0, &l) == 0 && l.front == 0, "C03: empty data gives no entries");
	VP_CHECK(vp_live == 0, "C03: nothing left");
}
