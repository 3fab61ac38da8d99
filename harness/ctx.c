/* C17 (and C18): life cycle of the transaction context */
#include "vp_env.h"
#include "vp_in.h"
#include "vp_alloc.h"
#include "emv.h"
#include "emv_ttl.h"
#include "emv_tlv.h"
#include "emv_app.h"
#include "emv_tags.h"
#ifndef MAXN
#define MAXN 1
#endif
static struct emv_ttl_t ttl;
static struct emv_ctx_t ctx;
static struct emv_tlv_list_t* L(int i)
{
	switch (i) {
		case 0: return &ctx.config;
		case 1: return &ctx.supported_aids;
		case 2: return &ctx.params;
		case 3: return &ctx.icc;
		default: return &ctx.terminal;
	}
}
static int n[5], app;
static const uint8_t fci[] = { 0x6F, 9, 0x84, 5, 0xA0, 0, 0, 0, 3, 0xA5, 0 };
/* put 0..MAXN fields in every list, and maybe select an application */
static void populate(int from)
{
	int all = from ? vp_nd_bool() : 0;
	for (int i = from; i < 5; ++i) {
		int k = from ? all * MAXN : vp_nd_split(0, MAXN);
		n[i] = k;
		for (int j = 0; j < k; ++j) {
			uint8_t v[2] = { i, j };
			emv_tlv_list_push(L(i), 0x9F00 + i * 16 + j, 2, v, i == 1);
		}
	}
	app = from ? all : vp_nd_bool();
	if (app) {
		ctx.selected_app = emv_app_create_from_fci(fci, sizeof(fci));
		VP_CHECK(ctx.selected_app != NULL, "C17: harness application exists");
	}
}
static int holds(int i, int k)
{
	struct emv_tlv_t* t = L(i)->front;
	struct emv_tlv_t* last = NULL;
	for (int j = 0; j < MAXN; ++j) {
		if (j >= k) break;
		if (!t) return 0;
		if (t->tag != 0x9F00 + i * 16 + j || t->length != 2 || t->value[0] != i || t->value[1] != j || t->flags != (i == 1)) return 0;
		last = t;
		t = t->next;
	}
	if (t) return 0;
	return L(i)->back == last;
}
#include "iso8859.h"
bool iso8859_is_supported(unsigned int codepage) { return false; }
int iso8859_to_utf8(unsigned int codepage, const uint8_t* in, size_t n, char* out, size_t on) { return -1; }
static void all_empty(void)
{
	for (int i = 0; i < 5; ++i) VP_CHECK(holds(i, 0), "C17,C18: initialised or cleared context holds no field");
	VP_CHECK(ctx.selected_app == NULL, "C17: no application selected");
	VP_CHECK(vp_live == 0, "C17,C18: everything released");
}
static void after_reset(void)
{
	VP_CHECK(holds(0, n[0]), "C17: reset keeps configuration");
	VP_CHECK(holds(1, n[1]), "C17: reset keeps supported identifiers");
	for (int i = 2; i < 5; ++i) VP_CHECK(holds(i, 0), "C17: reset removes transaction data");
	VP_CHECK(ctx.selected_app == NULL, "C17: reset removes the selected application");
	VP_CHECK(ctx.ttl == &ttl, "C17: reset keeps the transport");
	VP_CHECK(vp_live == 2 * (n[0] + n[1]), "C17,C18: reset releases exactly the removed data");
}
static void init(void)
{
	vp_fill(&ctx, sizeof(ctx));
	int r = emv_ctx_init(&ctx, &ttl);
	VP_CHECK(r == 0, "C17: init succeeds");
	VP_CHECK(ctx.ttl == &ttl, "C17: init binds the transport");
	all_empty();
}
void h_reset(void)
{
	init();
	populate(0);
	int r = emv_ctx_reset(&ctx);
	VP_CHECK(r == 0, "C17: reset succeeds");
	after_reset();
	/* repeated at once, and usable and repeatable after new data */
	r = emv_ctx_reset(&ctx);
	VP_CHECK(r == 0, "C17: reset can be repeated");
	after_reset();
	populate(2);
	for (int i = 0; i < 5; ++i) VP_CHECK(holds(i, n[i]), "C17: context usable after reset");
	r = emv_ctx_reset(&ctx);
	VP_CHECK(r == 0, "C17: reset can be repeated");
	after_reset();
}
void h_clear(void)
{
	init();
	populate(0);
	int r = emv_ctx_clear(&ctx);
	VP_CHECK(r == 0, "C17: clear succeeds");
	VP_CHECK(ctx.ttl == NULL, "C17: clear unbinds the transport");
	all_empty();
	r = emv_ctx_clear(&ctx);
	VP_CHECK(r == 0, "C17: clear can be repeated");
	all_empty();
	r = emv_ctx_reset(&ctx);
	VP_CHECK(r == 0, "C17: a cleared context can be reset");
	all_empty();
	r = emv_ctx_init(&ctx, &ttl);
	VP_CHECK(r == 0 && ctx.ttl == &ttl, "C17: a cleared context can be initialised again");
	all_empty();
	populate(3);
	r = emv_ctx_reset(&ctx);
	n[0] = n[1] = 0;
	after_reset();
}
void h_reset_clear(void)
{
	init();
	populate(0);
	emv_ctx_reset(&ctx);
	emv_ctx_clear(&ctx);
	VP_CHECK(ctx.ttl == NULL, "C17: clear unbinds the transport");
	all_empty();
}
void h_ctx_args(void)
{
	int r = emv_ctx_init(NULL, &ttl);
	VP_CHECK(r < 0, "C17: missing context refused");
	r = emv_ctx_init(NULL, NULL);
	VP_CHECK(r < 0, "C17: missing context refused");
	r = emv_ctx_reset(NULL);
	VP_CHECK(r < 0, "C17: missing context refused");
	r = emv_ctx_clear(NULL);
	VP_CHECK(r < 0, "C17: missing context refused");
	init();
	populate(0);
	struct emv_app_t* a = ctx.selected_app;
	r = emv_ctx_init(&ctx, NULL);
	VP_CHECK(r < 0, "C17: missing transport refused");
	for (int i = 0; i < 5; ++i) VP_CHECK(holds(i, n[i]), "C17: refused without effect");
	VP_CHECK(ctx.ttl == &ttl && ctx.selected_app == a, "C17: refused without effect");
}
