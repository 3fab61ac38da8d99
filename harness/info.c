/* C23 (every definition is described), C04 (rendering by tag stays in bounds) */
#include "vp_gen.h"
#include "str_env.h"
#include "vp_printf.h"
#include "vp_alloc.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv.h"

static uint8_t in[40];
static const uint8_t* in_p; static size_t in_n;
static char* out; static size_t out_len;
static int rendered;
/* renderers: decided one by one (render.c).  Each reads its field and fills its
   output; here the field and the output must be those given. */
static int render(const uint8_t* buf, size_t len, char* str, size_t str_len)
{
	++rendered;
	VP_CHECK(buf == in_p && len == in_n, "C04,C23: the data rendered is exactly the field's value");
	VP_CHECK(str == out && str_len == out_len, "C04,C23: rendered into exactly the given buffer");
	if (!buf || !len)
		return -1;
	vp_touch(buf, len);
	if (!str || !str_len)
		return 0;
	if (vp_nd_split(0, 1)) {
		str[0] = 0;
		return vp_nd_bool() ? 1 : -1;
	}
	for (size_t i = 0; i < str_len; ++i)
		str[i] = 'x';
	str[str_len - 1] = 0;
	return 0;
}
static int render1(char* str, size_t str_len)
{
	VP_CHECK(str == out && str_len == out_len, "C04,C23: rendered into exactly the given buffer");
	if (!str || !str_len)
		return 0;
	if (vp_nd_split(0, 1))
		return 1;
	for (size_t i = 0; i < str_len; ++i)
		str[i] = 'x';
	str[str_len - 1] = 0;
	return 0;
}
#define R(f) int vp_wrap_##f(const uint8_t* b, size_t n, char* s, size_t l) { return render(b, n, s, l); }
#define R1(f) int vp_wrap_##f(uint8_t v, char* s, size_t l) { return render1(s, l); }
R(emv_format_a_get_string) R(emv_format_an_get_string) R(emv_format_ans_only_space_get_string)
R(emv_format_ans_ccs_get_string) R(emv_format_cn_get_string) R(emv_format_n_get_string)
R(emv_amount_get_string) R(emv_date_get_string) R(emv_time_get_string) R(emv_mcc_get_string)
R(emv_term_caps_get_string_list) R(emv_addl_term_caps_get_string_list)
R(emv_asrpd_get_string_list) R(emv_aip_get_string_list) R(emv_afl_get_string_list)
R(emv_app_usage_control_get_string_list) R(emv_track2_equivalent_data_get_string)
R(emv_app_reference_currency_get_string_list) R(emv_language_preference_get_string_list)
R(emv_cvm_list_get_string_list) R(emv_cvm_results_get_string_list) R(emv_tvr_get_string_list)
R(emv_tsi_get_string_list) R(emv_iad_get_string_list) R(emv_terminal_risk_management_data_get_string_list)
R(emv_ttq_get_string_list) R(emv_ctq_get_string_list) R(emv_mastercard_third_party_data_get_string_list)
R(emv_visa_form_factor_indicator_get_string_list) R(emv_amex_enh_cl_reader_caps_get_string_list)
R(emv_issuer_auth_data_get_string_list) R(emv_capdu_get_string)
int vp_wrap_emv_auth_response_code_get_string(const void* b, size_t n, char* s, size_t l) { return render(b, n, s, l); }
R1(emv_transaction_type_get_string) R1(emv_term_type_get_string_list) R1(emv_pos_entry_mode_get_string)
R1(emv_account_type_get_string) R1(emv_cid_get_string_list) R1(emv_amex_cl_reader_caps_get_string)
#ifndef AIDTEXT
R(emv_aid_get_string)
#endif

static void terminated(void)
{
	for (size_t i = 0; i < out_len; ++i)
		if (!out[i])
			return;
	VP_NEVER("C04: success without terminated output");
}
#ifdef TAGS
/* tags defined by the headers of the tree under analysis: -DTAGn=... */
static const unsigned int tags[] = { TAGS };
#define NT (int)(sizeof(tags) / sizeof(tags[0]))
void h_tags(void)
{
	struct emv_tlv_t tlv;
	struct emv_tlv_info_t info;
	memset(&tlv, 0, sizeof(tlv));
	tlv.tag = tags[vp_nd_split(0, NT - 1)];
#ifdef DEEP
	int n = vp_nd_split(0, 11);
	in_n = n < 9 ? n : n == 9 ? 14 : n == 10 ? 16 : 33;
#else
	int n = vp_nd_split(0, 7);
	in_n = n < 6 ? n : n == 6 ? 14 : 33;
#endif
	tlv.length = in_n;
	if (vp_nd_split(0, 1)) {
		in_p = vp_input(in, sizeof(in), in_n);
		if (in_n == 14 && vp_nd_split(0, 1))
			memcpy((void*)in_p, "1PAY.SYS.DDF01", 14);
	} else {
		in_p = NULL; /* data object list entry */
	}
	tlv.value = (uint8_t*)in_p;
#ifdef DEEP
	int o = vp_nd_split(0, 6);
	out_len = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? 2 : o == 3 ? 14 : o == 4 ? 15 : o == 5 ? 17 : 80;
#else
	int o = vp_nd_split(0, 3);
	out_len = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? 14 : 80;
#endif
	out = o == 0 ? NULL : malloc(out_len);
	int r = emv_tlv_get_info(&tlv, &info, out, out_len);
	int special = tlv.tag == 0x9F66 || tlv.tag == 0x9F6D || tlv.tag == 0x9F6E;
	if (!special || (tlv.tag == 0x9F66 && in_n == 4) || (tlv.tag == 0x9F6D && in_n == 1)
	 || (tlv.tag == 0x9F6E && in_n >= 5 && in_n <= 32) || info.tag_name) {
		VP_CHECK(info.tag_name && info.tag_name[0], "C23: a defined tag has a name");
		VP_CHECK(info.tag_desc && info.tag_desc[0], "C23: a defined tag has a description");
	} else {
		VP_CHECK(r > 0 && !info.tag_desc, "C23: a tag not defined for this value is reported as unknown");
	}
	VP_CHECK((int)info.format >= EMV_FORMAT_A && (int)info.format <= EMV_FORMAT_TAG_LIST, "C23: format is defined");
	VP_POSSIBLE(info.tag_name, "C23: described");
	if (out)
		terminated();
}
/* every other tag */
void h_unknown(void)
{
	/* sorted by the generator; the gaps are all other values */
	struct emv_tlv_t tlv;
	struct emv_tlv_info_t info;
	memset(&tlv, 0, sizeof(tlv));
	int g = vp_nd_split(0, NT);
	unsigned lo = g ? tags[g - 1] + 1 : 0;
	unsigned hi = g < NT ? tags[g] - 1 : 0xFFFFFFFFu;
	if (lo > hi || (g < NT && tags[g] == 0))
		VP_DISCARD();
	tlv.tag = (unsigned)Frama_C_unsigned_int_interval(lo, hi);
	in_n = vp_nd_split(0, 4);
	in_p = vp_input(in, sizeof(in), in_n);
	tlv.length = in_n;
	tlv.value = (uint8_t*)in_p;
	out_len = vp_nd_split(1, 2);
	out = malloc(out_len);
	int r = emv_tlv_get_info(&tlv, &info, out, out_len);
	VP_CHECK(r > 0, "C23: unknown tag is reported");
	VP_CHECK(!info.tag_name && !info.tag_desc, "C23: unknown tag has no text");
	VP_CHECK((int)info.format >= EMV_FORMAT_A && (int)info.format <= EMV_FORMAT_TAG_LIST, "C23: format is defined");
	VP_CHECK(!out[0], "C23: unknown value yields the empty text");
}
#endif
static int same(const char* a, const char* b)
{
	int i = 0;
	while (a[i] && a[i] == b[i])
		++i;
	return a[i] == b[i];
}
#ifdef ERRS
/* enumerators of the tree under analysis */
static const int errs[] = { ERRS };
static const int outs[] = { OUTS };
void h_outcomes(void)
{
	int n = vp_nd_split(-40, 40);
	const char* e = emv_error_get_string((enum emv_error_t)n);
	const char* o = emv_outcome_get_string((enum emv_outcome_t)n);
	VP_CHECK(e && e[0], "C23: error text is never empty");
	VP_CHECK(o && o[0], "C23: outcome text is never empty");
	int ke = 0, ko = 0;
	for (unsigned i = 0; i < sizeof(errs) / sizeof(errs[0]); ++i)
		if (errs[i] == n) ke = 1;
	for (unsigned i = 0; i < sizeof(outs) / sizeof(outs[0]); ++i)
		if (outs[i] == n) ko = 1;
	VP_CHECK(same(e, "Unknown error") == !ke, "C23: exactly the defined errors have a text of their own");
	VP_CHECK(same(o, "Invalid outcome") == !ko, "C23: exactly the defined outcomes have a text of their own");
	for (unsigned i = 0; ke && i < sizeof(errs) / sizeof(errs[0]); ++i)
		if (errs[i] != n)
			VP_CHECK(!same(e, emv_error_get_string((enum emv_error_t)errs[i])), "C23: error texts differ");
	VP_POSSIBLE(ke, "C23: an error"); VP_POSSIBLE(ko, "C23: an outcome");
}
#endif
#ifdef AIDTEXT
static int sch, pro;
int vp_wrap_emv_aid_get_info(const uint8_t* a, size_t n, struct emv_aid_info_t* i)
{
	i->scheme = sch;
	i->product = pro;
	return 0;
}
void h_aidtext(void)
{
	static char t[128], u[128];
	int which = vp_nd_split(0, 1); /* product or scheme */
	int a = vp_nd_split(0, which ? NSCHEME : NPRODUCT);
	sch = which ? a : 1;
	pro = which ? 0 : a;
	int r = emv_aid_get_string((const uint8_t*)"12345", 5, t, sizeof(t));
	if (which && (a == 0 || a == NSCHEME)) {
		VP_CHECK(r > 0, "C23: unknown scheme is reported");
		return;
	}
	VP_CHECK(r == 0 && t[0], "C23: every scheme and product has a text");
	int b = vp_nd_split(0, (which ? NSCHEME : NPRODUCT) - 1);
	if (b <= a || (!which && a == NPRODUCT))
		VP_DISCARD();
	sch = which ? b : 1;
	pro = which ? 0 : b;
	emv_aid_get_string((const uint8_t*)"12345", 5, u, sizeof(u));
	/* the unnamed product shows its scheme; every named one differs from it and from the others */
	VP_CHECK(!same(t, u), "C23: scheme and product texts differ");
}
#endif
