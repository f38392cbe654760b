/* Human readable texts. */
#include "emv_strings.h"
#include "iso7816_strings.h"
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
#include <sys/wait.h>
#include <unistd.h>

struct sym { int v; const char* s; };
static const struct sym schemes[] = {
	{ EMV_CARD_SCHEME_UNKNOWN, "UNKNOWN" },
	{ EMV_CARD_SCHEME_VISA, "VISA" },
	{ EMV_CARD_SCHEME_MASTERCARD, "MASTERCARD" },
	{ EMV_CARD_SCHEME_AMEX, "AMEX" },
	{ EMV_CARD_SCHEME_DISCOVER, "DISCOVER" },
	{ EMV_CARD_SCHEME_CB, "CB" },
	{ EMV_CARD_SCHEME_JCB, "JCB" },
	{ EMV_CARD_SCHEME_DANKORT, "DANKORT" },
	{ EMV_CARD_SCHEME_UNIONPAY, "UNIONPAY" },
	{ EMV_CARD_SCHEME_GIMUEMOA, "GIMUEMOA" },
	{ EMV_CARD_SCHEME_DK, "DK" },
	{ EMV_CARD_SCHEME_VERVE, "VERVE" },
	{ EMV_CARD_SCHEME_EFTPOS, "EFTPOS" },
	{ EMV_CARD_SCHEME_RUPAY, "RUPAY" },
	{ EMV_CARD_SCHEME_MIR, "MIR" },
	{ EMV_CARD_SCHEME_MEEZA, "MEEZA" },
};
static const struct sym products[] = {
	{ EMV_CARD_PRODUCT_UNKNOWN, "UNKNOWN" },
	{ EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT, "VISA_CREDIT_DEBIT" },
	{ EMV_CARD_PRODUCT_VISA_ELECTRON, "VISA_ELECTRON" },
	{ EMV_CARD_PRODUCT_VISA_VPAY, "VISA_VPAY" },
	{ EMV_CARD_PRODUCT_VISA_PLUS, "VISA_PLUS" },
	{ EMV_CARD_PRODUCT_VISA_USA_DEBIT, "VISA_USA_DEBIT" },
	{ EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT, "MASTERCARD_CREDIT_DEBIT" },
	{ EMV_CARD_PRODUCT_MASTERCARD_MAESTRO, "MASTERCARD_MAESTRO" },
	{ EMV_CARD_PRODUCT_MASTERCARD_CIRRUS, "MASTERCARD_CIRRUS" },
	{ EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT, "MASTERCARD_USA_DEBIT" },
	{ EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK, "MASTERCARD_MAESTRO_UK" },
	{ EMV_CARD_PRODUCT_MASTERCARD_TEST, "MASTERCARD_TEST" },
	{ EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT, "AMEX_CREDIT_DEBIT" },
	{ EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT, "AMEX_CHINA_CREDIT_DEBIT" },
	{ EMV_CARD_PRODUCT_DISCOVER_CARD, "DISCOVER_CARD" },
	{ EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT, "DISCOVER_USA_DEBIT" },
	{ EMV_CARD_PRODUCT_DISCOVER_ZIP, "DISCOVER_ZIP" },
	{ EMV_CARD_PRODUCT_CB_CREDIT_DEBIT, "CB_CREDIT_DEBIT" },
	{ EMV_CARD_PRODUCT_CB_DEBIT, "CB_DEBIT" },
	{ EMV_CARD_PRODUCT_DANKORT_VISADANKORT, "DANKORT_VISADANKORT" },
	{ EMV_CARD_PRODUCT_DANKORT_JSPEEDY, "DANKORT_JSPEEDY" },
	{ EMV_CARD_PRODUCT_UNIONPAY_DEBIT, "UNIONPAY_DEBIT" },
	{ EMV_CARD_PRODUCT_UNIONPAY_CREDIT, "UNIONPAY_CREDIT" },
	{ EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT, "UNIONPAY_QUASI_CREDIT" },
	{ EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH, "UNIONPAY_ELECTRONIC_CASH" },
	{ EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT, "UNIONPAY_USA_DEBIT" },
	{ EMV_CARD_PRODUCT_GIMUEMOA_STANDARD, "GIMUEMOA_STANDARD" },
	{ EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE, "GIMUEMOA_PREPAID_ONLINE" },
	{ EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC, "GIMUEMOA_CLASSIC" },
	{ EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE, "GIMUEMOA_PREPAID_OFFLINE" },
	{ EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT, "GIMUEMOA_RETRAIT" },
	{ EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET, "GIMUEMOA_ELECTRONIC_WALLET" },
	{ EMV_CARD_PRODUCT_DK_GIROCARD, "DK_GIROCARD" },
	{ EMV_CARD_PRODUCT_EFTPOS_SAVINGS, "EFTPOS_SAVINGS" },
	{ EMV_CARD_PRODUCT_EFTPOS_CHEQUE, "EFTPOS_CHEQUE" },
	{ EMV_CARD_PRODUCT_MIR_CREDIT, "MIR_CREDIT" },
	{ EMV_CARD_PRODUCT_MIR_DEBIT, "MIR_DEBIT" },
};
static const struct sym iadfmts[] = {
	{ EMV_IAD_FORMAT_INVALID, "INVALID" },
	{ EMV_IAD_FORMAT_UNKNOWN, "UNKNOWN" },
	{ EMV_IAD_FORMAT_CCD, "CCD" },
	{ EMV_IAD_FORMAT_MCHIP4, "MCHIP4" },
	{ EMV_IAD_FORMAT_MCHIP_ADVANCE, "MCHIP_ADVANCE" },
	{ EMV_IAD_FORMAT_VSDC_0, "VSDC_0" },
	{ EMV_IAD_FORMAT_VSDC_1, "VSDC_1" },
	{ EMV_IAD_FORMAT_VSDC_2, "VSDC_2" },
	{ EMV_IAD_FORMAT_VSDC_3, "VSDC_3" },
	{ EMV_IAD_FORMAT_VSDC_4, "VSDC_4" },
};
static const struct sym fmts[] = {
	{ EMV_FORMAT_A, "A" }, { EMV_FORMAT_AN, "AN" }, { EMV_FORMAT_ANS, "ANS" }, { EMV_FORMAT_B, "B" },
	{ EMV_FORMAT_CN, "CN" }, { EMV_FORMAT_N, "N" }, { EMV_FORMAT_VAR, "VAR" }, { EMV_FORMAT_DOL, "DOL" },
	{ EMV_FORMAT_TAG_LIST, "TAG_LIST" },
};
#define SYM(t, v) sym_of(t, sizeof(t) / sizeof((t)[0]), v)
static const char* sym_of(const struct sym* t, size_t n, int v)
{
	for (size_t i = 0; i < n; ++i) if (t[i].v == v) return t[i].s;
	return "?";
}

/* The registers are loaded once, from the system and from the data of these checks */
static void need_tables(void)
{
	static bool done = false;
	if (done) return;
	done = true;
	emv_strings_init(getenv("VP_ISOCODES"), getenv("VP_MCC"));
}

/* A buffer of exactly cap octets; cap < 0 is no buffer at all */
struct tb { char* s; size_t cap; };
static struct tb tb_new(long cap)
{
	struct tb t = { NULL, 0 };
	if (cap >= 0) { t.cap = cap; t.s = tbuf(cap); }
	return t;
}

typedef int (*text_fn)(const uint8_t*, size_t, char*, size_t);
typedef int (*byte_fn)(uint8_t, char*, size_t);
static int arc_fn(const uint8_t* b, size_t n, char* s, size_t cap) { return emv_auth_response_code_get_string(b, n, s, cap); }
static const struct { const char* k; text_fn fn; } text_fns[] = {
	{ "termcaps", emv_term_caps_get_string_list },
	{ "addlcaps", emv_addl_term_caps_get_string_list },
	{ "aip", emv_aip_get_string_list },
	{ "auc", emv_app_usage_control_get_string_list },
	{ "tvr", emv_tvr_get_string_list },
	{ "tsi", emv_tsi_get_string_list },
	{ "trmd", emv_terminal_risk_management_data_get_string_list },
	{ "ttq", emv_ttq_get_string_list },
	{ "ctq", emv_ctq_get_string_list },
	{ "enhcl", emv_amex_enh_cl_reader_caps_get_string_list },
	{ "ffi", emv_visa_form_factor_indicator_get_string_list },
	{ "tpd", emv_mastercard_third_party_data_get_string_list },
	{ "aid", emv_aid_get_string },
	{ "asrpd", emv_asrpd_get_string_list },
	{ "afltxt", emv_afl_get_string_list },
	{ "track2", emv_track2_equivalent_data_get_string },
	{ "refcur", emv_app_reference_currency_get_string_list },
	{ "langpref", emv_language_preference_get_string_list },
	{ "cvmlist", emv_cvm_list_get_string_list },
	{ "cvmres", emv_cvm_results_get_string_list },
	{ "iad", emv_iad_get_string_list },
	{ "issauth", emv_issuer_auth_data_get_string_list },
	{ "arc", arc_fn },
	{ "capdu", emv_capdu_get_string },
	{ "a", emv_format_a_get_string },
	{ "an", emv_format_an_get_string },
	{ "anssp", emv_format_ans_only_space_get_string },
	{ "ansccs", emv_format_ans_ccs_get_string },
	{ "cn", emv_format_cn_get_string },
	{ "n", emv_format_n_get_string },
	{ "amount", emv_amount_get_string },
	{ "date", emv_date_get_string },
	{ "time", emv_time_get_string },
	{ "mcc", emv_mcc_get_string },
};
static const struct { const char* k; byte_fn fn; } byte_fns[] = {
	{ "termtype", emv_term_type_get_string_list },
	{ "posentry", emv_pos_entry_mode_get_string },
	{ "txntype", emv_transaction_type_get_string },
	{ "acctype", emv_account_type_get_string },
	{ "cid", emv_cid_get_string_list },
	{ "clcaps", emv_amex_cl_reader_caps_get_string },
};

/* str NAME CAP HEX */
static void p_str(void)
{
	long cap = num(2);
	struct buf b = hexbuf(tok[3]);
	struct tb t = tb_new(cap);
	int r = -99;
	need_tables();
	p_begin(); fprintf(out, ",\"k\":\"%s\"", tok[1]); jki("cap", cap); jkb("b", b.p, b.n); p_out();
	for (size_t i = 0; i < sizeof(text_fns) / sizeof(text_fns[0]); ++i)
		if (strcmp(text_fns[i].k, tok[1]) == 0) r = text_fns[i].fn(b.p, b.n, t.s, t.cap);
	for (size_t i = 0; i < sizeof(byte_fns) / sizeof(byte_fns[0]); ++i)
		if (strcmp(byte_fns[i].k, tok[1]) == 0) r = byte_fns[i].fn(b.p[0], t.s, t.cap);
	jki("r", r == -99 ? r : sgn(r));
	if (r == 0 && t.cap) jkt("s", tget(t.s, t.cap));
	p_end();
	free(t.s);
	free(b.p);
}

/* info TAG CAP HEX|~LEN */
static void p_info(void)
{
	unsigned int tag = strtoul(tok[1], NULL, 16);
	long cap = num(2);
	bool nul = tok[3][0] == '~';
	struct buf b = nul ? (struct buf){ NULL, 0 } : hexbuf(tok[3]);
	size_t len = nul ? strtoul(tok[3] + 1, NULL, 10) : b.n;
	struct tb t = tb_new(cap);
	struct emv_tlv_t f;
	struct emv_tlv_info_t info;
	need_tables();
	p_begin(); jku32("tag", tag); jki("cap", cap); jki("nul", nul); jki("len", len); jkb("b", b.p, b.n); p_out();
	memset(&f, 0, sizeof(f));
	f.tag = tag;
	f.length = len;
	f.value = b.p;
	memset(&info, 0xA5, sizeof(info));
	int r = emv_tlv_get_info(&f, &info, t.s, t.cap);
	jkt("name", info.tag_name);
	jkt("desc", info.tag_desc);
	fprintf(out, ",\"fmt\":\"%s\"", SYM(fmts, info.format));
	jki("r", sgn(r));
	if (t.cap) jkt("s", tget(t.s, t.cap));
	p_end();
	free(t.s);
	free(b.p);
}

static void cvml_begin(void);
ITERATION(emv_cvmlist, cvml, emv_cvmlist_itr_t, emv_cv_rule_t)
static void cvml_begin(void) { struct emv_cvmlist_amounts_t a; emv_cvmlist_itr_init("\0\0\0\1\0\0\0\2\x1E\x03\x41\x06\x02\x00", 14, &a, &cvml_other); }
static void ctlv_begin(void);
ITERATION(iso7816_compact_tlv, ctlv, iso7816_compact_tlv_itr_t, iso7816_compact_tlv_t)
static void ctlv_begin(void) { iso7816_compact_tlv_itr_init("\x31\xFE\x65\x01\x02\x03\x04\x05\x80", 9, &ctlv_other); }

/* aidinfo HEX ; iadfmt HEX ; cvml HEX ; ctlv HEX */
static void p_fields(void)
{
	struct buf b = hexbuf(tok[1]);
	int n = 0;
	p_begin(); jkb("b", b.p, b.n); p_out();
	if (strcmp(tok[0], "aidinfo") == 0) {
		struct emv_aid_info_t i;
		int r = emv_aid_get_info(b.p, b.n, &i);
		jki("r", sgn(r));
		fprintf(out, ",\"scheme\":\"%s\",\"product\":\"%s\"", r ? "" : SYM(schemes, i.scheme), r ? "" : SYM(products, i.product));
	} else if (strcmp(tok[0], "iadfmt") == 0) {
		fprintf(out, ",\"fmt\":\"%s\"", SYM(iadfmts, emv_iad_get_format(b.p, b.n)));
	} else if (strcmp(tok[0], "cvml") == 0) {
		struct emv_cvmlist_amounts_t a = { 0xA5A5A5A5, 0xA5A5A5A5 };
		struct emv_cvmlist_itr_t itr;
		struct emv_cv_rule_t c;
		cvml_begin();
		int r = emv_cvmlist_itr_init(b.p, b.n, &a, &itr);
		jki("r", sgn(r));
		jku32("x", r ? 0 : a.X);
		jku32("y", r ? 0 : a.Y);
		fputs(",\"rules\":[", out);
		if (r == 0) while (n < 300 && (r = cvml_step(&itr, &c)) > 0)
			fprintf(out, "%s[%u,%u]", n++ ? "," : "", c.cvm, c.cvm_cond);
		fputs("]", out);
		jki("e", sgn(r));
	} else {
		struct iso7816_compact_tlv_itr_t itr;
		struct iso7816_compact_tlv_t t;
		ctlv_begin();
		int r = iso7816_compact_tlv_itr_init(b.p, b.n, &itr);
		fputs(",\"items\":[", out);
		if (r) r = -1;
		else while (n < 300 && (r = ctlv_step(&itr, &t)) > 0) {
			fprintf(out, "%s{\"tag\":%u,\"val\":", n++ ? "," : "", t.tag);
			jbytes(t.value, t.length);
			jkt("name", iso7816_compact_tlv_tag_get_string(t.tag));
			fputc('}', out);
		}
		fputs("]", out);
		jki("r", sgn(r));
	}
	p_end();
	free(b.p);
}

/* sw CAP HEX ; lcs HEX ; cardsvc CAP HEX ; cardcaps CAP HEX ; isocapdu CAP HEX */
static void p_isotext(void)
{
	bool lcs = strcmp(tok[0], "lcs") == 0;
	long cap = lcs ? -1 : num(1);
	struct buf b = hexbuf(tok[lcs ? 1 : 2]);
	struct tb t = tb_new(cap);
	p_begin(); jki("cap", cap); jkb("b", b.p, b.n); p_out();
	if (lcs) {
		jkt("t", iso7816_lcs_get_string(b.p[0]));
	} else if (strcmp(tok[0], "cardsvc") == 0 || strcmp(tok[0], "cardcaps") == 0) {
		int r = tok[0][4] == 's' ? iso7816_card_service_data_get_string_list(b.p[0], t.s, t.cap)
			: iso7816_card_capabilities_get_string_list(b.p, b.n, t.s, t.cap);
		jki("r", sgn(r));
		if (r == 0 && t.cap) jkt("s", tget(t.s, t.cap));
	} else {
		const char* s = strcmp(tok[0], "sw") == 0 ? iso7816_sw1sw2_get_string(b.p[0], b.p[1], t.s, t.cap)
			: iso7816_capdu_get_string(b.p, b.n, t.s, t.cap);
		jkt("t", s && s == t.s ? tget(s, t.cap) : s);
	}
	p_end();
	free(t.s);
	free(b.p);
}

/* s2cn LEN HEX ; s2n LEN HEX */
static void p_pack(void)
{
	size_t len = num(1);
	struct buf b = hexbuf(tok[2]);
	char* s = malloc(b.n + 1);
	uint8_t* d = malloc(len);
	memcpy(s, b.p, b.n);
	s[b.n] = 0;
	p_begin(); jki("len", len); jkb("t", b.p, b.n); p_out();
	int r = tok[0][2] == 'c' ? emv_str_to_format_cn(s, d, len) : emv_str_to_format_n(s, d, len);
	jki("r", sgn(r));
	jkb("b", d, r ? 0 : len);
	p_end();
	free(s);
	free(d);
	free(b.p);
}

/* iso OP... in a process of its own, so that every history starts with nothing loaded:
 * I:SET isocodes_init (J: with a slash at the end of the path, E: with an empty path) ; M:SET mcc_init ; S:SET:SET emv_strings_init ; look-ups c2 c3 cn k3 kn l2 l3 m */
static void iso_op(const char* op)
{
	char path[300], path2[300], x[64];
	const char* a = strchr(op, ':') + 1;
	const char* s;
	if (op[0] == 'E') {
		fprintf(out, "\"%d\"", isocodes_init(""));
		return;
	}
	if (op[0] == 'I' || op[0] == 'J' || op[0] == 'M' || op[0] == 'S') {
		int r;
		const char* b = strchr(a, ':');
		snprintf(path, sizeof(path), "sets/%.*s%s", b ? (int)(b - a) : 100, a, op[0] == 'M' ? "/mcc.json" : op[0] == 'J' ? "/" : "");
		if (b) snprintf(path2, sizeof(path2), "sets/%s/mcc.json", b + 1);
		r = op[0] == 'I' || op[0] == 'J' ? isocodes_init(path) : op[0] == 'M' ? mcc_init(path) : emv_strings_init(path, path2);
		fprintf(out, "\"%d\"", r);
		return;
	}
	snprintf(x, sizeof(x), "%s", a);
	unsigned int n = strtoul(a, NULL, 10);
	switch (op[0] << 8 | op[1]) {
	case 'c' << 8 | '2': s = isocodes_lookup_country_by_alpha2(x); break;
	case 'c' << 8 | '3': s = isocodes_lookup_country_by_alpha3(x); break;
	case 'c' << 8 | 'n': s = isocodes_lookup_country_by_numeric(n); break;
	case 'k' << 8 | '3': s = isocodes_lookup_currency_by_alpha3(x); break;
	case 'k' << 8 | 'n': s = isocodes_lookup_currency_by_numeric(n); break;
	case 'l' << 8 | '2': s = isocodes_lookup_language_by_alpha2(x); break;
	case 'l' << 8 | '3': s = isocodes_lookup_language_by_alpha3(x); break;
	default: s = mcc_lookup(n); break;
	}
	jtext(s ? s : "~");
}
static void p_iso(void)
{
	p_begin();
	fputs(",\"ops\":[", out);
	for (int i = 1; i < ntok; ++i) {
		char* a = strchr(tok[i], ':');
		char* b = strchr(a + 1, ':');
		fprintf(out, "%s{\"k\":\"%.*s\",\"a\":\"%.*s\",\"b\":\"%s\"}", i > 1 ? "," : "", (int)(a - tok[i]), tok[i],
			b ? (int)(b - a - 1) : 100, a + 1, b ? b + 1 : "");
	}
	fputs("]", out);
	p_out();
	pid_t pid = fork();
	if (pid == 0) {
		fputs(",\"ans\":[", out);
		for (int i = 1; i < ntok; ++i) {
			if (i > 1) fputc(',', out);
			iso_op(tok[i]);
			fflush(out);
		}
		fputs("]", out);
		fflush(out);
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (st) exit(WIFEXITED(st) ? WEXITSTATUS(st) : 76);
	p_end();
}

#define TEXT_TABLE { "iso", p_iso }, { "str", p_str }, { "info", p_info }, { "aidinfo", p_fields }, { "iadfmt", p_fields }, \
	{ "cvml", p_fields }, { "ctlv", p_fields }, { "sw", p_isotext }, { "lcs", p_isotext }, \
	{ "cardsvc", p_isotext }, { "cardcaps", p_isotext }, { "isocapdu", p_isotext }, \
	{ "s2cn", p_pack }, { "s2n", p_pack },
