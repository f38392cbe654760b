/* Single-call operations: one event with inputs and outputs each. */
static void p_begin(void)
{
	fflush(out);
	fprintf(out, "{\"e\":\"p\",\"f\":\"%s\",\"ln\":%u,\"i\":{\"_\":0", tok[0], lineno);
}
static void p_out(void) { fputs("},\"o\":{\"_\":0", out); fflush(out); }
static void p_end(void)
{
	if (failed) jki("oom", 1);
	failed = 0;
	fail_in = fail_arm = 0;
	fputs("}}\n", out);
}

/* Iterating one thing is no business of the iteration of another, which takes a step of its
 * own before each step; and at the end is at the end, however often it is asked. */
#define ITERATION(kind, name, itr_t, elem_t) \
static struct itr_t name##_other; \
static int name##_step(struct itr_t* itr, struct elem_t* e) \
{ \
	struct elem_t x; \
	if (kind##_itr_next(&name##_other, &x) <= 0) name##_begin(); \
	int r = kind##_itr_next(itr, e); \
	return r == 0 ? kind##_itr_next(itr, e) : r; \
}
static void ber_begin(void);
ITERATION(iso8825_ber, ber, iso8825_ber_itr_t, iso8825_tlv_t)
static void ber_begin(void) { iso8825_ber_itr_init("\x9F\x02\x01\x07\x70\x03\x5A\x01\x11\x81\x00\xDF\x81\x01\x81\x02\x01\x02", 18, &ber_other); }
static void dol_begin(void);
ITERATION(emv_dol, dol, emv_dol_itr_t, emv_dol_entry_t)
static void dol_begin(void) { emv_dol_itr_init("\x9F\x02\x06\x9A\x03\xDF\x81\x01\x10", 9, &dol_other); }
static void afl_begin(void);
ITERATION(emv_afl, afl, emv_afl_itr_t, emv_afl_entry_t)
static void afl_begin(void) { emv_afl_itr_init("\x08\x01\x02\x01\x10\x03\x03\x00\x50\x01\x04\x02", 12, &afl_other); }

static void jitem(const struct iso8825_tlv_t* t)
{
	fprintf(out, "{\"tag\":[%u,%u],\"val\":", t->tag >> 16, t->tag & 0xFFFF);
	jbytes(t->value, t->length);
	fputc('}', out);
}

static void p_berlike(void)
{
	struct buf b = hexbuf(tok[1]);
	int r;
	p_begin(); jkb("b", b.p, b.n); p_out();
	if (strcmp(tok[0], "tag") == 0) {
		unsigned int tag = 0xA5A5A5A5;
		r = iso8825_ber_tag_decode(b.p, b.n, &tag);
		jki("r", neg(r));
		jku32("tag", r > 0 ? tag : 0);
	} else if (strcmp(tok[0], "ber") == 0) {
		struct iso8825_tlv_t t;
		memset(&t, 0xA5, sizeof(t));
		r = iso8825_ber_decode(b.p, b.n, &t);
		jki("r", neg(r));
		jku32("tag", r > 0 ? t.tag : 0);
		if (r > 0) jkb("val", t.value, t.length); else jkb("val", NULL, 0);
		jki("off", r > 0 ? t.value - b.p : 0);
		jki("flags", r > 0 ? t.flags : 0);
	} else if (strcmp(tok[0], "berit") == 0) {
		struct iso8825_ber_itr_t itr;
		struct iso8825_tlv_t t;
		int n = 0;
		fputs(",\"items\":[", out);
		ber_begin();
		r = iso8825_ber_itr_init(b.p, b.n, &itr);
		if (r == 0) {
			while (n < 2000 && (r = ber_step(&itr, &t)) > 0) {
				if (n++) fputc(',', out);
				jitem(&t);
			}
		}
		fputs("]", out);
		jki("r", neg(r));
	} else if (strcmp(tok[0], "flat") == 0) {
		struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
		long a = live_bytes();
		fail_in = fail_arm;
		r = emv_tlv_parse(b.p, b.n, &l);
		fail_in = 0;
		jki("r", sgn(r));
		jlist("list", &l);
		emv_tlv_list_clear(&l);
		jki("live", live_bytes() - a);
	} else if (strcmp(tok[0], "oid") == 0) {
		struct iso8825_oid_t oid;
		memset(&oid, 0xA5, sizeof(oid));
		r = iso8825_ber_oid_decode(b.p, b.n, &oid);
		jki("r", sgn(r));
		fputs(",\"arcs\":[", out);
		if (r == 0) for (unsigned int i = 0; i < oid.length; ++i)
			fprintf(out, "%s[%u,%u]", i ? "," : "", oid.value[i] >> 16, oid.value[i] & 0xFFFF);
		fputs("]", out);
	} else if (strcmp(tok[0], "case") == 0) {
		r = iso7816_apdu_case(b.p, b.n);
		jki("r", r < 0 ? -1 : r);
	}
	p_end();
	free(b.p);
}

static void p_dol(void)
{
	struct buf b = hexbuf(tok[1]);
	struct emv_dol_itr_t itr;
	struct emv_dol_entry_t e;
	int r, n = 0;
	p_begin(); jkb("b", b.p, b.n); p_out();
	dol_begin();
	r = emv_dol_itr_init(b.p, b.n, &itr);
	fputs(",\"items\":[", out);
	if (r == 0) {
		while (n < 2000 && (r = dol_step(&itr, &e)) > 0) {
			fprintf(out, "%s{\"tag\":[%u,%u],\"len\":%u}", n ? "," : "", e.tag >> 16, e.tag & 0xFFFF, e.length);
			++n;
		}
	}
	fputs("]", out);
	jki("r", neg(r));
	jki("len", neg(emv_dol_compute_data_length(b.p, b.n)));
	p_end();
	free(b.p);
}

static void p_dolbuild(void)
{
	/* dolb dol cap src... */
	struct buf b = hexbuf(tok[1]);
	size_t cap = num(2);
	struct emv_tlv_list_t src[8];
	const struct emv_tlv_list_t* srcp[8];
	size_t n = 0, len = cap;
	uint8_t* data = malloc(cap);
	for (int i = 3; i < ntok && n < 8; ++i) {
		memset(&src[n], 0, sizeof(src[n]));
		parse_list(tok[i], &src[n]);
		srcp[n] = &src[n];
		++n;
	}
	p_begin(); jkb("b", b.p, b.n); jki("cap", cap);
	fputs(",\"srcs\":[", out);
	for (size_t i = 0; i < n; ++i) {
		fprintf(out, "%s{\"_\":0", i ? "," : "");
		jlist("l", &src[i]);
		fputc('}', out);
	}
	fputc(']', out);
	p_out();
	int r = emv_dol_build_data(b.p, b.n, srcp, n, data, &len);
	jki("r", sgn(r));
	jkb("data", data, r ? 0 : len);
	p_end();
	for (size_t i = 0; i < n; ++i) emv_tlv_list_clear(&src[i]);
	free(data);
	free(b.p);
}

static void p_afl(void)
{
	struct buf b = hexbuf(tok[1]);
	struct emv_afl_itr_t itr;
	struct emv_afl_entry_t e;
	int r0, r = 0, n = 0;
	p_begin(); jkb("b", b.p, b.n); p_out();
	afl_begin();
	r0 = emv_afl_itr_init(b.p, b.n, &itr);
	fputs(",\"items\":[", out);
	if (r0 == 0) {
		while (n < 2000 && (r = afl_step(&itr, &e)) > 0) {
			fprintf(out, "%s{\"sfi\":%u,\"first\":%u,\"last\":%u,\"oda\":%u}", n ? "," : "", e.sfi, e.first_record, e.last_record, e.oda_record_count);
			++n;
		}
	}
	fputs("]", out);
	jki("r0", sgn(r0));
	jki("r", neg(r));
	p_end();
	free(b.p);
}

/* lops op... : operations on field lists A and B.  Each op is one token:
 * push:T:V:F  bpush:T:V:F  pop  find:T  dup  append  empty  parse:HEX  clear */
static void p_lops(void)
{
	struct emv_tlv_list_t A = EMV_TLV_LIST_INIT, B = EMV_TLV_LIST_INIT;
	long a0 = live_bytes();
	p_begin();
	fputs(",\"ops\":[", out);
	for (int i = 1; i < ntok; ++i) {
		char* s = strdup(tok[i]);
		char* f[4] = { s, NULL, NULL, NULL };
		for (int k = 1; k < 4; ++k) { f[k] = f[k - 1] ? strchr(f[k - 1], ':') : NULL; if (f[k]) *f[k]++ = 0; }
		uint32_t t = f[1] ? strtoul(f[1], NULL, 16) : 0;
		struct buf v = hexbuf(strcmp(f[0], "parse") == 0 ? f[1] : f[2] ? (*f[2] ? f[2] : "-") : "-");
		fprintf(out, "%s{\"op\":\"%s\",\"t\":[%u,%u],\"v\":", i > 1 ? "," : "", f[0], strcmp(f[0], "parse") == 0 ? 0 : t >> 16, strcmp(f[0], "parse") == 0 ? 0 : t & 0xFFFF);
		jbytes(v.p, v.n);
		fprintf(out, ",\"f\":%d}", f[3] ? atoi(f[3]) : 0);
		free(v.p);
		free(s);
	}
	fputs("]", out);
	p_out();
	fputs(",\"res\":[", out);
	long hold = fail_arm;
	for (int i = 1; i < ntok; ++i) {
		char* s = strdup(tok[i]);
		char* f[4] = { s, NULL, NULL, NULL };
		for (int k = 1; k < 4; ++k) { f[k] = f[k - 1] ? strchr(f[k - 1], ':') : NULL; if (f[k]) *f[k]++ = 0; }
		uint32_t t = f[1] ? strtoul(f[1], NULL, 16) : 0;
		struct buf v = hexbuf(strcmp(f[0], "parse") == 0 ? f[1] : f[2] ? (*f[2] ? f[2] : "-") : "-");
		int r = 0;
		int before = failed;
		fail_in = hold;
		fprintf(out, "%s{\"got\":[", i > 1 ? "," : "");
		if (strcmp(f[0], "push") == 0) r = sgn(emv_tlv_list_push(&A, t, v.n, v.p, f[3] ? atoi(f[3]) : 0));
		else if (strcmp(f[0], "bpush") == 0) r = sgn(emv_tlv_list_push(&B, t, v.n, v.p, f[3] ? atoi(f[3]) : 0));
		else if (strcmp(f[0], "pop") == 0) {
			struct emv_tlv_t* x = emv_tlv_list_pop(&A);
			r = x ? 1 : 0;
			if (x) { jtlv(x); if (x->next) r = 99; if (emv_tlv_free(x)) r = 98; }
		} else if (strcmp(f[0], "find") == 0) {
			struct emv_tlv_t* x = emv_tlv_list_find(&A, t);
			r = x ? 1 : 0;
			if (x) { jtlv(x); if (x->next && emv_tlv_free(x) == 0) r = 97; }
			if (emv_tlv_list_find_const(&A, t) != x) r = 96;
		} else if (strcmp(f[0], "dup") == 0) r = emv_tlv_list_has_duplicate(&A);
		else if (strcmp(f[0], "append") == 0) r = sgn(emv_tlv_list_append(&A, &B));
		else if (strcmp(f[0], "empty") == 0) r = emv_tlv_list_is_empty(&A);
		else if (strcmp(f[0], "parse") == 0) r = sgn(emv_tlv_parse(v.p, v.n, &A));
		else if (strcmp(f[0], "clear") == 0) emv_tlv_list_clear(&A);
		hold = fail_in;
		fail_in = 0;
		fprintf(out, "],\"r\":%d", r);
		if (failed && !before) jki("oom", 1);
		jlist("A", &A);
		jlist("B", &B);
		fputs("}", out);
		free(v.p);
		free(s);
	}
	fputs("]", out);
	emv_tlv_list_clear(&A);
	emv_tlv_list_clear(&B);
	jki("live", live_bytes() - a0);
	p_end();
}

/* aops op... : operations on an application list.
 * push:HEX (an FCI)  pop  rm:IDX  sort  req  empty  clear */
static void p_aops(void)
{
	struct emv_app_list_t L = EMV_APP_LIST_INIT;
	long a0 = live_bytes();
	p_begin();
	fputs(",\"ops\":[", out);
	for (int i = 1; i < ntok; ++i) {
		char* c = strchr(tok[i], ':');
		struct buf v = hexbuf(strncmp(tok[i], "push", 4) == 0 && c ? c + 1 : "-");
		fprintf(out, "%s{\"op\":\"%.*s\",\"b\":", i > 1 ? "," : "", (int)(c ? c - tok[i] : strlen(tok[i])), tok[i]);
		jbytes(v.p, v.n);
		fprintf(out, ",\"n\":%ld}", strncmp(tok[i], "rm", 2) == 0 && c ? strtol(c + 1, NULL, 10) : 0);
		free(v.p);
	}
	fputs("]", out);
	p_out();
	fputs(",\"res\":[", out);
	for (int i = 1; i < ntok; ++i) {
		char* c = strchr(tok[i], ':');
		int r = 0;
		struct emv_app_t* x = NULL;
		fprintf(out, "%s{\"got\":[", i > 1 ? "," : "");
		if (strncmp(tok[i], "push", 4) == 0) {
			struct buf v = hexbuf(c + 1);
			x = emv_app_create_from_fci(v.p, v.n);
			free(v.p);
			if (x) emv_app_list_push(&L, x);
			r = x ? 1 : 0;
			x = NULL;
		} else if (strcmp(tok[i], "pop") == 0) { x = emv_app_list_pop(&L); r = x ? 1 : 0; }
		else if (strncmp(tok[i], "rm", 2) == 0) { x = emv_app_list_remove_index(&L, strtoul(c + 1, NULL, 10)); r = x ? 1 : 0; }
		else if (strcmp(tok[i], "sort") == 0) r = sgn(emv_app_list_sort_priority(&L));
		else if (strcmp(tok[i], "req") == 0) r = emv_app_list_selection_is_required(&L);
		else if (strcmp(tok[i], "empty") == 0) r = emv_app_list_is_empty(&L);
		else if (strcmp(tok[i], "clear") == 0) emv_app_list_clear(&L);
		if (x) { japp(x, true); if (emv_app_free(x)) r = 98; }
		fprintf(out, "],\"r\":%d", r);
		japps("L", &L);
		fputs("}", out);
	}
	fputs("]", out);
	emv_app_list_clear(&L);
	jki("live", live_bytes() - a0);
	p_end();
}

static void p_app(void)
{
	/* apppse PSELIST ENTRY AIDS | appfci FCI AIDS */
	bool pse = strcmp(tok[0], "apppse") == 0;
	struct emv_tlv_list_t pl = EMV_TLV_LIST_INIT, aids = EMV_TLV_LIST_INIT;
	struct buf b = hexbuf(tok[pse ? 2 : 1]);
	long a0;
	if (pse) parse_list(tok[1], &pl);
	parse_list(tok[pse ? 3 : 2], &aids);
	p_begin(); jkb("b", b.p, b.n); jlist("pse", &pl); jlist("aids", &aids); p_out();
	fflush(out);
	a0 = live_bytes();
	fail_in = fail_arm;
	struct emv_app_t* a = pse ? emv_app_create_from_pse(&pl, b.p, b.n) : emv_app_create_from_fci(b.p, b.n);
	fail_in = 0;
	fputs(",\"app\":", out);
	if (a) japp(a, true); else fputs("{\"ok\":false}", out);
	jki("sup", a ? emv_app_is_supported(a, &aids) : 0);
	if (a) emv_app_free(a);
	jki("live", live_bytes() - a0);
	p_end();
	emv_tlv_list_clear(&pl);
	emv_tlv_list_clear(&aids);
	free(b.p);
}

/* fmt KIND CAP HEX : octets to a string buffer of CAP octets */
static void p_fmt(void)
{
	size_t cap = num(2);
	struct buf b = hexbuf(tok[3]);
	char* s = malloc(cap);
	int r;
	p_begin(); fprintf(out, ",\"k\":\"%s\"", tok[1]); jki("cap", cap); jkb("b", b.p, b.n); p_out();
	if (cap) memset(s, 0x7E, cap);
	if (strcmp(tok[1], "nonctl") == 0) r = emv_format_ans_to_non_control_str(b.p, b.n, s, cap);
	else if (strcmp(tok[1], "alnumsp") == 0) r = emv_format_ans_to_alnum_space_str(b.p, b.n, s, cap);
	else r = emv_format_b_to_str(b.p, b.n, s, cap);
	jki("r", sgn(r));
	jkb("s", s, r ? 0 : strnlen(s, cap));
	jki("nul", r == 0 && strnlen(s, cap) < cap);
	p_end();
	free(s);
	free(b.p);
}

/* u2n/u2b VALUE LEN ; n2u/b2u HEX */
static void p_uint(void)
{
	if (tok[0][0] == 'u') {
		uint32_t v = strtoul(tok[1], NULL, 0);
		size_t len = num(2);
		uint8_t* d = malloc(len);
		p_begin(); jku32("u", v); jki("len", len); p_out();
		const uint8_t* r = tok[0][2] == 'n' ? emv_uint_to_format_n(v, d, len) : emv_uint_to_format_b(v, d, len);
		jki("ok", r ? 1 : 0);
		jki("same", !r || r == d);
		jkb("b", d, r ? len : 0);
		p_end();
		free(d);
	} else {
		struct buf b = hexbuf(tok[1]);
		uint32_t v = 0xA5A5A5A5;
		p_begin(); jkb("b", b.p, b.n); p_out();
		int r = tok[0][0] == 'n' ? emv_format_n_to_uint(b.p, b.n, &v) : emv_format_b_to_uint(b.p, b.n, &v);
		jki("r", sgn(r));
		jku32("u", r ? 0 : v);
		p_end();
		free(b.p);
	}
}

static void p_iso8859(void)
{
	unsigned int page = num(1);
	size_t cap = num(2);
	struct buf b = hexbuf(tok[3]);
	char* s = malloc(cap);
	p_begin(); jki("page", page); jki("cap", cap); jkb("b", b.p, b.n); p_out();
	if (cap) memset(s, 0x7E, cap);
	int sup = iso8859_is_supported(page);
	int r = iso8859_to_utf8(page, b.p, b.n, s, cap);
	jki("sup", sup);
	jki("r", sgn(r));
	jkb("s", s, r ? 0 : strnlen(s, cap));
	jki("nul", r == 0 && strnlen(s, cap) < cap);
	p_end();
	free(s);
	free(b.p);
}

#include "pure2.h"
#include "text.h"
#ifdef TOOLS
#include "tools.h"
#else
#define TOOLS_TABLE
#endif

static bool pure_cmd(void)
{
	static const struct { const char* name; void (*fn)(void); } tbl[] = {
		{ "tag", p_berlike }, { "ber", p_berlike }, { "berit", p_berlike }, { "flat", p_berlike },
		{ "oid", p_berlike }, { "case", p_berlike }, { "dol", p_dol }, { "dolb", p_dolbuild },
		{ "afl", p_afl }, { "lops", p_lops }, { "aops", p_aops }, { "apppse", p_app },
		{ "appfci", p_app }, { "fmt", p_fmt }, { "u2n", p_uint }, { "u2b", p_uint },
		{ "n2u", p_uint }, { "b2u", p_uint }, { "iso8859", p_iso8859 },
		PURE2_TABLE
		TEXT_TABLE
		TOOLS_TABLE
	};
	for (size_t i = 0; i < sizeof(tbl) / sizeof(tbl[0]); ++i) {
		if (strcmp(tok[0], tbl[i].name) == 0) {
			tbl[i].fn();
			return true;
		}
	}
	return false;
}
