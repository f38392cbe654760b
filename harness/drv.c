/* Conformance driver: performs the operations of a scenario file on the real library and
 * records one event per specification action (ndjson) for TLC to validate. */
#include "core.h"
#include "card.h"

#include "emv.h"
#include "emv_app.h"
#include "emv_debug.h"
#include "emv_dol.h"
#include "emv_fields.h"
#include "emv_tal.h"
#include "emv_tags.h"
#include "emv_tlv.h"
#include "emv_ttl.h"
#include "iso7816.h"
#include "iso7816_apdu.h"
#include "iso7816_compact_tlv.h"
#include "iso8825_ber.h"
#include "iso8859.h"

static int sgn(long r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
static int neg(long r) { return r < 0 ? -1 : r; }

/* ---- projections ------------------------------------------------------- */
static void jtlv(const struct emv_tlv_t* t)
{
	fprintf(out, "{\"t\":[%u,%u],\"v\":", t->tag >> 16, t->tag & 0xFFFF);
	jbytes(t->value, t->length);
	fprintf(out, ",\"f\":%u}", t->flags);
}

static void jlist(const char* key, const struct emv_tlv_list_t* l)
{
	fprintf(out, ",\"%s\":[", key);
	for (const struct emv_tlv_t* t = l->front; t; t = t->next) {
		if (t != l->front) fputc(',', out);
		jtlv(t);
		if (!t->next && t != l->back) fputs(",{\"broken\":1}", out);
	}
	if (!l->front && l->back) fputs("{\"broken\":2}", out);
	fputc(']', out);
}

static void japp(const struct emv_app_t* a, bool ok)
{
	fprintf(out, "{\"%s\":true", ok ? "ok" : "has");
	jkb("aid", a->aid ? a->aid->value : NULL, a->aid ? a->aid->length : 0);
	jks("name", a->display_name);
	jki("prio", a->priority);
	jki("conf", a->confirmation_required ? 1 : 0);
	jlist("tlvs", &a->tlv_list);
	fputc('}', out);
}

static void japps(const char* key, const struct emv_app_list_t* l)
{
	fprintf(out, ",\"%s\":[", key);
	for (const struct emv_app_t* a = l->front; a; a = a->next) {
		if (a != l->front) fputc(',', out);
		japp(a, true);
		if (!a->next && a != l->back) fputs(",{\"broken\":1}", out);
	}
	if (!l->front && l->back) fputs("{\"broken\":2}", out);
	fputc(']', out);
}

/* "tag:hex:flags,tag:hex:flags" or "-" */
static void parse_list(const char* s, struct emv_tlv_list_t* l)
{
	if (strcmp(s, "-") == 0) return;
	char* dup = strdup(s);
	char* save = NULL;
	for (char* e = strtok_r(dup, ",", &save); e; e = strtok_r(NULL, ",", &save)) {
		char* c1 = strchr(e, ':');
		char* c2 = c1 ? strchr(c1 + 1, ':') : NULL;
		if (!c1) continue;
		*c1 = 0;
		if (c2) *c2 = 0;
		struct buf v = hexbuf(c1[1] ? c1 + 1 : "-");
		emv_tlv_list_push(l, strtoul(e, NULL, 16), v.n, v.p, c2 ? atoi(c2 + 1) : 0);
		free(v.p);
	}
	free(dup);
}

/* ---- sessions ---------------------------------------------------------- */
/* Two terminals, so that operations of one can come between, or in the middle of, those of
 * the other; most scenarios only use the first. */
static struct terminal { struct emv_ttl_t ttl; struct emv_ctx_t ctx; struct emv_app_list_t apps; bool used; } both[2], *at = both;
static FILE* scenario;
static bool in_session;
static long live0;

static void ret_event(int r)
{
	fail_in = fail_arm = 0;
	fputs("{\"e\":\"ret\"", out);
	jki("r", r);
	if (failed) jki("oom", 1);
	failed = 0;
	japps("apps", &at->apps);
	fputs(",\"sel\":", out);
	if (at->ctx.selected_app) japp(at->ctx.selected_app, false);
	else fputs("{\"has\":false}", out);
	jlist("icc", &at->ctx.icc);
	jlist("term", &at->ctx.terminal);
	jlist("params", &at->ctx.params);
	jlist("aids", &at->ctx.supported_aids);
	jlist("cfg", &at->ctx.config);
	fputs("}\n", out);
}

static void call_event(const char* op)
{
	fprintf(out, "{\"e\":\"call\",\"op\":\"%s\"", op);
	if (fail_arm && strcmp(op, "put") && strcmp(op, "trx") && strcmp(op, "cmd")) {
		jki("arm", fail_arm);
		fail_in = fail_arm;
	}
}

/* The log function: protocol content in full, of other entries what kind they are */
static void log_event(unsigned int ts, enum emv_debug_source_t src, enum emv_debug_level_t lvl,
	enum emv_debug_type_t type, const char* str, const void* buf, size_t buf_len)
{
	(void)ts;
	/* every octet given must be readable, whatever it is */
	volatile unsigned char sum = 0;
	for (size_t k = 0; k < buf_len; ++k) sum += ((const unsigned char*)buf)[k];
	for (const char* c = str; c && *c; ++c) sum += (unsigned char)*c;
	fputs("{\"e\":\"d\"", out);
	jki("src", src);
	jki("lvl", lvl);
	jki("type", str ? (int)type : -1);
	jkb("b", buf, type >= EMV_DEBUG_TYPE_CAPDU ? buf_len : 0);
	fputs("}\n", out);
}

static void terminal_begin(const char* mode)
{
	memset(at, 0xA5, sizeof(*at));
	memset(&at->ttl, 0, sizeof(at->ttl));
	memset(&at->apps, 0, sizeof(at->apps));
	at->used = true;
	at->ttl.cardreader.mode = strcmp(mode, "TPDU") == 0 ? EMV_CARDREADER_MODE_TPDU :
		strcmp(mode, "APDU") == 0 ? EMV_CARDREADER_MODE_APDU : 0x7777;
	at->ttl.cardreader.ctx = at;
	at->ttl.cardreader.trx = &card_trx;
	card.tpdu = at->ttl.cardreader.mode == EMV_CARDREADER_MODE_TPDU;
	card_owner = at;
	emv_ctx_init(&at->ctx, &at->ttl);
}

/* Exchange what is being worked with for the other terminal and its card */
static void swap(void)
{
	static unsigned char tmp[sizeof(card)], other[sizeof(card)];
	memcpy(tmp, &card, sizeof(card));
	memcpy(&card, other, sizeof(card));
	memcpy(other, tmp, sizeof(card));
	at = at == both ? both + 1 : both;
	card_owner = at;
}

static void terminal_swap(const char* mode)
{
	card.nest = 0;
	swap();
	bool fresh = !at->used;
	if (fresh) {
		card_clear();
		terminal_begin(mode);
	}
	fprintf(out, "{\"e\":\"swap\",\"fresh\":%s,\"mode\":\"%s\"}\n", fresh ? "true" : "false", mode);
}

static bool session_cmd(void);
/* The other terminal's turn, in the middle of an operation: it lasts until "back" */
static void others_turn(void)
{
	while (next_line(scenario)) {
		bool last = strcmp(tok[0], "back") == 0;
		session_cmd();
		if (last) return;
	}
}

static void session_end(void)
{
	if (!in_session) return;
	in_session = false;
	fail_arm = 0;
	emv_debug_init(0, 0, NULL);
	for (int i = 0; i < 2; ++i) {
		if (at->used) {
			emv_app_list_clear(&at->apps);
			emv_ctx_clear(&at->ctx);
			card_clear();
			at->used = false;
		}
		swap();
	}
	if (at != both) swap();
	fflush(out);
	fprintf(out, "{\"e\":\"end\",\"live\":%ld}\n", live_bytes() - live0);
}

static void session_start(void)
{
	session_end();
	card_clear();
	fflush(out);
	live0 = live_bytes();
	in_session = true;
	meanwhile = others_turn;
	terminal_begin(tok[2]);
	fprintf(out, "{\"e\":\"init\",\"id\":\"%s\",\"ln\":%u,\"mode\":\"%s\"}\n", tok[1], lineno, tok[2]);
}

static bool session_cmd(void)
{
	const char* c = tok[0];
	int r;
	if (strcmp(c, "S") == 0) { session_start(); return true; }
	if (strcmp(c, "F") == 0) { fail_arm = num(1); return true; }
	if (!in_session) return false;
	if (strcmp(c, "E") == 0) { session_end(); return true; }
	if (strcmp(c, "R") == 0) { /* raw reader answer */
		if (card.nscript < MAXREP) {
			card.script[card.nscript].rr = num(1);
			card.script[card.nscript++].rx = hexbuf(ntok > 2 ? tok[2] : "-");
		}
		return true;
	}
	if (strcmp(c, "A") == 0) { /* APDU rule: prefix count rapdu */
		if (card.nrules < 512) {
			struct rule* u = &card.rules[card.nrules++];
			u->pfx = hexbuf(tok[1]);
			u->count = num(2);
			u->rapdu = hexbuf(tok[3]);
		}
		return true;
	}
	if (strcmp(c, "P") == 0) { card.style = num(1); card.chunk = num(2); if (!card.chunk) card.chunk = 1; return true; }
	if (strcmp(c, "B") == 0) { card.budget = num(1); return true; }
	if (strcmp(c, "swap") == 0 || strcmp(c, "back") == 0) { terminal_swap(ntok > 1 ? tok[1] : "APDU"); return true; }
	if (strcmp(c, "N") == 0) { card.nest = num(1); return true; }
	if (strcmp(c, "D") == 0) { /* log filter: sources level function */
		emv_debug_init(num(1), num(2), num(3) ? &log_event : NULL);
		fputs("{\"e\":\"dbg\"", out);
		jki("mask", num(1));
		jki("level", num(2));
		fprintf(out, ",\"func\":%s}\n", num(3) ? "true" : "false");
		return true;
	}
	/* context data: recorded through the projection of a "put" call */
	if (strcmp(c, "cfg") == 0 || strcmp(c, "par") == 0 || strcmp(c, "aid") == 0) {
		struct emv_tlv_list_t* l = *c == 'c' ? &at->ctx.config : *c == 'p' ? &at->ctx.params : &at->ctx.supported_aids;
		struct emv_tlv_list_t tmp = EMV_TLV_LIST_INIT;
		parse_list(tok[1], &tmp);
		call_event("put");
		fprintf(out, ",\"to\":\"%s\"", c);
		jlist("fields", &tmp);
		fputs("}\n", out);
		r = 0;
		for (struct emv_tlv_t* t = tmp.front; t; t = t->next)
			r |= emv_tlv_list_push(l, t->tag, t->length, t->value, t->flags);
		emv_tlv_list_clear(&tmp);
		ret_event(r);
		return true;
	}
	if (strcmp(c, "build") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_build_candidate_list(&at->ctx, &at->apps);
		ret_event(r);
	} else if (strcmp(c, "select") == 0) {
		unsigned int idx = num(1);
		call_event(c); jki("idx", idx); fputs("}\n", out); fflush(out);
		r = emv_select_application(&at->ctx, &at->apps, idx);
		ret_event(r);
	} else if (strcmp(c, "init") == 0) {
		call_event(c); jki("pos", num(1)); fputs("}\n", out); fflush(out);
		r = emv_initiate_application_processing(&at->ctx, num(1));
		ret_event(r);
	} else if (strcmp(c, "read") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_read_application_data(&at->ctx);
		ret_event(r);
	} else if (strcmp(c, "reset") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_ctx_reset(&at->ctx);
		ret_event(r);
	} else if (strcmp(c, "clear") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_ctx_clear(&at->ctx);
		ret_event(r);
	} else if (strcmp(c, "selreq") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_app_list_selection_is_required(&at->apps);
		ret_event(r);
	} else if (strcmp(c, "clearapps") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		emv_app_list_clear(&at->apps);
		ret_event(0);
	} else if (strcmp(c, "reinit") == 0) {
		/* a new context object after emv_ctx_clear() */
		call_event(c); fprintf(out, ",\"mode\":\"%s\"}\n", card.tpdu ? "TPDU" : "APDU"); fflush(out);
		r = emv_ctx_clear(&at->ctx);
		memset(&at->ctx, 0xA5, sizeof(at->ctx));
		r = emv_ctx_init(&at->ctx, &at->ttl);
		ret_event(r);
	} else if (strcmp(c, "tal_pse") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_tal_read_pse(&at->ttl, &at->ctx.supported_aids, &at->apps);
		ret_event(r);
	} else if (strcmp(c, "tal_find") == 0) {
		call_event(c); fputs("}\n", out); fflush(out);
		r = emv_tal_find_supported_apps(&at->ttl, &at->ctx.supported_aids, &at->apps);
		ret_event(r);
	} else if (strcmp(c, "tal_sel") == 0) {
		struct buf a = hexbuf(tok[1]);
		if (at->ctx.selected_app) { emv_app_free(at->ctx.selected_app); at->ctx.selected_app = NULL; }
		call_event(c); jkb("aid", a.p, a.n); fputs("}\n", out); fflush(out);
		r = emv_tal_select_app(&at->ttl, a.p, a.n, &at->ctx.selected_app);
		free(a.p);
		ret_event(r);
	} else if (strcmp(c, "tal_gpo") == 0) {
		struct buf a = hexbuf(tok[1]);
		const struct emv_tlv_t* aip = (const struct emv_tlv_t*)8;
		const struct emv_tlv_t* afl = (const struct emv_tlv_t*)8;
		call_event(c); fprintf(out, ",\"nodata\":%s", a.p ? "false" : "true"); jkb("data", a.p, a.n); fputs("}\n", out); fflush(out);
		r = emv_tal_get_processing_options(&at->ttl, a.p, a.n, &at->ctx.icc, &aip, &afl);
		free(a.p);
		/* AIP and AFL are either absent or usable fields */
		if (r == 0 && aip != (const void*)8 && afl != (const void*)8 && aip && afl) {
			if (aip->tag != EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE || afl->tag != EMV_TAG_94_APPLICATION_FILE_LOCATOR) r = -1000;
			for (unsigned int i = 0; i < aip->length; ++i) r += aip->value[i] * 0;
			for (unsigned int i = 0; i < afl->length; ++i) r += afl->value[i] * 0;
		} else if (r == 0) {
			r = -1001;
		} else if (r != EMV_TAL_ERROR_INVALID_PARAMETER && (aip || afl)) {
			r = -1002;
		}
		ret_event(r);
	} else if (strcmp(c, "tal_afl") == 0) {
		struct buf a = hexbuf(tok[1]);
		call_event(c); jkb("afl", a.p, a.n); fputs("}\n", out); fflush(out);
		r = emv_tal_read_afl_records(&at->ttl, a.p, a.n, &at->ctx.icc);
		free(a.p);
		ret_event(r);
	} else if (strcmp(c, "trx") == 0) {
		size_t cap = num(1);
		struct buf a = hexbuf(tok[2]);
		uint8_t* rapdu = malloc(cap);
		size_t n = cap;
		uint16_t sw = 0xDEAD;
		call_event(c); jki("cap", cap); jkb("capdu", a.p, a.n); fputs("}\n", out); fflush(out);
		r = emv_ttl_trx(&at->ttl, a.p, a.n, rapdu, &n, &sw);
		fputs("{\"e\":\"tret\"", out);
		jki("r", sgn(r));
		jkb("rapdu", rapdu, r ? 0 : n);
		jki("sw", r ? 0 : sw);
		fputs("}\n", out);
		free(a.p);
		free(rapdu);
	} else if (strcmp(c, "cmd") == 0) { /* cmd sel|next|rec|gpo ... */
		uint8_t* data = malloc(EMV_RAPDU_DATA_MAX);
		size_t n = EMV_RAPDU_DATA_MAX;
		uint16_t sw = 0xDEAD;
		struct buf a = { NULL, 0 };
		call_event(c);
		fprintf(out, ",\"k\":\"%s\"", tok[1]);
		if (strcmp(tok[1], "rec") == 0) { jki("sfi", num(2)); jki("rec", num(3)); }
		else { a = hexbuf(tok[2]); fprintf(out, ",\"nodata\":%s", a.p ? "false" : "true"); jkb("data", a.p, a.n); }
		fputs("}\n", out); fflush(out);
		if (strcmp(tok[1], "sel") == 0) r = emv_ttl_select_by_df_name(&at->ttl, a.p, a.n, data, &n, &sw);
		else if (strcmp(tok[1], "next") == 0) r = emv_ttl_select_by_df_name_next(&at->ttl, a.p, a.n, data, &n, &sw);
		else if (strcmp(tok[1], "gpo") == 0) r = emv_ttl_get_processing_options(&at->ttl, a.p, a.n, data, &n, &sw);
		else r = emv_ttl_read_record(&at->ttl, num(2), num(3), data, &n, &sw);
		fputs("{\"e\":\"tret\"", out);
		jki("r", sgn(r));
		jkb("rapdu", data, r ? 0 : n);
		jki("sw", r ? 0 : sw);
		fputs("}\n", out);
		free(a.p);
		free(data);
	} else {
		return false;
	}
	return true;
}

#include "pure.h"

int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	FILE* in = scenario = fopen(argv[1], "r");
	out = fopen(argv[2], "w");
	if (!in || !out) return 2;
	static char obuf[1 << 16];
	setvbuf(out, obuf, _IOFBF, sizeof(obuf));
	signal(SIGALRM, on_alarm);
	while (next_line(in)) {
		alarm(30);
		if (session_cmd()) continue;
		session_end();
		if (!pure_cmd()) {
			fprintf(stderr, "unknown command %s at line %u\n", tok[0], lineno);
			return 2;
		}
	}
	session_end();
	fputs("{\"e\":\"eof\"}\n", out);
	fclose(out);
	fclose(in);
	return 0;
}
