/* Texts are logged as JSON strings; octets outside printable ASCII as \u00XX. */
static void jtext(const char* s)
{
	fputc('"', out);
	for (; *s; ++s) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
		else if (c == '\n') fputs("\\n", out);
		else if (c < 0x20 || c > 0x7E) fprintf(out, "\\u%04x", c);
		else fputc(c, out);
	}
	fputc('"', out);
}
static void jkt(const char* key, const char* s)
{
	fprintf(out, ",\"%s\":", key);
	jtext(s ? s : "~");
}
/* A text buffer of exactly cap octets, filled so that a missing terminator shows; the
 * text of an unterminated buffer is "<unterminated>" */
static char* tbuf(size_t cap)
{
	char* s = malloc(cap);
	if (cap) memset(s, 0x7E, cap);
	return s;
}
static const char* tget(const char* s, size_t cap)
{
	return strnlen(s, cap) < cap ? s : "<unterminated>";
}

static void jopt(const uint8_t* const* p)
{
	for (int i = 1; i < 5; ++i) fprintf(out, "%s%d", i > 1 ? "," : "", p[i] ? *p[i] : -1);
}

/* atr HEX ; atrs CAP HEX ; emvatr HEX */
static void p_atr(void)
{
	struct buf b = hexbuf(tok[1]);
	struct iso7816_atr_info_t* a = malloc(sizeof(*a));
	p_begin(); jkb("b", b.p, b.n); p_out();
	memset(a, 0xA5, sizeof(*a));
	int r = iso7816_atr_parse(b.p, b.n, a);
	jki("r", sgn(r));
	if (r == 0) {
		jki("TS", a->TS); jki("T0", a->T0); jki("K", a->K_count);
		fputs(",\"TA\":[", out); jopt(a->TA);
		fputs("],\"TB\":[", out); jopt(a->TB);
		fputs("],\"TC\":[", out); jopt(a->TC);
		fputs("],\"TD\":[", out); jopt(a->TD);
		fputs("]", out);
		jki("T1", a->T1);
		jkb("hist", a->historical_bytes, a->historical_bytes ? a->historical_bytes_len : 0);
		fputs(",\"si\":[", out);
		if (a->status_indicator_bytes) jbytes(a->status_indicator_bytes, a->status_indicator_bytes_len);
		fputs("]", out);
		jki("LCS", a->status_indicator.LCS); jki("SW1", a->status_indicator.SW1); jki("SW2", a->status_indicator.SW2);
		jki("TCK", a->TCK);
		jki("Di", a->global.Di); jki("Fi", a->global.Fi); jki("f10", (long)(a->global.fmax * 10));
		jki("vppc", a->global.Vpp_connected); jki("coarse", a->global.Vpp_course);
		jki("vpp", a->global.Vpp); jki("ipp", a->global.Ipp);
		jki("N", a->global.N); jki("GT", a->global.GT); jki("p", a->global.protocol);
		if (a->global.specific_mode) {
			fprintf(out, ",\"spec\":[%u,%d,%d]", a->global.specific_mode_protocol, a->global.etu_is_implicit, a->global.specific_mode_may_change);
		} else fputs(",\"spec\":[]", out);
		jki("cls", a->global.card_classes); jki("clk", a->global.clock_stop); jki("spu", a->global.spu);
		jki("WI", a->protocol_T0.WI); jki("WT", a->protocol_T0.WT);
		jki("CGT", a->protocol_T1.CGT); jki("IFSI", a->protocol_T1.IFSI);
		jki("CWI", a->protocol_T1.CWI); jki("CWT", a->protocol_T1.CWT);
		jki("BWI", a->protocol_T1.BWI); jki("BWT", a->protocol_T1.BWT);
		jki("edc", a->protocol_T1.error_detection_code);
	}
	p_end();
	free(a);
	free(b.p);
}

static void p_atrs(void)
{
	size_t cap = num(1);
	struct buf b = hexbuf(tok[2]);
	struct iso7816_atr_info_t* a = malloc(sizeof(*a));
	p_begin(); jki("cap", cap); jkb("b", b.p, b.n); p_out();
	int r = iso7816_atr_parse(b.p, b.n, a);
	jki("r", sgn(r));
	if (r == 0) {
		static const char* (* const fn[])(const struct iso7816_atr_info_t*, size_t, char*, size_t) = {
			iso7816_atr_TAi_get_string, iso7816_atr_TBi_get_string, iso7816_atr_TCi_get_string, iso7816_atr_TDi_get_string,
		};
		const char* s;
		char* t = tbuf(cap);
		jkt("TS", iso7816_atr_TS_get_string(a));
		s = iso7816_atr_T0_get_string(a, t, cap);
		jkt("T0", s ? tget(s, cap) : NULL);
		free(t);
		for (int k = 0; k < 4; ++k) {
			fprintf(out, ",\"T%c\":[", 'A' + k);
			for (size_t i = 1; i < 5; ++i) {
				t = tbuf(cap);
				s = fn[k](a, i, t, cap);
				if (i > 1) fputc(',', out);
				jtext(s ? tget(s, cap) : "~");
				free(t);
			}
			fputc(']', out);
		}
		jkt("T1", iso7816_atr_T1_get_string(a));
	}
	p_end();
	free(a);
	free(b.p);
}

static void p_emvatr(void)
{
	struct buf b = hexbuf(tok[1]);
	p_begin(); jkb("b", b.p, b.n); p_out();
	jki("r", emv_atr_parse(b.p, b.n));
	p_end();
	free(b.p);
}

/* dbgmsg MASK LEVEL FUNC SRC LVL TYPE TEXT BUF ; dbgatr MASK LEVEL HEX */
static struct { int n, src, lvl, type; char* s; struct buf b; } logged;
static void log_keep(unsigned int ts, enum emv_debug_source_t src, enum emv_debug_level_t lvl,
	enum emv_debug_type_t type, const char* str, const void* buf, size_t buf_len)
{
	(void)ts;
	if (tok[0][3] == 'a') {
		if (type != EMV_DEBUG_TYPE_ATR) return;
		const struct iso7816_atr_info_t* a = buf;
		buf = buf_len == sizeof(*a) ? a->atr : NULL;
		buf_len = buf_len == sizeof(*a) ? a->atr_len : 0;
	}
	if (logged.n++) return;
	logged.src = src;
	logged.lvl = lvl;
	logged.type = type;
	logged.s = strdup(str);
	logged.b.p = malloc(buf_len);
	if (buf_len) memcpy(logged.b.p, buf, buf_len);
	logged.b.n = buf_len;
}
static void p_dbg(void)
{
	bool atr = tok[0][3] == 'a';
	memset(&logged, 0, sizeof(logged));
	p_begin(); jki("mask", num(1)); jki("level", num(2));
	if (atr) {
		struct buf b = hexbuf(tok[3]);
		jkb("b", b.p, b.n); p_out();
		emv_debug_init(num(1), num(2), &log_keep);
		emv_atr_parse(b.p, b.n);
		jki("n", logged.n);
		jkb("b", logged.b.p, logged.b.n);
		free(b.p);
	} else {
		struct buf t = hexbuf(tok[7]);
		struct buf b = hexbuf(tok[8]);
		char* s = malloc(t.n + 1);
		memcpy(s, t.p, t.n);
		s[t.n] = 0;
		jki("func", num(3)); jki("src", num(4)); jki("lvl", num(5)); jki("type", num(6));
		jkb("s", t.p, t.n); jkb("b", b.p, b.n); p_out();
		emv_debug_init(num(1), num(2), num(3) ? &log_keep : NULL);
		emv_debug_internal(num(4), num(5), num(6), "%s", b.p, b.n, s);
		jki("n", logged.n);
		if (logged.n) {
			jki("src", logged.src); jki("lvl", logged.lvl); jki("type", logged.type);
			jkb("s", logged.s, strlen(logged.s)); jkb("b", logged.b.p, logged.b.n);
		}
		free(t.p);
		free(b.p);
		free(s);
	}
	emv_debug_init(0, 0, NULL);
	p_end();
	free(logged.s);
	free(logged.b.p);
}

#define PURE2_TABLE { "dbgmsg", p_dbg }, { "dbgatr", p_dbg }, { "atr", p_atr }, { "atrs", p_atrs }, { "emvatr", p_emvatr },
