/* Conformance driver of the PC/SC layer.  Calls come from a scenario; the resource
 * manager is a stub. */
#include "core.h"
#include "pcsc.h"
#include "pcscstub.h"

static pcsc_ctx_t ctx;
static long base;

static void call(const char* op)
{
	fprintf(out, "{\"e\":\"call\",\"ln\":%u,\"op\":\"%s\"", lineno, op);
}
static void begun(void)
{
	fprintf(out, "}\n");
	fflush(out);
}
static int sgn(int r) { return r < 0 ? -1 : r > 0; }
static void returned(int r, const void* v, size_t n)
{
	fprintf(out, "{\"e\":\"ret\"");
	jki("r", r);
	jkb("v", v, n);
	begun();
}
static pcsc_reader_ctx_t reader(void)
{
	jki("idx", num(1));
	return pcsc_get_reader(ctx, num(1));
}

static void op_release(void)
{
	call("prel"); begun();
	pcsc_release(&ctx);
	returned(ctx ? -1 : 0, NULL, 0);
}

static void line(void)
{
	const char* op = tok[0];
	int r;
	if (stub_line()) {
		base = live_bytes();
		if (!strcmp(op, "S")) {
			fprintf(out, "{\"e\":\"init\",\"ln\":%u", lineno);
			begun();
		}
	} else if (!strcmp(op, "pinit")) {
		if (ctx) return;
		call(op); begun();
		r = pcsc_init(&ctx);
		returned(sgn(r), NULL, 0);
	} else if (!strcmp(op, "prel")) {
		op_release();
	} else if (!strcmp(op, "names")) {
		size_t n;
		call(op); begun();
		n = pcsc_get_reader_count(ctx);
		fprintf(out, "{\"e\":\"ret\"");
		jki("r", n + (pcsc_get_reader(ctx, n) ? 1000 : 0));
		fprintf(out, ",\"v\":[");
		for (size_t i = 0; i < n; ++i) {
			const char* s = pcsc_reader_get_name(pcsc_get_reader(ctx, i));
			if (i) fputc(',', out);
			jbytes(s, strlen(s));
		}
		fputc(']', out);
		begun();
	} else if (!strcmp(op, "has")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		jki("f", num(2)); begun();
		r = pcsc_reader_has_feature(x, num(2));
		returned(r, NULL, 0);
	} else if (!strcmp(op, "prop")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		size_t n = num(3);
		uint8_t* v = (uint8_t*)malloc(n);
		jki("f", num(2)); jki("cap", n); begun();
		r = pcsc_reader_get_property(x, num(2), v, &n);
		returned(sgn(r), v, r ? 0 : n);
		free(v);
	} else if (!strcmp(op, "state")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		unsigned int st = 0;
		begun();
		r = pcsc_reader_get_state(x, &st);
		fprintf(out, "{\"e\":\"ret\"");
		jki("r", sgn(r));
		fprintf(out, ",\"v\":[%u]", st);
		begun();
	} else if (!strcmp(op, "wait")) {
		size_t idx = num(1) < 0 ? PCSC_READER_ANY : (size_t)num(1);
		call(op);
		jki("idx", num(1)); jku32("timeout", num(2)); begun();
		r = pcsc_wait_for_card(ctx, num(2), &idx);
		fprintf(out, "{\"e\":\"ret\"");
		jki("r", sgn(r));
		fprintf(out, ",\"v\":[%d]", (int)idx);
		begun();
	} else if (!strcmp(op, "connect")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		begun();
		r = pcsc_reader_connect(x);
		returned(r < 0 ? -1 : r, NULL, 0);
	} else if (!strcmp(op, "disconnect")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		begun();
		r = pcsc_reader_disconnect(x);
		returned(sgn(r), NULL, 0);
	} else if (!strcmp(op, "atr")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		size_t n = PCSC_MAX_ATR_SIZE;
		uint8_t* v = (uint8_t*)malloc(n);
		begun();
		r = pcsc_reader_get_atr(x, v, &n);
		returned(sgn(r), v, r ? 0 : n);
		free(v);
	} else if (!strcmp(op, "trx")) {
		call(op);
		pcsc_reader_ctx_t x = reader();
		size_t n = num(2);
		uint8_t* v = (uint8_t*)malloc(n);
		struct buf tx = hexbuf(tok[3]);
		jki("cap", n); jkb("tx", tx.p, tx.n); begun();
		r = pcsc_reader_trx(x, tx.p, tx.n, v, &n);
		returned(sgn(r), v, r ? 0 : n);
		free(v);
		free(tx.p);
	} else if (!strcmp(op, "E")) {
		if (ctx) op_release();
		fprintf(out, "{\"e\":\"end\"");
		jki("live", live_bytes() - base);
		begun();
	} else {
		fprintf(stderr, "unknown operation %s\n", op);
		exit(2);
	}
}

int main(int argc, char** argv)
{
	FILE* in = argc == 3 ? fopen(argv[1], "r") : NULL;
	if (!in || !(out = fopen(argv[2], "w"))) {
		return 2;
	}
	signal(SIGALRM, on_alarm);
	list = hexbuf("0000");
	while (next_line(in)) {
		alarm(20);
		line();
	}
	fprintf(out, "{\"e\":\"eof\"}\n");
	fclose(out);
	return 0;
}
