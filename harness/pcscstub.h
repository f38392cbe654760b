/* A resource manager which answers from a script and records every request. */
#ifndef PCSCSTUB_H
#define PCSCSTUB_H
#include "core.h"
#include <winscard.h>
#include <reader.h>

const SCARD_IO_REQUEST g_rgSCardT0Pci = { SCARD_PROTOCOL_T0, sizeof(SCARD_IO_REQUEST) };
const SCARD_IO_REQUEST g_rgSCardT1Pci = { SCARD_PROTOCOL_T1, sizeof(SCARD_IO_REQUEST) };
const SCARD_IO_REQUEST g_rgSCardRawPci = { SCARD_PROTOCOL_RAW, sizeof(SCARD_IO_REQUEST) };

/* Readers, and the answers in order */
#define MAXANS 4096
static struct ans { char rc; long prot; struct buf b; long st[16]; int nst; } ans[MAXANS];
static int nans, cur;
static struct buf list;
static SCARDHANDLE handle;

static char more;
static struct ans* next_answer(void)
{
	static struct ans none;
	memset(&none, 0, sizeof(none));
	none.rc = more;
	return cur < nans ? &ans[cur++] : &none;
}
static LONG result(const struct ans* a)
{
	return a->rc == 'o' ? SCARD_S_SUCCESS : a->rc == 't' ? SCARD_E_TIMEOUT : SCARD_E_NO_SMARTCARD;
}
/* Optional: what was printed before a request; the card which answers transmissions, -1 to fail */
static void (*x_said)(void);
static long (*x_card)(const uint8_t* tx, size_t n, uint8_t* rx);
static char more = 'f'; /* the answer to anything beyond the script */
static void x_begin(const char* fn)
{
	fprintf(out, "{\"e\":\"x\"");
	if (x_said) x_said();
	fprintf(out, ",\"q\":{\"fn\":\"%s\"", fn);
}
static void x_answer(LONG r)
{
	fprintf(out, "},\"o\":{\"rc\":\"%s\"", r == SCARD_S_SUCCESS ? "ok" : r == SCARD_E_TIMEOUT ? "timeout" : "fail");
}
static void x_end(void)
{
	fprintf(out, "}}\n");
	fflush(out);
}

const char* pcsc_stringify_error(const LONG e)
{
	(void)e;
	return "error";
}

LONG SCardEstablishContext(DWORD scope, LPCVOID a1, LPCVOID a2, LPSCARDCONTEXT ctx)
{
	struct ans* a = next_answer();
	LONG r = result(a);
	(void)a1; (void)a2;
	x_begin("est");
	jki("scope", scope);
	x_answer(r);
	if (r == SCARD_S_SUCCESS) {
		*ctx = 7;
		jki("ctx", 7);
	}
	x_end();
	return r;
}

LONG SCardReleaseContext(SCARDCONTEXT ctx)
{
	if (!ctx) { /* there is no such context, so nothing happens */
		return SCARD_E_INVALID_HANDLE;
	}
	LONG r = result(next_answer());
	x_begin("rel");
	jki("ctx", ctx);
	x_answer(r);
	x_end();
	return r;
}

LONG SCardListReaders(SCARDCONTEXT ctx, LPCSTR groups, LPSTR readers, LPDWORD n)
{
	LONG r = result(next_answer());
	(void)groups;
	x_begin("list");
	jki("ctx", ctx);
	fprintf(out, ",\"buf\":%s", readers ? "true" : "false");
	if (r == SCARD_S_SUCCESS && readers && *n < list.n) {
		r = SCARD_E_INSUFFICIENT_BUFFER;
	}
	x_answer(r);
	if (r == SCARD_S_SUCCESS) {
		*n = list.n;
		if (readers) {
			memcpy(readers, list.p, list.n);
			jkb("b", list.p, list.n);
		}
	}
	x_end();
	return r;
}

LONG SCardConnect(SCARDCONTEXT ctx, LPCSTR name, DWORD share, DWORD prots, LPSCARDHANDLE card, LPDWORD prot)
{
	struct ans* a = next_answer();
	LONG r = result(a);
	x_begin("conn");
	jki("ctx", ctx);
	jks("name", name);
	jki("share", share);
	jki("prots", prots);
	x_answer(r);
	if (r == SCARD_S_SUCCESS) {
		*card = handle;
		*prot = a->prot;
		jki("card", handle++);
		jki("prot", a->prot);
	}
	x_end();
	return r;
}

LONG SCardDisconnect(SCARDHANDLE card, DWORD how)
{
	if (!card) { /* nothing is open */
		return SCARD_E_INVALID_HANDLE;
	}
	LONG r = result(next_answer());
	x_begin("disc");
	jki("card", (int)card);
	jki("how", how);
	x_answer(r);
	x_end();
	return r;
}

LONG SCardControl(SCARDHANDLE card, DWORD code, LPCVOID tx, DWORD ntx, LPVOID rx, DWORD cap, LPDWORD n)
{
	struct ans* a = next_answer();
	LONG r = result(a);
	(void)tx; (void)ntx;
	x_begin("ctrl");
	jki("card", (int)card);
	jku32("code", code);
	if (r == SCARD_S_SUCCESS && cap < a->b.n) {
		r = SCARD_E_INSUFFICIENT_BUFFER;
	}
	x_answer(r);
	*n = 0;
	if (r == SCARD_S_SUCCESS) {
		memset(rx, 0xEE, cap); /* the whole buffer belongs to the resource manager */
		memcpy(rx, a->b.p, a->b.n);
		*n = a->b.n;
		jkb("b", a->b.p, a->b.n);
	}
	x_end();
	return r;
}

LONG SCardStatus(SCARDHANDLE card, LPSTR name, LPDWORD nname, LPDWORD state, LPDWORD prot, LPBYTE atr, LPDWORD n)
{
	struct ans* a = next_answer();
	LONG r = result(a);
	(void)name; (void)nname;
	x_begin("stat");
	jki("card", (int)card);
	if (r == SCARD_S_SUCCESS && *n < a->b.n) {
		r = SCARD_E_INSUFFICIENT_BUFFER;
	}
	x_answer(r);
	if (r == SCARD_S_SUCCESS) {
		memcpy(atr, a->b.p, a->b.n);
		if (state) *state = SCARD_PRESENT;
		*prot = a->prot;
		jki("prot", a->prot);
		jkb("b", a->b.p, a->b.n);
	}
	*n = r == SCARD_S_SUCCESS ? a->b.n : 0;
	x_end();
	return r;
}

LONG SCardGetStatusChange(SCARDCONTEXT ctx, DWORD timeout, SCARD_READERSTATE* rs, DWORD n)
{
	struct ans* a = next_answer();
	LONG r = result(a);
	x_begin("gsc");
	jki("ctx", ctx);
	jku32("timeout", timeout);
	fprintf(out, ",\"rs\":[");
	for (DWORD i = 0; i < n; ++i) {
		fprintf(out, "%s{\"s\":%ld", i ? "," : "", (long)rs[i].dwCurrentState);
		jks("n", rs[i].szReader);
		fputc('}', out);
	}
	fputc(']', out);
	x_answer(r);
	fprintf(out, ",\"st\":[");
	for (DWORD i = 0; i < n; ++i) {
		long st = (int)i < a->nst ? a->st[i] : SCARD_STATE_EMPTY;
		if (r != SCARD_S_SUCCESS) st = 0;
		else if (rs[i].dwCurrentState & SCARD_STATE_IGNORE) st = SCARD_STATE_IGNORE;
		rs[i].dwEventState = st;
		fprintf(out, "%s%ld", i ? "," : "", st);
	}
	fputc(']', out);
	x_end();
	return r;
}

LONG SCardTransmit(SCARDHANDLE card, const SCARD_IO_REQUEST* pci, LPCBYTE tx, DWORD ntx, SCARD_IO_REQUEST* rpci, LPBYTE rx, LPDWORD n)
{
	uint8_t got[1024];
	struct ans by_card = { 'o', 0, { got, 0 }, { 0 }, 0 };
	struct ans* a = &by_card;
	if (x_card && !(ntx == 5 && tx[0] == 0xFF)) {
		long k = x_card(tx, ntx, got);
		if (k < 0) a->rc = 'f';
		else a->b.n = k;
	} else {
		a = next_answer();
	}
	LONG r = result(a);
	(void)rpci;
	x_begin("tx");
	jki("card", (int)card);
	fprintf(out, ",\"pci\":\"%s\"", pci == SCARD_PCI_T0 ? "T0" : pci == SCARD_PCI_T1 ? "T1" : "other");
	jkb("tx", tx, ntx);
	jki("cap", *n);
	if (r == SCARD_S_SUCCESS && *n < a->b.n) {
		r = SCARD_E_INSUFFICIENT_BUFFER;
	}
	x_answer(r);
	*n = 0;
	if (r == SCARD_S_SUCCESS) {
		memcpy(rx, a->b.p, a->b.n);
		*n = a->b.n;
		jkb("b", a->b.p, a->b.n);
	}
	x_end();
	return r;
}

/* S: a new scenario; L HEX: readers; A RC PROT HEX|STATE,...: the next answer */
static bool stub_line(void)
{
	const char* op = tok[0];
	if (!strcmp(op, "S")) {
		for (int i = 0; i < nans; ++i) free(ans[i].b.p);
		free(list.p);
		nans = cur = 0;
		handle = 100;
		list = hexbuf("0000");
	} else if (!strcmp(op, "L")) {
		free(list.p);
		list = hexbuf(tok[1]);
	} else if (!strcmp(op, "A")) {
		if (nans < MAXANS) {
			struct ans* a = &ans[nans++];
			a->rc = tok[1][0];
			a->prot = num(2);
			a->nst = 0;
			a->b.p = NULL;
			a->b.n = 0;
			if (ntok > 3 && strchr(tok[3], ',')) {
				for (char* q = strtok(tok[3], ","); q && a->nst < 16; q = strtok(NULL, ",")) a->st[a->nst++] = atol(q);
			} else {
				a->b = hexbuf(ntok > 3 ? tok[3] : "-");
			}
		}
	} else {
		return false;
	}
	return true;
}
#endif
