/* Shared plumbing of the conformance drivers: scenario parsing, exact-size buffers,
 * ndjson output, hang detection. */
#ifndef CORE_H
#define CORE_H
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>

/* Allocation accounting: the driver is linked with --wrap for the C allocation functions, so
 * the blocks which the library (and the driver) obtain and release are counted exactly; caches
 * inside shared libraries are not.  fail_in makes the n-th allocation from now fail. */
#ifdef __cplusplus
extern "C" {
#endif
void* __real_malloc(size_t n);
void* __real_calloc(size_t n, size_t m);
void* __real_realloc(void* p, size_t n);
void __real_free(void* p);
char* __real_strdup(const char* s);
#define NBLK (1u << 17)
static void* blk[NBLK];
static long nblk;
static long fail_in;
static int failed;
static long fail_arm; /* line F: the next operation that can run out of memory does, at its n-th allocation */
static void blk_add(void* p)
{
	if (!p) return;
	unsigned int h = (unsigned int)(((uintptr_t)p >> 4) * 2654435761u) % NBLK;
	while (blk[h] && blk[h] != (void*)1) h = (h + 1) % NBLK;
	blk[h] = p;
	++nblk;
}
static void blk_del(void* p)
{
	if (!p) return;
	unsigned int h = (unsigned int)(((uintptr_t)p >> 4) * 2654435761u) % NBLK;
	while (blk[h] && blk[h] != p) h = (h + 1) % NBLK;
	if (blk[h] == p) {
		blk[h] = blk[(h + 1) % NBLK] ? (void*)1 : NULL;
		--nblk;
	}
}
static bool fail_now(void)
{
	if (fail_in > 0 && --fail_in == 0) {
		failed = 1;
		return true;
	}
	return false;
}
void* __wrap_malloc(size_t n) { if (fail_now()) return NULL; void* p = __real_malloc(n); blk_add(p); return p; }
void* __wrap_calloc(size_t n, size_t m) { if (fail_now()) return NULL; void* p = __real_calloc(n, m); blk_add(p); return p; }
void* __wrap_realloc(void* o, size_t n) { if (fail_now()) return NULL; void* p = __real_realloc(o, n); if (p) { blk_del(o); blk_add(p); } return p; }
void __wrap_free(void* p) { blk_del(p); __real_free(p); }
char* __wrap_strdup(const char* s) { if (fail_now()) return NULL; char* p = __real_strdup(s); blk_add(p); return p; }
#ifdef __cplusplus
}
#endif

struct buf { uint8_t* p; size_t n; };

static FILE* out;
static unsigned int lineno;

static long live_bytes(void) { return nblk; }

/* Hex token to a heap buffer of exactly the right size: "-" is empty, "~" is NULL */
static struct buf hexbuf(const char* s)
{
	struct buf b = { NULL, 0 };
	if (!s || strcmp(s, "~") == 0) {
		return b;
	}
	if (strcmp(s, "-") == 0) {
		b.p = (uint8_t*)malloc(0);
		return b;
	}
	b.n = strlen(s) / 2;
	b.p = (uint8_t*)malloc(b.n);
	for (size_t i = 0; i < b.n; ++i) {
		unsigned int x = 0;
		sscanf(s + 2 * i, "%2x", &x);
		b.p[i] = x;
	}
	return b;
}

static void jbytes(const void* p, size_t n)
{
	const uint8_t* b = (const uint8_t*)p;
	fputc('[', out);
	for (size_t i = 0; i < n; ++i) {
		char t[8];
		int k = 0;
		uint8_t v = b[i];
		if (i) t[k++] = ',';
		if (v >= 100) t[k++] = '0' + v / 100;
		if (v >= 10) t[k++] = '0' + (v / 10) % 10;
		t[k++] = '0' + v % 10;
		fwrite(t, 1, k, out);
	}
	fputc(']', out);
}

static void jkb(const char* key, const void* p, size_t n)
{
	fprintf(out, ",\"%s\":", key);
	jbytes(p, n);
}

static void jks(const char* key, const char* s)
{
	jkb(key, s, strlen(s));
}

static void jki(const char* key, long v)
{
	fprintf(out, ",\"%s\":%ld", key, v);
}

static void jku32(const char* key, uint32_t v)
{
	fprintf(out, ",\"%s\":[%u,%u]", key, v >> 16, v & 0xFFFF);
}

/* A print-out as a list of lines; the number of a decoding error is only a sign */
static void jlines(const char* key, const char* s, size_t n)
{
	fprintf(out, ",\"%s\":[\"", key);
	for (size_t i = 0; i < n; ++i) {
		static const char err[] = "BER decoding error -";
		uint8_t c = s[i];
		if (n - i > sizeof(err) && memcmp(s + i, err, sizeof(err) - 1) == 0) {
			fputs(err, out);
			fputc('1', out);
			i += sizeof(err) - 2;
			while (i + 1 < n && s[i + 1] >= '0' && s[i + 1] <= '9') ++i;
			continue;
		}
		if (c == '\n') fputs("\",\"", out);
		else if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
		else if (c < 0x20 || c > 0x7E) fprintf(out, "\\u%04X", c);
		else fputc(c, out);
	}
	fputs("\"]", out);
}

static void on_alarm(int sig)
{
	static const char msg[] = "\n{\"e\":\"hang\"}\n";
	(void)sig;
	if (write(fileno(out), msg, sizeof(msg) - 1) < 0) {}
	_exit(77);
}

#define MAXTOK 1024
static char* tok[MAXTOK];
static int ntok;

static bool next_line(FILE* in)
{
	static char* line = NULL;
	static size_t cap = 0;
	ssize_t n;
	if (!line) { /* never reallocated, so that it does not disturb the leak accounting */
		cap = 1 << 20;
		line = (char*)malloc(cap);
	}
	do {
		n = getline(&line, &cap, in);
		if (n < 0) {
			return false;
		}
		++lineno;
		ntok = 0;
		for (char* t = strtok(line, " \t\r\n"); t && ntok < MAXTOK; t = strtok(NULL, " \t\r\n")) {
			tok[ntok++] = t;
		}
	} while (ntok == 0 || tok[0][0] == '#');
	return true;
}

static long num(int i) { return i < ntok ? strtol(tok[i], NULL, 0) : 0; }
#endif
