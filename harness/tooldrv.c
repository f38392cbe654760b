/* Conformance driver of emv-tool: runs its main function in a child process, against a stub of
 * the resource manager with a card behind it, and records what it requests and prints. */
#define _GNU_SOURCE
#include "core.h"
#include "card.h"
#include "pcscstub.h"
#include "emv_debug.h"
#include "emv_strings.h"
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>

int emv_tool_main(int argc, char** argv);

#define MAXOPT 24
static struct { char name[64]; struct buf v; bool none; } opt[MAXOPT];
static int nopt;
static struct buf input;
static long now, zone, init_result; /* zone: seconds east of UTC where the terminal stands */
static struct { long at; struct reply rep; } fault[16];
static int nfault;

/* The registers are loaded once; the tool is told what the scenario says */
static bool running;
int __real_emv_strings_init(const char* isocodes, const char* mcc);
int __wrap_emv_strings_init(const char* isocodes, const char* mcc)
{
	if (!running) return __real_emv_strings_init(isocodes, mcc);
	fprintf(out, "{\"e\":\"strings\"");
	jks("iso", isocodes ? isocodes : "");
	jks("mcc", mcc ? mcc : "");
	fprintf(out, "}\n");
	fflush(out);
	return init_result;
}
time_t __real_time(time_t* t);
time_t __wrap_time(time_t* t)
{
	if (!running) return __real_time(t);
	if (t) *t = now;
	return now;
}
static void log_event(int verb, int src, int lvl, int type, const char* str, const void* buf, size_t n)
{
	fputs("{\"e\":\"d\"", out);
	jki("verb", verb);
	jki("src", src);
	jki("lvl", lvl);
	jki("type", str ? type : -1);
	jkb("b", buf, type >= EMV_DEBUG_TYPE_CAPDU ? n : 0);
	fputs("}\n", out);
}
void __wrap_print_emv_debug(unsigned int ts, enum emv_debug_source_t src, enum emv_debug_level_t lvl, enum emv_debug_type_t type, const char* str, const void* buf, size_t n)
{
	(void)ts;
	log_event(0, src, lvl, type, str, buf, n);
}
void __wrap_print_emv_debug_verbose(unsigned int ts, enum emv_debug_source_t src, enum emv_debug_level_t lvl, enum emv_debug_type_t type, const char* str, const void* buf, size_t n)
{
	(void)ts;
	log_event(1, src, lvl, type, str, buf, n);
}

/* What the tool prints, up to a limit */
static char said[1 << 22];
static size_t nsaid;
static ssize_t say(void* x, const char* s, size_t n)
{
	(void)x;
	if (nsaid + n > sizeof(said)) on_alarm(0);
	memcpy(said + nsaid, s, n);
	nsaid += n;
	return n;
}
static void said_so_far(void)
{
	fflush(stdout);
	jlines("out", said, nsaid);
	nsaid = 0;
}

static long ask_card(const uint8_t* tx, size_t n, uint8_t* rx)
{
	struct reply* p = NULL;
	long at = card.exchanges++;
	if (card.exchanges > card.budget) return -1;
	for (int i = 0; i < nfault; ++i) if (fault[i].at == at) p = &fault[i].rep;
	if (!p && card.iscript < card.nscript) p = &card.script[card.iscript++];
	if (!p) return rules_trx(tx, n, rx);
	if (p->rr) return -1;
	memcpy(rx, p->rx.p, p->rx.n);
	return p->rx.n;
}

static long base;
static int errfd;
static bool returned;
static void leave(int st, void* x)
{
	struct stat e;
	(void)x;
	fflush(stderr);
	fstat(errfd, &e);
	fprintf(out, "{\"e\":\"exit\",\"st\":%d,\"err\":%d", st, e.st_size > 0);
	jki("live", returned ? live_bytes() - base : -1);
	said_so_far();
	fprintf(out, "}\n");
	fflush(out);
	_exit(0);
}

static void run(void)
{
	static char text[MAXOPT][1400];
	char* argv[MAXOPT + 2];
	int argc = 0, st;
	char fin[64], ferr[64];

	argv[argc++] = "emv-tool";
	fprintf(out, "{\"e\":\"tool\",\"ln\":%u,\"opts\":[", lineno);
	for (int i = 0; i < nopt; ++i) {
		fprintf(out, "%s{\"n\":\"%s\",\"has\":%s", i ? "," : "", opt[i].name, opt[i].none ? "false" : "true");
		jkb("v", opt[i].v.p, opt[i].v.n);
		fputc('}', out);
		int k = opt[i].name[0] ? snprintf(text[i], 100, "--%s%s", opt[i].name, opt[i].none ? "" : "=") : 0;
		memcpy(text[i] + k, opt[i].v.p, opt[i].v.n);
		text[i][k + opt[i].v.n] = 0;
		argv[argc++] = text[i];
	}
	argv[argc] = NULL;
	fputc(']', out);
	jkb("in", input.p, input.n);
	jki("ts", now + zone);
	jki("init", init_result);
	fprintf(out, "}\n");
	fflush(out);

	snprintf(fin, sizeof(fin), "tool%d.in", getpid());
	snprintf(ferr, sizeof(ferr), "tool%d.err", getpid());
	FILE* f = fopen(fin, "w");
	fwrite(input.p, 1, input.n, f);
	fclose(f);
	pid_t pid = fork();
	if (pid == 0) {
		cookie_io_functions_t io = { NULL, say, NULL, NULL };
		dup2(open(fin, O_RDONLY), 0);
		errfd = dup2(open(ferr, O_RDWR | O_CREAT | O_TRUNC, 0600), 2);
		stdout = fopencookie(NULL, "w", io);
		x_said = said_so_far;
		x_card = ask_card;
		more = 'o';
		alarm(20);
		on_exit(leave, NULL);
		base = live_bytes();
		running = true;
		st = emv_tool_main(argc, argv);
		returned = true;
		exit(st);
	}
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) {
		char s[4096];
		int fd = open(ferr, O_RDONLY);
		for (ssize_t n; fd >= 0 && (n = read(fd, s, sizeof(s))) > 0;) if (write(2, s, n) < 0) break;
		_exit(WIFEXITED(st) && WEXITSTATUS(st) == 77 ? 77 : 76);
	}
	fseek(out, 0, SEEK_END);
}

static void line(void)
{
	const char* op = tok[0];
	if (stub_line()) {
		if (strcmp(op, "S")) return;
		for (int i = 0; i < nopt; ++i) free(opt[i].v.p);
		for (int i = 0; i < nfault; ++i) free(fault[i].rep.rx.p);
		free(input.p);
		nopt = nfault = 0;
		input = hexbuf("-");
		now = zone = init_result = 0;
		setenv("TZ", "UTC", 1);
		tzset();
		card_clear();
	} else if (!strcmp(op, "R")) {
		card.script[card.nscript].rr = num(1);
		card.script[card.nscript++].rx = hexbuf(tok[2]);
	} else if (!strcmp(op, "C")) {
		struct rule* x = &card.rules[card.nrules++];
		x->pfx = hexbuf(tok[1]);
		x->count = num(2);
		x->rapdu = hexbuf(tok[3]);
	} else if (!strcmp(op, "P")) {
		card.style = num(1);
		card.chunk = num(2);
	} else if (!strcmp(op, "X")) {
		fault[nfault].at = num(1);
		fault[nfault].rep.rr = num(2);
		fault[nfault++].rep.rx = hexbuf(tok[3]);
	} else if (!strcmp(op, "O")) {
		snprintf(opt[nopt].name, sizeof(opt[nopt].name), "%s", strcmp(tok[1], "=") ? tok[1] : "");
		opt[nopt].none = ntok < 3 || !strcmp(tok[2], "~");
		opt[nopt].v = hexbuf(opt[nopt].none ? "-" : tok[2]);
		++nopt;
	} else if (!strcmp(op, "I")) {
		free(input.p);
		input = hexbuf(tok[1]);
	} else if (!strcmp(op, "T")) {
		char tz[40];
		now = num(1);
		zone = ntok > 2 ? num(2) : 0;
		long west = labs(zone);
		snprintf(tz, sizeof(tz), "VPZ%c%ld:%02ld", zone > 0 ? '-' : '+', west / 3600, west / 60 % 60);
		setenv("TZ", zone ? tz : "UTC", 1);
		tzset();
	} else if (!strcmp(op, "Z")) {
		init_result = num(1);
	} else if (!strcmp(op, "run")) {
		run();
	} else {
		fprintf(stderr, "unknown operation %s\n", op);
		exit(2);
	}
}

int main(int argc, char** argv)
{
	FILE* in = argc == 3 ? fopen(argv[1], "r") : NULL;
	if (!in || !(out = fopen(argv[2], "w"))) {
		return 2;
	}
	signal(SIGALRM, on_alarm);
	list = hexbuf("0000");
	input = hexbuf("-");
	emv_strings_init(getenv("VP_ISOCODES"), getenv("VP_MCC"));
	while (next_line(in)) {
		alarm(30);
		line();
	}
	fprintf(out, "{\"e\":\"eof\"}\n");
	fclose(out);
	return 0;
}
