/* What the tools print: print_helpers.c in this process, emv-decode in a child. */
#ifndef TOOLS_H
#define TOOLS_H
#include "print_helpers.h"
#include <fcntl.h>
#include <sys/stat.h>

int emv_decode_main(int argc, char** argv);

/* The registers are loaded once, here; emv-decode finds them loaded */
int __real_emv_strings_init(const char* isocodes, const char* mcc);
int __wrap_emv_strings_init(const char* isocodes, const char* mcc)
{
	if (!isocodes && !mcc) return 0;
	return __real_emv_strings_init(isocodes, mcc);
}

static void text_of(const char* t, char* s)
{
	struct buf b = hexbuf(t);
	memcpy(s, b.p, b.n);
	s[b.n] = 0;
	free(b.p);
}

/* pr KIND HEX [PAD DEPTH PREFIX(hex)]
 * pr dbg HEX TYPE SRC LVL TS VERBOSE STRING(hex) */
static void p_print(void)
{
	const char* k = tok[1];
	struct buf b = hexbuf(tok[2]);
	bool dbg = strcmp(k, "dbg") == 0;
	int pad = dbg ? num(7) : num(3);
	unsigned int depth = dbg ? 0 : num(4);
	char prefix[300] = "";
	char* got = NULL;
	size_t n = 0;
	FILE* was = stdout;
	struct emv_tlv_list_t list = EMV_TLV_LIST_INIT;

	if (ntok > (dbg ? 8 : 5)) text_of(tok[dbg ? 8 : 5], prefix);
	need_tables();
	p_begin();
	fprintf(out, ",\"k\":\"%s\"", k);
	jkb("b", b.p, b.n);
	jki("pad", pad);
	jki("d", depth);
	jkt("prefix", prefix);
	if (dbg) {
		jki("type", num(3));
		jki("src", num(4));
		jki("lvl", num(5));
		jku32("ts", strtoul(tok[6], NULL, 10));
	}
	p_out();

	stdout = open_memstream(&got, &n);
	if (strcmp(k, "ber") == 0) print_ber_buf(b.p, b.n, prefix, depth, pad);
	else if (strcmp(k, "emv") == 0) print_emv_buf(b.p, b.n, prefix, depth, pad);
	else if (strcmp(k, "tlv") == 0) {
		struct emv_tlv_t t;
		memset(&t, 0, sizeof(t));
		if (iso8825_ber_decode(b.p, b.n, &t.ber) > 0) print_emv_tlv(&t);
	} else if (strcmp(k, "list") == 0) {
		emv_tlv_parse(b.p, b.n, &list);
		print_emv_tlv_list(&list);
	} else if (strcmp(k, "dol") == 0) print_emv_dol(b.p, b.n, prefix, depth);
	else if (strcmp(k, "tags") == 0) print_emv_tag_list(b.p, b.n, prefix, depth);
	else if (strcmp(k, "atr") == 0) {
		struct iso7816_atr_info_t atr;
		memset(&atr, 0xA5, sizeof(atr));
		if (iso7816_atr_parse(b.p, b.n, &atr) == 0) print_atr(&atr);
	} else if (strcmp(k, "capdu") == 0) print_capdu(b.p, b.n);
	else if (strcmp(k, "rapdu") == 0) print_rapdu(b.p, b.n);
	else if (strcmp(k, "sw") == 0) print_sw1sw2(b.p[0], b.p[1]);
	else if (strcmp(k, "buf") == 0) print_buf(prefix[0] ? prefix : NULL, b.p, b.n);
	else if (strcmp(k, "strs") == 0) {
		char* s = malloc(b.n + 1);
		memcpy(s, b.p, b.n);
		s[b.n] = 0;
		print_str_list(s, "\n", prefix, depth, "- ", "\n");
		free(s);
	} else if (strcmp(k, "app") == 0) {
		struct emv_app_t* app = emv_app_create_from_fci(b.p, b.n);
		if (app) print_emv_app(app);
		emv_app_free(app);
	} else if (dbg) {
		struct iso7816_atr_info_t atr;
		const void* p = b.p;
		size_t len = b.n;
		bool ok = true;
		memset(&atr, 0xA5, sizeof(atr));
		if (num(3) == EMV_DEBUG_TYPE_ATR) {
			ok = iso7816_atr_parse(b.p, b.n, &atr) == 0;
			p = &atr;
			len = 0;
		}
		if (ok) (pad ? print_emv_debug_verbose : print_emv_debug)(strtoul(tok[6], NULL, 10), num(4), num(5), num(3), prefix, p, len);
	}
	fclose(stdout);
	stdout = was;
	jlines("out", got, n);
	p_end();
	free(got);
	free(b.p);
	emv_tlv_list_clear(&list);
}

static char* slurp(const char* path, size_t* n)
{
	int fd = open(path, O_RDONLY);
	struct stat st;
	fstat(fd, &st);
	char* s = malloc(st.st_size + 1);
	*n = 0;
	for (ssize_t r; (r = read(fd, s + *n, st.st_size - *n)) > 0;) *n += r;
	s[*n] = 0;
	close(fd);
	return s;
}

/* The child leaves the streams it shares with its parent alone */
static void leave(int st, void* x)
{
	(void)x;
	fflush(stdout);
	fflush(stderr);
	_exit(st);
}

/* cli TOKEN...: o:OPTION a:HEX(argument) i:HEX(standard input) iso:SET mcc:SET
 * p:N (standard input is a pipe filled N octets at a time; with N = 0 it cannot be read) */
static void p_cli(void)
{
	static char arg[MAXTOK][600];
	static char big[1 << 18];
	char* argv[MAXTOK + 4];
	int argc = 0;
	const char* iso = "";
	const char* mcc = "";
	struct buf in = { NULL, 0 };
	size_t used = 0, no = 0, ne = 0;
	long piece = -1;
	char fin[64], fout[64], ferr[64];

	argv[argc++] = "emv-decode";
	need_tables();
	p_begin();
	for (int pass = 0; pass < 2; ++pass) {
		int n = 0;
		fprintf(out, ",\"%s\":[", pass ? "args" : "opts");
		for (int i = 1; i < ntok; ++i) {
			if (tok[i][0] == 'o' && !pass) fprintf(out, "%s\"%s\"", n++ ? "," : "", tok[i] + 2);
			if (tok[i][0] == 'a' && pass) {
				struct buf b = hexbuf(tok[i] + 2);
				if (n++) fputc(',', out);
				jbytes(b.p, b.n);
				free(b.p);
			}
		}
		fputc(']', out);
	}
	for (int i = 1; i < ntok; ++i) {
		if (tok[i][0] == 'o') {
			snprintf(arg[i], sizeof(arg[i]), "--%s", tok[i] + 2);
			argv[argc++] = arg[i];
		} else if (tok[i][0] == 'a') {
			struct buf b = hexbuf(tok[i] + 2);
			argv[argc++] = big + used;
			memcpy(big + used, b.p, b.n);
			used += b.n;
			big[used++] = 0;
			free(b.p);
		} else if (strncmp(tok[i], "i:", 2) == 0) {
			in = hexbuf(tok[i] + 2);
		} else if (strncmp(tok[i], "p:", 2) == 0) {
			piece = atol(tok[i] + 2);
		} else if (strncmp(tok[i], "iso:", 4) == 0) {
			iso = tok[i] + 4;
			snprintf(arg[i], sizeof(arg[i]), "--isocodes-path=sets/%s", iso);
			argv[argc++] = arg[i];
		} else {
			mcc = tok[i] + 4;
			snprintf(arg[i], sizeof(arg[i]), "--mcc-json=sets/%s/mcc.json", mcc);
			argv[argc++] = arg[i];
		}
	}
	argv[argc] = NULL;
	jkb("in", in.p, in.n);
	fprintf(out, ",\"iso\":\"%s\",\"mcc\":\"%s\"", iso, mcc);
	p_out();
	fflush(out);

	snprintf(fin, sizeof(fin), "cli%d.in", getpid());
	snprintf(fout, sizeof(fout), "cli%d.out", getpid());
	snprintf(ferr, sizeof(ferr), "cli%d.err", getpid());
	FILE* f = fopen(fin, "w");
	fwrite(in.p, 1, in.n, f);
	fclose(f);
	int ends[2];
	pid_t feeder = -1;
	if (piece > 0) {
		if (pipe(ends)) exit(2);
		feeder = fork();
		if (feeder == 0) {
			signal(SIGPIPE, SIG_IGN);
			alarm(20);
			close(ends[0]);
			for (size_t k = 0; k < in.n; k += piece) {
				if (write(ends[1], in.p + k, in.n - k < (size_t)piece ? in.n - k : (size_t)piece) < 0) break;
				usleep(300);
			}
			_exit(0);
		}
		close(ends[1]);
	}
	pid_t pid = fork();
	if (pid == 0) {
		int flags = O_WRONLY | O_CREAT | O_TRUNC;
		dup2(piece > 0 ? ends[0] : open(piece ? fin : ".", O_RDONLY), 0);
		dup2(open(fout, flags, 0600), 1);
		dup2(open(ferr, flags, 0600), 2);
		alarm(20);
		signal(SIGALRM, SIG_DFL);
		if (iso[0]) {
			execv(EMV_DECODE, argv);
			_exit(99);
		}
		on_exit(leave, NULL);
		exit(emv_decode_main(argc, argv));
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (feeder > 0) {
		close(ends[0]);
		waitpid(feeder, NULL, 0);
	}
	char* so = slurp(fout, &no);
	char* se = slurp(ferr, &ne);
	if (!WIFEXITED(st) || WEXITSTATUS(st) == 76 || WEXITSTATUS(st) == 99) {
		fprintf(stderr, "%s\n", se);
		exit(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 77 : 76);
	}
	jki("st", WEXITSTATUS(st));
	jki("err", ne > 0);
	jlines("out", so, no);
	p_end();
	free(so);
	free(se);
	free(in.p);
}

#define TOOLS_TABLE { "pr", p_print }, { "cli", p_cli },
#endif
