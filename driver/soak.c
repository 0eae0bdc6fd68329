/*
 * A long client session over a large pool of calls.
 *
 *   soak IN OUT INDEX MIX BURST SEED
 *
 * IN:    calls "op fam n a b", those of one function next to each other
 * Every call is made as the only one of a fresh process (phase 0).  Then
 * (phase 5) processes with one thread and with four make calls of the whole
 * pool in random order, MIX of them each, and others make BURST calls in a
 * row of one function after the other.  Of each call the different
 * observations are kept, so OUT is the session's projection to single calls.
 * OUT, INDEX: as session.c, 16 calls a session.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

#include "table.h"

enum { MAXC = 200000, SEEN = 4, PROCS = 8 };
struct seen { W r; short phase, thread, status; };
struct call { int op; W a, b; volatile int n; struct seen s[SEEN]; };
static struct call *pool;
static volatile int *hangs;
static int npool;
static long mix, burst;
static unsigned long long seed;

static unsigned control(void)
{
	unsigned short cw;
	__asm__ volatile("fnstcw %0" : "=m"(cw));
	return cw | ((_mm_getcsr() & 0xffc0u) << 16);
}
static volatile int *current;       /* per process: the call being made */
static void seen(int c, short phase, short thread, W r, short st)
{
	struct call *p = &pool[c];
	for (int i = 0; i < p->n && i < SEEN; i++)
		if (p->s[i].r == r && p->s[i].status == st) return;
	int i = __sync_fetch_and_add(&p->n, 1);
	if (i < SEEN) p->s[i] = (struct seen){ r, phase, thread, st };
	else __sync_fetch_and_sub(&p->n, 1);
}
static inline void make(int c, short phase, short thread)
{
	unsigned before = control();
	W r = ops[pool[c].op].f(pool[c].a, pool[c].b);
	seen(c, phase, thread, r, control() == before ? 0 : 3);
}
static unsigned long long rnd(unsigned long long *x)
{
	*x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17;
	return *x * 0x2545f4914f6cdd1dull >> 16;
}
struct th { int id; unsigned long long x; pthread_t t; };
/* any call after any other, with returns to the last few */
static void *mixer(void *p)
{
	struct th *t = p;
	int last[8] = { 0 };
	for (long k = 0; k < mix; k++) {
		unsigned long long u = rnd(&t->x);
		int c = u % 8 == 0 ? last[u / 8 % 8] : (int)(u / 64 % (unsigned)npool);
		last[k % 8] = c;
		current[0] = c;
		make(c, 5, (short)t->id);
	}
	return NULL;
}
static void bursts(int part, int parts, short thread)
{
	unsigned long long x = seed * 77 + (unsigned)part + 1;
	for (int i = 0, f = 0; i < npool; f++) {
		int e = i;
		while (e < npool && pool[e].op == pool[i].op) e++;
		if (f % parts == part)
			for (long k = 0; k < burst; k++) {
				int c = i + (int)(rnd(&x) % (unsigned)(e - i));
				current[0] = c;
				make(c, 5, thread);
			}
		i = e;
	}
}
static void process(int k)
{
	if (k >= 4) { bursts(k - 4, PROCS - 4, 0); return; }
	struct th t[4];
	int n = k % 2 ? 4 : 1;
	for (int i = 0; i < n; i++) {
		t[i].id = n == 1 ? 0 : i + 1;
		t[i].x = seed * 1000003 + (unsigned)(k * 8 + i + 1);
		if (n == 1) mixer(&t[i]); else pthread_create(&t[i].t, NULL, mixer, &t[i]);
	}
	for (int i = 0; i < n && n > 1; i++) pthread_join(t[i].t, NULL);
}
static void ended(int status, int c, short phase)
{
	if (!WIFSIGNALED(status)) return;
	int hung = WTERMSIG(status) == SIGALRM;
	__sync_fetch_and_add(hangs, hung);
	seen(c, phase, 0, 0, hung ? 2 : 1);
}
static W num(char **s)
{
	W v = 0;
	int neg = 0;
	while (**s == ' ') (*s)++;
	if (**s == '-') { neg = 1; (*s)++; }
	while (**s >= '0' && **s <= '9') v = v * 10 + (*(*s)++ - '0');
	return neg ? -v : v;
}

int main(int argc, char **argv)
{
	if (argc < 7) return 2;
	FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w"), *idx = fopen(argv[3], "w");
	mix = atol(argv[4]);
	burst = atol(argv[5]);
	seed = strtoull(argv[6], NULL, 10) + 1;
	char *m = mmap(NULL, sizeof *pool * MAXC + 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	hangs = (int *)(m + 1024);
	volatile int *cur = (int *)(m + 2048);
	pool = (struct call *)(m + 65536);
	char *line = NULL;
	size_t cap = 0;
	while (getline(&line, &cap, in) > 0 && npool < MAXC) {
		char *e = strchr(line, ' '), *s = e;
		if (!e) continue;
		int fam = (int)num(&s), n = (int)num(&s);
		pool[npool].op = findop(line, (size_t)(e - line), fam, n);
		if (pool[npool].op < 0) { fprintf(stderr, "no such function: %s\n", line); return 2; }
		pool[npool].a = num(&s);
		pool[npool].b = num(&s);
		npool++;
	}
	pid_t pid[PROCS];
	for (int k = 0; k < PROCS; k++)
		if (!(pid[k] = fork())) {
			for (int c = k; c < npool && *hangs < 8; c += PROCS) {
				pid_t p = fork();
				if (!p) { alarm(5); make(c, 0, 0); _exit(0); }
				int st = 0;
				waitpid(p, &st, 0);
				ended(st, c, 0);
			}
			_exit(0);
		}
	for (int k = 0; k < PROCS; k++) waitpid(pid[k], NULL, 0);
	for (int k = 0; k < PROCS && *hangs < 8; k++)
		if (!(pid[k] = fork())) { current = cur + 64 * k; alarm(600); process(k); _exit(0); }
		else if (k == PROCS - 1)
			for (int j = 0; j < PROCS; j++) {
				int st = 0;
				waitpid(pid[j], &st, 0);
				ended(st, cur[64 * j], 5);
			}
	size_t rows = 0, first = 1;
	int size = 0;
	for (int c = 0; c < npool; c++) {
		struct call *p = &pool[c];
		size++;
		for (int i = 0; i < p->n && i < SEEN; i++, rows++) {
			fprintf(out, "%d %d %d %s %d %d ", size, p->s[i].phase, p->s[i].thread, ops[p->op].name, ops[p->op].fam, ops[p->op].n);
			wr(out, p->a); fputc(' ', out);
			wr(out, p->b); fputc(' ', out);
			wr(out, p->s[i].r);
			fprintf(out, " %d\n", p->s[i].status);
		}
		if (size == 16 || c == npool - 1) {
			fprintf(idx, "%zu %zu %d\n", first, rows + 1 - first, size);
			first = rows + 1;
			size = 0;
		}
	}
	fclose(out);
	fclose(idx);
	return 0;
}
