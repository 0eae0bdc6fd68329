/*
 * Runs client sessions: the pool calls of a session each in a fresh process,
 * then in a given order in one process, then in given orders by several
 * threads at once.
 *
 *   session IN OUT INDEX ROUNDS COLDS
 *
 * IN:    "pool steps threads" then pool calls "op fam n a b", then the orders
 * OUT:   "call phase thread op fam n a b r status"
 * INDEX: "first-row rows pool" per session
 * The threads repeat their order ROUNDS times; an observation equal to the
 * same thread's previous observation of that call is recorded once.
 * Phase 3 calls are made under the other rounding modes and with denormals
 * flushed, by a client that relies on finding its mode as it was; their
 * result is not looked at.
 * Phase 4 are calls the threads start with in a process that has made none,
 * all threads the same call or neighbouring ones of the pool; a result seen
 * before in that phase is recorded once.
 * status: 0 returned, 1 crashed, 2 hung, 3 floating-point control changed.
 */
#define _GNU_SOURCE
#include <fenv.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

#include "table.h"

enum { MAXPOOL = 64, MAXROWS = 40000, MAXT = 16 };
struct call { int op; W a, b; };
struct row { W r; short call, phase, thread, status; };
static struct call pool[MAXPOOL];
static int hangs, npool, steps, threads, rounds, colds, order[MAXROWS];
struct shm { volatile size_t n; struct row row[MAXROWS]; };
static struct shm *shm;
static pthread_barrier_t bar;

static unsigned control(void)
{
	unsigned short cw;
	__asm__ volatile("fnstcw %0" : "=m"(cw));
	return cw | ((_mm_getcsr() & 0xffc0u) << 16);
}
/* leave different rubbish on the stack before every call */
static __attribute__((noinline)) void scribble(unsigned x)
{
	volatile unsigned char b[4096];
	for (size_t i = 0; i < sizeof b; i += 1) b[i] = (unsigned char)(x * 2654435761u >> (8 * (i & 3)));
}
static W make(struct call *c, short *st)
{
	unsigned before = control();
	W r = ops[c->op].f(c->a, c->b);
	*st = control() == before ? 0 : 3;
	return r;
}
static void put(int c, int phase, int thread, W r, short st)
{
	size_t i = shm->n;
	if (i >= MAXROWS) return;
	shm->row[i] = (struct row){ r, (short)c, (short)phase, (short)thread, st };
	__sync_synchronize();
	shm->n = i + 1;
}
struct th { int id; size_t n; struct row row[2000]; pthread_t t; };
static void *worker(void *p)
{
	struct th *t = p;
	int *o = order + steps * (1 + t->id);
	static __thread W last[MAXPOOL];
	static __thread char seen[MAXPOOL];
	memset(seen, 0, sizeof seen);
	pthread_barrier_wait(&bar);
	for (int k = 0; k < rounds; k++)
		for (int i = 0; i < steps; i++) {
			int c = o[i];
			short st;
			W r = make(&pool[c - 1], &st);
			if (!st && seen[c] && last[c] == r) continue;
			seen[c] = 1;
			last[c] = r;
			if (t->n < 2000) t->row[t->n++] = (struct row){ r, (short)c, 2, (short)(t->id + 1), st };
		}
	return NULL;
}
static void alone(int c)
{
	short st;
	W r = make(&pool[c], &st);
	put(c + 1, 0, 0, r, st);
	static const int mode[] = { FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST };
	unsigned csr = _mm_getcsr();
	short any = 0;
	for (int i = 0; i < 4; i++) {
		fesetround(mode[i]);
		if (mode[i] == FE_TONEAREST) _mm_setcsr(csr | 0x8040u);
		(void)make(&pool[c], &st);
		if (st) any = st;
		_mm_setcsr(csr);
	}
	fesetround(FE_TONEAREST);
	put(c + 1, 3, 0, 0, any);
}
static void together(void)
{
	for (int i = 0; i < steps; i++) {
		int c = order[i];
		short st;
		scribble((unsigned)(i * 77 + c));
		W r = make(&pool[c - 1], &st);
		put(c, 1, 0, r, st);
	}
	struct th *t = calloc((size_t)threads, sizeof *t);
	pthread_barrier_init(&bar, NULL, (unsigned)threads);
	for (int i = 0; i < threads; i++) { t[i].id = i; pthread_create(&t[i].t, NULL, worker, &t[i]); }
	for (int i = 0; i < threads; i++) pthread_join(t[i].t, NULL);
	for (int i = 0; i < threads; i++)
		for (size_t k = 0; k < t[i].n; k++) {
			struct row *r = &t[i].row[k];
			put(r->call, r->phase, r->thread, r->r, r->status);
		}
}
/* the threads' first calls, released together */
static volatile int ready;
static int starters;
struct first { int call; short st; W r; pthread_t t; };
static void *starter(void *p)
{
	struct first *f = p;
	__sync_fetch_and_add(&ready, 1);
	for (long k = 0; ready < starters && k < 100000; k++) {}
	f->r = make(&pool[f->call], &f->st);
	return NULL;
}
static void cold(int attempt)
{
	starters = threads < 4 ? threads : 4;
	struct first f[MAXT];
	for (int i = 0; i < starters; i++) {
		f[i].call = attempt % 2 ? (attempt / 2 + i) % npool : attempt / 2 % npool;
		pthread_create(&f[i].t, NULL, starter, &f[i]);
	}
	for (int i = 0; i < starters; i++) pthread_join(f[i].t, NULL);
	for (int i = 0; i < starters; i++) {
		size_t k = 0;
		while (k < shm->n && !(shm->row[k].phase == 4 && shm->row[k].call == f[i].call + 1 && shm->row[k].r == f[i].r
		                       && shm->row[k].status == f[i].st)) k++;
		if (k == shm->n) put(f[i].call + 1, 4, i + 1, f[i].r, f[i].st);
	}
}
/* in a child; a crash or a hang becomes a row of call c */
static void run(void (*f)(int), int c, int phase, int limit)
{
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) { alarm((unsigned)limit); f(c); _exit(0); }
	int status = 0;
	waitpid(pid, &status, 0);
	hangs += WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM;
	if (WIFSIGNALED(status) || WEXITSTATUS(status))
		put(c % npool + 1, phase, 0, 0, WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? 2 : 1);
}
static void phase12(int c) { (void)c; together(); }
static W num(char **s)
{
	W v = 0;
	int neg = 0;
	while (**s == ' ') (*s)++;
	if (**s == '-') { neg = 1; (*s)++; }
	while (**s >= '0' && **s <= '9') v = v * 10 + (*(*s)++ - '0');
	return neg ? -v : v;
}

int main(int argc, char **argv)
{
	if (argc < 6) return 2;
	FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w"), *idx = fopen(argv[3], "w");
	rounds = atoi(argv[4]);
	colds = atoi(argv[5]);
	shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	char *line = NULL;
	size_t cap = 0, total = 0;
	while (hangs < 8 && getline(&line, &cap, in) > 0) {
		char *s = line;
		npool = (int)num(&s);
		steps = (int)num(&s);
		threads = (int)num(&s);
		if (npool > MAXPOOL - 1 || threads > MAXT) return 2;
		for (int i = 0; i < npool; i++) {
			while (*s == ' ') s++;
			char *e = strchr(s, ' ');
			size_t l = (size_t)(e - s);
			char *name = s;
			s = e;
			int fam = (int)num(&s), n = (int)num(&s);
			pool[i].op = findop(name, l, fam, n);
			if (pool[i].op < 0) { fprintf(stderr, "no such function: %.60s\n", name); return 2; }
			pool[i].a = num(&s);
			pool[i].b = num(&s);
		}
		for (int i = 0; i < steps * (1 + threads); i++) order[i] = (int)num(&s);
		shm->n = 0;
		for (int c = 0; c < npool && hangs < 8; c++) run(alone, c, 0, 5);
		if (hangs < 8) run(phase12, 0, 1, 60);
		for (int i = 0; i < colds && hangs < 8; i++) run(cold, i, 4, 5);
		fprintf(idx, "%zu %zu %d\n", total + 1, shm->n, npool);
		for (size_t i = 0; i < shm->n; i++) {
			struct row *r = &shm->row[i];
			struct call *c = &pool[r->call - 1];
			fprintf(out, "%d %d %d %s %d %d ", r->call, r->phase, r->thread, ops[c->op].name, ops[c->op].fam, ops[c->op].n);
			wr(out, c->a); fputc(' ', out);
			wr(out, c->b); fputc(' ', out);
			wr(out, r->r);
			fprintf(out, " %d\n", r->status);
		}
		total += shm->n;
	}
	fclose(out);
	fclose(idx);
	return 0;
}
