/*
 * Coverage-guided stimulus: starts from calls generated from the
 * specification, varies their operands, and keeps the calls that make the
 * library do something the others did not (a branch, a comparison that came
 * closer to equality, an entry of a table), or whose results lie further
 * from a binary128 estimate (driver/reference.c); and looks for neighbouring
 * operands between which the path taken changes.  It judges nothing: the
 * calls it writes are replayed and validated like all others.
 *
 *   explore IN OUT RUNS SEED PART PARTS     (functions whose number is PART modulo PARTS)
 *
 * The library is compiled with clang's -fsanitize-coverage=
 * inline-8bit-counters,trace-cmp,trace-loads.
 */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>

#include "table.h"

enum { NF = 1 << 20, MAXC = 4096, PERBRANCH = 24, MAXOUT = 400 };
static unsigned char *cnt0, *cnt1;
static unsigned char seenf[NF];
static int fresh, on;
static unsigned short hits[1 << 16];
extern char __executable_start, _end;
int reference(const char *);
double deviation(int, const char *, int, int, W, W, W);

void __sanitizer_cov_8bit_counters_init(char *a, char *b)
{
	/* one call per object file; the sections are adjacent */
	if (!cnt0 || (unsigned char *)a < cnt0) cnt0 = (unsigned char *)a;
	if ((unsigned char *)b > cnt1) cnt1 = (unsigned char *)b;
}
static void feature(uint64_t x)
{
	x *= 0x9E3779B97F4A7C15u;
	size_t i = x >> 44;
	if (!seenf[i]) { seenf[i] = 1; fresh++; }
}
static uint64_t dict[64];
static unsigned ndict;
static void cmp(uintptr_t pc, uint64_t a, uint64_t b, int bits)
{
	if (!on) return;
	uint64_t m = bits == 64 ? ~(uint64_t)0 : (((uint64_t)1 << bits) - 1);
	uint64_t x = (a ^ b) & m, d = (a - b) & m, e = (b - a) & m;
	if (e < d) d = e;
	feature(pc * 131 + (uint64_t)__builtin_popcountll(x));
	feature(pc * 137 + 1000 + (d ? 64 - (unsigned)__builtin_clzll(d) : 0));
	if (x) { dict[ndict++ % 64] = a; dict[ndict++ % 64] = b; }
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 16); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 32); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 64); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 16); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 32); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 64); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c)
{
	uintptr_t pc = PC;
	for (uint64_t i = 0; i < c[0]; i++) cmp(pc + i, v, c[2 + i], (int)c[1]);
}
static void load(uintptr_t pc, const void *p)
{
	const char *q = p;
	if (on && q >= &__executable_start && q < &_end) feature(pc * 139 + (uintptr_t)p);
}
void __sanitizer_cov_load1(uint8_t *p) { load(PC, p); }
void __sanitizer_cov_load2(uint16_t *p) { load(PC, p); }
void __sanitizer_cov_load4(uint32_t *p) { load(PC, p); }
void __sanitizer_cov_load8(uint64_t *p) { load(PC, p); }
void __sanitizer_cov_load16(W *p) { load(PC, p); }

static uint64_t rs;
static uint64_t rnd(void)
{
	rs += 0x9E3779B97F4A7C15u;
	uint64_t z = rs;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9u;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBu;
	return z ^ (z >> 31);
}

/* operand kinds: > 0 signed of so many bits, < 0 bit pattern of so many bits, 0 none */
static void kinds(const struct op *o, int *ka, int *kb)
{
	static const char *two[] = { "addition", "subtraction", "multiplication", "division", "power", "hypotenuse",
	                             "arctan2", "arctan2_over_pi", NULL };
	*ka = o->n;
	*kb = 0;
	if (!strcmp(o->name, "from_float32")) *ka = -32;
	else if (!strcmp(o->name, "from_float64")) *ka = -64;
	else if (!strcmp(o->name, "from_extended_float")) *ka = -80;
	else if (!strncmp(o->name, "from_", 5)) *ka = atoi(o->name + strcspn(o->name, "0123456789"));
	else if (!strcmp(o->name, "integer_power") || !strcmp(o->name, "root")) *kb = 64;
	else for (int i = 0; two[i]; i++) if (!strcmp(o->name, two[i])) *kb = o->n;
}
static W fit(W v, int k)
{
	if (!k) return 0;
	int n = k < 0 ? -k : k;
	unsigned __int128 m = ((unsigned __int128)1 << n) - 1, u = (unsigned __int128)v & m;
	if (k == -80) {   /* the explicit integer bit */
		unsigned __int128 j = (unsigned __int128)1 << 63;
		u = ((u >> 64) & 0x7fff) ? (u | j) : (u & ~j);
	}
	if (k > 0 && (u >> (n - 1))) return (W)(u | ~m);
	return (W)u;
}
static W mutate(W v, W other, int k)
{
	int n = k < 0 ? -k : k;
	for (unsigned r = 1 + rnd() % 3; r--;) {
		unsigned b = (unsigned)(rnd() % (unsigned)n), c = (unsigned)(rnd() % (unsigned)n);
		W x = ((W)rnd() << 64) | rnd(), lo = ((W)1 << b) - 1;
		switch (rnd() % 10) {
		case 0: v ^= (W)1 << b; break;
		case 1: v += (W)1 << b; break;
		case 2: v -= (W)1 << b; break;
		case 3: v = (v & ~lo) | (x & lo); break;
		case 4: v = (v & lo) | (x & ~lo); break;
		case 5: v = (v & ~lo) | (other & lo); break;
		case 6: v = b < c ? v ^ ((x << b) & (((W)1 << c) - 1)) : v + (W)(int)(x & 31) - 16; break;
		case 7: v = -v; break;
		case 8: {
			W d = (W)(int64_t)dict[rnd() % 64];
			v = rnd() & 1 ? d : (rnd() & 1 ? (v & lo) | (d << b) : d + (W)(rnd() % 5) - 2);
			break;
		}
		default: v = rnd() & 1 ? v | lo : v & ~lo; break;
		}
	}
	return v;
}
struct in { W a, b; };
static struct in corpus[MAXC];
static int ncorpus;
static FILE *out;
static struct op *cur;
static int ref, ka, kb;
static unsigned char far[64][32];    /* how many calls so far off were kept, by the leading bits of the operand */
static int steps(double d)
{
	static const double at[] = { 0.52, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.25, 1.5, 2, 3, 4, 8, 16, 256, 65536, 1e15 };
	int k = 0;
	while (k < 17 && d >= at[k]) k++;
	return k;
}
/* the kept ones are few where rounding explains them */
static int outlier(struct in x, W r)
{
	const double d = deviation(ref, cur->name, cur->fam, cur->n, x.a, x.b, r);
	int reg = (int)((unsigned __int128)x.a >> ((ka < 0 ? -ka : ka) - 6) & 63);
	int s = d == -2 ? 20 : steps(d), quota = s <= 0 ? 0 : s < 6 ? 1 : s < 9 ? 2 : 4;
	if (far[reg][s] >= quota) return 0;
	far[reg][s]++;
	if (s > 2 && getenv("EXPLORE_STATS")) {
		fprintf(stderr, "%s %d %d %g ", cur->name, cur->fam, cur->n, d);
		wr(stderr, x.a); fputc(' ', stderr); wr(stderr, x.b); fputc(' ', stderr); wr(stderr, r); fputc('\n', stderr);
	}
	return 1;
}
static volatile struct in now;
static sigjmp_buf jb;
static void sig(int s) { siglongjmp(jb, s); }
static void emit(struct in x)
{
	fprintf(out, "%s %d %d ", cur->name, cur->fam, cur->n);
	wr(out, x.a); fputc(' ', out); wr(out, x.b); fputc('\n', out);
}
/* makes one call; what is new about it: 2 a rarely taken branch, 1 something else, 0 nothing */
static int attempt(struct in x)
{
	size_t n = (size_t)(cnt1 - cnt0);
	int r = 0;
	memset(cnt0, 0, n);
	fresh = 0;
	now.a = x.a; now.b = x.b;
	on = 1;
	W res = cur->f(x.a, x.b);
	on = 0;
	for (size_t i = 0; i < n; i += 8) {
		uint64_t any;
		memcpy(&any, cnt0 + i, 8);   /* reads past the end by less than 8 */
		if (!any) continue;
		for (size_t j = i; j < i + 8 && j < n; j++)
			if (cnt0[j] && hits[j & 0xffff] < PERBRANCH) { hits[j & 0xffff]++; r = 2; }
	}
	if (ref >= 0 && outlier(x, res)) r = 2;
	return r ? r : fresh > 0;
}
static void trace(struct in x)
{
	memset(cnt0, 0, (size_t)(cnt1 - cnt0));
	now.a = x.a; now.b = x.b;
	(void)cur->f(x.a, x.b);
}
static int second;
static int ordered(const void *p, const void *q)
{
	W x = second ? ((const struct in *)p)->b : ((const struct in *)p)->a;
	W y = second ? ((const struct in *)q)->b : ((const struct in *)q)->a;
	return (x > y) - (x < y);
}
/* neighbouring operands between those of lo and hi where a branch starts or stops being taken, the other operand being lo's */
static void between(struct in lo, struct in hi, unsigned char *kept)
{
	static unsigned char was[1 << 16];
	size_t n = (size_t)(cnt1 - cnt0);
	if (n > sizeof was) return;
	if (second) hi.a = lo.a;
	else hi.b = lo.b;
	trace(lo);
	memcpy(was, cnt0, n);
	trace(hi);
	static int todo[64];
	int k = 0;
	for (size_t i = 0; i < n && k < 64; i++)
		if (!was[i] != !cnt0[i] && kept[i] < 3) { kept[i]++; todo[k++] = (int)i; }
	while (k--) {
		struct in x = lo, y = hi;
		W *l = second ? &x.b : &x.a, *h = second ? &y.b : &y.a;
		int at = !was[todo[k]];
		while (*h - *l > 1) {
			struct in m = x;
			W *q = second ? &m.b : &m.a;
			*q = fit(*l + (*h - *l) / 2, second ? kb : ka);
			if (*q <= *l || *q >= *h) break;
			trace(m);
			if (!cnt0[todo[k]] == at) *l = *q;
			else *h = *q;
		}
		emit(x);
		emit(y);
	}
}
static void boundaries(void)
{
	static struct in by[MAXC];
	for (second = 0; second < (kb ? 2 : 1); second++) {
		static unsigned char kept[1 << 16];
		memset(kept, 0, sizeof kept);
		memcpy(by, corpus, sizeof *by * (size_t)ncorpus);
		qsort(by, (size_t)ncorpus, sizeof *by, ordered);
		unsigned at = (unsigned)rnd();
		for (int i = 0; i < ncorpus; i++) {
			unsigned j = (at + (unsigned)i) % (unsigned)ncorpus;
			if (j + 1 < (unsigned)ncorpus && ordered(&by[j], &by[j + 1])) between(by[j], by[j + 1], kept);
		}
	}
}
struct line { int op; W a, b; };
static W num(char **s)
{
	W v = 0;
	int neg = 0;
	while (**s == ' ') (*s)++;
	if (**s == '-') { neg = 1; (*s)++; }
	while (**s >= '0' && **s <= '9') v = v * 10 + (*(*s)++ - '0');
	return neg ? -v : v;
}
int main(int argc, char **argv)
{
	if (argc < 7) return 2;
	FILE *f = fopen(argv[1], "r");
	out = fopen(argv[2], "w");
	long runs = atol(argv[3]);
	uint64_t seed = strtoull(argv[4], NULL, 10);
	int part = atoi(argv[5]), parts = atoi(argv[6]);
	char *text = NULL;
	size_t cap = 0, nl = 0, room = 0;
	struct line *l = NULL;
	while (getline(&text, &cap, f) > 0) {
		char *s = text, *e = strchr(s, ' ');
		if (*s == '.' || !e) continue;
		char *p = e;
		int fam = (int)num(&p), n = (int)num(&p), o = findop(s, (size_t)(e - s), fam, n);
		if (o < 0 || o % parts != part) continue;
		if (nl == room) l = realloc(l, (room = room ? 2 * room : 4096) * sizeof *l);
		l[nl].op = o;
		l[nl].a = num(&p);
		l[nl++].b = num(&p);
	}
	for (int s = 0; s < 5; s++) signal((int[]){ SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGALRM }[s], sig);
	volatile int slow = 0;
	size_t *by = malloc((nl + 1) * sizeof *by);
	for (size_t o = 0; o < NOPS; o++) {
		size_t m = 0;
		for (size_t i = 0; i < nl; i++) if (l[i].op == (int)o) by[m++] = i;
		if (!m || !strncmp(ops[o].name, "const_", 6)) continue;
		volatile int wrote = 0;
		cur = &ops[o];
		kinds(cur, &ka, &kb);
		ref = reference(cur->name);
		memset(far, 0, sizeof far);
		memset(seenf, 0, sizeof seenf);
		memset(hits, 0, sizeof hits);
		ncorpus = 0;
		rs = seed * 1000003 + o;
		int s = sigsetjmp(jb, 1);
		if (s == SIGALRM && ++slow > 1) break;
		if (s) { on = 0; emit((struct in){ now.a, now.b }); continue; }
		alarm(60);
		/* the generated calls are validated anyway: only learn from them */
		for (size_t i = 0; i < m; i++) {
			struct in x = { l[by[i]].a, l[by[i]].b };
			if (attempt(x) && ncorpus < MAXC / 2) corpus[ncorpus++] = x;
		}
		if (!ncorpus) corpus[ncorpus++] = (struct in){ l[by[0]].a, l[by[0]].b };
		for (long k = 0; k < runs; k++) {
			/* half of the time something found late */
			struct in x = corpus[rnd() & 1 ? rnd() % (unsigned)ncorpus
			                               : (unsigned)ncorpus - 1 - rnd() % (unsigned)(ncorpus < 32 ? ncorpus : 32)];
			struct line *y = &l[by[rnd() % m]];
			if (rnd() % 8 == 0) x = (struct in){ y->a, y->b };
			unsigned w = kb ? 1 + (unsigned)(rnd() % 3) : 1;
			if (w & 1) x.a = fit(mutate(x.a, rnd() & 1 && ka == kb ? x.b : y->a, ka), ka);
			if (w & 2) x.b = fit(mutate(x.b, rnd() & 1 && ka == kb ? x.a : y->b, kb), kb);
			int r = attempt(x);
			if (!r) continue;
			if (ncorpus < MAXC) corpus[ncorpus++] = x;
			else corpus[MAXC / 2 + (int)(rnd() % (MAXC / 2))] = x;
			if (wrote < MAXOUT || (r == 2 && wrote < 2 * MAXOUT)) { emit(x); wrote++; }
		}
		boundaries();
		alarm(0);
	}
	fclose(out);
	return 0;
}
