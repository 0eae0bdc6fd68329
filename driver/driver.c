/*
 * Conformance driver: replays calls generated from the specification on the
 * library built from /repo, and records what each returned.
 *
 *   driver IN OUT [mode]
 *
 * IN:  lines  "op family width a b"      (decimal integers)
 * OUT: lines  "op family width a b r status"
 * A line ".name call call ..." is a short history: its calls are made in this
 * order, and an operand "@k" is the result of the k-th call of the line.
 * IEEE operands and results are bit patterns (binary32, binary64, and the
 * 80 significant bits of the x87 extended format); status is 0 for a call
 * that returned, 1 for one that crashed, 2 for one that did not return.
 * Calls run in a child process, so a crash is an observation, not an end.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <fenv.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "table.h"

struct row { int op; short ra, rb; int name; W a, b; };   /* name: >= 0 starts a history, -1 single, -2 continues */
static char *names[256];
static int nnames;
static struct row *rows;
static size_t nrows;
static W *res;
static unsigned char *st;
static volatile size_t *done;

static short ref;
static W rd(const char **s)
{
	W v = 0;
	int neg = 0;
	ref = 0;
	while (**s == ' ') (*s)++;
	if (**s == '@') { (*s)++; ref = (short)strtol(*s, (char **)s, 10); return 0; }
	if (**s == '-') { neg = 1; (*s)++; }
	while (isdigit((unsigned char)**s)) v = v * 10 + (*(*s)++ - '0');
	return neg ? -v : v;
}
static void child(size_t from)
{
	size_t first = from;
	while (rows[first].name == -2) first--;
	for (size_t i = from; i < nrows; i++) {
		struct row *r = &rows[i];
		if (r->name != -2) first = i;
		if (r->ra) r->a = res[first + (size_t)r->ra - 1];
		if (r->rb) r->b = res[first + (size_t)r->rb - 1];
		res[i] = ops[r->op].f(r->a, r->b);
		*done = i + 1;
	}
	_exit(0);
}

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	FILE *in = fopen(argv[1], "r");
	if (!in) { perror(argv[1]); return 2; }
	char *line = NULL;
	size_t cap = 0, room = 0;
	ssize_t len;
	while ((len = getline(&line, &cap, in)) > 0) {
		const char *s = line;
		int name = -1;
		if (*s == '.') {
			const char *e = strchr(s, ' ');
			size_t l = (size_t)(e - s);
			for (name = nnames - 1; name >= 0; name--)
				if (strlen(names[name]) == l && !memcmp(names[name], s, l)) break;
			if (name < 0) {
				if (nnames == 256) return 2;
				names[name = nnames++] = strndup(s, l);
			}
			s = e + 1;
		}
		for (;;) {
			while (*s == ' ') s++;
			const char *e = strchr(s, ' ');
			if (*s == '\n' || !*s || !e) break;
			const char *p = e;
			int fam = (int)rd(&p), n = (int)rd(&p);
			struct row r;
			r.op = findop(s, (size_t)(e - s), fam, n);
			if (r.op < 0) { fprintf(stderr, "no such function: %s", s); return 2; }
			r.a = rd(&p); r.ra = ref;
			r.b = rd(&p); r.rb = ref;
			r.name = name;
			if (nrows == room) rows = realloc(rows, (room = room ? 2 * room : 4096) * sizeof *rows);
			rows[nrows++] = r;
			if (name == -1) break;
			name = -2;
			s = p;
		}
	}
	fclose(in);
	size_t sz = (nrows + 1) * (sizeof *res + 1) + 64;
	res = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	st = (unsigned char *)(res + nrows + 1);
	done = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	*done = 0;
	int faults = 0, hangs = 0;
	while (*done < nrows && faults < 2000 && hangs < 8) {
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) child(*done);
		size_t seen = *done;
		int idle = 0, status = 0, hung = 0;
		useconds_t nap = 200;
		while (waitpid(pid, &status, WNOHANG) == 0) {
			usleep(nap);
			if (nap < 20000) nap *= 2;
			if (*done != seen) { seen = *done; idle = 0; }
			else if (++idle > 250) { hung = 1; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
		}
		if (*done < nrows) {
			st[*done] = hung ? 2 : 1;
			res[*done] = 0;
			*done = *done + 1;
			faults++;
			hangs += hung;
		}
	}
	FILE *out = fopen(argv[2], "w");
	size_t first = 0;
	for (size_t i = 0; i < *done; i++) {
		struct row *w = &rows[i];
		struct op *o = &ops[w->op];
		if (w->name != -2) first = i;
		if (w->name >= 0) fprintf(out, "%s ", names[w->name]);
		if (w->ra) w->a = res[first + (size_t)w->ra - 1];
		if (w->rb) w->b = res[first + (size_t)w->rb - 1];
		fprintf(out, "%s %d %d ", o->name, o->fam, o->n);
		wr(out, w->a); fputc(' ', out);
		wr(out, w->b); fputc(' ', out);
		wr(out, res[i]);
		fprintf(out, " %d%c", st[i], w->name != -1 && i + 1 < nrows && rows[i + 1].name == -2 ? ' ' : '\n');
	}
	fclose(out);
	return 0;
}
