/* Evaluates calls of the library built from /repo: one "op fam n a b" per
 * line on standard input, one result per line on standard output. A call
 * that crashes or hangs is given 0: what called it did not survive either. */
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>

#include "table.h"

static W num(char **s)
{
	W v = 0;
	int neg = 0;
	while (**s == ' ') (*s)++;
	if (**s == '-') { neg = 1; (*s)++; }
	while (**s >= '0' && **s <= '9') v = v * 10 + (*(*s)++ - '0');
	return neg ? -v : v;
}
static sigjmp_buf jb;
static void sig(int s) { siglongjmp(jb, s); }
int main(void)
{
	for (int s = 0; s < 5; s++) signal((int[]){ SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGALRM }[s], sig);
	char line[256];
	while (fgets(line, sizeof line, stdin)) {
		char *e = strchr(line, ' ');
		size_t l = (size_t)(e - line);
		int f = (int)num(&e), n = (int)num(&e);
		int op = findop(line, l, f, n);
		if (op < 0) { fprintf(stderr, "no such function: %s", line); return 2; }
		W a = num(&e), b = num(&e);
		alarm(5);
		wr(stdout, sigsetjmp(jb, 1) ? 0 : ops[op].f(a, b));
		alarm(0);
		putchar('\n');
		fflush(stdout);
	}
	return 0;
}
