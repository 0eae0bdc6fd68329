/* All functions as one table of W -> W calls (IEEE values as bit patterns). */
#include <fenv.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "takum.h"
#include "ops.h"

typedef __int128 W;

static uint32_t f2b(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static float b2f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint64_t d2b(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
static double b2d(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static W e2b(long double f)
{
	unsigned __int128 b = 0;
	memcpy(&b, &f, 10);
	return (W)b;
}
static long double b2e(W w)
{
	long double f = 0;
	memcpy(&f, &w, 10);
	return f;
}

#define U_(T, F) static W T##_##F##_w(W a, W b) { (void)b; return T##_##F((T)a); }
#define B_(T, F) static W T##_##F##_w(W a, W b) { return T##_##F((T)a, (T)b); }
#define I_(T, F) static W T##_##F##_w(W a, W b) { return T##_##F((T)a, (int64_t)b); }
#define ALL_(T, f, n) \
	UNARY(U_, T) BINARY(B_, T) INTARG(I_, T) U_(T, precision) \
	static W T##_tf32(W a, W b) { (void)b; return f2b(T##_to_float32((T)a)); } \
	static W T##_tf64(W a, W b) { (void)b; return d2b(T##_to_float64((T)a)); } \
	static W T##_tfx(W a, W b) { (void)b; return e2b(T##_to_extended_float((T)a)); } \
	static W T##_ff32(W a, W b) { (void)b; return T##_from_float32(b2f((uint32_t)a)); } \
	static W T##_ff64(W a, W b) { (void)b; return T##_from_float64(b2d((uint64_t)a)); } \
	static W T##_ffx(W a, W b) { (void)b; return T##_from_extended_float(b2e(a)); }
TYPES(ALL_)
#define C_(S, T, f, n) static W T##_from_##S##_w(W a, W b) { (void)b; return T##_from_##S((S)a); }
CONV(C_)
#define K_(P, N, f, n) static W P##_##N##_w(W a, W b) { (void)a; (void)b; return P##_##N; }
ALL_CONSTANTS(K_)


static struct op { const char *name; int fam, n; W (*f)(W, W); } ops[] = {
#define ROW_(T, f, n) \
	UNARY(U2_##T, T) BINARY(U2_##T, T) INTARG(U2_##T, T) \
	{ "precision", f, n, T##_precision_w }, \
	{ "to_float32", f, n, T##_tf32 }, { "to_float64", f, n, T##_tf64 }, \
	{ "to_extended_float", f, n, T##_tfx }, \
	{ "from_float32", f, n, T##_ff32 }, { "from_float64", f, n, T##_ff64 }, \
	{ "from_extended_float", f, n, T##_ffx },
#define U2_takum8(T, F) { #F, 0, 8, T##_##F##_w },
#define U2_takum16(T, F) { #F, 0, 16, T##_##F##_w },
#define U2_takum32(T, F) { #F, 0, 32, T##_##F##_w },
#define U2_takum64(T, F) { #F, 0, 64, T##_##F##_w },
#define U2_takum_linear8(T, F) { #F, 1, 8, T##_##F##_w },
#define U2_takum_linear16(T, F) { #F, 1, 16, T##_##F##_w },
#define U2_takum_linear32(T, F) { #F, 1, 32, T##_##F##_w },
#define U2_takum_linear64(T, F) { #F, 1, 64, T##_##F##_w },
	TYPES(ROW_)
#define C2(S, T, f, n) { "from_" #S, f, n, T##_from_##S##_w },
	CONV(C2)
#define K2(P, N, f, n) { "const_" #N, f, n, P##_##N##_w },
	ALL_CONSTANTS(K2)
};
#define NOPS (sizeof ops / sizeof *ops)

static int findop(const char *name, size_t len, int fam, int n)
{
	static int last;
	for (size_t k = 0; k < NOPS; k++) {
		int i = (int)((last + k) % NOPS);
		if (ops[i].fam == fam && ops[i].n == n && strlen(ops[i].name) == len &&
		    !memcmp(ops[i].name, name, len))
			return last = i;
	}
	return -1;
}
static void wr(FILE *o, W v)
{
	char b[48];
	int i = 47, neg = v < 0;
	unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
	b[i] = 0;
	do b[--i] = '0' + (int)(u % 10); while (u /= 10);
	if (neg) b[--i] = '-';
	fputs(b + i, o);
}
