/*
 * How far a result lies from a binary128 estimate of the exact one, in units
 * in the last place of the type (in steps of its integer scale).  Only used
 * to choose calls worth validating (driver/explore.c): nothing is concluded
 * from it.
 */
#include <quadmath.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef __float128 Q;
typedef __int128 W;
#define PI_ M_PIq

static Q decode(int lin, int n, W t)
{
	if (t == 0) return 0;
	int neg = t < 0;
	uint64_t u = (uint64_t)(neg ? -t : t) << (64 - n);      /* S D RRR ... */
	int D = (int)(u >> 62 & 1), R = (int)(u >> 59 & 7), r = D ? R : 7 - R;
	uint64_t rest = u << 5;
	int C = r ? (int)(rest >> (64 - r)) : 0;
	int c = D ? (1 << r) - 1 + C : -(1 << (r + 1)) + 1 + C;
	Q m = scalbnq((Q)(r ? rest << r : rest), -64);
	Q v = lin ? scalbnq(1 + m, c) : expq((c + m) / 2);
	return neg ? -v : v;
}
/* the place of a positive number given by its characteristic and mantissa (log: l) on the integer scale */
static Q place(int n, int c, Q m)
{
	int D = c >= 0, r = 0, a = D ? c + 1 : -c;
	while (a >> (r + 1)) r++;
	int C = D ? c + 1 - (1 << r) : c + (1 << (r + 1)) - 1;
	Q t = (Q)((((D << 3) | (D ? r : 7 - r)) << r) | C) + m;
	return scalbnq(t, n - 5 - r);
}
static Q ordinal(int lin, int n, Q v)
{
	if (v == 0) return 0;
	Q x = fabsq(v), t, top = scalbnq(1, n - 1) - 1;
	if (isinfq(x)) t = top;
	else if (lin) {
		int e;
		Q m = frexpq(x, &e);
		e--;
		t = e > 254 ? top : e < -255 ? 1 : place(n, e, 2 * m - 1);
	} else {
		Q l = 2 * logq(x), f = floorq(l);
		t = f > 254 ? top : f < -255 ? 1 : place(n, (int)f, l - f);
	}
	if (t > top) t = top;
	if (t < 1) t = 1;
	return v < 0 ? -t : t;
}
static Q sinpi(Q x)
{
	x = fmodq(x, 2);
	Q y = x - rintq(2 * x) / 2;
	int k = ((int)rintq(2 * x) % 4 + 4) % 4;
	Q s = sinq(PI_ * y), c = cosq(PI_ * y);
	return k == 0 ? s : k == 1 ? c : k == 2 ? -s : -c;
}
static Q cospi(Q x) { return sinpi(fmodq(x, 2) + (Q)0.5); }
static Q acot(Q x) { return x == 0 ? PI_ / 2 : x > 0 ? atanq(1 / x) : atanq(1 / x) + PI_; }
static Q ipow(Q x, Q k) { return x < 0 ? (fmodq(k, 2) != 0 ? -powq(-x, k) : powq(-x, k)) : powq(x, k); }

#define LN10 M_LN10q
#define LN2 M_LN2q
static const struct { const char *name; int id; } ids[] = {
#define F(X) \
	X(absolute, fabsq(x)) X(inversion, 1 / x) X(square_root, sqrtq(x)) \
	X(exp, expq(x)) X(2_raised, expq(x * LN2)) X(10_raised, expq(x * LN10)) \
	X(exp_minus_1, expm1q(x)) X(2_raised_minus_1, expm1q(x * LN2)) X(10_raised_minus_1, expm1q(x * LN10)) \
	X(ln, logq(x)) X(lb, logq(x) / LN2) X(lg, logq(x) / LN10) \
	X(ln_1_plus, log1pq(x)) X(lb_1_plus, log1pq(x) / LN2) X(lg_1_plus, log1pq(x) / LN10) \
	X(sin, sinq(x)) X(cos, cosq(x)) X(tan, tanq(x)) X(sec, 1 / cosq(x)) X(csc, 1 / sinq(x)) X(cot, 1 / tanq(x)) \
	X(sin_pi_times, sinpi(x)) X(cos_pi_times, cospi(x)) X(tan_pi_times, sinpi(x) / cospi(x)) \
	X(sec_pi_times, 1 / cospi(x)) X(csc_pi_times, 1 / sinpi(x)) X(cot_pi_times, cospi(x) / sinpi(x)) \
	X(arcsin, asinq(x)) X(arccos, acosq(x)) X(arctan, atanq(x)) X(arcsec, acosq(1 / x)) X(arccsc, asinq(1 / x)) \
	X(arccot, acot(x)) X(arcsin_over_pi, asinq(x) / PI_) X(arccos_over_pi, acosq(x) / PI_) \
	X(arctan_over_pi, atanq(x) / PI_) X(arcsec_over_pi, acosq(1 / x) / PI_) X(arccsc_over_pi, asinq(1 / x) / PI_) \
	X(arccot_over_pi, acot(x) / PI_) \
	X(sinh, sinhq(x)) X(cosh, coshq(x)) X(tanh, tanhq(x)) X(sech, 1 / coshq(x)) X(csch, 1 / sinhq(x)) X(coth, 1 / tanhq(x)) \
	X(arsinh, asinhq(x)) X(arcosh, acoshq(x)) X(artanh, atanhq(x)) X(arsech, acoshq(1 / x)) X(arcsch, asinhq(1 / x)) \
	X(arcoth, atanhq(1 / x)) \
	X(addition, x + y) X(subtraction, x - y) X(multiplication, x * y) X(division, x / y) X(power, powq(x, y)) \
	X(hypotenuse, hypotq(x, y)) X(arctan2, atan2q(x, y)) X(arctan2_over_pi, atan2q(x, y) / PI_) \
	X(integer_power, ipow(x, y)) X(root, x < 0 ? -powq(-x, 1 / y) : powq(x, 1 / y))
#define ID(N, E) { #N, __COUNTER__ },
	F(ID)
};
enum { base = __COUNTER__ };

int reference(const char *name)
{
	for (unsigned i = 0; i < sizeof ids / sizeof *ids; i++)
		if (!strcmp(ids[i].name, name)) return ids[i].id;
	if (!strncmp(name, "from_", 5)) return 1000;
	if (!strncmp(name, "to_", 3)) return 2000;
	return -1;
}
static Q ieee(const char *name, W b)
{
	name += strcspn(name, "_") + 1;
	if (!strcmp(name, "float32")) { float f; uint32_t u = (uint32_t)b; memcpy(&f, &u, 4); return f; }
	if (!strcmp(name, "float64")) { double f; uint64_t u = (uint64_t)b; memcpy(&f, &u, 8); return f; }
	long double f = 0;
	memcpy(&f, &b, 10);
	return f;
}
static Q source(const char *name, W a)
{
	if (strstr(name, "float")) return ieee(name, a);
	int lin = !strncmp(name, "from_takum_linear", 17);
	return decode(lin, atoi(name + strcspn(name, "0123456789")), a);
}
static double ieeedev(const char *name, W r, Q x)
{
	Q y = ieee(name, r);
	int p = strstr(name, "32") ? 24 : strstr(name, "64") ? 53 : 64, e, lo = p == 24 ? -148 : p == 53 ? -1073 : -16444;
	if (isnanq(y)) return 1e30;
	if (isinfq(y)) { y = scalbnq(y > 0 ? 1 : -1, p == 24 ? 128 : p == 53 ? 1024 : 16384); }
	frexpq(x, &e);
	e -= p - 1;
	if (e < lo) e = lo;
	return (double)(fabsq(scalbnq(y - x, 1 - e)) / 2);
}
/* in units; negative when the estimate says NaR (-1: and so does the result, -2: it does not) */
double deviation(int id, const char *name, int lin, int n, W a, W b, W r)
{
	W nar = -((W)1 << (n - 1));
	Q v;
	if (id < 0) return 0;
	if (id >= 2000) {
		if (a == nar) return -1;
		return ieeedev(name, r, decode(lin, n, a));
	}
	if (id == 1000) {
		if (!strstr(name, "float") && a == -((W)1 << (atoi(name + strcspn(name, "0123456789")) - 1))) return r == nar ? -1 : -2;
		v = source(name, a);
	} else {
		if (a == nar) return r == nar ? -1 : -2;
		Q x = decode(lin, n, a), y = 0;
		if (ids[id].name[0] == 'i' && !strcmp(name, "integer_power")) y = (Q)(int64_t)b;
		else if (!strcmp(name, "root")) y = (Q)(int64_t)b;
		else if (b == nar) return r == nar ? -1 : -2;
		else y = decode(lin, n, b);
		(void)y;
		switch (id) {
#define CASE(N, E) case __COUNTER__ - base - 1: v = (E); break;
		F(CASE)
		default: return 0;
		}
	}
	if (isnanq(v) || isinfq(v)) return r == nar ? -1 : -2;
	if (r == nar) return 1e30;
	return (double)fabsq((Q)r - ordinal(lin, n, v));
}
