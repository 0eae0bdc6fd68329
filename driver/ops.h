/* Every public function of libtakum, once per type, as one table. */
#define UNARY(X, T) \
	X(T, sign) X(T, absolute) X(T, inversion) X(T, square_root) \
	X(T, exp) X(T, 2_raised) X(T, 10_raised) X(T, exp_minus_1) \
	X(T, 2_raised_minus_1) X(T, 10_raised_minus_1) \
	X(T, ln) X(T, lb) X(T, lg) X(T, ln_1_plus) X(T, lb_1_plus) X(T, lg_1_plus) \
	X(T, sin) X(T, cos) X(T, tan) X(T, sec) X(T, csc) X(T, cot) \
	X(T, sin_pi_times) X(T, cos_pi_times) X(T, tan_pi_times) \
	X(T, sec_pi_times) X(T, csc_pi_times) X(T, cot_pi_times) \
	X(T, arcsin) X(T, arccos) X(T, arctan) X(T, arcsec) X(T, arccsc) X(T, arccot) \
	X(T, arcsin_over_pi) X(T, arccos_over_pi) X(T, arctan_over_pi) \
	X(T, arcsec_over_pi) X(T, arccsc_over_pi) X(T, arccot_over_pi) \
	X(T, sinh) X(T, cosh) X(T, tanh) X(T, sech) X(T, csch) X(T, coth) \
	X(T, arsinh) X(T, arcosh) X(T, artanh) X(T, arsech) X(T, arcsch) X(T, arcoth)
#define BINARY(X, T) \
	X(T, addition) X(T, subtraction) X(T, multiplication) X(T, division) \
	X(T, power) X(T, hypotenuse) X(T, arctan2) X(T, arctan2_over_pi)
#define INTARG(X, T) X(T, integer_power) X(T, root)

/* X(type, family, width) */
#define TYPES(X) \
	X(takum8, 0, 8) X(takum16, 0, 16) X(takum32, 0, 32) X(takum64, 0, 64) \
	X(takum_linear8, 1, 8) X(takum_linear16, 1, 16) \
	X(takum_linear32, 1, 32) X(takum_linear64, 1, 64)

/* X(source, destination, family, width): every conversion between types */
#define CONV(X) \
	CONV_IN(X, takum, 0) CONV_IN(X, takum_linear, 1) \
	CONV_X(X, takum, takum_linear, 1) CONV_X(X, takum_linear, takum, 0)
#define CONV_IN(X, P, f) \
	X(P##16, P##8, f, 8) X(P##32, P##8, f, 8) X(P##64, P##8, f, 8) \
	X(P##8, P##16, f, 16) X(P##32, P##16, f, 16) X(P##64, P##16, f, 16) \
	X(P##8, P##32, f, 32) X(P##16, P##32, f, 32) X(P##64, P##32, f, 32) \
	X(P##8, P##64, f, 64) X(P##16, P##64, f, 64) X(P##32, P##64, f, 64)
#define CONV_X(X, S, P, f) \
	CONV_X1(X, S##8, P, f) CONV_X1(X, S##16, P, f) CONV_X1(X, S##32, P, f) CONV_X1(X, S##64, P, f)
#define CONV_X1(X, S, P, f) X(S, P##8, f, 8) X(S, P##16, f, 16) X(S, P##32, f, 32) X(S, P##64, f, 64)

/* Every named constant: X(macro prefix, name, family, width) */
#define CONSTANTS(X, P, f, n) \
	X(P, NAR, f, n) X(P, POSITIVE_MINIMUM, f, n) X(P, POSITIVE_MAXIMUM, f, n) X(P, ONE, f, n) X(P, 2_PI, f, n) \
	X(P, 2_PI_OVER_3, f, n) X(P, 2_PI_OVER_5, f, n) X(P, 3_PI, f, n) X(P, 3_PI_OVER_2, f, n) X(P, 3_PI_OVER_4, f, n) \
	X(P, 3_PI_OVER_5, f, n) X(P, 4_PI, f, n) X(P, 4_PI_OVER_3, f, n) X(P, 4_PI_OVER_5, f, n) X(P, 5_PI, f, n) \
	X(P, 5_PI_OVER_2, f, n) X(P, 5_PI_OVER_3, f, n) X(P, 5_PI_OVER_4, f, n) X(P, 5_PI_OVER_6, f, n) X(P, 6_PI, f, n) \
	X(P, 6_PI_OVER_5, f, n) X(P, GAMMA, f, n) X(P, LB_10, f, n) X(P, LB_E, f, n) X(P, LG_2, f, n) \
	X(P, LG_E, f, n) X(P, LN_10, f, n) X(P, LN_2, f, n) X(P, PHI, f, n) X(P, PI, f, n) \
	X(P, PI_OVER_2, f, n) X(P, PI_OVER_3, f, n) X(P, PI_OVER_4, f, n) X(P, PI_OVER_5, f, n) X(P, PI_OVER_6, f, n) \
	X(P, SQUARE_ROOT_2, f, n) X(P, SQUARE_ROOT_3, f, n) X(P, SQUARE_ROOT_5, f, n) X(P, SQUARE_ROOT_6, f, n)
#define ALL_CONSTANTS(X) \
	CONSTANTS(X, TAKUM8, 0, 8) CONSTANTS(X, TAKUM16, 0, 16) CONSTANTS(X, TAKUM32, 0, 32) CONSTANTS(X, TAKUM64, 0, 64) \
	CONSTANTS(X, TAKUM_LINEAR8, 1, 8) CONSTANTS(X, TAKUM_LINEAR16, 1, 16) \
	CONSTANTS(X, TAKUM_LINEAR32, 1, 32) CONSTANTS(X, TAKUM_LINEAR64, 1, 64)
