prop('A01', 'Real Li2, Li3, Li4 are accurate for every double',
     'For every finite double x the real dilogarithm, trilogarithm and tetralogarithm of the C, C++ and Fortran interfaces '
     'return Re Li_n(x) with an error of at most 1e-13*(|Li_n(x)| + |Li_(n-1)(x)|), i.e. they are backward stable up to 1e-13. '
     'The bound holds uniformly, including next to x = -1, 0, 1/2, 1, 2 and for the smallest and largest exponents.',
     ['inputs'], 'every double with 1e-304 <= |x| <= 8e307 (and x > 0 as well as x < 0)',
     'The tests compare about a hundred tabulated points per function; nothing bounds the error between them, at the edges of the approximation intervals, or near the ends of the exponent range.',
     C('Li2.c', 'Li3.c', 'Li4.c') + P('Li2.cpp', 'Li3.cpp', 'Li4.cpp') + F('Li2.f90', 'Li3.f90', 'Li4.f90'),
     [('rational approximations on sub-intervals', 'li2/li3/li4, Li2/Li3/Li4, dli2/dli3/dli4'), ('inversion and reflection identities', 'same functions')],
     ABS, ACCNOTE + 'Domain covered completely by cells.')
prop('A02', 'Single precision Li2 is accurate, real and complex',
     'For every finite float argument the single precision dilogarithm of the C and C++ interfaces differs from Li_2 by at most '
     '1e-5*(|Li_2|+|Li_1|) for real and 2e-5*max(1,|Li_2|+|Li_1|) for complex arguments.',
     ['inputs'], 'every real float with 1e-37 <= |x| <= 1e38; every complex float argument with modulus in that range and normal or zero imaginary part',
     'The tests sample the same table of points as for double precision and cannot see a loss of accuracy between them.',
     C('Li2.c') + P('Li2.cpp'), [('single precision rational approximation / Bernoulli series', 'li2f, cli2f, Li2(float), Li2(complex<float>)')],
     ABS, ACCNOTE)
prop('A03', 'Double precision Clausen functions Cl1..Cl6 are accurate on [0, 2pi]',
     'For every double x strictly between 0 and 2 pi the standard Clausen functions of order 1 to 6 return the sum of '
     'sin(kx)/k^n (even n) or cos(kx)/k^n (odd n) with an error of at most 5e-14*(|Cl_n(x)| + d*|Cl_(n-1)(x)|) + 1e-18*|Cl_(n-1)(x)|, '
     'where d is the distance of x from the nearer one of 0 and 2 pi, in C, C++ and Fortran.',
     ['inputs'], 'every double x in [1e-100, 2 pi)',
     'Tests check tabulated points only; the interval edges and the neighbourhoods of 0, pi and 2 pi are sampled at a handful of values.',
     C('Cl2.c', 'Cl3.c', 'Cl4.c', 'Cl5.c', 'Cl6.c') + P('Cl1.cpp', 'Cl2.cpp', 'Cl3.cpp', 'Cl4.cpp', 'Cl5.cpp', 'Cl6.cpp') + F('Cl2.f90', 'Cl3.f90', 'Cl4.f90', 'Cl5.f90', 'Cl6.f90'),
     [('rational approximations on [0,pi/2] and [pi/2,pi]', 'cl2..cl6'), ('reflection with a split 2 pi', 'cl2..cl6')],
     ABS, ACCNOTE)
prop('A04', 'Long double Clausen functions and real Li2 keep extended accuracy',
     'The long double Clausen functions of order 2 to 6 on (0, 2 pi) and the long double real dilogarithm reach extended precision: '
     'the error is at most 3e-17, 1e-16, 1e-16, 5e-16, 5e-15 (order 2 to 6) times (|Cl_n|+d|Cl_(n-1)|) plus 1e-21|Cl_(n-1)|, with d the distance from the nearer one of 0 and 2 pi, and 1e-16 times (|Li_2|+|Li_1|).',
     ['inputs'], 'every 80-bit long double in (1e-100, 2 pi), respectively with 1e-4777 <= |x| <= 1e4931',
     'Tests sample tabulated points, most of them with double precision reference values.',
     C('Cl2.c', 'Cl3.c', 'Cl4.c', 'Cl5.c', 'Cl6.c', 'Li2.c') + P('Cl2.cpp', 'Cl3.cpp', 'Cl4.cpp', 'Cl5.cpp', 'Cl6.cpp', 'Li2.cpp'),
     [('Chebyshev-type series with precision dependent length', 'cl2l..cl6l, li2l')], ABS, ACCNOTE)
prop('A05', 'Complex Li2..Li6 in double precision are accurate in the whole plane',
     'For every complex double z the functions Li_2 to Li_6 of the C, C++ and Fortran interfaces return the principal value with an '
     'error of at most 1e-13*max(1,|Li_n(z)|+|Li_(n-1)(z)|). Real z > 1 take the value continuous from below, whatever the sign of the zero imaginary part.',
     ['inputs'], 'every z with modulus between 1e-304 and 1e307 whose imaginary part is zero (either sign) or a normal number, outside |log z| < 1e-10',
     'Tests use a few hundred points; branch choices, convergence regions and cancellation cannot be settled by points.',
     C('Li2.c', 'Li3.c', 'Li4.c', 'Li5.c', 'Li6.c', 'log.c') + P('Li2.cpp', 'Li3.cpp', 'Li4.cpp', 'Li5.cpp', 'Li6.cpp', 'log.hpp', 'horner.hpp') + F('Li2.f90', 'Li3.f90', 'Li4.f90', 'Li5.f90', 'Li6.f90', 'log.f90'),
     [('expansion in log z near z=1', 'cli3..cli6'), ('inversion formula outside the unit disc', 'cli2..cli6'), ('Bernoulli series in -log(1-z)', 'cli2..cli6')],
     ABS, ACCNOTE + 'Subnormal non-zero imaginary parts are outside the domain.')
prop('A06', 'Long double complex Li2..Li6 of the C interface are accurate in the whole plane',
     'For every complex long double z the C functions for Li_2 to Li_6 return the principal value with an error of at most '
     '3e-16*max(1,|Li_n(z)|+|Li_(n-1)(z)|).',
     ['inputs'], 'every z with modulus between 1e-4929 and 1e4929 whose imaginary part is zero (either sign) or a normal number, outside |log z| < 1e-10',
     'Tests use a few hundred points with tolerances far above the extended precision.',
     C('Li2.c', 'Li3.c', 'Li4.c', 'Li5.c', 'Li6.c', 'log.c'), [('long double series', 'cli2l..cli6l')], ABS, ACCNOTE)
prop('A07', 'Long double complex Li2..Li6 of the C++ interface are accurate in the whole plane',
     'For every complex long double z the C++ overloads of Li2 to Li6 return the principal value with an error of at most '
     '3e-16*max(1,|Li_n(z)|+|Li_(n-1)(z)|).',
     ['inputs'], 'every z with modulus between 1e-4929 and 1e4929 whose imaginary part is zero (either sign) or a normal number, outside |log z| < 1e-10',
     'Tests use a few hundred points with tolerances far above the extended precision.',
     P('Li2.cpp', 'Li3.cpp', 'Li4.cpp', 'Li5.cpp', 'Li6.cpp', 'log.hpp', 'horner.hpp'), [('long double series', 'Li2..Li6(complex<long double>)')], ABS, ACCNOTE)
prop('A08', 'The polylogarithm of arbitrary integer order is accurate',
     'For complex<double> z (zero or normal imaginary part) Li(n,z) differs from the n-th polylogarithm by at most 1e-12*max(|Li_n(z)| + |Li_(n-1)(z)|, f), f = 0 for n >= 7 and n = 0..6: f = 1. '
     'Orders n = 7..40, 101: every z (|log z| > 1e-3; n = 101 and the real axis included); n = 1000 and eight orders between 2^15 and 2^62: |z| < 24; every n from 200 to 2^63-200: |z| < 0.7; n = 0..6: every z; n = -1: |z| < 1e147; '
     'n = -2..-8: z on the real axis between e^-6 and e^3 in modulus, or small |z|, or moderate |z| off the unit circle (there 3e-11 for n <= -5, 1e-9 for n = -8), always with f = 1 for negative n.',
     ['inputs'], 'the orders and regions listed in the statement, both half planes, the real axis with both signs of the imaginary zero',
     'Tests compare a handful of orders at a few hundred moderate arguments; the order selects series, inversion, the expansion at z = 1 and tables of zeta/eta values.',
     P('Li.cpp', 'zeta.cpp', 'eta.cpp', 'harmonic.cpp', 'factorial.cpp'), [('series, inversion remainder, expansions at unity, square-root recursion', 'Li.cpp'), ('zeta and eta tables', 'zeta.cpp, eta.cpp')],
     ABS, ACCNOTE + 'Series are followed over all possible exits; after eight successive decreasing summands below 2^-64 of the sum the remainder is taken as negligible.')
prop('A09', 'Clausen and Glaisher functions of every order are accurate on (0, 2pi)',
     'For every order n >= 1 and every double x strictly between 0 and 2 pi, Cl(n,x) returns the sum of sin(kx)/k^n (even n) or cos(kx)/k^n (odd n) and Sl(n,x) the sum with '
     'sine and cosine exchanged, with an error of at most 5e-14 (Cl of order 7 and above: 2e-13) times (|f_n(x)| + d*|f_(n-1)(x)|) plus 1e-18*|f_(n-1)(x)|, where d is the distance of x from '
     'the nearer one of 0 and 2 pi.', ['inputs'], 'every order from 1 to 2^63-200 and every double x in [1e-100, 2 pi)',
     'Tests cover a few small orders on a grid; the order selects among closed forms, tables and series with different lengths.',
     P('Cl.cpp', 'Sl.cpp', 'Cl1.cpp', 'Cl2.cpp', 'Cl3.cpp', 'Cl4.cpp', 'Cl5.cpp', 'Cl6.cpp'), [('closed form for orders 7 to 9 with pcal/ncal/nsum', 'Cl.cpp'), ('naive series for large orders', 'Cl.cpp, Sl.cpp'), ('Bernoulli polynomials', 'Sl.cpp')],
     ABS, ACCNOTE + 'The orders above 60 are one symbolic class per residue modulo 4.')
CLS = 'static analysis: abstract interpretation of GIMPLE in an interval / IEEE-class domain with symbolic orders'
CLSNOTE = ('Every obligation covers a class or range of arguments on every feasible path; alarms only for path results that definitely '
           'contradict the requirement, the rest is listed as undecided (none on the current tree).')
ALLLI = C('Li2.c', 'Li3.c', 'Li4.c', 'Li5.c', 'Li6.c') + P('Li2.cpp', 'Li3.cpp', 'Li4.cpp', 'Li5.cpp', 'Li6.cpp', 'Li.cpp') + F('Li2.f90', 'Li3.f90', 'Li4.f90', 'Li5.f90', 'Li6.f90')
ALLCL = C('Cl2.c', 'Cl3.c', 'Cl4.c', 'Cl5.c', 'Cl6.c') + P('Cl1.cpp', 'Cl2.cpp', 'Cl3.cpp', 'Cl4.cpp', 'Cl5.cpp', 'Cl6.cpp', 'Cl.cpp', 'Sl.cpp') + F('Cl2.f90', 'Cl3.f90', 'Cl4.f90', 'Cl5.f90', 'Cl6.f90')
prop('A10', 'zeta, eta, inverse factorials and harmonic numbers are right for every 64-bit order',
     'The auxiliary functions on which Li(n,z) and Cl(n,x) rest return, for every 64-bit integer n, the correctly scaled value: '
     'zeta(n) (infinity at n = 1), neg_eta(n) = -eta(n) and inv_fac(n) = 1/n! (NaN for n < 0) within 4e-16 relative, '
     'harmonic(n) (NaN for n < 1) within 2e-15 relative; values beyond the double range become infinities of the right sign and '
     'the trivial zeros are 0.', ['inputs'], 'all 64-bit integers n (zeta, neg_eta down to -2^63)',
     'The functions are internal; the tests check a short list of orders only and cannot enumerate the 64-bit range.',
     P('zeta.cpp', 'eta.cpp', 'factorial.cpp', 'harmonic.cpp'), [('table look-up and asymptotic value', 'zeta, neg_eta, inv_fac'), ('sum and digamma expansion', 'harmonic')],
     CLS, 'Orders -320..320 individually against committed reference values, the rest as symbolic ranges by residue class. ' + CLSNOTE)
prop('S01', 'Exceptional arguments give the documented exceptional results',
     'A NaN argument gives NaN (for complex C and C++ functions a NaN in either component gives NaN in both components, the other one being finite); '
     'the real Li_2, Li_3, Li_4 are -infinity at +infinity and -infinity; every Clausen and Glaisher function is NaN at +-infinity; '
     'Cl(n,x) and Sl(n,x) are NaN for every n < 1; Li(n,z) is -infinity with zero imaginary part for every order n when a component of z is infinite '
     'and the other is not NaN, and (NaN, NaN) when a component is NaN, for every order.',
     ['inputs'], 'all functions, languages and precisions; every 64-bit order apart from the ones within 1000 of the ends of the range (Li) ',
     'Tests contain a few NaN and infinity cases for some functions and small orders; they cannot cover all orders, classes and overloads.',
     ALLLI + ALLCL, [('NaN propagation and guards', 'entry of all functions'), ('explicit guards for NaN, infinities and orders', 'Li(n,z), Cl(n,x), Sl(n,x)')],
     CLS, CLSNOTE)
prop('S02', 'Special points are exact and real arguments give real results',
     'Li_n(+-0) is the argument itself including the sign of each zero component, Li_n(1) = zeta(n) and Li_n(-1) = -eta(n) to rounding, Li(n,1) is infinite '
     'for n <= 1; odd functions Cl_(2k), Sl_(2k+1) map +-0 to +-0 and the even ones give zeta(n) (Cl_1: infinity) at 0; and the complex Li_2 to Li_6 of an '
     'argument on the real axis up to 1 with imaginary part +-0 have an imaginary part that is exactly zero.',
     ['inputs'], 'the points 0, 1, -1 with all signs of zero for every function (orders up to 69 and the symbolic rest), and every real argument x <= 1 of the complex functions',
     'The tests compare with tolerances and cannot see the sign of zero or a tiny imaginary part for arguments they do not sample.',
     ALLLI + ALLCL, [('special cases for real arguments', 'complex Li2..Li6'), ('special cases for 0, 1, -1', 'all functions')], CLS, CLSNOTE)
prop('S06', 'Real functions are total: finite arguments give finite results',
     'Li_2, Li_3, Li_4 of every finite real argument, Cl_n and Sl_n of every finite angle (huge angles and subnormal numbers included) and every order n >= 1 return a finite '
     'number, never NaN or an infinity; the one exception is the logarithmic singularity of Cl_1 at multiples of 2 pi.',
     ['inputs'], 'every finite argument of every real function in all languages and precisions; Cl(n,x), Sl(n,x) for every order n >= 1 up to 2^63-200 (Cl of order 7 to 9: 0 < x <= 6 only)',
     'Overflow, division by zero or an infinity minus infinity in an intermediate step shows only for particular arguments; tests do not reach the ends of the exponent range.',
     C('Li2.c', 'Li3.c', 'Li4.c') + P('Li2.cpp', 'Li3.cpp', 'Li4.cpp') + F('Li2.f90', 'Li3.f90', 'Li4.f90') + ALLCL,
     [('range reduction and transformation of the argument', 'all real functions')], CLS, CLSNOTE)
ALL = ALLLI + ALLCL + C('log.c') + P('log.hpp', 'horner.hpp', 'zeta.cpp', 'eta.cpp', 'factorial.cpp', 'harmonic.cpp') + F('log.f90')
prop('U01', 'No argument and no order leads to undefined behaviour',
     'For every floating point argument (NaN and infinities included) and every 64-bit order, no function executes an operation that C and C++ leave undefined: no signed integer '
     'overflow, no index outside a coefficient table, no integer division by zero, no invalid shift, no conversion of an out-of-range floating point number to an integer, '
     'no read of an uninitialised variable.',
     ['inputs'], 'every function and argument class; every order of Cl, Sl, zeta, neg_eta, inv_fac, harmonic; the orders of Li(n,z) that are at least 1000 away from the ends of the 64-bit range',
     'Table sizes and index formulas depend on the order; only a few orders and arguments are ever tested, and an out-of-bounds read often returns a plausible number.',
     ALL, [('coefficient tables indexed by the order', 'Cl.cpp, Sl.cpp, zeta.cpp, eta.cpp, factorial.cpp, horner'), ('integer arithmetic on the order', 'Li.cpp, Cl.cpp, Sl.cpp, zeta.cpp, eta.cpp, harmonic.cpp')],
     'static analysis: abstract interpretation (integer and floating point intervals, symbolic orders); every index, integer operation and conversion is an obligation',
     'Loops that end by a floating point convergence test are followed for a bounded number of iterations (classes_with_loops_cut_off); a possible event is reported only if it is certain for a single argument.')
prop('U02', 'The work per call is bounded independently of the argument',
     'Every call terminates after a number of steps that does not grow with the order or the argument: every loop either runs at most a million times for every order and argument, '
     'whatever the call chain, or ends as soon as the accumulated sum no longer changes; no function calls itself with unchanged arguments.',
     ['inputs'], 'every loop and every recursive call of the library, for all callers',
     'A loop whose length depends on the order is fast for the orders in the tests and takes minutes for others.',
     ALL, [('loops over coefficients', 'long double series, horner'), ('series loops', 'Li.cpp, Cl.cpp, Sl.cpp'), ('recurrences', 'harmonic.cpp')],
     'static analysis: natural loops, induction variables, interprocedural integer ranges with guards, classification of exit conditions',
     'The convergence of loops that end by stagnation of the sum is not proved, only that such an exit exists.')
prop('U03', 'All functions are pure: arguments and static storage are never modified',
     'A call changes nothing but its result: it does not store to its arguments (Fortran dummy arguments and C++ references included) or to static storage, keeps no state between calls, '
     'performs no input or output, allocates no memory, throws nothing and calls only pure mathematical functions of the C library. Every function is thus reentrant and safe to call from several threads.',
     ['inputs', 'histories', 'schedules'], 'every function of the three interfaces and everything it calls',
     'A hidden cache or a modified argument shows only for particular call sequences, callers or thread interleavings.',
     ALL, [('local variables and constant tables only', 'all functions'), ('value / const reference / intent(in) arguments', 'all functions')],
     'static analysis: interprocedural effect analysis (pointer roots, call summaries) on GIMPLE, classification of external callees',
     'Calls of unknown external functions and unresolved pointers are listed as undecided (none on the current tree).', observe=['return value', 'arguments', 'static storage'])
