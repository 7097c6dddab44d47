#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# eps is 2^-52 everywhere
def P(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe, state=state)
ORACLE = "online monitor: real calls judged against a binary128 reference implementation and against functional identities"
NOTE = "Held on the executed inputs only (counts in the evidence file). Trusts glibc's binary128 elementary functions and the golden values computed with mpmath, against which the reference is re-validated at the start of every run."
def why(t): return "Infinitely many arguments; the tests compare %s, so a defect confined to another region, threshold or argument pattern is invisible to them." % t
L = []
L.append(P("G01", "Gamma function is accurate on its whole range",
 "For every finite z that is not a pole, gamma(z) equals the true gamma function to a relative error of 1.2e-14 (down to the subnormal range, where an absolute error of 3e-323 is allowed), on both sides of the real axis, arbitrarily close to the poles and up to the overflow and underflow thresholds. Consequently gamma(z+1) = z gamma(z) to the same accuracy.",
 ["inputs"], "every z in [-200, 175] except 0, -1, -2, ...", why("some tables of values between -5 and 10 or so"),
 ["src/gamma.rs"], [("shift to [2.5, 3.5], polynomials, reciprocal products", "src/gamma.rs: gamma"), ("integer shortcut", "src/utils.rs: factorial")], ORACLE, NOTE))
L.append(P("G02", "Gamma and factorial: special values, poles, overflow, exact factorials",
 "gamma returns infinity with the sign of the zero at +-0, NaN at negative integers, -infinity and NaN, a finite accurate value up to 171.62437695 and infinity above 171.6244, 0 below -190, 1/z for tiny z, and (n-1)! at positive integers (exact to 4 eps up to n = 23). factorial(n) is exact for n <= 22, accurate to 5e-15 up to 170, infinite above, and agrees with gamma(n+1).",
 ["inputs"], "every special value, every integer and every argument beyond the overflow and underflow thresholds", why("a few special values"),
 ["src/gamma.rs", "src/utils.rs"], [("special cases", "src/gamma.rs: gamma"), ("product and table", "src/utils.rs: factorial")], ORACLE, NOTE))
L.append(P("G03", "Log-gamma is accurate for every positive argument",
 "For every 0 < z <= 1e305, ln_gamma(z) equals the true value to 6e-10 absolute plus 4e-15 relative; it is infinite at infinity and NaN for NaN. It satisfies ln_gamma(z+1) = ln_gamma(z) + ln z and agrees with the logarithm of gamma(z) to the same accuracy.",
 ["inputs"], "every positive z from the smallest subnormal to 1e305, infinity and NaN", why("one table of about a hundred values"),
 ["src/gamma.rs"], [("Lanczos sum", "src/gamma.rs: ln_gamma")], ORACLE, NOTE))
L.append(P("G04", "Regularized incomplete gamma functions are accurate",
 "For 1e-300 <= a <= 1e7 and x >= 0, gammp(a,x) and gammq(a,x) equal the true P and Q to an absolute error of 6e-10 + 2 eps a (2 + |ln a|). In the lower tail (x <= a, P > 1e-280) gammp also has a relative error of at most 1e-9 + 2 eps (|ln P| + a + x)(2 + |ln a|), except where a >= 100, x >= a/5 and P < 1e-15. In the upper tail, a + 1 <= x <= a + 20 (sqrt a + 1) (beyond which gammq is 0), gammq has a relative error of at most 1e-9 (4e-9 where a >= 100) + 2 eps (|ln Q| + a + x)(2 + |ln a|), down to Q = 1e-280.",
 ["inputs"], "every (a, x) of the domain, in particular around the switches between series, continued fraction and quadrature", why("the values in tests/gammp_test.rs and a few proptest relations"),
 ["src/gamma.rs"], [("series", "src/gamma.rs: gser"), ("continued fraction", "src/gamma.rs: gcf"), ("Gauss-Legendre quadrature", "src/gamma.rs: gammpapprox")], ORACLE, NOTE))
L.append(P("G05", "Incomplete gamma functions obey their laws and documented panics",
 "For 1e-300 <= a <= 1e7 and x >= 0, gammp and gammq lie within [0, 1], add up to 1 within 1e-14, are exactly 0 and 1 at x = 0 and 1 and 0 at infinity; within the accuracy of G04 gammp does not decrease with x, does not increase with a and satisfies P(a+1,x) = P(a,x) - x^a e^-x / Gamma(a+1). Both panic exactly when a <= 0, x < 0 or an argument is NaN.",
 ["inputs"], "every (a, x), pairs of neighbouring and distant arguments, and arbitrary bit patterns for the panics", why("the values in tests/gammp_test.rs and a few proptest relations"),
 ["src/gamma.rs"], [("branch selection and clamping", "src/gamma.rs: gammp, gammq")], ORACLE, NOTE))
L.append(P("G06", "Inverse incomplete gamma function inverts",
 "For 1e-6 <= a <= 1e7 and 1e-100 <= p < 1, x = invgammp(p,a) is non-negative, finite and satisfies |P(a,x) - p| <= 1e-9 max(p, 1e-3) + 2 eps a (2 + |ln a|); in the lower tail (x <= a) with p >= 1e-13 (1e-45 where a < 100, 1e-100 where a <= 1) the error is also at most p (2e-9 + 2 eps (|ln p| + a + x)(2 + |ln a|)). Where the true quantile underflows, x may be 0. It is non-decreasing in p beyond that tolerance, returns 0 for p <= 0, a finite x with P(a,x) = 1 for p >= 1, and panics when a <= 0.",
 ["inputs"], "every p and a of the domain", why("no value of it at all, or a few"),
 ["src/gamma.rs"], [("starting guess and Halley steps", "src/gamma.rs: invgammp")], ORACLE, NOTE))
L.append(P("B01", "Beta function is accurate and symmetric",
 "For 1e-300 <= a, b <= 1e8, beta(a,b) equals the true value to a relative error of 9e-10 + 6 eps (s(1 + |ln s|) + |ln a| + |ln b| + 1) with s = a + b, wherever it does not overflow. It is symmetric and satisfies B(a+1,b) = B(a,b) a/(a+b) to that accuracy, and panics exactly when an argument is not positive.",
 ["inputs"], "every (a, b) of the domain; arbitrary bit patterns for the panics", why("one table of values"),
 ["src/beta.rs", "src/gamma.rs"], [("difference of log-gammas", "src/beta.rs: beta")], ORACLE, NOTE))
L.append(P("B02", "Regularized incomplete beta function is accurate",
 "For 1e-300 <= a, b <= 1e8 and 0 <= x <= 1, betai(a,b,x) equals the true I_x(a,b) to an absolute error of 9e-10 + 6 eps (s(1 + |ln s|) + |ln a| + |ln b| + 1) with s = a + b. Below (a+1)/(a+b+2), unless both parameters exceed 3000, the same bound (enlarged by 6 eps |a ln x| + 6 eps |b ln(1-x)|) holds for the relative error down to 1e-290.",
 ["inputs"], "every (a, b, x) of the domain, in particular around the switch between continued fraction and quadrature and between the two tails", why("one table of values"),
 ["src/beta.rs"], [("continued fraction", "src/beta.rs: betacf"), ("quadrature for large parameters", "src/beta.rs: betaiapprox")], ORACLE, NOTE))
L.append(P("B03", "Incomplete beta function obeys its laws and documented panics",
 "For 1e-300 <= a, b <= 1e8, betai(a,b,x) lies within [0, 1], is exactly 0 at x = 0 and 1 at x = 1, and, within twice the accuracy of B02, does not decrease with x and satisfies I_x(a,b) + I_(1-x)(b,a) = 1 and I_x(a+1,b) = I_x(a,b) - x^a (1-x)^b / (a B(a,b)). It panics exactly when a <= 0, b <= 0, x is outside [0, 1] or an argument is NaN.",
 ["inputs"], "every (a, b, x), pairs of x, and arbitrary bit patterns for the panics", why("one table of values"),
 ["src/beta.rs"], [("tail selection and symmetry", "src/beta.rs: betai")], ORACLE, NOTE))
L.append(P("B04", "Inverse incomplete beta function inverts",
 "For 1e-4 <= a, b <= 1e6 and 1e-12 <= p <= 1 - 1e-12, x = invbetai(p,a,b) lies within [0, 1] and I_x(a,b) equals p (allowing for four units in the last place of x, 4096 eps next to 1 and 1e-290 next to 0) to 2e-9 + 6 eps (s(1 + |ln s|) + |ln a| + |ln b| + 1) with s = a + b, (plus 2e-9 where 1 - p < 1e-8). In the lower tail (x < (a+1)/(a+b+2)) the error is also at most p (2e-9 + 6 eps (s(1 + |ln s|) + |ln a| + |ln b| + 1 + |ln p| + a |ln x| + b |ln(1-x)|)). It is non-decreasing in p beyond four times that, and returns 0 for p <= 0 and 1 for p >= 1.",
 ["inputs"], "every (p, a, b) of the domain", why("one table of values"),
 ["src/beta.rs"], [("starting guess and Halley steps", "src/beta.rs: invbetai")], ORACLE, NOTE))
L.append(P("E01", "Error function and complement are accurate and obey their laws",
 "For every finite x, erf(x) has an absolute error of at most 1e-15 and erfc(x) a relative error of at most 4e-15 + 3 eps x^2 (2e-15 for x < 0) down to its underflow near 27.2. For every bit pattern erf stays within [-1, 1], erfc within [0, 2], erf(-x) = -erf(x), erf + erfc = 1 and erfc(x) + erfc(-x) = 2 within 1e-15, both are saturated beyond 6.5 (erf) and at the infinities and NaN for NaN; within their accuracy erf does not decrease and erfc does not increase.",
 ["inputs"], "every double", why("a table of values between -10 and 10 or so, to 1e-12 or so"),
 ["src/error.rs"], [("Chebyshev fit of Numerical Recipes", "src/error.rs: erf, erfc, erfccheb")], ORACLE, NOTE))
L.append(P("E02", "Scaled complementary error function is accurate everywhere",
 "For every x >= -26.6287, erfcx(x) has a relative error of at most 2e-15 (plus 2 eps x^2 for x < 0), is positive, does not increase within that accuracy, and satisfies erfc(x) = exp(-x^2) erfcx(x). Below -26.6288 it is infinite, at infinity 0, for NaN NaN.",
 ["inputs"], "every double; in particular every one of the several hundred pieces of the piecewise approximation", why("a table of values in tests/erfcx_test.rs, which touches a part of the pieces"),
 ["src/error.rs"], [("piecewise polynomials", "src/error.rs: erfcx, CHEBYSHEV_COEFFS_1"), ("asymptotic expansions", "src/error.rs: erfcx")], ORACLE, NOTE))
L.append(P("E03", "Inverse error functions invert",
 "For 0 < p < 2, x = inverfc(p) satisfies erfc(x) = p to 4e-14 min(p, 2-p) + 4 eps |x| |erfc'(x)| (plus 1e-15 for p >= 0.5), and for -1 < q < 1, x = inverf(q) satisfies erf(x) = q to 2e-15. inverfc is 100 for p <= 0, -100 for p >= 2 and NaN for NaN, inverfc(p) = inverf(1-p) and inverfc(2-p) = -inverfc(p) within 4 eps where the arguments are exact, and inverfc does not increase.",
 ["inputs"], "every double, including p down to the smallest subnormal number", why("round trips at a few values"),
 ["src/error.rs"], [("starting guess and two Halley steps", "src/error.rs: inverfc, inverf")], ORACLE, NOTE))
L.append(P("D01", "Dawson's integral is accurate everywhere and odd",
 "For every finite x, dawson(x) has a relative error of at most 1e-6 (2e-15 + 0.03 x^8 below 0.2, 1e-15 above 1e8). It is odd to the last bit, has the sign of x, never exceeds 0.5410443 and is NaN for NaN.",
 ["inputs"], "every double", why("a few values at a few magnitudes"),
 ["src/dawson.rs"], [("Rybicki sum", "src/dawson.rs: dawson"), ("series for small, asymptotic form for large arguments", "src/dawson.rs: dawson")], ORACLE, NOTE))
L.append(P("W01", "Faddeeva function is accurate in the whole complex plane",
 "For |x|, |y| <= 1e307, faddeeva(x, y) differs from the true w(x+iy) by at most 1e-14 |w|, plus 4 eps (1 + |z|^2) |2 exp(-z^2)| in the lower half plane (plus 8 (xy)^2 |exp(-z^2)| where -7 <= y and |x| <= 1e-8 |y|), or 1.2e-6 |w| next to the real axis (|x| <= 27, |y| <= 1e-8 |x|). In the upper half plane, away from both axes, real and imaginary part are each accurate to 1e-13 of themselves plus 2 eps |w|.",
 ["inputs"], "every pair of doubles up to 1e307 for which w neither over- nor underflows, in particular every cell of the Taylor grid and every region boundary", why("a table of values in tests/faddeeva_test.rs, which touches a part of the grid cells and regions"),
 ["src/faddeeva.rs"], [("region selection, continued fractions, Taylor expansion around grid points", "src/faddeeva.rs: faddeeva, TAYLOR_COEFFS")], ORACLE, NOTE))
L.append(P("W02", "Faddeeva function obeys its symmetries, bounds and limits",
 "Within the accuracy of W01, w(-conj z) = conj w(z), w(z) + w(-z) = 2 exp(-z^2), w(x) = exp(-x^2) + 2i D(x)/sqrt(pi) on the real axis and w(iy) = erfcx(y), exactly real, on the imaginary axis. In the upper half plane 0 <= Re w <= 1 and |Im w| <= 0.611 with the sign of x; w vanishes as y tends to infinity, a NaN argument gives a NaN component, and no argument panics.",
 ["inputs"], "every pair of doubles", why("a table of values in tests/faddeeva_test.rs"),
 ["src/faddeeva.rs", "src/error.rs", "src/dawson.rs"], [("reflections and special axes", "src/faddeeva.rs: faddeeva")], ORACLE, NOTE))
L.append(P("J01", "Bessel functions of the first and second kind, integer order, are accurate",
 "For n <= 10000 and 1e-12 <= |x| <= 3e4 (n <= 6 up to 1e12), Jn(n,x) and, for x > 0, Yn(n,x) differ from the true values by at most eps (40 + 2n + 2|x|) times sqrt(J^2 + Y^2) (for Jn with |x| <= n: eps (40 + 2n) times |J|), and Yn is -infinity where it overflows. They satisfy their recurrences and cross product, Jn(n,-x) = (-1)^n Jn(n,x) and In(n,-x) = (-1)^n In(n,x) hold exactly, and x = 0, tiny x, infinity and NaN give the limits.",
 ["inputs"], "every order and argument of the domain, in particular around 8 and around x = n", why("a table of values for small orders and moderate arguments"),
 ["src/bessel.rs"], [("rational approximations and asymptotic forms of order 0 and 1", "src/bessel.rs: Jn, Yn"), ("upward and Miller downward recurrence", "src/bessel.rs: Jn")], ORACLE, NOTE))
L.append(P("J02", "Modified Bessel functions of integer order are accurate",
 "For n <= 10000 and 1e-12 <= |x| <= 9000, In(n,x) and, for x > 0, Kn(n,x) have a relative error of at most eps (24 + 2n + 2|x|) (In down to magnitudes of 1e-290); they are infinite where they overflow and 0 where they underflow, and not before. They satisfy their recurrences and I_n K_(n+1) + I_(n+1) K_n = 1/x, are positive for x > 0, In decreases and Kn increases with n, In increases and Kn decreases with x.",
 ["inputs"], "every order and argument of the domain, in particular around 15 (order 0 and 1) and small x with large n", why("a table of values for small orders and moderate arguments"),
 ["src/bessel.rs"], [("rational approximations of order 0 and 1", "src/bessel.rs: In, Kn"), ("downward and upward recurrence", "src/bessel.rs: In, Kn")], ORACLE, NOTE))
L.append(P("J03", "Fractional-order Bessel functions J, Y and derivatives are accurate",
 "For 0 <= nu <= 10000 and 1e-3 <= x <= 9000 the values J, Y, J' and Y' of besseljy(nu,x) differ from the true ones by at most t = eps (100 + 8x + 8nu + x^2/4) times the modulus of the oscillating pair (for x <= nu: times |J| and |J'| themselves for J and J'; the derivatives additionally allow nu/x times that). For smaller x, down to 1e-290 with nu <= 100, all four keep a relative error of t' = eps (60 + 4nu - 1.2 ln x) (J' additionally t' (nu/x + x) |J|). They satisfy J Y' - J' Y = 2/(pi x) and the recurrences between nu and nu+1, agree with Jn and Yn at integer orders, and overflow and underflow to the limits without NaN.",
 ["inputs"], "every order and argument of the domain, in particular half-integer orders, x = 2, and x close to nu", why("a table of values for a few orders"),
 ["src/bessel.rs"], [("Steed's method with Temme's series", "src/bessel.rs: besseljy")], ORACLE, NOTE))
L.append(P("J04", "Fractional-order modified Bessel functions and derivatives are accurate",
 "For 0 <= nu <= 10000 and 1e-3 <= x <= 9000 the values I, K, I' and K' of besselik(nu,x) have a relative error of at most t = eps (200 + 8x + 8nu) (I' additionally t nu/x I). For smaller x, down to 1e-290 with nu <= 100, all four keep a relative error of t' = eps (60 + 4nu - 1.2 ln x) (I' additionally t' (nu/x + x) I). They satisfy I' K - I K' = 1/x and the recurrences between nu and nu+1, have the signs +, +, +, -, agree with In and Kn at integer orders, and overflow and underflow to the limits without NaN.",
 ["inputs"], "every order and argument of the domain, in particular half-integer orders and x = 2", why("a table of values for a few orders"),
 ["src/bessel.rs"], [("Steed's method with Temme's series", "src/bessel.rs: besselik")], ORACLE, NOTE))
L.append(P("J05", "Bessel pair functions are projections; closed forms; documented panics",
 "Jnu_Ynu and Inu_Knu return, bit for bit, the first two values of besseljy and besselik, and at the orders 1/2 and 3/2 these agree with the elementary closed forms to the accuracy of J03 and J04. All four panic exactly when x <= 0 or nu < 0, or when x is too large: never for x <= 9000 and nu <= 10000.",
 ["inputs"], "every order and argument, valid or not", why("a table of values for a few orders"),
 ["src/bessel.rs"], [("projection", "src/bessel.rs: Jnu_Ynu, Inu_Knu"), ("argument checks", "src/bessel.rs: besseljy, besselik")], ORACLE, NOTE))
L.append(P("K01", "Cached Bessel functions return exactly the uncached results",
 "For every sequence of evaluations through a cache, in any order, with repeated, swapped, neighbouring or otherwise similar arguments and with arguments that panic, every result is bit for bit the one the uncached function returns for the same arguments. A successful evaluation is stored and can be looked up under exactly these arguments and no others; a panicking evaluation stores nothing.",
 ["histories", "inputs"], "every history of evaluations on each of the four cache types", why("a handful of calls on one cache"),
 ["src/bessel.rs"], [("hash map keyed by the bits of both arguments", "src/bessel.rs: CachedBesselJY, CachedBesselIK, CachedJnuYnu, CachedInuKnu")],
 "online monitor: every cached result and lookup compared with the uncached function under adversarial key histories", "Held on the executed histories only. The uncached function of the same build is the reference (its own accuracy is J03, J04).",
 state=[dict(name="cached entries", meaning="argument bits to result", where="src/bessel.rs: Cached*.0")]))
L.append(P("K02", "Caches behave like maps under every history of operations",
 "Under every history of evaluate, get, contains, len, is_empty, clear, reserve, shrink_to_fit, retain (also with panicking predicates), clone, ==, Debug and drop over several caches, each cache holds exactly the entries a map model holds, also with a hundred thousand of them; retain visits every entry once with its exact key and value, a panicking predicate loses no entry it kept or never saw, == means equal contents, and clones are independent. A cache created with or reserving room for n entries takes them without allocating, clear keeps the memory, shrink_to_fit releases it, and an empty cache owns none.",
 ["histories"], "every operation history on each of the four cache types", why("a handful of calls on one cache"),
 ["src/bessel.rs"], [("collection methods", "src/bessel.rs: impl_cached_bessel_convenience_functions")],
 "model-based runtime monitor: operation histories checked online against a map model, allocations observed by a counting allocator", "Held on the executed histories only.",
 state=[dict(name="cached entries", meaning="argument bits to result", where="src/bessel.rs: Cached*.0")]))
L.append(P("K03", "A result held by a cache is not computed again",
 "Evaluating a cache at arguments whose result it holds returns that result without computing it again: where the direct evaluation takes 10 microseconds of CPU time or more, a repeated evaluation takes less than half as long, whatever happened to the cache in between (thousands of evaluations at other arguments, at the same order or at the same x; clear followed by an evaluation, clone, reserve, shrink_to_fit, a retain that keeps the entry, an evaluation that panics).",
 ["histories"], "every history that leaves the result in the cache, on each of the four cache types", "The tests compare values only; a cache that always misses, or whose lookup degenerates, passes them.",
 ["src/bessel.rs"], [("lookup before evaluation", "src/bessel.rs: Cached*::besseljy, besselik, Jnu_Ynu, Inu_Knu")],
 "online monitor: CPU time of repeated evaluations (fastest of 12) against the direct evaluation (fastest of 3) over random histories", "Held on the executed histories only; arguments that take less than 10 microseconds to evaluate cannot be told apart by time and are skipped.",
 state=[dict(name="cached entries", meaning="argument bits to result", where="src/bessel.rs: Cached*.0")]))
L.append(P("L01", "Lambert W functions solve their equation on the right branch",
 "lambert_w0 (x >= -1/e) and lambert_wm1 (-1/e <= x <= 0) have an error of at most 8 eps relative plus 2 eps / |1 + W| absolute, their single precision variants of 1e-7 instead of 8 eps (near the branch point at most 4e-8 more), and return NaN outside. lambert_w(k,z) for |k| <= 1e6, 1e-60 <= |z| <= 1e100 away from the branch point solves w e^w = z to 8 eps (2 + |w| + 1/|w|) on branch k, except inside |z| < 3 for k in {-1, 0, 1}, and agrees with the real functions on the real axis.",
 ["inputs"], "every double, every branch index up to 20 and complex points of that annulus", why("a table of values"),
 ["src/lib.rs"], [("re-export of the lambert_w crate", "src/lib.rs")], ORACLE, NOTE + " Two points at which the lambert_w dependency returns another branch are listed in known_findings.txt."))
L.append(P("U01", "frexp, ldexp and sign are exact for every argument",
 "For every finite non-zero x, frexp returns (m, e) with x = m 2^e exactly and 1/2 <= |m| < 1; zeros (with exponent 0), infinities and NaN are returned unchanged as m. ldexp(x, e) is x 2^e correctly rounded for every x and every exponent, including gradual underflow and overflow, and sign(a, b) is |a| with the sign of b, signed zeros included.",
 ["inputs"], "every double and every 32-bit exponent", why("nothing, or a few normal numbers"),
 ["src/utils.rs"], [("bit manipulation", "src/utils.rs: frexp, ldexp, sign")], "online monitor: real calls compared bit for bit with the C library and with the definition", "Held on the executed inputs only. Trusts the C library's scalbln."))
L.append(P("S01", "Every function is pure: no call influences another",
 "The result of every public function depends on its arguments alone: it is bit-identical whatever other calls, including panicking ones, came before it, however often it is repeated, from whatever thread, concurrently with whatever other calls, and in a fresh process.",
 ["histories", "schedules", "inputs"], "every sequence and every concurrent schedule of calls of all 32 public functions", "Every test makes single calls in a fixed order and compares with tolerances, so a hidden cache, a static buffer or a thread-dependent result is invisible to them.",
 ["src/lib.rs", "src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("no global state", "src/*.rs")],
 "online monitor: results of random call sequences compared bit for bit under reordering, repetition, concurrent threads and a fresh process", "Held on the executed histories and schedules only."))
L.append(P("S02", "Every function is total: announced panics only, prompt return, values in range",
 "Every public function returns for every argument bit pattern within 0.5 s of CPU time (plus 1 microsecond per unit of order for the Bessel functions) and panics exactly where its documentation says. For finite arguments inside the domain of the mathematical function (parameters of the incomplete functions below 1e10, nu <= 9000 and 1e-290 <= x <= 9000 for the fractional Bessel functions) the result is never NaN and lies in the range of the mathematical function.",
 ["inputs"], "every bit pattern in every argument of all 32 public functions", "The tests use ordinary arguments; NaN, infinities, subnormal, huge and otherwise absurd ones, and the time a call takes, are not looked at.",
 ["src/lib.rs", "src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("argument checks, iteration limits, guards against overflow", "src/*.rs")],
 "online monitor: panics, CPU time, NaN and range of every call observed on arbitrary bit patterns, in the release and the debug build", "Held on the executed inputs only. The CPU time limit is about a thousand times what the slowest call takes."))
L.append(P("S03", "The result does not depend on the build: debug, release, fused multiply-add",
 "Every public function panics in a debug build (assertions and overflow checks on) exactly where it panics in a release build, and returns the same values (within 1e-7). So does a release build for processors with fused multiply-add (target feature fma), for which the sources have a code path of their own; there the gamma functions and beta also keep the accuracy of G01, G02, G03 and B01.",
 ["configurations", "inputs"], "every bit pattern in every argument of all 32 public functions, under three builds", "The tests run in one profile only; an arithmetic overflow or a failing debug assertion needs an argument they do not use.",
 ["src/lib.rs", "src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("integer arithmetic on orders, exponents and indices", "src/bessel.rs, src/utils.rs, src/faddeeva.rs, src/error.rs"), ("cfg(target_feature = fma)", "src/utils.rs: mul_add")],
 "differential runtime monitor: three builds of the same tree evaluate the same calls in lockstep", "Held on the executed inputs only."))
L.append(P("S04", "No undefined behaviour, memory error or data race in any concurrent use",
 "Calling any public functions concurrently from any threads, and sharing caches between threads through shared references or a lock, never causes undefined behaviour, an out-of-bounds or uninitialised access, a use after free, a data race or a deadlock. The cache types can be moved to and shared between threads.",
 ["schedules", "inputs"], "every concurrent schedule of calls of all 32 public functions and the cache types with every argument", "The tests run without sanitizers and make calls from one thread each; undefined behaviour and races normally leave no trace in a result.",
 ["src/lib.rs", "src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("safe Rust without global mutable state; checked table accesses", "src/error.rs: erfcx, src/faddeeva.rs: faddeeva, src/gamma.rs, src/bessel.rs")],
 "sanitizers: ThreadSanitizer (instrumented std), AddressSanitizer, valgrind memcheck and Miri under a concurrent workload", "Held on the executed schedules and inputs only; leaks are not judged."))

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in L:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=["return values and panics at the public API"], hook_needed=None)
            if p["state"]: a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="./build.sh mon && ./build.sh san",
      checks=[dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="./run.sh " + p["id"], technique=p["tech"], level="exploration", level_note=p["note"]) for p in L],
      not_applicable=[],
      notes="Every check builds what it needs from /repo's working tree (build.sh), needs no hooks in /repo, and runs the real code in a release build and, for a third of the time, in a debug build with assertions and overflow checks. Tier and seed come from VERIF_TIER and VERIF_SEED.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
    for p in L: assert len(p["title"]) <= 80, p["id"]
main()
