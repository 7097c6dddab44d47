/* Quadruple precision (113 bit) reference implementations, used as the oracle of
 * the runtime monitors.  Written from the mathematical definitions (DLMF), not
 * from /repo.  Only glibc's *f128 elementary functions, tgammaf128, lgammaf128,
 * erff128/erfcf128 are trusted; oracle/golden.txt (computed with mpmath, 40+ digits) is
 * replayed through this file before every check. */
#define __STDC_WANT_IEC_60559_TYPES_EXT__ 1
#define _GNU_SOURCE
#include <math.h>
#include <float.h>
#include <stdint.h>
#include <string.h>

typedef _Float128 Q;
#define C(x) x##f128
static const Q PI = C(3.14159265358979323846264338327950288419716939937510582);
static const Q SQRTPI = C(1.77245385090551602729816748334114518279754945612239);
static const Q LN_SQRT_2PI = C(0.918938533204672741780329736405617639861397473637783);
static const Q QINF = C(1.0) / C(0.0);
static const Q EPSQ = C(1e-34);
#define FQ(a) fabsf128(a)

/* ------------------------------------------------------------- helpers --- */
double q_rel(const Q *ref, double got) {   /* |got-ref|/|ref| */
    Q g = got, r = *ref;
    if (isnan(got)) return NAN;
    if (g == r) return 0;
    if (isinf(got)) return INFINITY;
    Q d = FQ(g - r) / FQ(r);
    return (double)d;
}
double q_abs(const Q *ref, double got) {
    if (isnan(got)) return NAN;
    Q d = FQ((Q)got - *ref);
    return (double)d;
}
double q_d(const Q *a) { return (double)*a; }
void q_from(double a, Q *o) { *o = a; }
void q_add(const Q *a, const Q *b, Q *o) { *o = *a + *b; }
void q_sub(const Q *a, const Q *b, Q *o) { *o = *a - *b; }
void q_mul(const Q *a, const Q *b, Q *o) { *o = *a * *b; }
void q_div(const Q *a, const Q *b, Q *o) { *o = *a / *b; }
double q_log2(const Q *a) { Q x = FQ(*a); if (x == 0) return -1e300; return (double)log2f128(x); }

/* ---------------------------------------------------------------- gamma --- */
/* Stirling with shift; valid x > 0 */
static const Q STIR[] = { /* B_{2k}/(2k(2k-1)) */
    C(1.0)/12, -C(1.0)/360, C(1.0)/1260, -C(1.0)/1680, C(1.0)/1188, -C(691.0)/360360, C(1.0)/156,
    -C(3617.0)/122400, C(43867.0)/244188, -C(174611.0)/125400, C(77683.0)/5796, -C(236364091.0)/1506960,
    C(657931.0)/300, -C(3392780147.0)/93960, C(1723168255201.0)/2492028 };
static Q lg_stirling(Q x) { /* x >= 40 */
    Q s = 0, i2 = 1 / (x * x), p = 1 / x;
    for (int k = 0; k < 15; k++) { s += STIR[k] * p; p *= i2; }
    return (x - C(0.5)) * logf128(x) - x + LN_SQRT_2PI + s;
}
/* 1/Gamma(1+z) = sum c_k z^k, |z| <= 1/2 */
#include "rgamma_coef.h"
static Q rgamma1p(Q z) { Q s = 0; for (int k = NRG - 1; k >= 0; k--) s = s * z + RG[k]; return s; }
static Q rgamma1pm1(Q z) { Q s = 0; for (int k = NRG - 1; k >= 1; k--) s = s * z + RG[k]; return s * z; }
static Q lg_pos(Q x) {
    if (x < C(0.5)) { /* Gamma(x) = Gamma(1+x)/x */
        return -logf128(rgamma1p(x)) - logf128(x);
    }
    if (x < C(2.5)) { /* near 1 and 2, keep relative accuracy */
        if (x <= C(1.5)) { Q z = x - 1; Q r = rgamma1pm1(z); return -log1pf128(r); }
        Q z = x - 2; /* Gamma(2+z) = (1+z) Gamma(1+z) */
        Q r = rgamma1pm1(z);
        return log1pf128(z) - log1pf128(r);
    }
    if (x < 40) {
        Q p = 1; while (x < 40) { p *= x; x += 1; }
        return lg_stirling(x) - logf128(p);
    }
    return lg_stirling(x);
}
void o_lgamma(double x, Q *o) { *o = lg_pos(x); }
static Q g_pos(Q x) { /* x > 0 */
    if (x > 1800) return QINF;
    Q p = 1;
    if (x < 30) {
        Q q = 1;
        while (x > C(1.5)) { x -= 1; p *= x; }
        while (x < C(0.5)) { q *= x; x += 1; }
        return p / q / rgamma1p(x - 1);
    }
    Q s = 1;
    while (x < 60) { s *= x; x += 1; }
    return expf128(lg_stirling(x)) / s;
}
static Q sinpi(Q x) { /* exact reduction */
    Q n = roundf128(x), r = x - n;
    Q s = sinf128(PI * r);
    Q h = n / 2; if (h != floorf128(h)) s = -s;
    return s;
}
static Q gamma_q(Q x) {
    if (x > 0) return g_pos(x);
    /* reflection */
    Q y = -x; /* Gamma(-y) = -pi/(sin(pi y) Gamma(1+y)) */
    if (y > 1700) { return 0; }
    return -PI / (sinpi(y) * g_pos(1 + y));
}
void o_gamma(double x, Q *o) { *o = gamma_q(x); }
void o_factorial(uint64_t n, Q *o) { Q p = 1; for (uint64_t i = 2; i <= n && i < 2000; i++) p *= i; *o = p; }
void o_lbeta(double a, double b, Q *o) {
    *o = lg_pos(a) + lg_pos(b) - lg_pos((Q)a + b);
}
/* lnB without catastrophic cancellation for a >> b: lg(a)-lg(a+b) for a >= 40 by difference */
static Q lg_diff(Q a, Q b) { /* lg(a) - lg(a+b) */
    if (a < 40) return lg_pos(a) - lg_pos(a + b);
    Q c = a + b;
    Q s = 0, p = 1 / a, pc = 1 / c, i2 = 1 / (a * a), ic2 = 1 / (c * c);
    for (int k = 0; k < 15; k++) { s += STIR[k] * (p - pc); p *= i2; pc *= ic2; }
    /* (a-.5)ln a - (c-.5) ln c = -(a-.5) log1p(b/a) - b ln c */
    return -(a - C(0.5)) * log1pf128(b / a) - b * logf128(c) + b + s;
}
static Q lbeta_q(Q a, Q b) { if (a < b) { Q t = a; a = b; b = t; } return lg_pos(b) + lg_diff(a, b); }
void o_beta(double a, double b, Q *o, double *lnabs) { Q l = lbeta_q(a, b); *lnabs = (double)l; *o = expf128(l); }

/* ----------------------------------------------------- incomplete gamma --- */
/* prefactor x^a e^-x / Gamma(a+1), as logarithm */
static Q lpref_gamma(Q a, Q x) {
    if (a < 40) return a * logf128(x) - x - lg_pos(a + 1);
    /* a ln x - x - [ (a+.5) ln a - a + c + S(a) ]  =  -a*D - ln(a)/2 - c - S, D = x/a -1 - ln(x/a) */
    Q s = 0, i2 = 1 / (a * a), p = 1 / a;
    for (int k = 0; k < 15; k++) { s += STIR[k] * p; p *= i2; }
    Q u = (x - a) / a, D = u - log1pf128(u);
    return -a * D - logf128(a) / 2 - LN_SQRT_2PI - s;
}
/* returns P, Q and log prefactor magnitude; iterations bounded */
int o_gammapq(double a_, double x_, Q *P, Q *Qq) {
    Q a = a_, x = x_;
    if (x == 0) { *P = 0; *Qq = 1; return 1; }
    Q lp = lpref_gamma(a, x);
    if (x < a + 1 || x < C(0.7)) {
        Q t = 1, s = 1, ap = a;
        long i;
        for (i = 0; i < 40000000L; i++) { ap += 1; t *= x / ap; s += t; if (t < s * EPSQ) break; }
        if (i >= 40000000L) return 0;
        *P = expf128(lp) * s;
        if (a < C(0.5) && x <= C(1.5)) {
            /* Q by the cancellation-free form: Q = 1 - x^a/Gamma(1+a) * (1 + a*sum_{k>=1} (-x)^k/(k!(a+k))) */
            Q sum = 0, term = 1;
            for (int k = 1; k < 400; k++) { term *= -x / k; Q d = term / (a + k); sum += d; if (FQ(d) < FQ(sum) * EPSQ) break; }
            /* 1 - e^{u}(1+v) with e^u = x^a/Gamma(1+a) */
            Q u = a * logf128(x) + log1pf128(rgamma1pm1(a));
            Q v = a * sum;
            *Qq = -expm1f128(u) - expf128(u) * v;
        } else *Qq = 1 - *P;
        return 1;
    }
    /* Lentz for Q: Gamma(a,x) = e^-x x^a (1/(x+1-a- 1(1-a)/(x+3-a- ...))) */
    const Q tiny = C(1e-4000);
    Q b = x + 1 - a, c = 1 / tiny, d = 1 / b, h = d;
    long i;
    for (i = 1; i < 40000000L; i++) {
        Q an = -(Q)i * ((Q)i - a);
        b += 2;
        d = an * d + b; if (FQ(d) < tiny) d = tiny;
        c = b + an / c; if (FQ(c) < tiny) c = tiny;
        d = 1 / d; Q del = d * c; h *= del;
        if (FQ(del - 1) < EPSQ) break;
    }
    if (i >= 40000000L) return 0;
    *Qq = expf128(lp) * a * h;
    *P = 1 - *Qq;
    return 1;
}
/* density d/dx P(a,x) */
void o_gammadens(double a, double x, Q *o) {
    *o = expf128(lpref_gamma(a, x)) * (Q)a / (Q)x;
}
/* ------------------------------------------------------ incomplete beta --- */
static Q lpref_beta(Q a, Q b, Q x, Q y) { /* x^a y^b / B(a,b) ; y = 1-x */
    if (a > 40 && b > 40) {
        /* saddle form: with mu=a/(a+b): a ln(x/mu)+b ln(y/nu) + [a ln mu + b ln nu - lnB] */
        Q n = a + b;
        Q ux = (x * b - y * a) / a, uy = -(x * b - y * a) / b; /* x n / a -1 = (xn-a)/a = (x b - a y)/a */
        Q e = a * log1pf128(ux) + b * log1pf128(uy);
        Q s = 0, pa = 1/a, pb = 1/b, pn = 1/n, ia = pa*pa, ib = pb*pb, in = pn*pn;
        for (int k = 0; k < 15; k++) { s += STIR[k] * (pn - pa - pb); pa *= ia; pb *= ib; pn *= in; }
        /* -lnB + a ln mu + b ln nu = .5 ln(a b/(2 pi n)) + s */
        return e + logf128(a * b / (2 * PI * n)) / 2 + s;
    }
    return a * logf128(x) + b * logf128(y) - lbeta_q(a, b);
}
static int betacf_q(Q a, Q b, Q x, Q *o) {
    const Q tiny = C(1e-4000);
    Q qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
    if (FQ(d) < tiny) d = tiny;
    d = 1 / d; Q h = d;
    for (long m = 1; m < 2000000L; m++) {
        Q m2 = 2 * (Q)m, aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1 + aa * d; if (FQ(d) < tiny) d = tiny;
        c = 1 + aa / c; if (FQ(c) < tiny) c = tiny;
        d = 1 / d; h *= d * c;
        aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1 + aa * d; if (FQ(d) < tiny) d = tiny;
        c = 1 + aa / c; if (FQ(c) < tiny) c = tiny;
        d = 1 / d; Q del = d * c; h *= del;
        if (FQ(del - 1) < EPSQ) { *o = h; return 1; }
    }
    return 0;
}
/* I and its complement; lpre = log of the prefactor.  x and y = 1 - x are given in quad */
static int betai_q(Q a, Q b, Q x, Q y, Q *I, Q *J) {
    if (x == 0) { *I = 0; *J = 1; return 1; }
    if (y == 0) { *I = 1; *J = 0; return 1; }
    Q h, pre = expf128(lpref_beta(a, b, x, y));
    if (x < (a + 1) / (a + b + 2)) {
        if (!betacf_q(a, b, x, &h)) return 0;
        *I = pre * h / a; *J = 1 - *I;
    } else {
        if (!betacf_q(b, a, y, &h)) return 0;
        *J = pre * h / b; *I = 1 - *J;
    }
    return 1;
}
int o_betai(double a, double b, double x, Q *I, Q *J) { return betai_q(a, b, x, 1 - (Q)x, I, J); }
void o_betadens(double a, double b, double x, Q *o) {
    Q y = 1 - (Q)x; *o = expf128(lpref_beta(a, b, x, y)) / ((Q)x * y);
}
/* ------------------------------------------------------------------ erf --- */
void o_erf(double x, Q *o) { *o = erff128(x); }
void o_erfc(double x, Q *o) { *o = erfcf128(x); }
static Q erfcx_q(Q x) {
    if (x < 2) return expf128(x * x) * erfcf128(x);
    if (x < 25) return expf128(x * x) * erfcf128(x);   /* relative error ~ x^2 ulp of quad */
    Q t = 1, s = 1, z = 1 / (2 * x * x);
    for (int k = 1; k < 200; k++) { t *= -(2 * k - 1) * z; if (FQ(t) < EPSQ) break; s += t; }
    return s / (x * SQRTPI);
}
void o_erfcx(double x, Q *o) { *o = erfcx_q(x); }
/* ------------------------------------------------------------- Faddeeva --- */
/* Al Azah & Chandler-Wilde (2021): (modified) trapezium rules with N+1 points */
#define NW 40
static Q wh, wtM[NW + 1], weM[NW + 1], wtT[NW + 1], weT[NW + 1];
__attribute__((constructor)) static void winit(void) {
    wh = sqrtf128(PI / (NW + 1));
    for (int k = 0; k <= NW; k++) {
        Q t = (k + C(0.5)) * wh; wtM[k] = t * t; weM[k] = expf128(-t * t);
        t = k * wh; wtT[k] = t * t; weT[k] = expf128(-t * t);
    }
}
static void cdiv(Q a, Q b, Q c, Q d, Q *r, Q *i) { /* Smith, quad range is large */
    Q n = c * c + d * d; *r = (a * c + b * d) / n; *i = (b * c - a * d) / n;
}
/* x >= 0, y >= 0 */
static void w_q1(Q x, Q y, Q *wr, Q *wi) {
    if (x > C(1e8) || y > C(1e8)) {
        /* i/(sqrt(pi) z) (1 + 1/(2 z^2) + 3/(4z^4)) + exp(-z^2) negligible: e^{-x^2} -> 0 unless x small, then y huge */
        Q s = fmaxf128(x, y), X = x / s, Y = y / s, n = X * X + Y * Y;
        Q rr = Y / n / s, ri = X / n / s; /* i/z */
        Q r2r = rr * rr - ri * ri, r2i = 2 * rr * ri; /* (i/z)^2 = -1/z^2 */
        /* 1 - r2/2 + 3/4 r2^2 */
        Q ar = 1 - r2r / 2, ai = -r2i / 2;
        Q q = C(0.75); ar += q * (r2r * r2r - r2i * r2i); ai += q * 2 * r2r * r2i;
        *wr = (rr * ar - ri * ai) / SQRTPI; *wi = (rr * ai + ri * ar) / SQRTPI;
        return;
    }
    Q z2r = (x - y) * (x + y), z2i = 2 * x * y;
    int mode;
    if (y >= fmaxf128(x, PI / wh)) mode = 0;
    else { /* the rule whose nodes are further away from x */
        Q f = x / wh; f -= floorf128(f); mode = (f >= C(0.25) && f <= C(0.75)) ? 2 : 1; }
    const Q *t = mode == 2 ? wtT : wtM, *e = mode == 2 ? weT : weM;
    Q sr = 0, si = 0;
    for (int k = mode == 2 ? 1 : 0; k <= NW; k++) { /* e/(z2 - t) */
        Q dr = z2r - t[k], n = dr * dr + z2i * z2i, f = e[k] / n;
        sr += f * dr; si -= f * z2i;
    }
    Q c = 2 * wh / PI; /* (2 i h z / pi) * S */
    Q ar = -y * c, ai = x * c;
    Q r = ar * sr - ai * si, i = ar * si + ai * sr;
    if (mode == 2) { /* + i h/(pi z) */
        Q n = x * x + y * y; r += wh / PI * y / n; i += wh / PI * x / n;
    }
    if (mode != 0) {
        /* 2 e^{-z^2}/(1 +- e^{-2 i pi z/h}) : |e^{-2 i pi z/h}| = e^{2 pi y/h} grows; divide through */
        /* = 2 e^{-z^2} e^{2 i pi z/h} / (e^{2 i pi z/h} +- 1), |e^{2 i pi z/h}| = e^{-2 pi y/h} <= 1 */
        Q f = 2 * PI / wh, ph = f * x, m = expf128(-f * y), gr, gi, cr, ci;
        /* reduce phase: x/h mod 1 */
        Q fr = x / wh; fr -= floorf128(fr); ph = 2 * PI * fr;
        gr = m * cosf128(ph); gi = m * sinf128(ph);
        Q dr = mode == 1 ? gr + 1 : gr - 1, di = gi;
        if (mode == 1) cdiv(gr, gi, dr, di, &cr, &ci);
        else { cdiv(gr, gi, dr, di, &cr, &ci); }
        /* 1 - e^{-..} = (g - 1)/g  -> g/(g-1) */
        Q er = expf128(-z2r) * cosf128(z2i), ei = -expf128(-z2r) * sinf128(z2i);
        r += 2 * (er * cr - ei * ci); i += 2 * (er * ci + ei * cr);
    }
    *wr = r; *wi = i;
}
/* scale returned: magnitude that rounding errors are proportional to */
void o_w(double x_, double y_, Q *wr, Q *wi, double *lnexp) {
    Q x = x_, y = y_, ax = FQ(x), ay = FQ(y), r, i;
    if (y == 0) { /* real axis: Re = exp(-x^2) exactly */
        w_q1(ax, 0, &r, &i); *wr = expf128(-x * x); *wi = x < 0 ? -i : i; *lnexp = (double)(-x * x); return;
    }
    if (x == 0 && y > 0) { *wr = erfcx_q(y); *wi = 0; *lnexp = 0; return; }
    w_q1(ax, ay, &r, &i);
    *lnexp = (double)(y * y - x * x);
    if (y > 0) { *wr = r; *wi = x < 0 ? -i : i; if (x == 0) *wi = 0; return; }
    /* w(z) = 2 e^{-z^2} - w(-z) ; -z = (-x, ay) -> w = conj of (ax,ay) if -x<0 */
    Q vi = (-x < 0) ? -i : i; if (x == 0) vi = 0;
    Q m = 2 * expf128((y - x) * (y + x)), ph = -2 * x * y;
    *wr = m * cosf128(ph) - r; *wi = m * sinf128(ph) - vi;
}
void o_dawson(double x, Q *o) { Q r, i; w_q1(FQ((Q)x), 0, &r, &i); i *= SQRTPI / 2; 
    Q ax = FQ((Q)x);
    if (ax < C(1e-3)) { /* series, keep relative accuracy */
        Q t = ax, s = 0; for (int k = 0; k < 60; k++) { s += t; t *= -2 * ax * ax / (2 * k + 3); } i = s; }
    *o = x < 0 ? -i : i; }
/* --------------------------------------------------------------- Bessel --- */
static void temme_gammas(Q mu, Q *g1, Q *g2, Q *gp, Q *gm) {
    /* 1/Gamma(1+mu) = G2 - mu G1 (gp), 1/Gamma(1-mu) = G2 + mu G1 (gm) */
    Q e = 0, o = 0, m2 = mu * mu;
    for (int k = (NRG - 1) / 2; k >= 0; k--) e = e * m2 + (2 * k < NRG ? RG[2 * k] : 0);
    for (int k = (NRG - 2) / 2; k >= 0; k--) o = o * m2 + (2 * k + 1 < NRG ? RG[2 * k + 1] : 0);
    *g2 = e; *g1 = -o; *gp = e + mu * o; *gm = e - mu * o;
}
/* J, Y, J', Y' for nu >= 0, x > 0. returns 0 when it gave up.
 * out: 4 quads, plus the exponents are in range of quad (1e+-4900). */
int o_besseljy(double nu_, double x_, Q out[4]) {
    Q nu = nu_, x = x_, xi = 1 / x;
    const Q tiny = C(1e-4900), big = C(1e2000);
    long maxit = 4000000;
    if (x > 2e6 || nu > 2e6) return 0;
    long nl = (x < 2) ? (long)(nu + C(0.5)) : (nu - x + C(1.5) > 0 ? (long)(nu - x + C(1.5)) : 0);
    Q mu = nu - nl, mu2 = mu * mu;
    Q h = nu * xi; int isign = 1; if (h < tiny) h = tiny;
    Q b = 2 * xi * nu, d = 0, c = h; long i;
    for (i = 0; i < maxit; i++) {
        b += 2 * xi; d = b - d; if (FQ(d) < tiny) d = tiny;
        c = b - 1 / c; if (FQ(c) < tiny) c = tiny;
        d = 1 / d; Q del = c * d; h *= del; if (d < 0) isign = -isign;
        if (FQ(del - 1) < EPSQ) break;
    }
    if (i >= maxit) return 0;
    /* downward from nu to mu, with log-scaling */
    Q rj = isign, rjp = h * rj, fact = nu * xi; Q lscale = 0; /* true start value = isign*exp(-lscale)... */
    for (long k = nl; k >= 1; k--) {
        Q t = fact * rj + rjp; fact -= xi; rjp = fact * t - rj; rj = t;
        if (FQ(rj) > big) { rj /= big; rjp /= big; lscale += 1; }
    }
    Q f = rjp / rj, Jmu, Ymu, Ymup, Y1, w = 2 * xi / PI;
    if (x < 2) {
        Q g1, g2, gp, gm; temme_gammas(mu, &g1, &g2, &gp, &gm);
        Q pm = PI * mu, fa = FQ(pm) < C(1e-30) ? 1 : pm / sinf128(pm);
        Q L = -logf128(x / 2), e = mu * L, f2 = FQ(e) < C(1e-30) ? 1 : sinhf128(e) / e;
        Q ff = 2 / PI * fa * (g1 * coshf128(e) + g2 * f2 * L);
        Q ee = expf128(e), p = ee / (gp * PI), q = 1 / (ee * PI * gm);
        Q pm2 = pm / 2, f3 = FQ(pm2) < C(1e-30) ? 1 : sinf128(pm2) / pm2;
        Q r = PI * pm2 * f3 * f3, cc = 1, dd = -x * x / 4, sum = ff + r * q, sum1 = p;
        for (i = 1; i < 10000; i++) {
            ff = (i * ff + p + q) / ((Q)i * i - mu2); cc *= dd / i; p /= i - mu; q /= i + mu;
            Q del = cc * (ff + r * q); sum += del; Q del1 = cc * p - i * del; sum1 += del1;
            if (FQ(del) < (FQ(sum) + C(1e-30)) * EPSQ && FQ(del1) < FQ(sum1) * EPSQ) break;
        }
        Ymu = -sum; Y1 = -sum1 * 2 * xi;
        Ymup = mu * xi * Ymu - Y1;
        /* J_mu by its power series (mu in [-1/2,1/2]) : no cancellation for x < 2 */
        Q t = expf128(mu * logf128(x / 2)) * (mu > C(-0.5) - C(1e-3) ? rgamma1p(mu) : 0), s = 0;
        for (int k = 0; k < 200; k++) { s += t; t *= dd / ((k + 1) * (mu + k + 1)); if (FQ(t) < FQ(s) * EPSQ) break; }
        Jmu = s;
        /* if started at nl == 0, J_nu itself = Jmu, derivative from Wronskian-free relation below */
    } else {
        Q a = C(0.25) - mu2, p = -xi / 2, q = 1, br = 2 * x, bi = 2;
        Q fa = a * xi / (p * p + q * q), cr = br + q * fa, ci = bi + p * fa, den = br * br + bi * bi;
        Q dr = br / den, di = -bi / den, dlr = cr * dr - ci * di, dli = cr * di + ci * dr;
        Q t = p * dlr - q * dli; q = p * dli + q * dlr; p = t;
        for (i = 2; i < maxit; i++) {
            a += 2 * (i - 1); bi += 2; dr = a * dr + br; di = a * di + bi;
            fa = a / (cr * cr + ci * ci); cr = br + cr * fa; ci = bi - ci * fa;
            if (FQ(cr) + FQ(ci) < tiny) cr = tiny;
            if (FQ(dr) + FQ(di) < tiny) dr = tiny;
            den = dr * dr + di * di; dr /= den; di /= -den;
            dlr = cr * dr - ci * di; dli = cr * di + ci * dr;
            t = p * dlr - q * dli; q = p * dli + q * dlr; p = t;
            if (FQ(dlr - 1) + FQ(dli) < EPSQ) break;
        }
        if (i >= maxit) return 0;
        Q gam = (p - f) / q;
        Jmu = sqrtf128(w / ((p - f) * gam + q)); if (rj < 0) Jmu = -Jmu;
        Ymu = Jmu * gam; Ymup = Ymu * (p + q / gam);
        Y1 = mu * xi * Ymu - Ymup;
        if (gam == 0) { Ymup = Jmu * q; Y1 = -Ymup; }
    }
    Q fac = Jmu / rj; /* J_nu = isign * fac / big^lscale */
    for (Q s = 0; s < lscale; s += 1) { fac /= big; if (fac == 0) break; }
    out[0] = isign * fac; out[2] = isign * h * fac;
    for (long k = 1; k <= nl; k++) { if (FQ(Y1) > C(1e4900)) { out[1] = -QINF; out[3] = QINF; return 1; } Q t = (mu + k) * 2 * xi * Y1 - Ymu; Ymu = Y1; Y1 = t; }
    out[1] = Ymu; out[3] = nu * xi * Ymu - Y1;
    return 1;
}
/* x in (1e-3, 2) at which the n-th term of Temme's series for Y_mu vanishes (0: none): implementations that stop at a small
 * term are most likely to stop too early there. Only used to choose inputs. */
static Q temme_term(Q mu, Q x, int n) {
    Q g1, g2, gp, gm; temme_gammas(mu, &g1, &g2, &gp, &gm);
    Q L = -logf128(x / 2), e = mu * L, f2 = e == 0 ? 1 : sinhf128(e) / e, h = PI * mu / 2, f3 = sinf128(h) / h, r = PI * h * f3 * f3;
    Q ff = 2 / PI * (PI * mu / sinf128(PI * mu)) * (g1 * coshf128(e) + g2 * f2 * L), ee = expf128(e), p = ee / (gp * PI), q = 1 / (ee * PI * gm);
    for (int i = 1; i <= n; i++) { ff = (i * ff + p + q) / ((Q)i * i - mu * mu); p /= i - mu; q /= i + mu; }
    return ff + r * q;
}
double o_temme_zero(double mu, int n) {
    Q a = C(1e-3), b = C(1.9999); if (mu == 0) return 0;
    int s = temme_term(mu, a, n) > 0; if ((temme_term(mu, b, n) > 0) == s) return 0;
    for (int k = 0; k < 60; k++) { Q m = (a + b) / 2; if ((temme_term(mu, m, n) > 0) == s) a = m; else b = m; }
    return (double)a;
}
int o_besselik(double nu_, double x_, Q out[4]) {
    Q nu = nu_, x = x_, xi = 1 / x;
    const Q big = C(1e2000); long maxit = 4000000, i;
    if (x > 2e5 || nu > 2e6) return 0;
    long nl = (long)(nu + C(0.5)); Q mu = nu - nl, mu2 = mu * mu;
    Q h = nu * xi; if (h < C(1e-4900)) h = C(1e-4900);
    Q b = 2 * xi * nu, d = 0, c = h;
    for (i = 0; i < maxit; i++) { b += 2 * xi; d = 1 / (b + d); c = b + 1 / c; Q del = c * d; h *= del; if (FQ(del - 1) < EPSQ) break; }
    if (i >= maxit) return 0;
    Q ri = 1, rip = h, fact = nu * xi; long ls = 0;
    for (long k = nl; k >= 1; k--) { Q t = fact * ri + rip; fact -= xi; rip = fact * t + ri; ri = t; if (ri > big) { ri /= big; rip /= big; ls++; } }
    Q f = rip / ri, Kmu, K1, Imu;
    if (x < 2) {
        Q g1, g2, gp, gm; temme_gammas(mu, &g1, &g2, &gp, &gm);
        Q pm = PI * mu, fa = FQ(pm) < C(1e-30) ? 1 : pm / sinf128(pm);
        Q L = -logf128(x / 2), e = mu * L, f2 = FQ(e) < C(1e-30) ? 1 : sinhf128(e) / e;
        Q ff = fa * (g1 * coshf128(e) + g2 * f2 * L), sum = ff, ee = expf128(e);
        Q p = ee / (2 * gp), q = 1 / (2 * ee * gm), cc = 1, dd = x * x / 4, sum1 = p;
        for (i = 1; i < 10000; i++) {
            ff = (i * ff + p + q) / ((Q)i * i - mu2); cc *= dd / i; p /= i - mu; q /= i + mu;
            Q del = cc * ff; sum += del; Q del1 = cc * (p - i * ff); sum1 += del1;
            if (FQ(del) < FQ(sum) * EPSQ && FQ(del1) < FQ(sum1) * EPSQ) break;
        }
        Kmu = sum; K1 = sum1 * 2 * xi;
        Q t = expf128(mu * logf128(x / 2)) * rgamma1p(mu), s = 0;
        for (int k = 0; k < 200; k++) { s += t; t *= dd / ((k + 1) * (mu + k + 1)); if (FQ(t) < FQ(s) * EPSQ) break; }
        Imu = s;
    } else {
        Q bb = 2 * (1 + x), D = 1 / bb, hh = D, dh = D, q1 = 0, q2 = 1, a1 = C(0.25) - mu2, q = a1, cc = a1, a = -a1, s = 1 + q * dh;
        for (i = 2; i < maxit; i++) {
            a -= 2 * (i - 1); cc = -a * cc / i; Q qn = (q1 - bb * q2) / a; q1 = q2; q2 = qn; q += cc * qn;
            bb += 2; D = 1 / (bb + a * D); dh = (bb * D - 1) * dh; hh += dh; Q ds = q * dh; s += ds; if (FQ(ds / s) < EPSQ) break;
            if (a1 == 0) break;
        }
        if (i >= maxit) return 0;
        hh *= a1;
        Kmu = sqrtf128(PI / (2 * x)) * expf128(-x) / s; K1 = Kmu * (mu + x + C(0.5) - hh) * xi;
        Imu = xi / (f * Kmu - (mu * xi * Kmu - K1));
    }
    Q fac = Imu / ri; for (long k = 0; k < ls; k++) { fac /= big; if (fac == 0) break; }
    out[0] = fac; out[2] = h * fac;
    for (long k = 1; k <= nl; k++) { if (FQ(K1) > C(1e4900)) { out[1] = QINF; out[3] = -QINF; return 1; } Q t = (mu + k) * 2 * xi * K1 + Kmu; Kmu = K1; K1 = t; }
    out[1] = Kmu; out[3] = nu * xi * Kmu - K1;
    return 1;
}
/* ------------------------------------------------------------- LambertW --- */
/* branch 0: z >= -1/e, branch -1: -1/e <= z < 0; start value by double bisection on the branch */
int o_lambertw(int branch, double z_, Q *o) {
    Q z = z_;
    if (z == 0) { *o = branch == 0 ? 0 : -QINF; return 1; }
    const Q em1 = C(0.367879441171442321595523770161460867445811131031767834507837);
    Q t = z + em1; if (t < 0) return 0;
    Q p = sqrtf128(2 * (t / em1)), w; if (branch) p = -p;
    if (FQ(p) < C(1e-3)) { /* series about the branch point */
        static const Q cc[] = { -1, 1, -C(1.0)/3, C(11.0)/72, -C(43.0)/540, C(769.0)/17280, -C(221.0)/8505, C(680863.0)/43545600, -C(1963.0)/204120, C(226287557.0)/C(37623398400.0) };
        w = 0; for (int k = 9; k >= 0; k--) w = w * p + cc[k];
        if (FQ(p) < C(1e-4)) { *o = w; return 1; }
    } else if (branch == 0) {
        if (z < 1) w = -1 + p * (1 - p / 3 + C(11.0) / 72 * p * p) ; else { w = logf128(z); if (w > 1) w -= logf128(w); }
        if (z < 1 && z > C(-0.25)) w = z * (1 - z + C(1.5)*z*z) / (1 + FQ(z)*FQ(z)*2);
    } else {
        if (z < C(-0.25)) w = -1 + p * (1 - p / 3);
        else { Q l = logf128(-z); w = l - logf128(-l); }
    }
    /* Newton on g(w) = w + ln(w/z) (both have the sign of z) or Halley on w e^w - z */
    for (int i = 0; i < 200; i++) {
        Q nw;
        if (z > 0 && w > C(0.5)) { nw = w / (1 + w) * (1 + logf128(z / w)); }
        else if (z < 0 && w < C(-1.1)) { nw = w / (1 + w) * (1 + logf128(z / w)); }
        else { Q e = expf128(w), f = w * e - z, d = e * (w + 1) - (w + 2) * f / (2 * w + 2); nw = w - f / d; }
        Q dlt = FQ(nw - w); w = nw;
        if (dlt <= FQ(w) * C(1e-31) || dlt == 0) { *o = w; return 1; }
    }
    *o = w;
    return 2; /* converged to working precision only near the branch point */
}
/* complex residual |w e^w - z|/|z| computed in quad, with Im(w + ln w - ln z)/2pi */
void o_lambert_residual(double wr, double wi, double zr, double zi, double *rel, double *branch) {
    Q r = wr, i = wi;
    /* w + ln w - ln z = 2 pi i k ; ln|.| part is the relative residual */
    Q lw = logf128(r * r + i * i) / 2, lz = logf128((Q)zr * zr + (Q)zi * zi) / 2;
    Q re = r + lw - lz;
    Q im = i + atan2f128(i, r) - atan2f128(zi, zr);
    *branch = (double)(im / (2 * PI));
    Q k = roundf128(im / (2 * PI)), di = im - 2 * PI * k;
    *rel = (double)sqrtf128(re * re + di * di);
}
/* integer order, large arguments: glibc's jnf128/ynf128 */
void o_jyn(int n, double x, Q *o) { o[0] = jnf128(n, x); o[1] = ynf128(n, x); }
