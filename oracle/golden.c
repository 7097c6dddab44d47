/* self-test of oracle.c against golden.txt */
#define __STDC_WANT_IEC_60559_TYPES_EXT__ 1
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef _Float128 Q;
void o_lgamma(double,Q*);void o_gamma(double,Q*);void o_beta(double,double,Q*,double*);int o_gammapq(double,double,Q*,Q*);void o_gammadens(double,double,Q*);
int o_betai(double,double,double,Q*,Q*);void o_betadens(double,double,double,Q*);void o_erf(double,Q*);void o_erfc(double,Q*);void o_erfcx(double,Q*);
void o_dawson(double,Q*);void o_w(double,double,Q*,Q*,double*);int o_besseljy(double,double,Q*);int o_besselik(double,double,Q*);int o_lambertw(int,double,Q*);
/* text: whole golden file. returns number of bad values, *n = values compared; err: worst offender */
int o_selftest(const char *text, int *n, double *worst, char *err, int errlen) {
    int bad = 0; *n = 0; *worst = 0; err[0] = 0;
    char line[2048];
    while (*text) {
        const char *e = strchr(text, '\n'); if (!e) e = text + strlen(text);
        int l = e - text; if (l >= (int)sizeof line) return -1;
        memcpy(line, text, l); line[l] = 0; text = *e ? e + 1 : e;
        if (!l) continue;
        char fn[32]; double a[3]; int na = 0; Q ref[4], got[4]; int nv = 0; int off = 0;
        sscanf(line, "%31s%n", fn, &off);
        char *eq = strchr(line, '='); if (!eq) return -1;
        char *p = line + off;
        while (p < eq - 1) a[na++] = strtod(p, &p);
        p = eq + 1; while (*p) { ref[nv++] = strtof128(p, &p); while (*p == ' ') p++; }
        double d, tol = 1e-26;
        int ok = 1;
        if (!strcmp(fn, "gamma")) o_gamma(a[0], got);
        else if (!strcmp(fn, "lgamma")) o_lgamma(a[0], got), tol = 1e-22;
        else if (!strcmp(fn, "lbeta")) { Q b; o_beta(a[0], a[1], &b, &d); got[0] = b; ref[0] = expf128(ref[0]); }
        else if (!strcmp(fn, "gammapq")) ok = o_gammapq(a[0], a[1], got, got + 1), tol = 1e-24;
        else if (!strcmp(fn, "gammadens")) o_gammadens(a[0], a[1], got);
        else if (!strcmp(fn, "betai")) ok = o_betai(a[0], a[1], a[2], got, got + 1), tol = 1e-24;
        else if (!strcmp(fn, "betadens")) o_betadens(a[0], a[1], a[2], got);
        else if (!strcmp(fn, "erf")) o_erf(a[0], got);
        else if (!strcmp(fn, "erfc")) o_erfc(a[0], got);
        else if (!strcmp(fn, "erfcx")) o_erfcx(a[0], got);
        else if (!strcmp(fn, "dawson")) o_dawson(a[0], got);
        else if (!strcmp(fn, "w")) o_w(a[0], a[1], got, got + 1, &d), tol = 1e-22;
        else if (!strcmp(fn, "besseljy")) ok = o_besseljy(a[0], a[1], got), tol = 1e-24;
        else if (!strcmp(fn, "besselik")) ok = o_besselik(a[0], a[1], got), tol = 1e-26;
        else if (!strcmp(fn, "lambert0")) ok = o_lambertw(0, a[0], got), tol = 1e-20;
        else if (!strcmp(fn, "lambertm1")) ok = o_lambertw(-1, a[0], got), tol = 1e-20;
        else return -1;
        for (int i = 0; i < nv; i++) {
            Q s = fabsf128(ref[i]);
            if (!strcmp(fn, "w")) { s = sqrtf128(ref[0]*ref[0]+ref[1]*ref[1]); }
            if (!strcmp(fn, "besseljy") && a[1] > a[0]) { int b = i & 2; s = sqrtf128(ref[b]*ref[b]+ref[b+1]*ref[b+1]); }
            if ((!strcmp(fn, "gammapq") || !strcmp(fn, "betai")) && s < 1e-3f128 && i == 1) s = 1e-3f128;
            if (!strcmp(fn, "betai") && s < 1e-3f128) s = 1e-3f128;
            Q r = s == 0 ? fabsf128(got[i]) : fabsf128(got[i] - ref[i]) / s;
            (*n)++;
            double q = (double)r / tol;
            if (!(q <= 1) || !ok) { bad++; }
            if (!(q <= *worst) || !ok) { *worst = q; snprintf(err, errlen, "%s [%d] rel %.3g ok %d", line, i, (double)r, ok); }
        }
    }
    return bad;
}
#ifdef MAIN
int main(int c, char **v) { static char b[1<<20]; FILE *f = fopen(v[1], "r"); fread(b,1,sizeof b-1,f); int n; double w; char e[4000];
 char *p=b; while(*p){char*q=strchr(p,'\n'); char t=q[1]; q[1]=0; int bad=o_selftest(p,&n,&w,e,4000); if(bad) printf("BAD %s\n",e); q[1]=t; p=q+1;}
 int bad=o_selftest(b,&n,&w,e,4000); printf("n %d bad %d worst %g %s\n",n,bad,w,e); return bad!=0; }
#endif
