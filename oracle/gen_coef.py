# Taylor coefficients of 1/Gamma(1+z) for oracle.c, run with python3-vt
import mpmath as mp
mp.mp.dps=200
N=45
b=[None, mp.euler]+[-mp.zeta(k)*(-1)**k for k in range(2,N+1)]
c=[mp.mpf(1)]
for n in range(1,N): c.append(sum(b[j]*c[n-j] for j in range(1,n+1))/n)
with open(__file__.replace('gen_coef.py','rgamma_coef.h'),'w') as f:
    f.write('/* Taylor coefficients of 1/Gamma(1+z), generated by gen_coef.py */\n#define NRG %d\nstatic const _Float128 RG[NRG] = {\n'%len(c))
    for v in c: f.write('  %sf128,\n'%mp.nstr(v,45,min_fixed=0,max_fixed=0))
    f.write('};\n')
