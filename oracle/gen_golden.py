# Golden values for the oracle self-test (oracle.c must reproduce them), computed with mpmath.
# Run with python3-vt; output: golden.txt, lines "fn nargs args... = nvals vals..."
import mpmath as mp, random, math, sys
mp.mp.dps=60
R=random.Random(20240607)
out=[]
def nd(x): return mp.nstr(x,45,min_fixed=0,max_fixed=0)
def put(fn,args,vals):
    out.append("%s %s = %s"%(fn,' '.join(a.hex() if isinstance(a,float) else str(a) for a in args),' '.join(nd(mp.mpf(v)) for v in vals)))
def lu(a,b): return math.exp(R.uniform(math.log(a),math.log(b)))
M=mp.mpf
for _ in range(60):
    x=R.choice([lu(1e-300,171.),R.uniform(0,171),R.uniform(-180,0),-R.randint(1,175)+R.choice([-1,1])*lu(1e-12,.3),R.uniform(0.4,2.6)])
    put('gamma',[x],[mp.gamma(M(x))])
    x=R.choice([lu(1e-300,1e300),R.uniform(0.3,3),lu(.1,200),1+R.uniform(-1,1)*lu(1e-12,.1),2+R.uniform(-1,1)*lu(1e-12,.1)])
    if x>1e25: continue
    put('lgamma',[x],[mp.loggamma(M(x))])
for _ in range(50):
    a=R.choice([lu(1e-8,1e3),lu(.1,100),float(R.randint(1,40))]); b=R.choice([lu(1e-8,1e3),lu(.1,1e8)])
    put('lbeta',[a,b],[mp.loggamma(M(a))+mp.loggamma(M(b))-mp.loggamma(M(a)+M(b))])
def incP(a,x):
    with mp.workdps(120):
        a=M(a);x=M(x)
        P=mp.exp(a*mp.log(x)-x-mp.loggamma(a+1))*mp.hyp1f1(1,a+1,x)
        return P,1-P
for _ in range(70):
    a=R.choice([lu(1e-6,1e4),lu(.1,300),lu(.01,10)])
    x=R.choice([lu(1e-10,100),max(a+R.uniform(-8,8)*math.sqrt(a),1e-5),a*lu(.1,5)])
    if x>20000: continue
    P,Qv=incP(a,x)
    if P<mp.mpf(10)**-300 or Qv<mp.mpf(10)**-30: continue
    put('gammapq',[a,x],[P,Qv])
    put('gammadens',[a,x],[mp.exp((M(a)-1)*mp.log(M(x))-M(x)-mp.loggamma(M(a)))])
def incB(a,b,x):
    with mp.workdps(120):
        a=M(a);b=M(b);x=M(x)
        I=mp.exp(a*mp.log(x)+b*mp.log(1-x)-mp.log(a)-mp.loggamma(a)-mp.loggamma(b)+mp.loggamma(a+b))*mp.hyp2f1(1,a+b,a+1,x)
        return I,1-I
for _ in range(70):
    a=R.choice([lu(1e-4,50),lu(.1,3000),float(R.randint(1,20))]); b=R.choice([lu(1e-4,50),lu(.1,3000)])
    m=a/(a+b); s=math.sqrt(a*b/(a+b)**2/(a+b+1))
    x=R.choice([R.random(),min(max(m+R.uniform(-5,5)*s,1e-9),1-1e-9),lu(1e-12,.5)])
    if a+b>1500 and x>0.9: continue
    I,J=incB(a,b,x)
    if I<mp.mpf(10)**-200 or J<mp.mpf(10)**-30: continue
    put('betai',[a,b,x],[I,J])
    put('betadens',[a,b,x],[mp.exp((M(a)-1)*mp.log(M(x))+(M(b)-1)*mp.log(1-M(x))-mp.loggamma(M(a))-mp.loggamma(M(b))+mp.loggamma(M(a)+M(b)))])
for _ in range(40):
    x=R.choice([R.uniform(-6,6),lu(1e-300,1),R.uniform(0,27)])
    put('erf',[x],[mp.erf(M(x))]); put('erfc',[x],[mp.erfc(M(x))])
    x=R.choice([R.uniform(-26,60),lu(1e-300,1e300),lu(1,1e5)])
    with mp.workdps(80):
        X=M(x)
        v=mp.exp(X*X)*mp.erfc(X) if x<1e4 else (1-1/(2*X*X)+3/(4*X**4)-15/(8*X**6)+105/(16*X**8)-945/(32*X**10)+10395/(64*X**12))/(X*mp.sqrt(mp.pi))
        if x>=1e4: v=(1/(X*mp.sqrt(mp.pi)))*sum((-1)**k*mp.fac2(2*k-1)/(2*X*X)**k for k in range(0,12))
    put('erfcx',[x],[v])
    x=R.choice([R.uniform(-12,12),lu(1e-300,1),lu(1,1e5)])
    with mp.workdps(80):
        X=M(x)
        v=X*mp.hyp1f1(1,mp.mpf(3)/2,-X*X) if abs(x)<200 else sum(mp.fac2(2*k-1)/(2*X*X)**k for k in range(0,20))/(2*X)
    put('dawson',[x],[v])
for _ in range(200):
    t=R.randint(0,5)
    x,y=[(R.uniform(-8,8),R.uniform(-5,8)),(lu(1e-9,30)*R.choice([-1,1]),lu(1e-9,30)),(R.uniform(-30,30),R.uniform(0,30)),(R.uniform(-7,7),-lu(1e-9,3)),(R.uniform(-3,3),R.uniform(-1e-3,1e-3)),(R.uniform(-.3,.3),R.uniform(-.3,.3))][t]
    with mp.workdps(90):
        z=mp.mpc(x,y)
        w=mp.exp(-z*z)*mp.erfc(mp.mpc(0,-1)*z) if abs(z)<60 else 0
    put('w',[x,y],[w.real,w.imag])
for _ in range(90):
    nu=R.choice([float(R.randint(0,40)),R.uniform(0,40),R.randint(0,20)+.5,lu(1e-12,1),R.uniform(0,300)]); x=R.choice([lu(.001,3),R.uniform(0,60),lu(1,1000),max(nu+R.uniform(-5,5),.1)])
    with mp.workdps(60):
        n=M(nu);X=M(x)
        put('besseljy',[nu,x],[mp.besselj(n,X),mp.bessely(n,X),mp.besselj(n-1,X)/2-mp.besselj(n+1,X)/2,(mp.bessely(n-1,X)-mp.bessely(n+1,X))/2])
        put('besselik',[nu,x],[mp.besseli(n,X),mp.besselk(n,X),(mp.besseli(n-1,X)+mp.besseli(n+1,X))/2,-(mp.besselk(n-1,X)+mp.besselk(n+1,X))/2])
for _ in range(80):
    z=R.choice([lu(1e-300,1e300),R.uniform(-.3678,3),-math.exp(-1)+lu(1e-14,.1),-lu(1e-300,.3678)])
    with mp.workdps(80):
        if M(z)>-mp.exp(-1): put('lambert0',[z],[mp.lambertw(M(z),0).real])
        if -mp.exp(-1)<M(z)<0: put('lambertm1',[z],[mp.lambertw(M(z),-1).real])
open(__file__.replace('gen_golden.py','golden.txt'),'w').write('\n'.join(out)+'\n')
