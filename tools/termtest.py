import sys; sys.path.insert(0,'/verif')
from vf.irx.terms import *
from vf.irx.terms import _asbv
import random
x=var('x',32);y=var('y',32);z=var('z',32)
assert or_(shlc(x,7),lshrc(x,25)) is rotl(x,7)
ch1=xor(and_(x,xor(y,z)),z); ch2=xor(and_(x,y),and_(not_(x),z)); assert ch1 is ch2
m1=or_(and_(x,or_(y,z)),and_(y,z)); m2=xor(and_(x,y),and_(x,z),and_(y,z)); assert m1 is m2,(m1,m2)
random.seed(int(sys.argv[1]))
for it in range(4000):
    pool=[var('a',8),var('b',16),var('c',32),var('d',64),var('e',32),const(random.getrandbits(32),32),const(random.getrandbits(8),8)]
    env=Env({'a':random.getrandbits(8),'b':random.getrandbits(16),'c':random.getrandbits(32),'d':random.getrandbits(64),'e':random.getrandbits(32)})
    def val(t): return env.ev(t)
    for k in range(12):
        t=random.choice(pool); op=random.choice(['add','sub','xor','and','or','shl','lshr','zext','ext','sext','cat','ite','eq','ult','slt','mulc','not','udiv','mask'])
        u=random.choice([p for p in pool if p.w==t.w]); w=t.w; a,b=val(t),val(u); M=(1<<w)-1
        s=lambda v:sval(v,w)
        if op=='add': r,e=add(t,u),(a+b)&M
        elif op=='sub': r,e=sub(t,u),(a-b)&M
        elif op=='xor': r,e=xor(t,u),a^b
        elif op=='and': r,e=and_(t,u),a&b
        elif op=='or': r,e=or_(t,u),a|b
        elif op=='mask': m=((1<<random.randrange(w+1))-1)<<random.randrange(w)&M; r,e=(and_(t,const(m,w)),a&m) if random.random()<.5 else (or_(t,const(m,w)),a|m)
        elif op=='not': r,e=not_(t),a^M
        elif op=='shl': k2=random.randrange(w); r,e=shlc(t,k2),(a<<k2)&M
        elif op=='lshr': k2=random.randrange(w); r,e=lshrc(t,k2),a>>k2
        elif op=='zext': r,e=zext(t,w+8),a
        elif op=='sext': r,e=sext(t,w+8),s(a)&((1<<(w+8))-1)
        elif op=='ext':
            lo=random.randrange(w); n=random.randrange(1,w-lo+1); r,e=ext(t,lo,n),(a>>lo)&((1<<n)-1)
        elif op=='cat':
            if w>64: continue
            r,e=cat((t,u)),(a<<w)|b
        elif op=='ite':
            c=random.choice([p for p in pool]); cc=eq(ext(c,0,1),TRUE); r,e=ite(cc,t,u),(a if val(c)&1 else b)
        elif op=='eq': r,e=eq(t,u),int(a==b)
        elif op=='ult': r,e=ult(t,u),int(a<b)
        elif op=='slt': r,e=slt(t,u),int(s(a)<s(b))
        elif op=='mulc': kk=random.getrandbits(6); r,e=mulc(t,kk),(a*kk)&M
        elif op=='udiv': r,e=binop('udiv',t,u),(a//b if b else M)
        assert val(r)==e,(op,t,u,r,val(r),e)
        assert umin(r)<=e<=umax(r),(r,)
        if it%20==0:
          zz=z3.simplify(z3.substitute(_asbv(z3t(r)),*[(z3.BitVec(n,wd),z3.BitVecVal(env.vals[n],wd)) for n,wd in (('a',8),('b',16),('c',32),('d',64),('e',32))]))
          assert zz.as_long()==e,(op,r,zz,e)
        if r.w<=128: pool.append(r)
print("ok",len(pool))
