"""Translation of bit-vector conditions into linear integer arithmetic (exact: wrap-around is expressed with mod).
Used for queries with division by constants, where bit-blasting is slow."""
import z3
from .terms import N, sx
class NoInt(Exception): pass
# a linear form is (constant, ((atom,coefficient),...)) over integer-valued atoms; divisions by a constant are normalised
# so that equal quotients become the same atom
class IntZ:
    def __init__(s,kinds,bounds):
        """kinds: var id -> kind; bounds: var id -> (lo,hi) of the int variables"""
        s.kinds=kinds; s.bounds=bounds; s.m={}; s.b={}; s.dv={}; s.at={}; s.az=[]; s.ab=[]; s.zc={}
    def hasdiv(s,n):
        r=s.dv.get(n.id)
        if r is None:
            r=n.op in('SREM','SDIV','UREM','UDIV','MUL') and n.b.op=='CONST'
            if not r:
                for x in (n.a,n.b,n.c):
                    if x is not None and s.hasdiv(x): r=True; break
            s.dv[n.id]=r
        return r
    def atom(s,key,z,lo,hi):
        i=s.at.get(key)
        if i is None: i=len(s.az); s.at[key]=i; s.az.append(z()); s.ab.append((lo,hi))
        return (0,((i,1),))
    def var(s,vid,lo,hi): return s.atom(('v',vid),lambda:z3.Int('i%d'%vid),lo,hi)
    def z(s,l):
        r=s.zc.get(l)
        if r is None:
            xs=[s.az[i] if k==1 else s.az[i]*k for i,k in l[1]]
            if l[0] or not xs: xs.append(z3.IntVal(l[0]))
            r=xs[0] if len(xs)==1 else z3.Sum(xs); s.zc[l]=r
        return r
    @staticmethod
    def add(x,y,k=1):
        d=dict(x[1])
        for i,c in y[1]:
            v=d.get(i,0)+c*k
            if v: d[i]=v
            else: d.pop(i,None)
        return (x[0]+y[0]*k,tuple(sorted(d.items())))
    @staticmethod
    def mul(x,k): return (x[0]*k,tuple((i,c*k) for i,c in x[1])) if k else (0,())
    def rng(s,l):
        lo=hi=l[0]
        for i,k in l[1]:
            a,b=s.ab[i]
            if k>0: lo+=a*k; hi+=b*k
            else: lo+=b*k; hi+=a*k
        return lo,hi
    def mkt(s,l,lo=None,hi=None):
        a,b=s.rng(l)
        return l,a if lo is None else max(a,lo),b if hi is None else min(b,hi)
    def fdiv(s,x,k):
        """floor division of (lin,lo,hi) by k>0"""
        l,lo,hi=x
        if lo//k==hi//k: return (lo//k,()),lo//k,lo//k
        q=(l[0]//k,tuple((i,c//k) for i,c in l[1] if c//k)); r=(l[0]%k,tuple((i,c%k) for i,c in l[1] if c%k))
        if r[1]:
            a,b=s.rng(r); t=s.atom(('/',r,k),lambda:s.z(r)/z3.IntVal(k),a//k,b//k); q=s.add(q,t)
        return s.mkt(q,lo//k,hi//k)
    def fmod(s,x,k):
        """mathematical remainder by k>0"""
        l,lo,hi=x
        if lo//k==hi//k: return s.mkt((l[0]-(lo//k)*k,l[1]),lo%k,hi%k)
        r=(l[0]%k,tuple((i,c%k) for i,c in l[1] if c%k)); a,b=s.rng(r)
        if a//k==b//k: return s.mkt((r[0]-(a//k)*k,r[1]),0,k-1)
        return s.mkt(s.atom(('%',r,k),lambda:s.z(r)%k,0,k-1),0,k-1)
    def lt0(s,x):
        """0/1 form of x<0"""
        l,lo,hi=x
        if lo>=0: return (0,())
        if hi<0: return (1,())
        return s.atom(('<0',l),lambda:z3.If(s.z(l)<0,z3.IntVal(1),z3.IntVal(0)),0,1)
    # every term: (linear form, lo, hi), congruent to the term modulo 2^w
    def signed(s,n): return s.sg(s.t(n),n.w)
    def sg(s,x,w):
        l,lo,hi=x; h=1<<(w-1)
        if -h<=lo and hi<h: return x
        if -3*h<=lo and hi<3*h:
            if hi>=h: l=s.add(l,s.lt0(((h-1-l[0],tuple((i,-c) for i,c in l[1])),h-1-hi,h-1-lo)),-2*h)   # h-1-l<0
            if lo<-h: l=s.add(l,s.lt0(((x[0][0]+h,x[0][1]),lo+h,hi+h)),2*h)
            return s.mkt(l,-h,h-1)
        m=s.fmod((( l[0]+h,l[1]),lo+h,hi+h),2*h); return s.mkt((m[0][0]-h,m[0][1]),-h,h-1)
    def uns(s,n): return s.us(s.t(n),n.w)
    def us(s,x,w):
        l,lo,hi=x; q=1<<w
        if 0<=lo and hi<q: return x
        if -q<=lo and hi<q: return s.mkt(s.add(l,s.lt0(x),q),0,q-1)
        return s.fmod(x,q)
    def t(s,n):
        r=s.m.get(n.id)
        if r is None:
            r=s._t(n)
            if r[1]<-(1<<(n.w+3)) or r[2]>(1<<(n.w+3)): # keep numbers small
                h=1<<(n.w-1); m=s.fmod(((r[0][0]+h,r[0][1]),r[1]+h,r[2]+h),2*h); r=s.mkt((m[0][0]-h,m[0][1]),-h,h-1)
            s.m[n.id]=r
        return r
    def ite(s,key,p,x,y):
        """p: z3 Bool; x,y forms with bounds"""
        if x[0]==y[0]: return s.mkt(x[0],min(x[1],y[1]),max(x[2],y[2]))
        d=s.add(x[0],y[0],-1)
        if not d[1]: # differ by a constant
            b=s.atom(('?',key),lambda:z3.If(p,z3.IntVal(1),z3.IntVal(0)),0,1); return s.mkt(s.add(y[0],b,d[0]),min(x[1],y[1]),max(x[2],y[2]))
        return s.mkt(s.atom(('ite',key,x[0],y[0]),lambda:z3.If(p,s.z(x[0]),s.z(y[0])),min(x[1],y[1]),max(x[2],y[2])))
    def absv(s,x):
        l,lo,hi=x
        if lo>=0: return x
        neg=(( -l[0],tuple((i,-c) for i,c in l[1])),-hi,-lo)
        if hi<=0: return neg
        return s.mkt(s.atom(('abs',l),lambda:z3.If(s.z(l)<0,-s.z(l),s.z(l)),0,max(-lo,hi)))
    @staticmethod
    def neg(x): return ((-x[0][0],tuple((i,-c) for i,c in x[0][1])),-x[2],-x[1])
    def signfix(s,x,r,key):
        """r (>=0 form) with the sign of x"""
        if x[1]>=0: return r
        if x[2]<0: return s.neg(r)
        m=max(abs(r[1]),abs(r[2])); return s.mkt(s.atom(('sgn',key,x[0],r[0]),lambda:z3.If(s.z(x[0])<0,-s.z(r[0]),s.z(r[0])),-m,m))
    def _t(s,n):
        op=n.op; a,b,c,w=n.a,n.b,n.c,n.w
        if n.fp: raise NoInt(op)
        if w==1 and op not in('CONST',):
            p=s.bool(n); return s.mkt(s.atom(('?',n.id),lambda:z3.If(p,z3.IntVal(1),z3.IntVal(0)),0,1))
        if op=='CONST':
            v=sx(n.imm,w) if w>1 else n.imm; return (v,()),v,v
        if op=='VAR':
            k=s.kinds.get(n.imm)
            if k=='int': lo,hi=s.bounds[n.imm]; return s.mkt(s.var(n.imm,lo,hi))
            if k in('byte','choice'): return s.mkt(s.var(n.imm,0,255))
            if k=='rand': return s.mkt(s.var(n.imm,0,(1<<31)-1))
            raise NoInt('var')
        if op=='TABLE':
            vid,tab=n.imm; v=s.z(s.var(vid,0,255))
            def f():
                r=z3.IntVal(tab[-1])
                for i in range(len(tab)-1): r=z3.If(v==i,z3.IntVal(tab[i]),r)
                return r
            return s.mkt(s.atom(('tab',n.id),f,min(tab),max(tab)))
        if op=='TEXT':
            kind=(n.imm>>16)&255
            if kind==1: raise NoInt('real text')
            i=n.imm&255; nn=(n.imm>>8)&255; p=nn-1-i
            x=s.signed(a) if kind==0 else s.uns(a)
            d=s.fmod(s.fdiv(s.absv(x),10**p),10); d=s.mkt((d[0][0]+48,d[0][1]),48,57)
            if i==0 and kind==0 and x[1]<0: d=s.mkt(s.atom(('sgc',n.id),lambda:z3.If(s.z(x[0])<0,z3.IntVal(45),s.z(d[0])),45,57))
            return d
        if op in('ADD','SUB'):
            x,y=s.t(a),s.t(b); k=1 if op=='ADD' else -1
            return s.mkt(s.add(x[0],y[0],k),x[1]+(y[1] if k>0 else -y[2]),x[2]+(y[2] if k>0 else -y[1]))
        if op=='MUL':
            if b.op!='CONST': raise NoInt('mul')
            k=sx(b.imm,w); x=s.t(a); q=sorted((x[1]*k,x[2]*k)); return s.mkt(s.mul(x[0],k),q[0],q[1])
        if op=='SHL':
            if b.op!='CONST' or b.imm>=w: raise NoInt('shl')
            k=1<<b.imm; x=s.t(a); return s.mkt(s.mul(x[0],k),x[1]*k,x[2]*k)
        if op in('LSHR','UDIV','UREM'):
            if b.op!='CONST': raise NoInt(op)
            x=s.uns(a)
            if op=='LSHR':
                if b.imm>=w: return (0,()),0,0
                k=1<<b.imm
            else:
                k=b.imm
                if not k: raise NoInt('zero')
            return s.fmod(x,k) if op=='UREM' else s.fdiv(x,k)
        if op=='ASHR':
            if b.op!='CONST': raise NoInt(op)
            return s.fdiv(s.signed(a),1<<min(b.imm,w-1))
        if op in('SDIV','SREM'):
            if b.op!='CONST': raise NoInt(op)
            k=sx(b.imm,w)
            if k==0 or k==-1: raise NoInt('div')
            x=s.signed(a); ak=abs(k); y=s.absv(x)
            if op=='SDIV':
                r=s.signfix(x,s.fdiv(y,ak),('q',ak)); return s.neg(r) if k<0 else r
            return s.signfix(x,s.fmod(y,ak),('r',ak))
        if op=='ZEXT': return s.uns(a)
        if op=='SEXT': return s.signed(a)
        if op=='EXTRACT':
            if n.imm==0: return s.t(a)
            return s.fdiv(s.uns(a),1<<n.imm)
        if op=='CONCAT':
            x,y=s.t(a),s.uns(b); k=1<<b.w; return s.mkt(s.add(s.mul(x[0],k),y[0]),x[1]*k+y[1],x[2]*k+y[2])
        if op=='XOR' and b.op=='CONST' and b.imm==(1<<w)-1: x=s.t(a); return s.mkt(((-x[0][0]-1),tuple((i,-k) for i,k in x[0][1])),-x[2]-1,-x[1]-1)
        if op=='AND': # contiguous mask
            if a.op=='ITE' and a.b.op=='CONST' and a.c.op=='CONST': a,b=b,a
            if b.op=='CONST': return s.mask(s.uns(a),b.imm)
            if b.op=='ITE' and b.b.op=='CONST' and b.c.op=='CONST':
                x=s.uns(a); return s.ite(b.a.id,s.bool(b.a),s.mask(x,b.b.imm),s.mask(x,b.c.imm))
        if op=='ITE': return s.ite(a.id,s.bool(a),s.t(b),s.t(c))
        raise NoInt(op)
    def mask(s,x,m):
        if m==0: return (0,()),0,0
        k=(m&-m).bit_length()-1; m>>=k
        if m&(m+1): raise NoInt('mask')
        y=s.fmod(s.fdiv(x,1<<k),m+1); return s.mkt(s.mul(y[0],1<<k),y[1]<<k,y[2]<<k)
    def bool(s,n):
        r=s.b.get(n.id)
        if r is None: r=s._bool(n); s.b[n.id]=r
        return r
    def cmp(s,x,y,eq):
        l=s.add(x[0],y[0],-1); lo,hi=s.rng(l); lo=max(lo,x[1]-y[2]); hi=min(hi,x[2]-y[1])
        if eq:
            if lo==hi==0: return z3.BoolVal(True)
            if lo>0 or hi<0: return z3.BoolVal(False)
        else:
            if hi<0: return z3.BoolVal(True)
            if lo>=0: return z3.BoolVal(False)
        L=(0,tuple((i,k) for i,k in l[1] if k>0)); R=(-l[0],tuple((i,-k) for i,k in l[1] if k<0))
        return s.z(L)==s.z(R) if eq else s.z(L)<s.z(R)
    def _bool(s,n):
        op=n.op; a,b=n.a,n.b
        if op=='CONST': return z3.BoolVal(bool(n.imm))
        if op=='EQ':
            if a.fp: raise NoInt('fp')
            if a.w==1: return s.bool(a)==s.bool(b)
            x,y=s.t(a),s.t(b); q=1<<a.w
            if x[2]-y[1]<q and y[2]-x[1]<q: return s.cmp(x,y,True)
            return s.cmp(s.signed(a),s.signed(b),True)
        if op=='SLT': return s.cmp(s.signed(a),s.signed(b),False)
        if op=='ULT': return s.cmp(s.uns(a),s.uns(b),False)
        if op=='AND': return z3.And(s.bool(a),s.bool(b))
        if op=='OR': return z3.Or(s.bool(a),s.bool(b))
        if op=='XOR': return z3.Xor(s.bool(a),s.bool(b))
        if op=='ITE': return z3.If(s.bool(a),s.bool(b),s.bool(n.c))
        if op=='EXTRACT': x=s.fmod(s.fdiv(s.uns(a),1<<n.imm),2); return s.z(x[0])==1
        if op in('ADD','SUB'): return z3.Xor(s.bool(a),s.bool(b))
        raise NoInt(op)
