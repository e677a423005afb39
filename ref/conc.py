"""Concolic helpers for the reference semantics: a value is a Python int/float/bool or a term of sym.terms.
T(cond) decides a condition under the current assignment and records it when it is symbolic."""
import math, sys, os
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sym.terms import N, Eval, sx, bits2d, d2bits, compute, fdiv, frti, realtext
class Unspecified(Exception): pass          # the properties leave this behaviour open
class Budget(Exception): pass
class Ctx: pass
CUR=Ctx()
def start(tab,ev,maxbr=4000):
    CUR.tab=tab; CUR.ev=ev; CUR.rho=[]; CUR.seen=set(); CUR.maxbr=maxbr
M64=(1<<64)-1
def isN(x): return type(x) is N
def wrap(x): 
    x&=M64
    return x-(1<<64) if x>>63 else x
def bv(x,w=64):
    if type(x) is N: return x
    return CUR.tab.const(int(x),w)
def fp(x): return x if type(x) is N else CUR.tab.real(x)
def val(x):
    """concrete value of an INTEGER (signed)"""
    if type(x) is N: return sx(CUR.ev(x),x.w)
    return x
def uval(x): return CUR.ev(x) if type(x) is N else x
def fval(x): return bits2d(CUR.ev(x)) if type(x) is N else x
def simp(n):
    """term -> Python value when constant"""
    if n.op=='CONST':
        if n.fp: return bits2d(n.imm)
        if n.w==1: return bool(n.imm)
        if n.w==8: return n.imm
        return sx(n.imm,n.w)
    return n
def T(c):
    if type(c) is not N: return bool(c)
    if c.op=='CONST': return bool(c.imm)
    v=bool(CUR.ev(c))
    pos=c
    if c.op=='XOR' and c.w==1 and c.b.op=='CONST': pos=c.a; pv=not v
    else: pv=v
    k=pos.id
    if k not in CUR.seen:
        CUR.seen.add(k); CUR.rho.append(('B',pos,int(pv)))
        if len(CUR.rho)>CUR.maxbr: raise Budget('reference branches')
    return v
def pick(x):
    """fix a symbolic integer to its concrete value (records x==v)"""
    if type(x) is not N: return x
    v=CUR.ev(x)
    if x.op!='CONST' and ('C',x.id) not in CUR.seen: CUR.seen.add(('C',x.id)); CUR.rho.append(('C',x,v))
    return v if x.w==8 else sx(v,x.w)
def _b(op,a,b,w=64):
    return simp(CUR.tab.mk(op,w,0,bv(a,64),bv(b,64)))
def iadd(a,b):
    if type(a) is not N and type(b) is not N: return wrap(a+b)
    return _b('ADD',a,b)
def isub(a,b):
    if type(a) is not N and type(b) is not N: return wrap(a-b)
    return _b('SUB',a,b)
def imul(a,b):
    if type(a) is not N and type(b) is not N: return wrap(a*b)
    return _b('MUL',a,b)
def bsub(a,b):
    if type(a) is not N: return a-b
    return simp(CUR.tab.mk('SUB',8,0,a,CUR.tab.const(b,8)))
def ineg(a): return isub(0,a)
def idiv(a,b): # truncating, b!=0
    if type(a) is not N and type(b) is not N:
        q=abs(a)//abs(b); return wrap(-q if (a<0)!=(b<0) else q)
    return _b('SDIV',a,b)
def imod(a,b):
    if type(a) is not N and type(b) is not N:
        r=abs(a)%abs(b); return -r if a<0 else r
    return _b('SREM',a,b)
def w_of(a,b):
    if type(a) is N: return a.w
    if type(b) is N: return b.w
    return 64
def eq(a,b):
    if type(a) is not N and type(b) is not N: return a==b
    w=w_of(a,b); return simp(CUR.tab.mk('EQ',1,0,bv(a,w),bv(b,w)))
def lt(a,b):
    if type(a) is not N and type(b) is not N: return a<b
    w=w_of(a,b); return simp(CUR.tab.mk('SLT',1,0,bv(a,w),bv(b,w)))
def ult(a,b):
    if type(a) is not N and type(b) is not N: return a<b
    w=w_of(a,b); return simp(CUR.tab.mk('ULT',1,0,bv(a,w),bv(b,w)))
def NOT(a):
    if type(a) is not N: return not a
    return simp(CUR.tab.NOT(a))
def AND(a,b):
    if type(a) is not N: return b if a else False
    if type(b) is not N: return a if b else False
    return simp(CUR.tab.mk('AND',1,0,a,b))
def OR(a,b):
    if type(a) is not N: return True if a else b
    if type(b) is not N: return True if b else a
    return simp(CUR.tab.mk('OR',1,0,a,b))
def ne(a,b): return NOT(eq(a,b))
def le(a,b): return NOT(lt(b,a))
def gt(a,b): return lt(b,a)
def ge(a,b): return NOT(lt(a,b))
def ite(c,a,b,w=64):
    if type(c) is not N: return a if c else b
    return simp(CUR.tab.mk('ITE',w,0,c,bv(a,w),bv(b,w)))
def rng(c,lo,hi):
    """lo<=c<=hi for a byte"""
    if type(c) is not N: return lo<=c<=hi
    return AND(NOT(ult(c,lo)),ult(c,hi+1)) if lo else ult(c,hi+1)
def fbin(op,a,b):
    if type(a) is not N and type(b) is not N: return bits2d(compute(op,64,64,0,d2bits(a),d2bits(b),0))
    return simp(CUR.tab.mk(op,64,1,fp(a),fp(b)))
def fcmp(op,a,b):
    if type(a) is not N and type(b) is not N: return bool(compute(op,1,64,0,d2bits(a),d2bits(b),0))
    return simp(CUR.tab.mk(op,1,0,fp(a),fp(b)))
def fun(op,a,imm=0):
    if type(a) is not N: return bits2d(compute(op,64,64,imm,d2bits(a),0,0))
    return simp(CUR.tab.mk(op,64,1,a,imm=imm))
def i2f(a):
    if type(a) is not N: return float(a)
    return simp(CUR.tab.mk('SI2F',64,1,a))
def f2i(a):
    if type(a) is not N: return sx(compute('F2SI',64,64,0,d2bits(a),0,0),64)
    return simp(CUR.tab.mk('F2SI',64,0,a))
def zext(b,w=64):
    if type(b) is not N: return b
    return simp(CUR.tab.mk('ZEXT',w,0,b))
def low8(x):
    if type(x) is not N: return x&255
    return simp(CUR.tab.mk('EXTRACT',8,0,x,imm=0))
def itext(x):
    """characters of a decimal numeral; sign and length become part of the path"""
    if type(x) is not N: return [ord(c) for c in str(x)]
    v=val(x); s=str(v); n=len(s)
    neg=T(lt(x,0)); d=n-(1 if neg else 0)
    for k in range(1,min(d,18)+1): T(lt(x,10**k) if not neg else le(x,-10**k))
    return [CUR.tab.raw('TEXT',8,0,x,None,None,i|(n<<8)) for i in range(n)]
def chars(s): return [ord(c) for c in s]
def ctext(cs):
    """concrete text of a character list"""
    return ''.join(chr(uval(c)) for c in cs)
