"""Program templates: a run of the interpreter whose program text, standard input and data files contain symbolic holes."""
import struct
from decimal import Decimal
from .terms import d2bits, bits2d, sx
from ref.syntax import Num
MK=0xE000
IMIN=-(2**63-1); IMAX=2**63-1
class Var:
    __slots__=('id','kind','n','init','lo','hi','alpha','tabs')
class Run:
    __slots__=('src','stdin','args','files','ped','repl','rm','rands','fresh','fsize')
class Tpl:
    """kinds: int (64-bit, decimal numeral hole), real, byte, choice, rand"""
    def __init__(s,name,asan=True,time=1700000000,maxstep=None,maxev=6000,dirs=(),crash_only=False,prio=0):
        s.name=name; s.vars=[]; s.runs=[]; s.mk={}; s.asan=asan; s.time=time; s.maxstep=maxstep; s.maxev=maxev; s.dirs=dirs; s.crash_only=crash_only; s.prio=prio; s.weight=1.0
        s.assumes=[]; s.initial={}; s.same=[]
    def _v(s,kind,**k):
        v=Var(); v.id=len(s.vars); v.kind=kind; v.n=0; v.init=0; v.lo=v.hi=None; v.alpha=None; v.tabs=[]
        for a,b in k.items(): setattr(v,a,b)
        s.vars.append(v); return v
    def _m(s,what):
        c=chr(MK+len(s.mk)); s.mk[c]=what; return c
    def int(s,lo=IMIN,hi=IMAX,init=None):
        init=min(max(3 if init is None else init,lo),hi)
        v=s._v('int',lo=max(lo,IMIN),hi=hi,init=init); return s._m(('num',v))
    def real(s,lo=-1e200,hi=1e200,init=1.5):
        v=s._v('real',lo=lo,hi=hi,init=min(max(init,lo),hi)); return s._m(('num',v))
    def byte(s,alpha=None,init=None):
        """alpha: str/bytes of admissible characters (None: all 255 non-zero bytes)"""
        if alpha is None: alpha=bytes(range(1,256))
        if isinstance(alpha,str): alpha=alpha.encode('latin1')
        x=(ord(init) if isinstance(init,str) else init) if init is not None else alpha[0]
        v=s._v('byte',alpha=bytes(sorted(set(alpha))),init=x if x in alpha else alpha[0]); return s._m(('byte',v))
    def bytes(s,n,alpha=None,init=None): return ''.join(s.byte(alpha,init) for _ in range(n))
    def choice(s,alts,init=0):
        v=s._v('choice',n=len(alts),init=init); return s.alts(v,alts)
    def choicevar(s,n,init=0): return s._v('choice',n=n,init=init)
    def alts(s,v,alts):
        alts=[a.encode('latin1') if isinstance(a,str) else a for a in alts]; L=max(map(len,alts)); alts=[a.ljust(L) for a in alts]
        r=''
        for i in range(L):
            col=bytes(a[i] for a in alts)
            r+=chr(col[0]) if len(set(col))==1 else s._m(('tab',v,col))
        return r
    def rand(s): return s._v('rand',init=12345)
    def assume(s,f): s.assumes.append(f)     # f(tab, {id: node}) -> Node
    def run(s,src='',stdin='',ped=False,repl=False,files=None,args=None,rm=(),rands=(),fresh=False,fsize=None):
        r=Run(); r.src=src; r.stdin=stdin; r.ped=ped; r.repl=repl; r.files=files or {}; r.rm=rm; r.rands=list(rands); r.fresh=fresh; r.fsize=fsize
        r.args=(['--pedantic'] if ped is True else [ped] if ped else [])+([] if repl else ['p.pseudo']) if args is None else args
        s.runs.append(r); return s
    # ---------------------------------------------------------------- use
    def start(s):
        a={}
        for v in s.vars: a[v.id]=d2bits(v.init) if v.kind=='real' else v.init&(2**64-1)
        return a
    def nodes(s,tab):
        r={}
        for v in s.vars:
            if v.kind=='int': r[v.id]=tab.var(v.id,64)
            elif v.kind=='real': r[v.id]=tab.var(v.id,64,1)
            elif v.kind=='rand': r[v.id]=tab.var(v.id,31)
            else: r[v.id]=tab.var(v.id,8)
        return r
    def domain(s,tab):
        nd=s.nodes(tab); mk=tab.mk; out=[]
        for v in s.vars:
            n=nd[v.id]
            if v.kind=='int':
                out.append(mk('SLE',1,0,tab.const(v.lo,64),n)); out.append(mk('SLE',1,0,n,tab.const(v.hi,64)))
            elif v.kind=='real':
                out.append(mk('FLE',1,0,tab.real(v.lo),n)); out.append(mk('FLE',1,0,n,tab.real(v.hi)))
                out.append(mk('OR',1,0,mk('FLE',1,0,tab.real(1e-200),mk('FABS',64,1,n)),mk('EQ',1,0,tab.var(v.id,64,0),tab.const(0,64))))
            elif v.kind=='byte':
                if len(v.alpha)<256:
                    r=None; a=v.alpha; i=0
                    while i<len(a):
                        j=i
                        while j+1<len(a) and a[j+1]==a[j]+1: j+=1
                        e=mk('EQ',1,0,n,tab.const(a[i],8)) if i==j else mk('AND',1,0,mk('ULE',1,0,tab.const(a[i],8),n),mk('ULE',1,0,n,tab.const(a[j],8)))
                        r=e if r is None else mk('OR',1,0,r,e); i=j+1
                    out.append(r)
            elif v.kind=='choice': out.append(mk('ULT',1,0,n,tab.const(v.n,8)))
        for f in s.assumes: out.append(f(tab,nd))
        return [n for n in out if not(n.op=='CONST' and n.imm)]
    def bounds(s):
        r={}
        for v in s.vars:
            if v.kind=='int': r[v.id,0]=(v.lo,v.hi)
            elif v.kind=='real': r[v.id,1]=(float(v.lo),float(v.hi))
            elif v.kind=='byte': x=[sx(c,8) for c in v.alpha]; r[v.id,0]=(min(x),max(x))
            elif v.kind=='choice': r[v.id,0]=(0,v.n-1) if v.n<=128 else (-128,127)
        return r
    def numtext(s,v,asg):
        if v.kind=='int': return str(sx(asg[v.id],64))
        t=format(Decimal(repr(bits2d(asg[v.id]))),'f'); return t if '.' in t else t+'.0'
    def render(s,text,asg,ch):
        """-> bytes, config m-lines"""
        out=bytearray(); m=['c %s'%ch.encode('latin1').hex()]
        for c in text:
            w=s.mk.get(c)
            if w is None: out+=c.encode('latin1'); continue
            v=w[1]
            if w[0]=='byte': m.append('m %d b %d'%(len(out),v.id)); out.append(asg[v.id])
            elif w[0]=='tab': m.append('m %d t %d %s'%(len(out),v.id,' '.join(map(str,w[2])))); out.append(w[2][asg[v.id]])
            else:
                t=s.numtext(v,asg)
                for i,x in enumerate(t): m.append('m %d %s %d %d %d %d'%(len(out)+i,v.kind[0],v.id,i,len(t),ord(x)))
                out+=t.encode()
        return bytes(out),m if len(m)>1 else []
    def config(s,asg):
        o=[]
        for v in s.vars:
            if v.kind=='byte': o.append('v %d byte %d %s'%(v.id,asg[v.id],v.alpha.hex()))
            elif v.kind=='choice': o.append('v %d choice %d %d'%(v.id,v.n,asg[v.id]))
            elif v.kind=='int': o.append('v %d int %d'%(v.id,sx(asg[v.id],64)))
            elif v.kind=='rand': o.append('v %d int31 %d'%(v.id,asg[v.id]))
            else: o.append('v %d real %016x'%(v.id,asg[v.id]))
        return o
    def refchars(s,text,tab):
        out=[]
        for c in text:
            w=s.mk.get(c)
            if w is None: out.append(ord(c.encode('latin1'))); continue
            v=w[1]
            if w[0]=='byte': out.append(tab.var(v.id,8))
            elif w[0]=='tab': out.append(tab.raw('TABLE',8,0,None,None,None,(v.id,w[2]) if type(w[2]) is tuple else (v.id,tuple(w[2]))))
            elif v.kind=='int': out.append(Num('I',tab.var(v.id,64),v.id))
            else: out.append(Num('R',tab.var(v.id,64,1),v.id))
        return out
