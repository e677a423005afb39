"""shorthand for templates: T(out,name,source,hole=spec...)"""
from sym.template import Tpl
PRN=bytes(c for c in range(32,127) if c not in b'"\'\\')      # printable, needs no escaping in either literal
def I(lo=None,hi=None,init=None):
    def f(t):
        k={}
        if lo is not None: k['lo']=lo
        if hi is not None: k['hi']=hi
        if init is not None: k['init']=init
        return t.int(**k)
    return f
def R(lo=-1e200,hi=1e200,init=1.5): return lambda t:t.real(lo,hi,init)
def CH(*alts,init=0): return lambda t:t.choice(list(alts),init)
def BY(n=1,alpha=PRN,init='b'): return lambda t:t.bytes(n,alpha,init)
B=CH('TRUE ','FALSE')
def T(out,name,src,stdin='',ped=False,repl=False,files=None,weight=1.0,nz=(),more=(),dirs=(),rm=(),time=1700000000,prio=0,asan=True,maxstep=None,crash_only=False,fsize=None,**h):
    """more: further runs of the interpreter [(src,stdin)], nz: holes assumed non-zero, fsize: no file may grow beyond this in the first run"""
    t=Tpl(name,prio=prio,asan=asan,dirs=dirs,time=time,maxstep=maxstep,crash_only=crash_only); t.weight=weight; v={}
    for k,f in h.items():
        n=len(t.vars); v[k]=f(t)
        if k in nz: t.assume(lambda tab,nd,i=n: tab.NOT(tab.mk('EQ',1,0,nd[i],tab.const(0,64))))
    def sub(s):
        for k,x in v.items(): s=s.replace('<<%s>>'%k,x)
        assert '<<' not in s,s
        return s
    t.run(sub(src),sub(stdin),ped=ped,repl=repl,files={k:sub(x) for k,x in (files or {}).items()},rm=rm,fsize=fsize)
    for r in more:
        r=(r,) if isinstance(r,str) else r
        t.run(sub(r[0]),sub(r[1]) if len(r)>1 else '',ped=ped,repl=r[2] if len(r)>2 else repl)
    out.append(t); return t
def both(t,opt=True):
    """the same program again, from the same initial state, with the pedantic option"""
    r=t.runs[0]; t.run(r.src,r.stdin,ped=opt,repl=r.repl,files=r.files,rm=r.rm,rands=r.rands,fresh=True,fsize=r.fsize); t.same=[(0,1)]; t.maxev*=2; return t
