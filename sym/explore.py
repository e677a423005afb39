"""Generational symbolic exploration of one template and comparison of every implementation path with the reference."""
import os, sys, re, traceback, time, heapq, itertools, math
import z3
from .terms import Table, Eval, N, toz, Untranslatable, sx, bits2d, d2bits, textof, textchar, realtext
from .intz import IntZ, NoInt
from . import trace as TR, proc
from ref import conc, interp
from ref.conc import Unspecified, Budget, CUR

class Stats:
    def __init__(s):
        s.d={}
    def add(s,k,n=1): s.d[k]=s.d.get(k,0)+n
    def merge(s,o):
        for k,v in o.items(): s.d[k]=s.d.get(k,0)+v
TAG=re_model=None
CRC=0
class Env:
    """paths of the builds and a private scratch area"""
    def __init__(s,bins,base,tag):
        s.bins=bins; s.base=os.path.join(base,tag); os.makedirs(s.base,exist_ok=True)
        s.run=os.path.join(s.base,'run'); os.makedirs(s.run,exist_ok=True); s.io=os.path.join(s.base,'io')
        s.banner=None

# ------------------------------------------------------------- canonical output
def canon(data,sh):
    """bytes + shadows -> items: int | N(w8) | ('I',node) | ('R',node,prec,fmt)"""
    out=[]; i=0; n=len(data)
    while i<n:
        x=sh.get(i)
        if x is None or x.op=='CONST': out.append(data[i]); i+=1; continue
        if x.op=='TEXT' and x.imm&255==0:
            ln=(x.imm>>8)&255; ok=True
            for k in range(1,ln):
                y=sh.get(i+k)
                if y is None or y.op!='TEXT' or y.a is not x.a or y.imm!=x.imm+k: ok=False; break
            if ok:
                kind=(x.imm>>16)&255
                if kind==1: out.append(('R',x.a,(x.imm>>24)&255,(x.imm>>32)&255))
                else: out.append(('I',x.a) if kind==0 else ('U',x.a))
                i+=ln; continue
        out.append(x); i+=1
    return out
def canon_ref(items):
    out=[]; i=0; n=len(items)
    while i<n:
        x=items[i]
        if type(x) is N and x.op=='CONST': x=x.imm
        if type(x) is N and x.op=='TEXT' and x.imm&255==0:
            ln=(x.imm>>8)&255; ok=True
            for k in range(1,ln):
                y=items[i+k] if i+k<n else None
                if type(y) is not N or y.op!='TEXT' or y.a is not x.a or y.imm!=x.imm+k: ok=False; break
            if ok:
                kind=(x.imm>>16)&255
                out.append(('R',x.a,(x.imm>>24)&255,(x.imm>>32)&255) if kind==1 else ('I',x.a) if kind==0 else ('U',x.a)); i+=ln; continue
        if isinstance(x,interp.Num): x=('I' if x.kind=='I' else 'H',x.node)
        out.append(x); i+=1
    return out
def ctext(items,ev):
    """concrete bytes of an item list, plus (item index) per byte"""
    b=bytearray(); own=[]
    for k,x in enumerate(items):
        if type(x) is int: t=bytes([x&255])
        elif type(x) is N: t=bytes([ev(x)&255])
        elif x[0]=='I': t=str(sx(ev(x[1]),x[1].w)).encode()
        elif x[0]=='U': t=str(ev(x[1])).encode()
        elif x[0]=='H': t=realtext(bits2d(ev(x[1])),0,9).encode()
        else: t=realtext(bits2d(ev(x[1])),x[2],x[3]).encode()
        b+=t; own+=[k]*len(t)
    return bytes(b),own
class Opaque(Exception): pass
def explode(it,ev,tab):
    """composite item -> (list of byte terms, guard nodes saying the length is as in the current run)"""
    k,x=it[0],it[1]
    if k=='R' or k=='H': raise Opaque()
    v=ev(x); s=str(sx(v,x.w) if k=='I' else v); n=len(s); mk=tab.mk; g=[]
    w=x.w; kind=0 if k=='I' else 2
    ln=n-(1 if s[0]=='-' else 0)
    if k=='I':
        neg=s[0]=='-'; a=mk('SLT',1,0,x,tab.const(0,w)); g.append(a if neg else tab.NOT(a))
        lim=1<<(w-1)
        if not neg:
            if 10**ln<lim: g.append(mk('SLT',1,0,x,tab.const(10**ln,w)))
            if ln>1: g.append(tab.NOT(mk('SLT',1,0,x,tab.const(10**(ln-1),w))))
        else:
            if 10**ln<lim: g.append(tab.NOT(mk('SLE',1,0,x,tab.const(-10**ln,w))))
            if ln>1: g.append(mk('SLE',1,0,x,tab.const(-10**(ln-1),w)))
    else:
        if 10**ln<(1<<w): g.append(mk('ULT',1,0,x,tab.const(10**ln,w)))
        if ln>1: g.append(tab.NOT(mk('ULT',1,0,x,tab.const(10**(ln-1),w))))
    return [tab.raw('TEXT',8,0,x,None,None,i|(n<<8)|(kind<<16)) for i in range(n)],g
def rtxt(b): return realtext(bits2d(b),17,0).encode()
def norm64(x,tab):
    return x if x.w==64 else tab.mk('SEXT',64,0,x)
def diffs(A,B,ev,tab):
    """conditions under which the two item lists denote different texts (they agree under the current assignment)"""
    ds=[]; i=j=0; A=list(A); B=list(B); mk=tab.mk; opq=0
    def neq(a,b): return tab.NOT(mk('EQ',1,0,a,b))
    while i<len(A) or j<len(B):
        if i>=len(A) or j>=len(B): raise AssertionError('length')
        a,b=A[i],B[j]
        ca,cb=type(a) is tuple,type(b) is tuple
        if ca and cb:
            if a==b: i+=1; j+=1; continue
            ta,_=ctext([a],ev); tb,_=ctext([b],ev)
            if a[0]==b[0]=='R' and a[2:]==b[2:]: ds.append(('fp',a[1],b[1])); i+=1; j+=1; continue
            if a[0]==b[0] and a[0] in 'IU' and ta==tb: ds.append(neq(norm64(a[1],tab),norm64(b[1],tab))); i+=1; j+=1; continue
        if ca or cb:
            L=A if ca else B; k=i if ca else j; O=B if ca else A; m=j if ca else i
            x=L[k]; t,_=ctext([x],ev)
            seg=O[m:m+len(t)]
            if len(seg)==len(t) and all(type(y) is int for y in seg):
                if x[0] in 'RH': ds.append(('fpc',x[1],ev(x[1])))
                else: ds.append(neq(x[1],tab.const(ev(x[1]),x[1].w)))
                if ca: i+=1; j+=len(t)
                else: j+=1; i+=len(t)
                continue
            try:
                bs,g=explode(x,ev,tab); ds+=[tab.NOT(y) for y in g]; L[k:k+1]=bs; continue
            except Opaque:
                # digits of a REAL against something else: pin the REAL
                ds.append(('fpc',x[1],ev(x[1]))); opq+=1; L[k:k+1]=list(t); continue
        i+=1; j+=1
        if a is b or (type(a) is int and type(b) is int): continue
        na=tab.const(a,8) if type(a) is int else a; nb=tab.const(b,8) if type(b) is int else b
        d=neq(na,nb)
        if d.op=='CONST' and not d.imm: continue
        ds.append(d)
    return ds,opq

class Viol(Exception): pass
class Skeleton:
    def __init__(s,tpl,env,st,opts):
        s.t=tpl; s.env=env; s.st=st; s.o=opts; s.tab=Table(); s.dom=tpl.domain(s.tab); s.seen=set(); s.cache={}; s.tried={}; s.neg={}; s.front=[]; s.cnt=itertools.count()
        s.viol=[]; s.unconf=[]; s.done=False; s.paths=0; s.inexact=set(); s.funcs={}; s.qcache={}; s.kinds={}
        s.doms=[(d,True) for d in s.dom]; s.solver_time=0.0; s.samples=[]; s.proved=0; s.unsp=0
        s.tab.setbounds(tpl.bounds()); s.fdinit(); s.iz=IntZ({v.id:v.kind for v in tpl.vars},{v.id:(v.lo,v.hi) for v in tpl.vars if v.kind=='int'}); s.vdone=set(); s.known={}; s.rules=[]; s.outcomes={}
        heapq.heappush(s.front,(0,0,next(s.cnt),(tpl.start(),0,None)))
    # ---------------------------------------------------------- one execution
    def impl(s,asg,exe='inst',keep=None,timeout=10):
        """runs all processes of the template -> (results, file map after the last run)"""
        t=s.t; e=s.env; proc.clear(e.run); res=[]; carry={}
        for d in t.dirs: os.makedirs(os.path.join(e.run,d),exist_ok=True)
        for k,r in enumerate(t.runs):
            if r.fresh:
                proc.clear(e.run); carry={}
                for d in t.dirs: os.makedirs(os.path.join(e.run,d),exist_ok=True)
            cfg=t.config(asg) if exe=='inst' else None
            def put(name,text):
                b,m=t.render(text,asg,name)
                if name!='-':
                    with open(os.path.join(e.run,name),'wb') as f: f.write(b)
                if cfg is not None: cfg.extend(m)
                return b
            for n in r.rm:
                try: os.unlink(os.path.join(e.run,n))
                except OSError: pass
                carry.pop(n,None)
            for n,tx in r.files.items(): put(n,tx); carry.pop(n,None)
            if not r.repl: put('p.pseudo',r.src)
            b=put('-',r.stdin if not r.repl else r.src)
            env={}
            if exe=='inst':
                for n,m in carry.items(): cfg.append('c '+n.encode('latin1').hex()); cfg+=m
                for q in r.rands: cfg.append('q %d'%q.id if q else 'r')
                cfg.append('x %d'%t.maxev); cfg.append('w %d'%t.time)
                with open(e.io+'.cfg','w') as f: f.write('\n'.join(cfg)+'\n')
                tr=e.io+'.tr'
                try: os.unlink(tr)
                except OSError: pass
                env={'SYMCX_CFG':e.io+'.cfg','SYMCX_TRACE':tr,'SYMCX_ALARM':str(s.o.get('alarm',8))}
                if s.o.get('events'): env['SYMCX_DBG']='1'
            else:
                env={'SYMCX_TIME':str(t.time),'SYMCX_RAND':','.join(str(asg[q.id]) if q else '12345' for q in r.rands),'ASAN_OPTIONS':'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1','UBSAN_OPTIONS':'halt_on_error=1:exitcode=99'}
            x=proc.run(e.bins[exe],list(r.args),e.run,b,env,timeout=timeout,memory=0 if exe=='asan' else 3<<30,capture=e.io,fsize=r.fsize)
            if exe=='inst':
                if os.path.exists(tr):
                    x.trace=TR.load(tr,s.tab)
                    if not x.trace.ok or x.trace.why is None: x.trace=None if x.trace.why is None else x.trace
                if x.trace is None: s.st.add('no_trace')
                else:
                    for f,c in x.trace.funcs.items(): s.funcs[f]=s.funcs.get(f,0)+c
                    # symbolic bytes of written files travel to the next process
                    for n,shs in (x.trace.files.items() if k+1<len(t.runs) else ()):
                        if n=='p.pseudo': continue
                        m=[]
                        for off,nd in shs.items():
                            if nd.op=='VAR' and nd.w==8: m.append('m %d b %d'%(off,nd.imm))
                            elif nd.op=='TABLE': m.append('m %d t %d %s'%(off,nd.imm[0],' '.join(map(str,nd.imm[1]))))
                            elif nd.op=='TEXT' and nd.a.op=='VAR' and (nd.imm>>16)&255==0: m.append('m %d i %d %d %d %d'%(off,nd.a.imm,nd.imm&255,(nd.imm>>8)&255,textchar(nd,asg[nd.a.imm])))
                            elif nd.op=='TEXT' and nd.a.op=='VAR' and nd.a.fp and (nd.imm>>16)&255==1 and (nd.imm>>24)&255==17 and (nd.imm>>32)&255==0: m.append('m %d g %d %d %d %d'%(off,nd.a.imm,nd.imm&255,(nd.imm>>8)&255,rtxt(asg[nd.a.imm])[nd.imm&255]))
                            elif nd.op!='CONST': s.inexact.add('file byte between runs made concrete'); s.st.add('carry_pins'); x.trace.events.append(('P',nd,Eval(asg)(nd),0))
                        carry[n]=m
            res.append(x)
            if t.same: x.files=s.files()
            if x.sig or x.hang: break
        return res,s.files()
    def files(s):
        files={}; e=s.env
        for root,ds,fs in os.walk(e.run):
            for f in fs:
                p=os.path.join(root,f); rel=os.path.relpath(p,e.run)
                if rel=='p.pseudo': continue
                with open(p,'rb') as fh: files[rel]=fh.read(1<<20)
        return files
    def relation(s,res):
        """t.same: the second run is the first one repeated with --pedantic from the same initial state"""
        for i,j in s.t.same:
            if j>=len(res): continue
            a,b=res[i],res[j]
            if any(x.sig or x.hang or (x.trace and x.trace.why==99) for x in(a,b)): continue
            ds,_=proc.parse_err(b.err)
            if any(k=='Pedantic' for k,_ in ds):
                if s.t.runs[j].repl: continue
                if b.status!=1 or len(ds)!=1: return 'pedantic rejection with status %d and diagnostics %s'%(b.status,ds)
                if not b.out.endswith(b'\n') or not a.out.startswith(b.out[:-1]): return 'output before the pedantic rejection differs: %r without the option, %r with it'%(a.out[:300],b.out[:300])
                continue
            if a.status!=b.status: return 'status %d without --pedantic, %d with it (%r / %r)'%(a.status,b.status,a.err[:200],b.err[:200])
            if a.out!=b.out: return 'stdout differs: %r without --pedantic, %r with it'%(a.out[:300],b.out[:300])
            if a.err!=b.err: return 'stderr differs: %r without --pedantic, %r with it'%(a.err[:300],b.err[:300])
            if a.files!=b.files: return 'files differ: %r without --pedantic, %r with it'%(str(a.files)[:300],str(b.files)[:300])
        return None
    def reldiffs(s,res,ev):
        out=[]
        for i,j in s.t.same:
            if j>=len(res) or not res[i].trace or not res[j].trace: continue
            a,b=res[i],res[j]; ds,_=proc.parse_err(b.err)
            if a.trace.why==99 or b.trace.why==99: continue
            if any(k=='Pedantic' for k,_ in ds):
                if s.t.runs[j].repl: continue
                n=len(b.out)-1; out+=diffs(canon(a.out[:n],a.trace.out[1][1]),canon(b.out[:n],b.trace.out[1][1]),ev,s.tab)[0]; continue
            out+=diffs(canon(a.out,a.trace.out[1][1]),canon(b.out,b.trace.out[1][1]),ev,s.tab)[0]
            out+=diffs(canon(a.err,a.trace.out[2][1]),canon(b.err,b.trace.out[2][1]),ev,s.tab)[0]
            for n in a.files:
                if n in a.trace.files or n in b.trace.files: out+=diffs(canon(a.files[n],a.trace.files.get(n,{})),canon(b.files.get(n,b''),b.trace.files.get(n,{})),ev,s.tab)[0]
        return out
    def ref(s,asg,tab=None,maxbr=3000):
        """reference outcomes under asg -> (list of Out, fs, why)"""
        t=s.t; tb=tab or s.tab; ev=Eval(asg); conc.start(tb,ev,maxbr)
        fs=interp.FS({},t.dirs); outs=[]; why=None
        try:
            for r in t.runs:
                if r.fresh: fs=interp.FS({},t.dirs)
                for n in r.rm: fs.f.pop(n,None)
                for n,tx in r.files.items(): fs.f[n]=('text',t.refchars(tx,tb))
                src=t.refchars(r.src,tb)
                if not r.repl and r.src and not r.src.endswith('\n'): src.append(10)
                k={} if t.maxstep is None else {'maxstep':t.maxstep}
                it=interp.Interp(src if not r.repl else [],t.refchars(r.stdin,tb) if not r.repl else src,ped=bool(r.ped),fs=fs,repl=r.repl,time=t.time,**k)
                fs.limit=r.fsize
                if r.repl: o=it.repl(s.env.banner)
                else: o=it.run()
                outs.append(o)
        except Unspecified as x: why='unspecified: %s'%x; outs.append(it.o)
        except interp.StepLimit: why='unspecified: step limit'; outs.append(it.o)
        except Budget as x: why='budget: %s'%x; outs.append(it.o)
        except RecursionError: why='unspecified: recursion'; outs.append(it.o)
        return outs,fs,why,list(CUR.rho),ev
    # ---------------------------------------------------------- solver
    def solve(s,conds,asg,timeout=None):
        """conds: [(node|('fp'..),pol)] ; last one(s) decide the slice.  -> ('sat',asg')|('unsat',)|('unknown',)"""
        goal=conds[-1]; sup=s.sup(goal); pool=conds[:-1]; use=[]; rest=[(c,s.sup(c)) for c in pool]
        ch=True
        while ch:
            ch=False; r2=[]
            for c,u in rest:
                if u&sup:
                    use.append(c); 
                    if u|sup!=sup: sup|=u; ch=True
                else: r2.append((c,u))
            rest=r2
        key=frozenset([s.key(c) for c in use]+[('g',s.key(goal))])
        hit=s.qcache.get(key)
        if hit is None:
            s.st.add('queries'); t0=time.time()
            hit=s.intsolve(use,goal,sup)
            if hit is None:
             try:
                sv=z3.SolverFor('QF_BVFP') if s.hasfp(use+[goal]) else z3.SolverFor('QF_BV')
                sv.set('timeout',timeout or s.o.get('qtimeout',4000))
                for d,p in s.doms:
                    if d.sup&sup: sv.add(toz(d))
                for c in use: sv.add(s.zc(c))
                sv.add(s.zc(goal))
                r=sv.check()
                if r==z3.sat:
                    m=sv.model(); vals={}
                    for v in s.t.vars:
                        if (sup>>v.id)&1:
                            w={'int':64,'real':64,'byte':8,'choice':8,'rand':31}[v.kind]
                            x=m.eval(z3.BitVec("v%d"%v.id,w),model_completion=True); vals[v.id]=x.as_long()&((1<<w)-1)
                    hit=('sat',vals)
                elif r==z3.unsat: hit=('unsat',None)
                else: hit=('unknown',None)
             except Untranslatable: hit=('opaque',None)
            dt=time.time()-t0; s.solver_time+=dt
            if dt>1.0 and s.o.get('slow'): print('SLOW %.1f %s use=%r goal=%r'%(dt,hit[0],use,goal))
            s.st.add('q_'+hit[0]); s.qcache[key]=hit
        else: s.st.add('qcache_hits')
        if hit[0]=='sat':
            a=dict(asg); a.update(hit[1])
            return 'sat',a
        return hit[0],None
    def intsolve(s,use,goal,sup):
        """queries with divisions by constants: exact translation to integer arithmetic; None when not applicable or undecided"""
        iz=s.iz
        def nodes(c):
            n=c[0]
            if type(n) is N: return [n]
            if n[0]=='or': return [y for x in n[1] for y in nodes((x,True))]
            raise NoInt('fp')
        try:
            if not any(iz.hasdiv(n) for c in use+[goal] for n in nodes(c)): return None
            def z(c):
                n,p=c
                if type(n) is not N and n[0]!='or': raise NoInt('fp')
                r=iz.bool(n) if type(n) is N else z3.Or([z((x,True)) for x in n[1]])
                return r if p else z3.Not(r)
            cs=[z(goal)]; vs=[v for v in s.t.vars if (sup>>v.id)&1]
            for c in use:
                try: cs.append(z(c))
                except NoInt: pass      # left out: unsat stays unsat, a model is checked against it below
            for d,p in s.doms:
                if d.sup&sup: cs.append(iz.bool(d))
            for v in vs:
                x=z3.Int('i%d'%v.id)
                if v.kind=='int': cs+=[x>=v.lo,x<=v.hi]
                elif v.kind in('byte','choice'): cs+=[x>=0,x<=255]
                elif v.kind=='rand': cs+=[x>=0,x<1<<31]
            sv=z3.SolverFor('QF_LIA'); sv.set('timeout',s.o.get('itimeout',2500)); sv.add(cs); r=sv.check(); s.st.add('int_queries')
            if r==z3.unsat: return 'unsat',None
            if r==z3.sat:
                m=sv.model(); vals={}
                for v in vs:
                    k=m.eval(z3.Int('i%d'%v.id),model_completion=True).as_long(); vals[v.id]=k&((1<<64)-1) if v.kind=='int' else k
                e=Eval({**{v.id:0 for v in s.t.vars},**vals})
                if all(bool(e(c[0]))==c[1] for c in use+[goal] if type(c[0]) is N): return 'sat',vals
                s.st.add('int_model_mismatch')
        except NoInt: pass
        except z3.Z3Exception: s.st.add('int_exception')
        return None
    # finite-domain part: a condition over one choice/byte variable denotes a set of its values
    def fdinit(s):
        s.fdvars={}; s.fdm={}; s.mxc={}; s.fdev={}; s.fdfull={}; s.fdn=0
        for v in s.t.vars:
            if v.kind in('choice','byte'): cand=range(256)
            elif v.kind=='int' and v.hi-v.lo<128: cand=[x&((1<<64)-1) for x in range(v.lo,v.hi+1)]
            else: continue
            if any(d.sup!=1<<v.id and (d.sup>>v.id)&1 for d in s.dom): continue
            ds=[d for d in s.dom if d.sup==1<<v.id]; ok=[]; evs=[]
            for x in cand:
                e=Eval({v.id:x})
                if all(e(d) for d in ds): ok.append(x); evs.append(e)
            if ok: s.fdvars[v.id]=ok; s.fdev[v.id]=evs; s.fdfull[v.id]=(1<<len(ok))-1
    def fdmask(s,n,vid):
        r=s.fdm.get(n.id)
        if r is None:
            r=0
            for k,e in enumerate(s.fdev[vid]):
                if e(n): r|=1<<k
            s.fdm[n.id]=r
        return r
    def fdmulti(s,g,fd,mx,asg):
        """a condition over several finite-domain variables, decided over all their remaining values (None: not applicable)"""
        sup=g[0].sup; use=[g]; rest=mx; ch=True
        while ch:
            ch=False; r2=[]
            for c in rest:
                if c[0].sup&sup: use.append(c); sup|=c[0].sup; ch=True
                else: r2.append(c)
            rest=r2
        vs=[]; pr=1; u=sup
        while u:
            vid=(u&-u).bit_length()-1; u&=u-1
            d=s.fdvars.get(vid)
            if d is None: return None
            m=fd.get(vid,s.fdfull[vid]); q=[x for i,x in enumerate(d) if (m>>i)&1]; pr*=max(1,len(q))
            if pr>6000: return None
            vs.append((len(q),vid,q))
        vs.sort(); at=[[] for _ in vs]; seen=0; left=list(use)
        for k,(_,vid,_q) in enumerate(vs):
            seen|=1<<vid; nl=[]
            for c in left:
                if c[0].sup&~seen: nl.append(c)
                else: at[k].append((c[0],c[1],sorted(x[1] for x in vs[:k+1] if (c[0].sup>>x[1])&1)))
            left=nl
        cur={}; cache=s.mxc
        def go(k):
            if k==len(vs): return True
            _,vid,q=vs[k]
            for x in q:
                cur[vid]=x; ok=True
                for n,p,ids in at[k]:
                    kk=(n.id,)+tuple(cur[i] for i in ids); v=cache.get(kk)
                    if v is None:
                        if len(cache)>2000000: cache.clear()
                        v=cache[kk]=bool(Eval({i:cur[i] for i in ids})(n))
                    if v!=p: ok=False; break
                if ok and go(k+1): return True
            return False
        if go(0): a=dict(asg); a.update(cur); return 'sat',a
        return 'unsat',None
    def key(s,c):
        n=c[0]
        if type(n) is N: return (n.id,c[1])
        if n[0]=='or': return ('or',)+tuple(s.key((x,True)) for x in n[1])
        return (n[0],n[1].id,n[2] if type(n[2]) is int else n[2].id,c[1])
    def sup(s,c):
        n=c[0]
        if type(n) is N: return n.sup
        if n[0]=='or':
            r=0
            for x in n[1]: r|=s.sup((x,True))
            return r
        return n[1].sup|(0 if type(n[2]) is int else n[2].sup)
    def hasfp(s,cs):
        vid={v.id for v in s.t.vars if v.kind=='real'}; m=0
        for v in vid: m|=1<<v
        for c in cs:
            if s.sup(c)&m: return True
            n=c[0]
            if type(n) is not N: return True
            if s.fpnode(n): return True
        return False
    def fpnode(s,n):
        r=s.kinds.get(n.id)
        if r is None:
            r=n.fp or n.op in('FEQ','FLT','FLE','FUNO','F2SI','F2UI','SI2F','UI2F','F2BV')
            if not r:
                for x in (n.a,n.b,n.c):
                    if x is not None and s.fpnode(x): r=True; break
            s.kinds[n.id]=r
        return r
    def zc(s,c):
        n,p=c
        if type(n) is N: z=toz(n)
        elif n[0]=='or': z=z3.Or([s.zc((x,True)) for x in n[1]])
        elif n[0]=='fp': z=z3.Not(toz(n[1])==toz(n[2]))
        elif n[0]=='fpc':
            z=z3.Not(toz(n[1])==z3.fpBVToFP(z3.BitVecVal(n[2],64),z3.Float64()))
        return z if p else z3.Not(z)
    def fixings(s,g,asg):
        u=s.sup(g); vs=[v for v in s.t.vars if (u>>v.id)&1 and v.kind in('int','real')]
        for v in vs:
            for x in ([asg[v.id],7] if v.kind=='int' else [asg[v.id],d2bits(-2.75)]):
                if v.kind=='int' and not v.lo<=sx(x,64)<=v.hi: continue
                n=s.tab.var(v.id,64); yield [(s.tab.mk('EQ',1,0,n,s.tab.const(x,64)),True)]
    # ---------------------------------------------------------- exploration
    def step(s):
        pr,_,_,(asg,bound,expect)=heapq.heappop(s.front)
        res,files=s.impl(asg); s.paths+=1; s.st.add('executions')
        if s.t.crash_only and not s.t.same: outs,fs,why,rho=[],interp.FS({}),'crash check',[]
        else: outs,fs,why,rho,rev=s.ref(asg)
        ev=Eval(asg); E=[]; ids=set()
        def add(k,n,v):
            if n.op=='CONST': return
            if k=='B':
                pol=bool(v)
                if n.op=='XOR' and n.w==1 and n.b.op=='CONST' and n.b.imm: n=n.a; pol=not pol
                if (n.id,'B') in ids: return
                if bool(ev(n))!=pol: s.st.add('value_mismatch'); s.inexact.add('value mismatch'); return
                ids.add((n.id,'B')); E.append(('B',n,pol))
            else:
                if (n.id,'C') in ids: return
                vv=ev(n)
                if (vv^v)&((1<<min(n.w,64))-1): s.st.add('value_mismatch'); s.inexact.add('value mismatch'); return
                ids.add((n.id,'C')); E.append((k,n,vv))
        for x in res:
            if x.trace:
                for k,n,v,f in x.trace.events:
                    add(k,n,v)
                    if s.o.get('events'): print('TR',k,n,v,x.trace.funcs.get(f,f) if hasattr(x.trace.funcs,'get') else x.trace.funcs[f] if f<len(x.trace.funcs) else f)
                if x.trace.why==99: s.inexact.add('event limit'); s.st.add('event_limit')
                if x.trace.stats.get('opaque',0) and s.o.get('events'): print([l for l in x.err.decode('latin1').split('\n') if 'OPQ' in l or 'SYMCX' in l])
                if x.trace.stats.get('opaque',0): s.inexact.add('branch on rendered REAL digits'); s.st.add('opaque',x.trace.stats['opaque'])
            else: s.inexact.add('no trace')
        nimpl=len(E)
        for k,n,v in rho: add(k,n,v)
        if s.o.get('events'):
            for i,e in enumerate(E): print('EV','impl' if i<nimpl else 'ref ',e)
            print('EV --')
        if why and why.startswith('budget'): s.inexact.add('reference budget'); s.st.add('ref_budget')
        sig=tuple((e[0],e[1].id,e[2]) for e in E)
        if expect is not None and sig[:len(expect)]!=expect: s.st.add('divergence'); s.inexact.add('divergence'); s.dv(sig,expect,E,asg,nimpl)
        if sig in s.seen: s.st.add('duplicate_paths'); return
        s.seen.add(sig)
        if len(s.samples)<3: s.samples.append(asg)
        # children
        pc=[]; fd={}; mixed=0; mx=[]
        def decide(g):
            n=g[0]; u=n.sup
            if u and not u&(u-1) and not u&mixed:
                vid=u.bit_length()-1; dom=s.fdvars.get(vid)
                if dom is not None:
                    m=s.fdmask(n,vid); full=s.fdfull[vid]; m=m if g[1] else full&~m
                    m&=fd.get(vid,full); s.st.add('fd_decisions'); s.fdn+=1
                    if s.fdn%s.o.get('fdcheck',50)==0:   # cross-check against the SMT solver
                        r,a=s.solve(pc+[g],asg); s.st.add('fd_crosschecked')
                        if (r=='sat')!=bool(m) and r in('sat','unsat'): s.st.add('fd_mismatch'); s.inexact.add('finite-domain mismatch'); return r,a
                    if not m: return 'unsat',None
                    a=dict(asg); a[vid]=dom[(m&-m).bit_length()-1]
                    return 'sat',a
            r=s.fdmulti(g,fd,mx,asg)
            if r is not None:
                s.st.add('fd_decisions'); s.st.add('fd_multi'); s.fdn+=1
                if s.fdn%s.o.get('fdcheck',50)==0:
                    r2,a2=s.solve(pc+[g],asg); s.st.add('fd_crosschecked')
                    if r2!=r[0] and r2 in('sat','unsat'): s.st.add('fd_mismatch'); s.inexact.add('finite-domain mismatch'); return r2,a2
                return r
            return s.solve(pc+[g],asg)
        for i,e in enumerate(E):
            if time.time()>s.until:
                heapq.heappush(s.front,(pr,0,next(s.cnt),(asg,i,None))); s.seen.discard(sig); return
            if i>=bound and e[0]!='P':
                k,n,v=e
                if k=='B': goals=[((n,not v),i+1)]
                else:
                    hk=(hash(sig[:i]),n.id); tr=s.tried.setdefault(hk,set()); tr.add(v)
                    if len(tr)>s.o.get('maxconc',100): s.inexact.add('more than %d values of an address/size'%s.o.get('maxconc',100)); goals=[]
                    else:
                        g=None
                        for y in sorted(tr):
                            q=s.tab.NOT(s.tab.mk('EQ',1,0,n,s.tab.const(y,n.w))); g=q if g is None else s.tab.mk('AND',1,0,g,q)
                        goals=[((g,True),i)]
                for g,nb in goals:
                    r,a=decide(g)
                    if r=='sat' and any(bool(Eval(a)(c[0]))!=bool(c[1]) for c in (pc+[g])[-12:] if type(c[0]) is N): s.st.add('bad_model'); s.inexact.add('model does not satisfy the query'); continue
                    if r=='sat':
                        c=s.neg.get(n.id,0); s.neg[n.id]=c+1
                        heapq.heappush(s.front,(c,-s.paths if False else nb,next(s.cnt),(a,nb,sig[:i]+((('B',n.id,not v),) if k=='B' else ()))))
                        if k!='B': tr.add(Eval(a)(n))
                    elif r=='unknown':
                        for fx in s.fixings(g,asg):
                            r2,a2=s.solve(pc+fx+[g],asg,timeout=700)
                            if r2=='sat':
                                heapq.heappush(s.front,(s.neg.get(n.id,0)+1,nb,next(s.cnt),(a2,nb,sig[:i]+((('B',n.id,not v),) if k=='B' else ())))); break
                        s.inexact.add('solver unknown'); s.st.add('neg_unknown')
                    elif r=='opaque': s.inexact.add('untranslatable condition'); s.st.add('neg_opaque')
            if e[0]=='P': s.inexact.add('pinned value'); s.st.add('pins')
            u=e[1].sup
            if u&(u-1):
                mixed|=u
                mx.append((e[1],bool(e[2])) if e[0]=='B' else (s.tab.mk('EQ',1,0,e[1],s.tab.const(e[2],e[1].w)),True) if not e[1].fp else (s.tab.mk('FEQ',1,0,e[1],s.tab.const(e[2],e[1].w,1)),True))
            elif u:
                vid=u.bit_length()-1
                if vid in s.fdvars:
                    if e[0]=='B': m=s.fdmask(e[1],vid); m=m if e[2] else s.fdfull[vid]&~m
                    else:
                        m=0
                        for x,q in enumerate(s.fdev[vid]):
                            if q(e[1])==e[2]: m|=1<<x
                    fd[vid]=fd.get(vid,s.fdfull[vid])&m
            if e[0]=='B': pc.append((e[1],e[2]))
            else: pc.append((s.tab.mk('EQ',1,0,e[1],s.tab.const(e[2],e[1].w)) if not e[1].fp else s.tab.mk('FEQ',1,0,e[1],s.tab.const(e[2],e[1].w,1)),True))
        for x in res:
            ds,_=proc.parse_err(x.err); k='signal %d'%x.sig if x.sig else 'hang' if x.hang else ('exit %d'%x.status)+''.join(' '+q[0] for q in ds[:2])
            s.outcomes[k]=s.outcomes.get(k,0)+1
        # verdict
        s.verdict(asg,res,files,outs,fs,why,pc,ev)
        if s.t.asan and (s.o.get('asan','some')=='all' or s.paths<=s.o.get('asan_n',2)) and s.paths%int(s.t.asan)==0 and not any(x.hang or x.sig==14 or (x.trace and x.trace.why==14) for x in res):
            s.asan(asg,res)
    def dv(s,sig,expect,E,asg,nimpl):
        if not s.o.get('slow'): return
        for i,(a,b) in enumerate(itertools.zip_longest(sig[:len(expect)],expect)):
            if a!=b: print([(e[0],e[1],e[2]) for e in E],nimpl); print('DIVERGENCE',s.t.name,i,len(expect),'got',a,E[i][1] if i<len(E) else None,'expected',b,[n for n in s.tab.t.values() if b and n.id==b[1]],asg); break
    def asan(s,asg,res):
        s.st.add('asan_replays')
        r2,_=s.impl(asg,'asan',timeout=30)
        for k,x in enumerate(r2):
            bad=None
            if x.hang: continue
            if x.sig or x.status not in(0,1): bad='sanitizer/crash: status %d signal %d %s'%(x.status,x.sig,asanhead(x.err))
            if bad: s.candidate(asg,bad,crash=True); return
    def verdict(s,asg,res,files,outs,fs,why,pc,ev):
        d=s.concrete_diff(asg,res,files,outs,fs,why,ev)
        if d: s.candidate(asg,d); return
        ds=s.reldiffs(res,ev) if s.t.same else []
        if (s.t.crash_only or why) and not s.t.same:
            s.unsp+=1; s.st.add('paths_crash_only'); return
        if s.t.crash_only or why: s.unsp+=1; s.st.add('paths_mode_relation_only'); outs=[]; fs=interp.FS({})
        for x,o in zip(res,outs):
            if x.trace is None: return
            d,opq=diffs(canon(x.out,x.trace.out[1][1]),canon_ref(o.out),ev,s.tab); ds+=d
        for n,(k,c) in fs.f.items():
            if k=='text':
                b=files.get(n,b'')
                sh={}
                for x in res:
                    if x.trace and n in x.trace.files: sh=x.trace.files[n]
                if any(type(y) is tuple for y in c): continue   # REAL numerals are compared concretely
                if n in fs.initial and not any(x.trace and n in x.trace.files for x in res): continue
                try: d,opq=diffs(canon(b,sh),canon_ref(c),ev,s.tab); ds+=d
                except AssertionError: pass
        s.st.add('paths_compared')
        ds=[d for d in ds if not(type(d) is N and d.op=='CONST' and not d.imm)]
        if not ds: s.proved+=1; s.st.add('equal_by_identity'); return
        u={}
        for d in ds: u[s.key((d,True))]=d
        ds=list(u.values())
        r,a=s.solve(pc+[(('or',ds),True)],asg,timeout=s.o.get('vtimeout',8000))
        if r=='unsat': s.proved+=1; s.st.add('equal_by_solver')
        elif r=='sat': s.candidate(a,'outputs differ')
        else: s.inexact.add('output query undecided'); s.st.add('verdict_'+r)
    def concrete_diff(s,asg,res,files,outs,fs,why,ev):
        """difference visible on this very run (None if none)"""
        d=s.refdiff(asg,res,files,outs,fs,why,ev)
        return s.relation(res) if d is None and s.t.same else d
    def refdiff(s,asg,res,files,outs,fs,why,ev):
        for k,x in enumerate(res):
            if x.trace and x.trace.why==99: return None
            if x.hang or (x.sig==14) or (x.trace and x.trace.why==14):
                if why or s.t.crash_only: s.st.add('hang_unspecified'); return None
                return 'run %d: does not terminate'%k
            if x.sig or x.status not in(0,1): return 'run %d: crash (signal %d, status %d)'%(k,x.sig,x.status)
            ds,rest=proc.parse_err(x.err)
            if x.status==1 and not ds and not (rest and rest[0].startswith('Error: File')): return 'run %d: exit status 1 without a diagnostic'%k
            if x.status==0 and not s.t.runs[k].repl and ds: return 'run %d: diagnostic but exit status 0'%k
            if s.o.get('pos') and not s.t.runs[k].repl:
                d=proc.badpos(x.err,s.t.render(s.t.runs[k].src,asg,'p')[0])
                if d: return 'run %d: %s'%(k,d)
            if s.t.crash_only: continue
            if k>=len(outs) or (why and k==len(outs)-1):
                # output before an unspecified point must still agree
                if why and k==len(outs)-1 and why.startswith('unspecified'):
                    pre,_=ctext(canon_ref(outs[k].out),ev)
                    if why!='unspecified: comparison used as a statement' and not x.out.startswith(pre) and not why.startswith('unspecified: rec') : return 'run %d: output before the unspecified statement differs: expected %r got %r'%(k,pre[:200],x.out[:200])
                return None
            o=outs[k]
            exp,_=ctext(canon_ref(o.out),ev)
            if o.must:
                if not x.err.strip(): return 'run %d: a rejected write is not reported (nothing on standard error)'%k
                if not x.out.startswith(exp): return 'run %d: stdout differs: expected %r got %r'%(k,exp[:400],x.out[:400])
                continue
            if x.status!=o.status: return 'run %d: exit status %d, expected %d (%s; stdout %r stderr %r)'%(k,x.status,o.status,o.diags,x.out[-120:],x.err[:200])
            if exp!=x.out: return 'run %d: stdout differs: expected %r got %r'%(k,exp[:400],x.out[:400])
            if len(ds)!=len(o.diags): return 'run %d: diagnostics differ: expected %s got %s'%(k,o.diags,ds)
            for tx,pat in zip(proc.ped_info(x.err),o.named):
                if not re.search(pat,tx,re.I): return 'run %d: the pedantic diagnostic %r does not name the construct (%s)'%(k,tx,pat)
            for (ka,la),(kb,lb) in zip(ds,o.diags):
                if ka!=kb: return 'run %d: diagnostic kind %s, expected %s'%(k,ka,kb)
                if lb is None: continue
                if any(b is not None and a!=b for a,b in zip(la,lb)) or len(la)!=len(lb): return 'run %d: %s reported at lines %s, expected %s'%(k,ka,la,lb)
        if why or s.t.crash_only or len(outs)<len(s.t.runs): return None
        for n,(k,c) in fs.f.items():
            b=files.get(n)
            if b is None: return 'file %r missing'%n
            if k=='rand': continue
            r=cmpfile(b,c,ev)
            if r: return 'file %r: %s'%(n,r)
        for n in files:
            if n not in fs.f: return 'unexpected file %r'%n
        return None
    def candidate(s,asg,what,crash=False):
        """replay on the uninstrumented builds against the reference run on concrete inputs"""
        s.st.add('candidates')
        outs,fs,why,_,ev=s.ref(asg,tab=Table(),maxbr=10**7)
        res,files=s.impl(asg,'plain',timeout=20)
        d=s.concrete_diff(asg,res,files,outs,fs,why,ev)
        how='plain build'
        if d is not None and any(x.sig==11 for x in res):
            r2,_=s.impl(asg,'asan',timeout=60)
            if any('stack-overflow' in asanhead(x.err) for x in r2) and s.beyond(asg): s.st.add('beyond_call_depth'); return
        if d is None:
            res,files=s.impl(asg,'asan',timeout=60)
            for k,x in enumerate(res):
                if not x.hang and (x.sig or x.status not in(0,1)):
                    if 'stack-overflow' in asanhead(x.err) and s.beyond(asg): s.st.add('beyond_call_depth'); return
                    d='run %d: %s'%(k,asanhead(x.err) or 'crash'); how='sanitizer build'; break
            else:
                d=s.concrete_diff(asg,res,files,outs,fs,why,ev); how='sanitizer build'
        if d is None:
            s.st.add('unconfirmed'); s.unconf.append((what,asg)); s.inexact.add('unconfirmed candidate'); return
        for sk,rx,txt in s.rules:
            if (sk=='*' or re.match(sk+'$',s.t.name)) and rx.search(d): s.known[txt]=s.known.get(txt,0)+1; return
        s.viol.append({'what':d,'where':how,'first':what,'asg':asg,'skeleton':s.t.name})
    def beyond(s,asg):
        """a stack overflow only counts when calls are known to nest at most 1000 deep"""
        old=interp.MAXDEPTH; interp.MAXDEPTH=1000; lim=sys.getrecursionlimit(); sys.setrecursionlimit(200000)
        try: _,_,why,_,_=s.ref(asg,tab=Table(),maxbr=10**7)
        finally: interp.MAXDEPTH=old; sys.setrecursionlimit(lim)
        return bool(why)
    def run(s,until,maxpaths=10**9):
        t0=time.time()
        try: return s._run(until,maxpaths)
        finally: s.st.add('time',time.time()-t0)
    def _run(s,until,maxpaths):
        s.until=until+5
        while s.front and time.time()<until and s.paths<maxpaths and len(s.viol)<s.o.get('maxviol',1):
            try: s.step()
            except (KeyboardInterrupt,SystemExit): raise
            except BaseException:
                s.inexact.add('internal error'); s.st.add('internal_errors'); s.errs=getattr(s,'errs',[])
                if len(s.errs)<2: s.errs.append(traceback.format_exc())
        s.done=not s.front
        return s.done
def asanhead(err):
    for l in err.decode('latin1').split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l: return l.strip()[:300]
    return ''
def numok(tok,x):
    try: return abs(float(tok)-x)<=5.1e-7 and 'e' not in tok.lower()
    except ValueError: return False
def cmpfile(b,c,ev):
    if not any(type(y) is tuple for y in c):
        e,_=ctext(canon_ref(c),ev)
        return None if e==b else 'expected %r got %r'%(e[:300],b[:300])
    pos=0; i=0
    for y in c:
        if type(y) is tuple and y[0]=='num':
            j=pos
            while j<len(b) and chr(b[j]) in '0123456789+-.eEinfa': j+=1
            if not numok(b[pos:j].decode() or 'x',float(ctext(canon_ref(y[1]),ev)[0].decode())): return 'numeral %r, expected %r'%(b[pos:j],ctext(canon_ref(y[1]),ev)[0])
            pos=j
        else:
            t,_=ctext(canon_ref([y]),ev)
            if b[pos:pos+len(t)]!=t: return 'differs at offset %d: %r'%(pos,b[:300])
            pos+=len(t)
    return None if pos==len(b) else 'trailing bytes %r'%b[pos:pos+100]
