"""Reference semantics of the language (executed concolically, see conc.py).  Written from Syntax.md, grammar.txt
and the property list; it shares no code with /repo."""
from .conc import *
from .syntax import lex, parse, Parser, SynErr, PedErr, Num, KW, DT
import re
class RunErr(Exception):
    def __init__(s,lines,why=''): s.lines=lines; s.why=why
class PedRun(Exception):
    def __init__(s,line,msg='declar|defin|assign|input'): s.line=line; s.msg=msg
class StepLimit(Exception): pass
class _Break(Exception):
    def __init__(s,l): s.l=l
class _Cont(_Break): pass
class _Ret(Exception):
    def __init__(s,v): s.v=v
class Enum:
    __slots__=('name','vals')
    def __init__(s,n,v): s.name=n; s.vals=v
class Ptr:
    __slots__=('name','to')
    def __init__(s,n,t): s.name=n; s.to=t
class RecT:
    __slots__=('name','body','act')
    def __init__(s,n,b,a): s.name=n; s.body=b; s.act=a
class Cell:
    __slots__=('ty','d','const','own','name')
    def __init__(s,ty,d,own,name='',const=False): s.ty=ty; s.d=d; s.own=own; s.const=const; s.name=name
class Arr:
    __slots__=('ty','dims','cells','own','name')
class Rec:
    __slots__=('ty','f')
class RandVal:
    def __init__(s,x): s.x=x
class Act:
    __slots__=('name','parent','isf','rt','vars','types','alive','line')
    def __init__(s,name,parent=None,isf=False,rt=None):
        s.name=name; s.parent=parent; s.isf=isf; s.rt=rt; s.vars={}; s.types={}; s.alive=True; s.line=None
I,R,B,C,S,D='INTEGER','REAL','BOOLEAN','CHAR','STRING','DATE'
PRIM={I,R,B,C,S,D}
def tsig(t):
    """comparable signature of a type across runs"""
    if isinstance(t,str): return t
    if isinstance(t,Enum): return ('enum',t.name,tuple(t.vals))
    if isinstance(t,Ptr): return ('ptr',t.name)
    return ('rec',t.name,repr([x[:1]+x[2:] for x in t.body]))     # without the line numbers
def shape(c):
    """the kinds of data that a variable stores, without names and order"""
    if isinstance(c,Arr): return ('arr',len(c.cells))+((shape(c.cells[0]),) if c.cells else ())
    if isinstance(c.ty,RecT): return ('rec',c.ty.name,tuple(sorted(repr(shape(x)) for x in c.d.f.values())))
    return c.ty if isinstance(c.ty,str) else (type(c.ty).__name__,c.ty.name)
def bounds(d,rand=False):
    """least and greatest number of bytes of file contents (rand: of the representation of records, which is only known roughly)"""
    lo=hi=0
    for x in d.values() if isinstance(d,dict) else d:
        if isinstance(x,(list,tuple,dict)) and not(isinstance(x,tuple) and x and x[0]=='num'):
            a,b=bounds(x,rand); lo+=a; hi+=b
        elif isinstance(x,tuple): lo+=1; hi+=400
        elif isinstance(x,Num): lo+=1; hi+=40
        elif isinstance(x,str): hi+=16
        elif isN(x) and x.op=='TEXT': hi+=20
        elif type(x) is int or isN(x): lo+=1; hi+=2 if rand else 1
        else: hi+=64
    return lo,hi+(64 if rand else 0)
class FS:
    """file system as the program sees it; survives several runs of the interpreter"""
    def __init__(s,files=None,dirs=()):
        s.f={k:('text',list(v)) for k,v in (files or {}).items()}; s.dirs=set(dirs); s.initial={k:list(v[1]) for k,v in s.f.items()}; s.limit=None
class Out:
    """observable outcome of a run"""
    def __init__(s): s.out=[]; s.diags=[]; s.status=0; s.named=[]; s.must=False
MAXSTEP=6000; MAXDEPTH=150
class Interp:
    def __init__(s,src,stdin=(),ped=False,fs=None,repl=False,time=1700000000,maxstep=MAXSTEP):
        s.src=src; s.stdin=list(stdin); s.sp=0; s.ped=ped; s.fs=fs or FS(); s.replmode=repl; s.time=time; s.o=Out(); s.steps=0; s.maxstep=maxstep
        s.g=Act('Program'); s.procs={}; s.funcs={}; s.h={}; s.depth=0; s.lost=set()
    # ------------------------------------------------------------- driver
    def run(s):
        o=s.o
        try:
            try: b,warn=parse(s.src,s.ped)
            except SynErr as e: o.out.append(10); o.diags.append(('Syntax',[e.line])); o.status=1; return o
            except PedErr as e: o.named.append(e.msg); o.out.append(10); o.diags.append(('Pedantic',[e.line])); o.status=1; return o
            if warn: raise Unspecified('comparison used as a statement')
            try: s.main(b)
            except RunErr as e: o.out.append(10); o.diags.append(('Runtime',e.lines)); o.status=1
            except PedRun as e: o.named.append(e.msg); o.out.append(10); o.diags.append(('Pedantic',[e.line])); o.status=1
            return o
        finally: s.closeall()
    def main(s,b):
        try: s.block(b,s.g)
        except _Break as e: s.err(s.g,e.l,'stray BREAK/CONTINUE')
    def repl(s,banner):
        o=s.o; o.out+=chars(banner)
        try:
            while True:
                ln=s.readline()
                if ln is None: break
                if not ln: continue
                t=''.join('0' if isinstance(x,Num) else chr(uval(x)) if isN(x) else chr(x) for x in ln)
                if t=='?':
                    [pick(x) for x in ln if isN(x)]
                    o.out+=chars('Visit https://github.com/SingularityT3/PseudoEngine2 for syntax, examples and more info\nUse `RUNFILE <filename>` to run programs stored in files\n'); continue
                if t=='EXIT': [pick(x) for x in ln if isN(x)]; break
                if re.match(r'RUNFILE(?![A-Za-z0-9_])',t): s.runfile(''.join('0' if isinstance(x,Num) else chr(pick(x)) if isN(x) else chr(x) for x in ln)); continue
                code=list(ln)
                m=re.match(r'[ \t]*([A-Za-z][A-Za-z0-9_]*)',t)
                if m:
                    for x in ln[:m.end()]: 
                        if isN(x): pick(x)
                    k=m.group(1)
                    if k in('IF','CASE','WHILE','REPEAT','FOR','PROCEDURE','FUNCTION') or (k=='TYPE' and '=' not in t):
                        while True:
                            code.append(10); l2=s.readline()
                            if l2 is None: raise Unspecified('end of input inside a multi-line entry')
                            code+=l2
                            if not l2: break
                try:
                    b,warn=parse(code,s.ped)
                    if warn: raise Unspecified('comparison used as a statement')
                    s.main(b)
                except SynErr as e: o.out.append(10); o.diags.append(('Syntax',[e.line]))
                except PedErr as e: o.named.append(e.msg); o.out.append(10); o.diags.append(('Pedantic',[e.line]))
                except RunErr as e: o.out.append(10); o.diags.append(('Runtime',e.lines)); s.depth=0
                except PedRun as e: o.named.append(e.msg); o.out.append(10); o.diags.append(('Pedantic',[e.line])); s.depth=0
            return o
        finally: s.closeall()
    def runfile(s,t):
        o=s.o
        if len(t)<9: return            # 'Expected filename' on standard error
        n=t[8:]
        while len(n)>1 and n[-1] in ' \t': n=n[:-1]
        o.out+=chars("==> Running file '"+n+"'\n")
        f=s.fs.f.get(n)
        if n in s.fs.dirs or '/' in n: raise Unspecified('RUNFILE of a path')
        ok=False
        if f is not None:
            if f[0]!='text' or n in s.h: raise Unspecified('RUNFILE of a data file')
            sub=Interp(list(f[1])+[10],s.stdin,s.ped,s.fs,False,s.time,s.maxstep); sub.sp=s.sp; sub.o=o; sub.outer=s.h; sub.steps=s.steps
            try: sub.run()
            finally: s.sp=sub.sp; s.steps=sub.steps
            ok=o.status==0; o.status=0
        o.out+=chars('\n==> Program exited '+('successfully' if ok else 'with an error')+'\n')
    outer={}
    def err(s,act,line,why=''):
        ls=[line]; a=act.parent
        while a is not None: ls.append(a.line); a=a.parent
        raise RunErr(ls,why)
    # ------------------------------------------------------------- names and types
    def lookup(s,act,n):
        v=act.vars.get(n)
        if v is None and act is not s.g: v=s.g.vars.get(n)
        return v
    def ltype(s,act,n):
        if n in DT: return n
        t=act.types.get(n)
        if t is None: t=s.g.types.get(n)
        return t
    def enumel(s,act,n,glob=True):
        for a in ([act,s.g] if glob and act is not s.g else [act]):
            for t in a.types.values():
                if isinstance(t,Enum) and n in t.vals: return t,t.vals.index(n)
        return None
    def istype(s,act,n,glob=True):
        if n in act.types or (glob and n in s.g.types): return True
        return s.enumel(act,n,glob) is not None
    def default(s,ty,own,act,depth=0):
        if ty==I: return 0
        if ty==R: return 0.0
        if ty==B: return False
        if ty==C: return 0
        if ty==S: return []
        if ty==D: return None
        if isinstance(ty,Enum): return 0
        if isinstance(ty,Ptr): return None
        if depth>12: raise RunErr(None,'recursive record type')
        r=Rec(); r.ty=ty; r.f={}
        ca=Act('rec',None); ca.types=ty.act.types
        for d in ty.body:
            if d[0]=='declare':
                t=s.ltype(ty.act,d[3])
                if t is None: raise RunErr(None,'field type')
                for n in d[2]:
                    if n in r.f or s.istype(ty.act,n): raise RunErr(None,'field redeclared')
                    r.f[n]=Cell(t,s.default(t,own,act,depth+1),own,n)
            else:
                ca.vars=r.f
                try: s.declarr(d,ca,r.f,own,act,depth+1,ty.act)
                except RunErr as e: raise RunErr(None,'array field')   # the declaration's line and the field's: both are the place
        return r
    def declarr(s,d,act,target,own,iact,depth,tact):
        _,l,ids,tn,bs=d
        for n in ids:
            if n in target:
                if isinstance(target[n],Cell): raise Unspecified('variable redeclared as an array')
                s.err(act,l,'redeclared')
        dims=[]
        for lo,hi in bs:
            a=s.ev(lo,act)
            if a[0]!=I: s.err(act,l,'bound type')
            b=s.ev(hi,act)
            if b[0]!=I: s.err(act,l,'bound type')
            if T(lt(b[1],a[1])): s.err(act,l,'bounds')
            dims.append((a[1],b[1]))
        t=s.ltype(tact,tn)
        if t is None: s.err(act,l,'type')
        for n in ids:
            if s.istype(tact,n): raise Unspecified('array named like a type')
            sz=1; dd=[]
            for a,b in dims:
                sz*=val(b)-val(a)+1; dd.append((a,b))
            if sz>3000: raise Unspecified('array too large for the bounds of this check')
            for a,b in dims:
                if isN(a) or isN(b): pick(isub(b,a))
            x=Arr(); x.ty=t; x.dims=dd; x.own=own; x.name=n
            x.cells=[Cell(t,s.default(t,own,iact,depth),own,n) for _ in range(sz)]
            target[n]=x
    def copyval(s,ty,d,own):
        if isinstance(ty,RecT):
            r=Rec(); r.ty=ty; r.f={}
            for n,c in d.f.items():
                if isinstance(c,Cell): r.f[n]=Cell(c.ty,s.copyval(c.ty,c.d,own),own,n)
                else:
                    x=Arr(); x.ty=c.ty; x.dims=c.dims; x.own=own; x.name=n
                    x.cells=[Cell(e.ty,s.copyval(e.ty,e.d,own),own,n) for e in c.cells]; r.f[n]=x
            return r
        if ty==S: return list(d)
        return d
    def store(s,c,d):
        """overwrite in place (aliases of nested fields stay valid)"""
        if isinstance(c.ty,RecT):
            for n,x in c.d.f.items():
                y=d.f[n]
                if isinstance(x,Cell): s.store(x,y.d)
                else: s.storearr(x,y)
        else: c.d=s.copyval(c.ty,d,c.own)
    def storearr(s,x,y):
        snap=[s.copyval(e.ty,e.d,None) for e in y.cells]
        for a,b in zip(x.cells,snap): s.store(a,b)
    def icast(s,v,ty):
        """the three implicit conversions"""
        t,d=v
        if ty==R and t==I: return (R,i2f(d))
        if ty==C and t==S and len(d)==1: return (C,d[0])
        if ty==S and t==C: return (S,[d])
        return v
    def same(s,a,b):
        return a==b if isinstance(a,str) or isinstance(b,str) else a is b
    # ------------------------------------------------------------- resolvers
    def resolve(s,r,act):
        """-> Cell | Arr ; KeyError if an unqualified name is not defined"""
        k=r[0]
        if k=='var':
            v=s.lookup(act,r[1])
            if v is None: raise KeyError(r[1])
            return v
        if k=='mem':
            b=s.rsub(r[1],act)
            if isinstance(b,Arr) or not isinstance(b.ty,RecT): s.err(act,r[3],'not a record')
            m=b.d.f.get(r[2])
            if m is None: s.err(act,r[3],'no such field')
            return m
        if k=='deref':
            b=s.rsub(r[1],act)
            if isinstance(b,Arr) or not isinstance(b.ty,Ptr): s.err(act,r[2],'not a pointer')
            c=b.d
            if c is None: s.err(act,r[2],'unset pointer')
            if not c.own.alive: s.err(act,r[2],'dead pointer')
            return c
        if k=='idx':
            b=s.rsub(r[1],act)
            if not isinstance(b,Arr): s.err(act,r[3],'not an array')
            if len(r[2])!=len(b.dims): s.err(act,r[3],'index count')
            ix=[]
            for e,(lo,hi) in zip(r[2],b.dims):
                v=s.ev(e,act)
                if v[0]!=I: s.err(act,s.eline(e,r[3]),'index type')
                if T(lt(v[1],lo)) or T(lt(hi,v[1])): s.err(act,s.eline(e,r[3]),'out of bounds')
                ix.append((v[1],lo,hi))
            off=0; mul=1
            for x,lo,hi in ix:
                o=isub(x,lo); off+=pick(o)*mul; mul*=val(hi)-val(lo)+1
            return b.cells[off]
        raise AssertionError(k)
    def rsub(s,r,act):
        try: return s.resolve(r,act)
        except KeyError: s.err(act,s.rline(r),'undefined')
    def rline(s,r):
        while r[0]!='var': r=r[1]
        return r[2]
    def eline(s,e,d):
        return e[1] if isinstance(e[1],int) else d
    # ------------------------------------------------------------- expressions
    def tick(s):
        s.steps+=1
        if s.steps>s.maxstep: raise StepLimit()
    def ev(s,e,act):
        s.tick()
        k=e[0]; l=e[1]
        if k=='lit':
            t,d=e[2],e[3]
            if t=='D':
                return (D,s.mkdate(d,act,l))
            return ({'I':I,'R':R,'B':B,'C':C,'S':S}[t],list(d) if t=='S' else d)
        if k=='acc':
            r=e[2]
            try: c=s.resolve(r,act)
            except KeyError:
                x=s.enumel(act,r[1])
                if x: return (x[0],x[1])
                s.err(act,l,'undefined name')
            if isinstance(c,Arr): s.err(act,l,'array without indices')
            return (c.ty,s.copyval(c.ty,c.d,None))
        if k=='bin': return s.binop(e,act)
        if k=='neg':
            v=s.ev(e[2],act)
            if v[0]==I:
                return (I,ineg(v[1]))
            if v[0]==R: return (R,fun('FNEG',v[1]))
            s.err(act,l,'neg')
        if k=='not':
            v=s.ev(e[2],act)
            if v[0]!=B: s.err(act,l,'not')
            return (B,NOT(v[1]))
        if k=='fn': return s.callf(e,act)
        if k=='asg': s.assign(e,act); return (None,None)
        if k=='pasg': s.passign(e,act); return (None,None)
        if k=='cast':
            v=s.ev(e[3],act); return s.cast(v,e[2],act,l)
        raise AssertionError(k)
    def mkdate(s,dmy,act,l):
        d,m,y=dmy
        if T(NOT(s.vdate(d,m,y))): s.err(act,l,'invalid date')
        return (d,m,y)
    def vdate(s,d,m,y):
        """1<=y<=32767 and (d,m,y) a Gregorian date"""
        if T(lt(y,1)):
            if T(ge(y,-32767)): raise Unspecified('year before 1')
            return False
        if T(gt(y,32767)): return False
        if T(OR(lt(m,1),gt(m,12))): return False
        if T(lt(d,1)): return False
        if T(le(d,28)): return True
        if T(gt(d,31)): return False
        mm=pick(m)
        if mm in(4,6,9,11): return T(le(d,30))
        if mm!=2: return True
        if T(gt(d,29)): return False
        if T(ne(imod(y,4),0)): return False
        if T(ne(imod(y,100),0)): return True
        return T(eq(imod(y,400),0))
    def nod(s,v):
        if v[0] is None: raise Unspecified('statement used as a value')
        return v
    def binop(s,e,act):
        _,l,op,a,b=e
        if op=='AND':
            x=s.nod(s.ev(a,act))
            if x[0]==B and not T(x[1]): return (B,False)
            y=s.nod(s.ev(b,act))
            if x[0]!=B or y[0]!=B: s.err(act,l,'AND')
            return (B,y[1])
        x=s.nod(s.ev(a,act)); y=s.nod(s.ev(b,act))
        if op=='OR':
            if x[0]!=B or y[0]!=B: s.err(act,l,'OR')
            if T(x[1]): return (B,True)
            return (B,y[1])
        if op=='&':
            if x[0] not in PRIM or y[0] not in PRIM: s.err(act,l,'&')
            return (S,s.text(x)+s.text(y))
        if op in('=','<>','<','>','<=','>='): return (B,s.compare(op,x,y,act,l))
        # arithmetic
        if op in'+-' and (isinstance(x[0],Enum) and y[0]==I or isinstance(y[0],Enum) and x[0]==I):
            if x[0]==I:
                if op=='-': raise Unspecified('INTEGER - enum')
                x,y=y,x
            n=len(x[0].vals); k=imod(y[1],n)
            r=iadd(x[1],k) if op=='+' else isub(x[1],k)
            return (x[0],imod(iadd(r,n),n))
        if x[0] not in(I,R) or y[0] not in(I,R): s.err(act,l,'operand type')
        if isinstance(x[1],RandVal) or isinstance(y[1],RandVal): raise Unspecified('arithmetic on a random value')
        if x[0]==I and y[0]==I:
            p,q=x[1],y[1]
            if op=='+': return (I,iadd(p,q))
            if op=='-': return (I,isub(p,q))
            if op=='*': return (I,imul(p,q))
            if T(eq(q,0)): s.err(act,l,'zero')
            if op in('DIV','MOD'):
                if T(AND(eq(p,-1<<63),eq(q,-1))): return (I,-1<<63 if op=='DIV' else 0)    # explored as a case of its own
                return (I,idiv(p,q) if op=='DIV' else imod(p,q))
            return (R,fbin('FDIV',i2f(p),i2f(q)))
        p=x[1] if x[0]==R else i2f(x[1]); q=y[1] if y[0]==R else i2f(y[1])
        if op=='+': return (R,fbin('FADD',p,q))
        if op=='-': return (R,fbin('FSUB',p,q))
        if op=='*': return (R,fbin('FMUL',p,q))
        if y[0]==I:
            if T(eq(y[1],0)): s.err(act,l,'zero')
        elif T(fcmp('FEQ',q,0.0)): s.err(act,l,'zero')
        z=fbin('FDIV',p,q)
        if op=='/': return (R,z)
        if op=='DIV':
            z=fun('FRTI',z,2); s.f2iok(z)
            return (I,f2i(z))
        z=fbin('FSUB',z,fun('FRTI',z,2)); return (R,fbin('FMUL',z,q))
    def f2iok(s,z):
        if T(NOT(fcmp('FLT',z,9223372036854775808.0))) or T(fcmp('FLT',z,-9223372036854775808.0)): raise Unspecified('REAL outside the INTEGER range')
    def dkey(s,d):
        if d is None: raise Unspecified('default DATE')
        return d
    def compare(s,op,x,y,act,l):
        if isinstance(x[1],RandVal) or isinstance(y[1],RandVal):
            if isinstance(x[1],RandVal) and ((op=='>=' and y[1]==0) or (op=='<=' and y[1] is x[1].x or (not isN(y[1]) and y[1]==x[1].x and op=='<='))): return True
            raise Unspecified('random value')
        if x[0]==C and y[0]==C:
            p,q=s.sch(x[1]),s.sch(y[1]); return s.icmp(op,p,q)
        if x[0]==D and y[0]==D:
            a,b=s.dkey(x[1]),s.dkey(y[1])
            eq_=AND(AND(eq(a[0],b[0]),eq(a[1],b[1])),eq(a[2],b[2]))
            lt_=OR(lt(a[2],b[2]),AND(eq(a[2],b[2]),OR(lt(a[1],b[1]),AND(eq(a[1],b[1]),lt(a[0],b[0])))))
            return {'=':lambda:eq_,'<>':lambda:NOT(eq_),'<':lambda:lt_,'>=':lambda:NOT(lt_),'<=':lambda:OR(lt_,eq_),'>':lambda:NOT(OR(lt_,eq_))}[op]()
        if x[0] in(I,R) and y[0] in(I,R):
            if x[0]==I and y[0]==I: return s.icmp(op,x[1],y[1])
            p=x[1] if x[0]==R else i2f(x[1]); q=y[1] if y[0]==R else i2f(y[1])
            if op=='=': return fcmp('FEQ',p,q)
            if op=='<>': return NOT(fcmp('FEQ',p,q))
            if op=='<': return fcmp('FLT',p,q)
            if op=='>': return fcmp('FLT',q,p)
            if op=='<=': return fcmp('FLE',p,q)
            return fcmp('FLE',q,p)
        if op not in('=','<>'): s.err(act,l,'ordering')
        if not s.same(x[0],y[0]): return op=='<>'
        if x[0]==B: r=eq(x[1],y[1]) if isN(x[1]) or isN(y[1]) else x[1]==y[1]
        elif x[0]==S: r=s.streq(x[1],y[1])
        elif isinstance(x[0],Enum): r=eq(x[1],y[1])
        else: s.err(act,l,'not comparable')
        return r if op=='=' else NOT(r)
    def streq(s,a,b):
        if len(a)!=len(b): return False
        r=True
        for p,q in zip(a,b): r=AND(r,eq(p,q) if isN(p) or isN(q) else p==q)
        return r
    def sch(s,c):
        if isN(c): return simp(CUR.tab.mk('SEXT',64,0,c))
        return c-256 if c>127 else c
    def icmp(s,op,p,q):
        return {'=':eq,'<>':ne,'<':lt,'>':gt,'<=':le,'>=':ge}[op](p,q)
    def rtext(s,x):
        """REAL as text, 6 decimals, trailing zeros removed"""
        if isinstance(x,RandVal): raise Unspecified('random value')
        if isN(x): v=fval(x); T(fcmp('FEQ',x,v)); x=v
        if x!=x or math.isinf(x): raise Unspecified('text of a non-finite REAL')
        t='%.6f'%x; t=t.rstrip('0')
        if t.endswith('.'): t=t[:-1]
        return chars(t)
    def text(s,v):
        t,d=v
        if t==I: return itext(d)
        if t==R: return s.rtext(d)
        if t==B: return chars('TRUE' if T(d) else 'FALSE')
        if t==C: return [d]
        if t==S: return list(d)
        if t==D:
            d=s.dkey(d); return itext(d[0])+[47]+itext(d[1])+[47]+itext(d[2])
        raise AssertionError
    def tonum(s,cs,kind):
        """text -> number ; kind 'I' or 'R'"""
        if len(cs)==1 and isinstance(cs[0],Num):
            h=cs[0]
            if h.kind==kind: return h.node
            if kind=='R': return i2f(h.node)
            raise Unspecified('REAL text read as INTEGER')
        cs=s.expand(cs)
        t=''
        if 0<len(cs)<=(19 if kind=='I' else 17) and any(isN(c) and c.op!='TEXT' for c in cs):
            # a plain decimal numeral: the value is a polynomial of the digits over a power of ten
            d=list(cs); neg=T(eq(d[0],45)); pt=None; dg=[]
            if neg: d=d[1:]
            for c in d:
                if T(isdg_(c)): dg.append(c)
                elif kind=='R' and pt is None and T(eq(c,46)): pt=len(dg)
                else: break
            else:
                if 0<len(dg)<=(18 if kind=='I' else 15):
                    r=0
                    for c in dg: r=iadd(imul(r,10),zext(bsub(c,48)))
                    if kind=='I': return ineg(r) if neg else r
                    if neg and T(eq(r,0)): raise Unspecified('negative zero')
                    x=i2f(ineg(r) if neg else r); k=0 if pt is None else len(dg)-pt
                    return fbin('FDIV',x,10.0**k) if k else x
        if any(isN(c) for c in cs) and not any(isN(c) and c.op=='TEXT' for c in cs):
            # only the shape matters: every numeral in another notation is left open, anything else denotes 0
            word=False; prev=None; ex=False
            for c in cs:
                first=t.lstrip(' \t\n\v\f\r').lstrip('+-')==''
                p=prev; prev=None
                if not isN(c):
                    t+=chr(c)
                    if first and c in b'iInN': word=True
                    if p is not None and c in b'xX' and T(eq(p,48)): t=t[:-2]+'0'+t[-1]
                elif word: t+=chr(pick(c))
                elif T(isdg_(c)): t+='1'; prev=c; ex=True
                elif T(eq(c,46)): t+='.'
                elif T(inset(c,b'+-')): t+='+'; ex=True
                elif T(inset(c,b' \t\n\v\f\r')): t+=' '
                elif T(inset(c,b'eE')): t+='e'
                elif T(inset(c,b'xX')):
                    if p is not None and T(eq(p,48)): t=t[:-1]+'0'
                    t+='x'
                elif T(inset(c,b'pP')): t+='p'
                elif T(inset(c,b'abcdfABCDF')): t+='a'
                elif first and T(inset(c,b'iInN')): t+=chr(pick(c)); word=True
                else: t+='z'
            if not PLAIN.match(t) and not re.match(r'^[+-](\d+\.?\d*|\.\d+)$',t):
                if ANYNUM.match(t): raise Unspecified('unusual numeral notation')
                return 0 if kind=='I' else 0.0
            t=''
        for c in cs:
            if not isN(c): t+=chr(c); continue
            if c.op=='TEXT' and (c.imm>>16)&255==0 and len(cs)==(c.imm>>8)&255 and c is cs[0] and all(isN(x) and x.op=='TEXT' and x.a is c.a for x in cs):
                return c.a if kind=='I' else i2f(c.a)
            if T(isdg_(c)): t+=chr(pick(c)); continue
            v=uval(c)
            if T(inset(c,b'+-.eExXpPabcdfABCDFiInN \t\n\v\f\r')): t+=chr(pick(c))
            else: t+='z'
        return numtext(t,kind)
    def expand(s,cs):
        if any(isinstance(c,Num) for c in cs):
            o=[]
            for c in cs:
                if isinstance(c,Num):
                    if c.kind!='I': raise Unspecified('REAL hole inside text')
                    o+=itext(c.node)
                else: o.append(c)
            return o
        return cs
    def cast(s,v,ty,act,l):
        t,d=v
        if t is None: raise Unspecified('cast of a statement')
        if t not in PRIM: s.err(act,l,'cast')
        if t==ty: return v
        if ty==D: s.err(act,l,'cast to DATE')
        if isinstance(d,RandVal): raise Unspecified('random value')
        if ty==S: return (S,s.text(v))
        if t==D:
            if ty==I: raise Unspecified('DATE as INTEGER')
            s.err(act,l,'cast of DATE')
        if ty==I:
            if t==R:
                z=fun('FRTI',d,4); s.f2iok(z); return (I,f2i(d))
            if t==B: return (I,ite(d,1,0))
            if t==C: return (I,s.sch(d))
            return (I,s.tonum(d,'I'))
        if ty==R:
            if t==I: return (R,i2f(d))
            if t==B: return (R,1.0 if T(d) else 0.0)
            if t==C: return (R,i2f(s.sch(d)))
            return (R,s.tonum(d,'R'))
        if ty==B:
            if t==I: return (B,ne(d,0))
            if t==R: return (B,NOT(fcmp('FEQ',d,0.0)))
            if t==C: return (B,ne(d,0) if not isN(d) else NOT(simp(CUR.tab.mk('EQ',1,0,d,CUR.tab.const(0,8)))))
            return (B,len(d)>0)
        if ty==C:
            if t==I: return (C,low8(d))
            raise Unspecified('cast to CHAR')
        raise Unspecified('cast')
    # ------------------------------------------------------------- calls
    def bind(s,ps,args,act,l,callee):
        """evaluate arguments, check, bind; -> nothing (fills callee.vars)"""
        vals=[]; refs={}
        for i,e in enumerate(args):
            if i<len(ps) and ps[i][2] and e[0]=='acc':     # bound to the variable itself: resolved once, not read
                s.tick()
                try: c=s.resolve(e[2],act)
                except KeyError: s.err(act,e[1],'BYREF argument is not a variable')
                if isinstance(c,Arr): s.err(act,e[1],'array')
                refs[i]=c; vals.append((c.ty,None))
            else: vals.append(s.ev(e,act))
        if len(args)!=len(ps): s.err(act,l,'argument count')
        act.line=l
        for i,(v,e,(n,ty,ref)) in enumerate(zip(vals,args,ps)):
            if not ref: v=s.icast(v,ty)
            if not s.same(v[0],ty) : s.err(act,l,'argument type')
            if ref:
                if i not in refs: s.err(act,l,'BYREF argument is not a variable')
                c=refs[i]
                if n in callee.vars: raise Unspecified('duplicate parameter names')
                callee.vars[n]=c
            else:
                if n in callee.vars: raise Unspecified('duplicate parameter names')
                callee.vars[n]=Cell(ty,s.copyval(ty,v[1],callee),callee,n)
    def enter(s,callee,act,l):
        act.line=l; s.depth+=1
        if s.depth>MAXDEPTH: raise Unspecified('call depth')
    def callp(s,e,act):
        _,l,n,args=e
        p=s.procs.get(n)
        if p is None: s.err(act,l,'undefined procedure')
        a=Act(n,act); s.bind(p[0],args,act,l,a); s.enter(a,act,l)
        try:
            try: s.block(p[1],a)
            except _Break as x: s.err(a,x.l,'BREAK outside a loop')
        finally: a.alive=False; s.depth-=1
        act.line=None
    def callf(s,e,act):
        _,l,n,args=e
        f=s.funcs.get(n)
        if f is None:
            if n in BUILTIN: return s.builtin(n,args,act,l)
            s.err(act,l,'undefined function')
        a=Act(n,act,True,f[2]); s.bind(f[0],args,act,l,a); s.enter(a,act,l)
        v=None
        try:
            try: s.block(f[1],a)
            except _Ret as x: v=x.v
            except _Break as x: s.err(a,x.l,'BREAK outside a loop')
            if v is None: s.err(a,None,'missing RETURN')
        finally: a.alive=False; s.depth-=1
        act.line=None
        return v
    def builtin(s,n,args,act,l):
        ps,rt=BUILTIN[n]
        a=Act(n,act); s.bind([('p%d'%i,t,False) for i,t in enumerate(ps)],args,act,l,a); act.line=l
        v=[a.vars['p%d'%i].d for i in range(len(ps))]
        def bad(w): s.err(a,None,w)
        r=s.bi(n,v,bad)
        act.line=None
        return (rt,r)
    def bi(s,n,v,bad):
        if n=='LENGTH': return len(s.noNum(v[0]))
        if n in('LEFT','RIGHT'):
            st=s.noNum(v[0]); k=v[1]
            if T(lt(k,0)) or T(gt(k,len(st))): bad('length')
            k=pick(k); return st[:k] if n=='LEFT' else st[len(st)-k:]
        if n=='MID':
            st=s.noNum(v[0]); i,k=v[1],v[2]
            if T(lt(i,1)) or T(lt(k,0)): bad('MID')
            if T(gt(i,len(st))):
                if T(eq(i,len(st)+1)) and T(eq(k,0)): raise Unspecified('empty MID just past the end')
                bad('MID')
            if T(gt(k,len(st))): bad('MID')
            if T(gt(iadd(i,k),len(st)+1)): bad('MID')
            i=pick(i); k=pick(k); return st[i-1:i-1+k]
        if n in('TO_UPPER','TO_LOWER','LCASE','UCASE'):
            f=lambda c: s.case(c,n in('TO_UPPER','UCASE'))
            return [f(c) for c in s.noNum(v[0])] if n.startswith('TO') else f(v[0])
        if n=='NUM_TO_STR': return s.rtext(v[0])
        if n=='STR_TO_NUM': return s.tonum(v[0],'R')
        if n=='IS_NUM':
            dots=0; dg=0
            for c in s.noNum(v[0]):
                if T(isdg_(c)): dg+=1
                elif T(eq(c,46)): dots+=1
                else:
                    # not a plain numeral: IS_NUM must not accept text that is no numeral at all
                    s.notplain(v[0]); return False
            if dots>1: return False
            if dg==0: raise Unspecified('no digit')
            return True
        if n=='ASC': return s.sch(v[0])
        if n=='CHR': return low8(v[0])
        if n in('DAY','MONTH','YEAR'): return s.dkey(v[0])[('DAY','MONTH','YEAR').index(n)]
        if n=='DAYINDEX':
            d,m,y=s.dkey(v[0]); return s.weekday(d,m,y)
        if n=='SETDATE':
            if T(NOT(s.vdate(v[0],v[1],v[2]))): bad('date')
            return (v[0],v[1],v[2])
        if n=='TODAY':
            import time
            t=time.gmtime(s.time); return (t.tm_mday,t.tm_mon,t.tm_year)
        if n=='TIME': return s.time
        if n=='INT':
            z=fun('FRTI',v[0],2); s.f2iok(z); return f2i(z)
        if n=='RAND':
            if T(lt(v[0],0)): raise Unspecified('RAND of a negative')
            if T(eq(v[0],0)): return 0.0
            return RandVal(v[0])
        if n=='EOF':
            h=s.h.get(s.fname(v[0]))
            if h is None or h['mode']!='READ': bad('EOF')
            return h['pos']>=len(h['data'])
        raise Unspecified('built-in '+n)
    def notplain(s,cs):
        t=''.join(chr(uval(c)) for c in cs)
        return
    def noNum(s,cs): return s.expand(cs)
    def case(s,c,up):
        if not isN(c):
            if up and 97<=c<=122: return c-32
            if not up and 65<=c<=90: return c+32
            return c
        if up: 
            if T(rng(c,97,122)): return simp(CUR.tab.mk('ADD',8,0,c,CUR.tab.const(-32,8)))
            return c
        if T(rng(c,65,90)): return simp(CUR.tab.mk('ADD',8,0,c,CUR.tab.const(32,8)))
        return c
    def weekday(s,d,m,y):
        m=pick(m)
        # the year is counted from March, so that a leap day is its last day; February 29 of year 0 would be a Tuesday
        yy=isub(y,1) if m<=2 else y; off=(0,31,61,92,122,153,184,214,245,275,306,337)[(m-3)%12]
        n=iadd(isub(iadd(imul(yy,365),idiv(yy,4)),idiv(yy,100)),idiv(yy,400))
        return iadd(imod(iadd(iadd(n,d),off+2),7),1)
    # ------------------------------------------------------------- statements
    def assign(s,e,act):
        _,l,rhs,res=e
        if rhs[0]=='acc':
            src=None
            try: src=s.resolve(rhs[2],act)
            except KeyError: pass
            if isinstance(src,Arr):
                try: t=s.resolve(res,act)
                except KeyError: s.err(act,l,'undefined')
                if not isinstance(t,Arr): s.err(act,l,'array into scalar')
                if not s.same(t.ty,src.ty): s.err(act,l,'array type')
                if len(t.dims)!=len(src.dims): s.err(act,l,'dims')
                for (a,b),(c,d) in zip(t.dims,src.dims):
                    if T(ne(a,c)) or T(ne(b,d)): s.err(act,l,'dims')
                s.storearr(t,src); return
            s.tick(); v=s.ev(rhs,act) if src is None else (src.ty,s.copyval(src.ty,src.d,None))
        else: v=s.ev(rhs,act)
        if v[0] is None: raise Unspecified('statement used as a value')
        try: c=s.resolve(res,act)
        except KeyError:
            if s.istype(act,res[1]): s.err(act,l,'name is a type')
            if s.ped: raise PedRun(l)
            c=Cell(v[0],s.default(v[0],act,act),act,res[1]); s.store(c,v[1]); act.vars[res[1]]=c; return
        if isinstance(c,Arr): s.err(act,l,'scalar into array')
        if c.const: s.err(act,l,'constant')
        v=s.icast(v,c.ty)
        if not s.same(v[0],c.ty): s.err(act,l,'type')
        s.store(c,v[1])
    def passign(s,e,act):
        _,l,pr,tr=e
        p=s.rsub(pr,act)
        if isinstance(p,Arr): s.err(act,l,'array')
        t=s.rsub(tr,act)
        if isinstance(t,Arr): s.err(act,l,'array')
        if not isinstance(p.ty,Ptr): s.err(act,l,'not a pointer')
        if not s.same(p.ty.to,t.ty): s.err(act,l,'pointer type')
        if p.const: s.err(act,l,'constant')
        p.d=t
    def block(s,b,act):
        s.tick()
        for st in b:
            s.tick()
            v=s.stmt(st,act)
            if s.replmode and v is not None and v[0] is not None: s.echo(v,act)
    def echo(s,v,act):
        t,d=v; o=s.o.out
        if t==C: o+=[39,d,39]
        elif t==S: o+=[34]+s.expand(d)+[34]
        elif isinstance(t,Enum): o+=chars(t.name+': ')+chars(t.vals[pick(d)])
        elif isinstance(t,Ptr):
            o+=chars(t.name+': ')+chars('null' if d is None else d.name if d.own.alive else '{DELETED}')
            if d is not None and d.own.alive and d.name=='': raise Unspecified('echo of a pointer')
        elif isinstance(t,RecT): o+=chars(t.name+' object')
        else: s.item(v,act,None)
        o.append(10)
    def item(s,v,act,l):
        t,d=v; o=s.o.out
        if t is None: s.err(act,l,'no value')
        if t==I:
            if isN(d): o.append(('I',d))
            else: o+=chars(str(d))
        elif t==R:
            if isinstance(d,RandVal): raise Unspecified('random value')
            if isN(d):
                o.append(('R',d,10,0))
                if T(fcmp('FEQ',d,fun('FRTI',d,4))): o+=[46,48]
            else:
                o+=chars(realtext(d,10,0))
                if d==d and (math.isinf(d) or d==math.trunc(d)): o+=[46,48]
        elif t==B: o+=chars('TRUE' if T(d) else 'FALSE')
        elif t==C: o.append(d)
        elif t==S: o+=s.expand(d)
        elif t==D:
            d=s.dkey(d)
            for i,x in enumerate(d):
                if i: o.append(47)
                o+=itext(x)
        elif isinstance(t,Enum): o+=chars(t.vals[pick(d)])
        else: o+=chars(t.name+' object')
    def boolc(s,e,act,l):
        v=s.ev(e,act)
        if v[0]!=B: s.err(act,l,'condition type')
        return T(v[1])
    def stmt(s,st,act):
        k=st[0]; l=st[1]
        f=getattr(s,'st_'+k,None)
        if f is None: return s.ev(st,act)
        f(st,act); return None
    def st_output(s,st,act):
        for e in st[2]: s.item(s.ev(e,act),act,st[1])
        s.o.out.append(10)
    def readline(s):
        """next line of standard input, None at end"""
        if s.sp>=len(s.stdin): return None
        r=[]
        while s.sp<len(s.stdin):
            c=s.stdin[s.sp]; s.sp+=1
            if not isinstance(c,Num) and T(eq(c,10) if not isN(c) else simp(CUR.tab.mk('EQ',1,0,c,CUR.tab.const(10,8)))): return r
            r.append(c)
        return r
    def st_input(s,st,act):
        _,l,res=st
        try: c=s.resolve(res,act)
        except KeyError:
            if s.istype(act,res[1]): s.err(act,l,'name is a type')
            if s.ped: raise PedRun(l)
            c=Cell(S,[],act,res[1]); act.vars[res[1]]=c
        if isinstance(c,Arr): s.err(act,l,'array')
        if c.const: s.err(act,l,'constant')
        ln=s.readline()
        if ln is None: ln=[]
        t=c.ty
        if t==I: c.d=s.tonum(ln,'I')
        elif t==R: c.d=s.tonum(ln,'R')
        elif t==B:
            ln=s.expand(ln)
            c.d=s.streq(ln,chars('TRUE'))
        elif t==C:
            ln=s.expand(ln)
            if not ln: raise Unspecified('empty line for a CHAR')
            if len(ln)>1: raise Unspecified('several characters for a CHAR')
            c.d=ln[0]
        elif t==S: c.d=s.expand(ln)
        else: s.err(act,l,'input type')
    def st_declare(s,st,act):
        _,l,ids,tn=st
        for n in ids:
            if n in act.vars: s.redecl(act,l,n)
            if s.istype(act,n): s.err(act,l,'name is a type')
            t=s.ltype(act,tn)
            if t is None: s.err(act,l,'type')
            act.vars[n]=Cell(t,s.default(t,act,act),act,n)
    def redecl(s,act,l,n):
        if isinstance(act.vars[n],Arr): raise Unspecified('array redeclared as a variable')
        s.err(act,l,'redeclared')
    def st_array(s,st,act): s.declarr(st,act,act.vars,act,act,0,act)
    def st_const(s,st,act):
        _,l,e,n=st
        v=s.ev(e,act)
        if n in act.vars: s.redecl(act,l,n)
        if s.istype(act,n): raise Unspecified('constant named like a type')
        act.vars[n]=Cell(v[0],v[1],act,n,True)
    def newtype(s,act,l,n):
        if s.istype(act,n,False): s.err(act,l,'type redefined')
    def st_record(s,st,act):
        s.newtype(act,st[1],st[2]); act.types[st[2]]=RecT(st[2],st[3],act)
    def st_ptrtype(s,st,act):
        t=s.ltype(act,st[3])
        if t is None: s.err(act,st[1],'type')
        s.newtype(act,st[1],st[2]); act.types[st[2]]=Ptr(st[2],t)
    def st_enum(s,st,act):
        s.newtype(act,st[1],st[2])
        if len(set(st[3]))!=len(st[3]): raise Unspecified('duplicate enum names')
        act.types[st[2]]=Enum(st[2],list(st[3]))
    def st_if(s,st,act):
        for k,(c,b) in enumerate(st[2]):
            if c is None or s.boolc(c,act,st[1] if k==0 else None):
                s.block(b,act); return
    def st_case(s,st,act):
        _,l,vn,cl=st
        v=s.ev(('acc',l,('var',vn,l)),act)
        for k,e,o,b in cl:
            if k=='other': hit=True
            elif k=='eq':
                x=s.nod(s.ev(e,act))
                if v[0] in(I,R) and x[0] in(I,R) or v[0]==C and x[0]==C: hit=T(s.compare('=',v,x,act,None))
                elif not s.same(v[0],x[0]): hit=False
                elif isinstance(v[0],(Ptr,RecT)): raise Unspecified('CASE on a pointer or record')
                else: hit=T(s.compare('=',v,x,act,None))
            else:
                if v[0] not in(I,R):
                    if v[0] in(C,D): raise Unspecified('CASE range on CHAR/DATE')
                    continue
                a=s.nod(s.ev(e,act))
                if a[0] not in(I,R): s.err(act,None,'range bound')
                c=s.nod(s.ev(o,act))
                if c[0] not in(I,R): s.err(act,None,'range bound')
                hit=T(s.compare('<=',a,v,act,None)) and T(s.compare('<=',v,c,act,None))
            if hit: s.block(b,act); return
    def loopbody(s,b,act):
        try: s.block(b,act)
        except _Cont: return True
        except _Break: return False
        return True
    def st_while(s,st,act):
        while s.boolc(st[2],act,st[1]):
            s.tick()
            if not s.loopbody(st[3],act): return
    def st_repeat(s,st,act):
        while True:
            s.tick()
            if not s.loopbody(st[2],act): return
            v=s.ev(st[3],act)
            if v[0]!=B: s.err(act,None,'condition type')
            if T(v[1]): return
    def st_for(s,st,act):
        _,l,n,a,b,stp,body=st
        c=s.lookup(act,n)
        if c is None:
            if s.ped: raise Unspecified('FOR over an undeclared variable under --pedantic')
            if s.istype(act,n): raise Unspecified('FOR over a type name')
            c=Cell(I,0,act,n); act.vars[n]=c
        if isinstance(c,Arr) or c.ty!=I: s.err(act,l,'iterator')
        if c.const: s.err(act,l,'constant')
        def iv(e):
            v=s.ev(e,act)
            if v[0]!=I: s.err(act,l,'FOR bound type')
            return v[1]
        x=iv(a); y=iv(b); z=1 if stp is None else iv(stp)
        neg=T(lt(z,0)); c.d=x
        while True:
            s.tick()
            if neg:
                if T(lt(c.d,y)): return
            elif T(gt(c.d,y)): return
            if not s.loopbody(body,act): return
            nx=iadd(c.d,z)
            if neg:
                if T(gt(nx,c.d)): raise Unspecified('iterator overflow')
            elif T(lt(nx,c.d)): raise Unspecified('iterator overflow')
            c.d=nx
    def st_break(s,st,act): raise _Break(st[1])
    def st_continue(s,st,act): raise _Cont(st[1])
    def st_call(s,st,act): s.callp(st,act)
    def st_proc(s,st,act):
        _,l,n,ps,b,rt=st
        if n in s.procs: s.err(act,l,'redefined')
        s.procs[n]=(s.params(ps,act,l),b)
    def params(s,ps,act,l):
        r=[]
        for n,t,ref in ps:
            ty=s.ltype(act,t)
            if ty is None: s.err(act,l,'parameter type')
            r.append((n,ty,ref))
        return r
    def st_func(s,st,act):
        _,l,n,ps,b,rt=st
        if n in s.funcs or n in BUILTIN: s.err(act,l,'redefined')
        t=s.ltype(act,rt)
        if t is None: s.err(act,l,'return type')
        s.funcs[n]=(s.params(ps,act,l),b,t)
    def st_return(s,st,act):
        if not act.isf: s.err(act,st[1],'RETURN outside a function')
        v=s.ev(st[2],act)
        v=s.icast(v,act.rt)
        if not s.same(v[0],act.rt): s.err(act,st[1],'return type')
        raise _Ret((v[0],s.copyval(v[0],v[1],None)))
    # ------------------------------------------------------------- files
    def fname(s,cs):
        return ''.join(chr(pick(c)) if isN(c) else chr(c) for c in s.expand(cs))
    def fn(s,e,act,l):
        v=s.ev(e,act)
        if v[0]!=S: s.err(act,l,'file name')
        return s.fname(v[1])
    def canopen(s,n):
        if n=='' or len(n)>200 or '\0' in n: return False
        if n in s.fs.dirs or n.endswith('/'): return False
        if '/' in n:
            p=n.rsplit('/',1)[0]
            if p not in s.fs.dirs: return False
        return True
    def st_open(s,st,act):
        _,l,f,mode=st; n=s.fn(f,act,l); s.gone(n)
        if n in s.h: s.err(act,l,'already open')
        if n in s.outer: raise Unspecified('file already open in the session')
        if n=='/dev/full':
            if mode not in('WRITE','APPEND'): raise Unspecified('/dev/full')
            s.h[n]={'mode':mode,'full':True}; return
        if not s.canopen(n): s.err(act,l,'cannot open')
        if '..' in n or './' in n: raise Unspecified('aliased path')
        x=s.fs.f.get(n)
        if x is None and mode in('READ','APPEND'): s.err(act,l,'no such file')
        if mode=='READ' or mode=='APPEND':
            if x[0]!='text':
                if x[1]: raise Unspecified('random file opened as text')
                x=s.fs.f[n]=('text',[])
            s.h[n]={'mode':mode,'data':x[1],'pos':0}
            if mode=='READ': s.h[n]['data']=s.expand([c for y in x[1] for c in (y[1] if isinstance(y,tuple) else (y,))])
        elif mode=='WRITE':
            s.fs.f[n]=('text',[]); s.h[n]={'mode':mode,'data':s.fs.f[n][1]}
        else:
            if x is None: x=s.fs.f[n]=('text',[])
            if x[0]=='text':
                if x[1]: raise Unspecified('hand-made random file')
                recs=[]
            else: recs=list(x[1])
            s.h[n]={'mode':mode,'recs':recs,'pos':1,'mod':False}
    def gone(s,n):
        if n in s.lost: raise Unspecified('file after a rejected write')
    def hnd(s,n,act,l,modes):
        s.gone(n)
        h=s.h.get(n)
        if h is None: s.err(act,l,'not open')
        if h['mode'] not in modes: s.err(act,l,'mode')
        return h
    def st_close(s,st,act):
        _,l,f=st; n=s.fn(f,act,l); s.gone(n)
        if n not in s.h: s.err(act,l,'not open')
        if not s.closeh(n): s.err(act,l,'write rejected')
    def closeh(s,n):
        h=s.h.pop(n)
        if h['mode']=='RANDOM' and h['mod']:
            s.fs.f[n]=('rand',h['recs'])
            if s.fs.limit is not None:
                lo,hi=bounds(h['recs'],True)
                if hi>s.fs.limit:
                    if lo<=s.fs.limit: raise Unspecified('size of a random file')
                    s.lost.add(n); return False
        return True
    def closeall(s):
        for n in list(s.h):
            if not s.closeh(n): s.o.must=True
    def st_readfile(s,st,act):
        _,l,f,i=st; n=s.fn(f,act,l)
        c=s.lookup(act,i)
        if c is not None and (isinstance(c,Arr) or c.ty!=S): s.err(act,l,'STRING expected')
        if c is None and s.istype(act,i): raise Unspecified('READFILE into a type name')
        h=s.hnd(n,act,l,('READ',))
        if c is not None and c.const: s.err(act,l,'constant')
        if c is None:
            if s.ped: raise Unspecified('READFILE into an undeclared variable under --pedantic')
            c=Cell(S,[],act,i); act.vars[i]=c
        if h['pos']>=len(h['data']): raise Unspecified('READFILE at end of file')
        r=[]
        while h['pos']<len(h['data']):
            x=h['data'][h['pos']]; h['pos']+=1
            if T(eq(x,10) if not isN(x) else simp(CUR.tab.mk('EQ',1,0,x,CUR.tab.const(10,8)))): break
            r.append(x)
        c.d=r
    def st_writefile(s,st,act):
        _,l,f,e=st; n=s.fn(f,act,l)
        h=s.hnd(n,act,l,('WRITE','APPEND'))
        v=s.ev(e,act)
        if v[0] is None: raise Unspecified('statement used as a value')
        if v[0] not in PRIM: s.err(act,l,'WRITEFILE type')
        if s.h.get(n) is not h: raise Unspecified('file closed while evaluating the data')
        if h.get('full'): s.err(act,l,'no space')
        t=s.text(v); d=h['data']
        if h['mode']=='APPEND' and d and not h.get('w') and uval(d[-1])!=10:
            if isN(d[-1]): T(eq(d[-1],10))
            d.append(10)
        h['w']=True
        if v[0]==R: d.append(('num',t))
        d+=t if v[0]!=R else []
        d.append(10)
        if s.fs.limit is not None:
            lo,hi=bounds(d)
            if hi>s.fs.limit:
                if lo<=s.fs.limit: raise Unspecified('size of a file')
                s.fs.f[n]=('rand',[]); s.lost.add(n); del s.h[n]; s.err(act,l,'write rejected')
    def st_seek(s,st,act):
        _,l,f,e=st
        v=s.ev(e,act)
        if v[0]!=I: s.err(act,l,'address type')
        if T(lt(v[1],1)): s.err(act,l,'address')
        n=s.fn(f,act,l); h=s.hnd(n,act,l,('RANDOM',))
        if T(gt(v[1],len(h['recs'])+1)): s.err(act,l,'address')
        h['pos']=pick(v[1])
    def rv(s,act,l,i):
        c=s.lookup(act,i)
        if c is None: s.err(act,l,'undefined')
        if isinstance(c.ty,Ptr): s.err(act,l,'pointer')
        return c
    def st_getrecord(s,st,act):
        _,l,f,i=st; n=s.fn(f,act,l); h=s.hnd(n,act,l,('RANDOM',)); c=s.rv(act,l,i)
        if isinstance(c,Cell) and c.const: s.err(act,l,'constant')
        if h['pos']>len(h['recs']): s.err(act,l,'no record')
        k,ts,x=h['recs'][h['pos']-1]
        if isinstance(c,Arr):
            sz=[val(isub(b,a)) for a,b in c.dims]
            if k!='arr': s.err(act,l,'type')
            if ts[0]!=tsig(c.ty):
                s.sigcheck(ts[0],tsig(c.ty),ts[2],shape(c)); s.err(act,l,'type')
            if len(x)!=len(c.cells): s.err(act,l,'type')
            if [(val(a),val(b)) for a,b in c.dims]!=ts[1]: raise Unspecified('array of another shape')
            for e,d in zip(c.cells,x): s.loadcell(e,d)
        else:
            if k!='val': s.err(act,l,'type')
            if ts[0]!=tsig(c.ty): s.sigcheck(ts[0],tsig(c.ty),ts[1],shape(c)); s.err(act,l,'type')
            s.loadcell(c,x)
    def sigcheck(s,a,b,sa,sb):
        if sa!=sb: return      # stores other kinds of data: a different type, whatever its name
        if isinstance(a,tuple) and isinstance(b,tuple) and a[0]==b[0] and a[1]==b[1]: raise Unspecified('same type name, other definition')
    def loadcell(s,c,d):
        if isinstance(c.ty,RecT):
            for n,x in c.d.f.items():
                y=d[n]
                if isinstance(x,Cell): s.loadcell(x,y)
                else:
                    for e,z in zip(x.cells,y): s.loadcell(e,z)
        else: c.d=list(d) if c.ty==S else d
    def dumpcell(s,c):
        if isinstance(c.ty,RecT):
            return {n:s.dumpcell(x) if isinstance(x,Cell) else [s.dumpcell(e) for e in x.cells] for n,x in c.d.f.items()}
        if isinstance(c.ty,Ptr): raise Unspecified('pointer inside a record written to a file')
        if c.ty==R and isinstance(c.d,RandVal): raise Unspecified('random value')
        if c.ty==R: s.finite(c.d)
        if c.ty==D: s.dkey(c.d)
        return list(c.d) if c.ty==S else c.d
    def finite(s,x):
        a=fun('FABS',x)
        if T(fcmp('FEQ',x,0.0)):
            return
        if T(fcmp('FLT',a,2.2250738585072014e-308)) or T(NOT(fcmp('FLE',a,1.7976931348623157e308))): raise Unspecified('REAL is not a finite normal value')
    def st_putrecord(s,st,act):
        _,l,f,i=st; n=s.fn(f,act,l); h=s.hnd(n,act,l,('RANDOM',)); c=s.rv(act,l,i)
        if isinstance(c,Arr): r=('arr',(tsig(c.ty),[(val(a),val(b)) for a,b in c.dims],shape(c)),[s.dumpcell(e) for e in c.cells])
        else: r=('val',(tsig(c.ty),shape(c)),s.dumpcell(c))
        if h['pos']>len(h['recs']): h['recs'].append(r)
        else: h['recs'][h['pos']-1]=r
        h['mod']=True
def isdg_(c): return rng(c,48,57)
def inset(c,bs):
    if not isN(c): return c in bs
    r=False
    for b in bs: r=OR(r,simp(CUR.tab.mk('EQ',1,0,c,CUR.tab.const(b,8))))
    return r
PLAIN=re.compile(r'^(\d+\.?\d*|\.\d+)$')
ANYNUM=re.compile(r'^\s*[+-]?((\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|0[xX][0-9a-fA-F.]+([pP][+-]?\d+)?|(?i:inf(inity)?|nan.*))\s*$')
def numtext(t,kind):
    if PLAIN.match(t):
        if kind=='R':
            v=float(t)
            if math.isinf(v): raise Unspecified('REAL text too large')
            return v
        if '.' in t: raise Unspecified('REAL text read as INTEGER')
        v=int(t)
        if v>=1<<63: raise Unspecified('INTEGER text too large')
        return v
    if re.match(r'^-\d+$',t) :   # a negative decimal integer: denotes itself
        v=int(t)
        if v< -(1<<63): raise Unspecified('INTEGER text too large')
        if not v and kind!='I': raise Unspecified('negative zero')
        return v if kind=='I' else float(v)
    if re.match(r'^-(\d+\.?\d*|\.\d+)$',t) and kind=='R':
        v=float(t)
        if math.isinf(v): raise Unspecified('big')
        if not v: raise Unspecified('negative zero')
        return v
    if ANYNUM.match(t): raise Unspecified('unusual numeral notation')
    return 0 if kind=='I' else 0.0
BUILTIN={'LENGTH':([S],I),'LEFT':([S,I],S),'RIGHT':([S,I],S),'MID':([S,I,I],S),'TO_UPPER':([S],S),'TO_LOWER':([S],S),'NUM_TO_STR':([R],S),'STR_TO_NUM':([S],R),'IS_NUM':([S],B),'EOF':([S],B),
 'LCASE':([C],C),'UCASE':([C],C),'ASC':([C],I),'CHR':([I],C),'DAY':([D],I),'MONTH':([D],I),'YEAR':([D],I),'DAYINDEX':([D],I),'SETDATE':([I,I,I],D),'TODAY':([],D),'TIME':([],I),'HOURS':([],I),'MINUTES':([],I),'SECONDS':([],I),
 'POW':([R,R],R),'EXP':([R],R),'SIN':([R],R),'COS':([R],R),'TAN':([R],R),'ASIN':([R],R),'ACOS':([R],R),'ATAN':([R],R),'ATAN2':([R,R],R),'SQRT':([R],R),'LOG':([R],R),'LN':([R],R),'RAND':([I],R),'INT':([R],I)}
