"""Term table shared by the trace importer (implementation) and the reference semantics: hash-consed
bit-vector / IEEE-754 terms with a canonicaliser, a concrete evaluator and a translation to z3."""
import struct, math

M64=(1<<64)-1
COMM={'ADD','MUL','AND','OR','XOR','EQ','FADD','FMUL','FEQ','FUNO'}
class N:
    __slots__=('op','w','fp','a','b','c','imm','id','sup','z','txt','r')
    def __repr__(s):
        if s.op=='CONST': return ('%r'%bits2d(s.imm)) if s.fp else str(sx(s.imm,s.w))
        if s.op=='VAR': return 'v%d'%s.imm
        if s.op=='TABLE': return 'tab%d'%s.imm[0]
        if s.op=='TEXT': return 'txt[%d]{%r}'%(s.imm&255,s.a)
        k=[repr(x) for x in (s.a,s.b,s.c) if x is not None]
        return '(%s%s %s)'%(s.op,'' if not s.imm else '.%s'%(s.imm,),' '.join(k))
def bits2d(b): return struct.unpack('<d',struct.pack('<Q',b))[0]
def d2bits(d): return struct.unpack('<Q',struct.pack('<d',d))[0]
def bits2f(b): return struct.unpack('<f',struct.pack('<I',b))[0]
def f2bits(d):
    try: return struct.unpack('<I',struct.pack('<f',d))[0]
    except OverflowError: return 0x7f800000|(0x80000000 if d<0 else 0)
def sx(v,w):
    m=1<<(w-1); v&=(1<<w)-1
    return (v^m)-m
def fv(b,w): return bits2d(b) if w==64 else bits2f(b)
def fpk(d,w): return d2bits(d) if w==64 else f2bits(d)
def fdiv(a,b):
    try: return a/b
    except ZeroDivisionError:
        if a==0 or a!=a: return math.nan
        return math.copysign(math.inf,a)*math.copysign(1,b)
def frti(x,k):
    if math.isnan(x) or math.isinf(x): return x
    if k==2: r=math.floor(x)
    elif k==3: r=math.ceil(x)
    elif k==4: r=math.trunc(x)
    elif k==5: r=math.floor(abs(x)+0.5) if abs(x)<2**52 else abs(x); 
    else: r=round(x)
    if k==5:
        ax=abs(x); r=math.floor(ax); r=r+1 if ax-r>=0.5 else r; r=math.copysign(r,x)
    return math.copysign(float(r),x)
def compute(op,w,aw,imm,a,b,c,bw=0):
    m=(1<<w)-1
    if op=='ADD': return (a+b)&m
    if op=='SUB': return (a-b)&m
    if op=='MUL': return (a*b)&m
    if op=='EQ': return int(a==b)
    if op=='SLT': return int(sx(a,aw)<sx(b,aw))
    if op=='ULT': return int(a<b)
    if op=='SLE': return int(sx(a,aw)<=sx(b,aw))
    if op=='ULE': return int(a<=b)
    if op=='AND': return a&b
    if op=='OR': return a|b
    if op=='XOR': return a^b
    if op=='ZEXT': return a
    if op=='SEXT': return sx(a,aw)&m
    if op=='EXTRACT': return (a>>imm)&m
    if op=='CONCAT': return (a<<bw)|b
    if op=='ITE': return b if a else c
    if op=='UDIV': return a//b if b else m
    if op=='UREM': return a%b if b else a
    if op=='SDIV':
        x=sx(a,w);y=sx(b,w)
        if y==0: return (1 if x<0 else m)
        q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q
        return q&m
    if op=='SREM':
        x=sx(a,w);y=sx(b,w)
        if y==0: return a
        r=abs(x)%abs(y)
        return (-r if x<0 else r)&m
    if op=='SHL': return (a<<b)&m if b<w else 0
    if op=='LSHR': return a>>b if b<w else 0
    if op=='ASHR': return (sx(a,w)>>min(b,w-1))&m
    if op=='FADD': return fpk(fv(a,w)+fv(b,w),w)
    if op=='FSUB': return fpk(fv(a,w)-fv(b,w),w)
    if op=='FMUL': return fpk(fv(a,w)*fv(b,w),w)
    if op=='FDIV': return fpk(fdiv(fv(a,w),fv(b,w)),w)
    if op=='FREM':
        x=fv(a,w);y=fv(b,w)
        if y==0 or math.isinf(x) or x!=x or y!=y: return fpk(math.nan,w)
        return fpk(math.fmod(x,y),w)
    if op=='FEQ': return int(fv(a,aw)==fv(b,aw))
    if op=='FLT': return int(fv(a,aw)<fv(b,aw))
    if op=='FLE': return int(fv(a,aw)<=fv(b,aw))
    if op=='FUNO':
        x=fv(a,aw);y=fv(b,aw); return int(x!=x or y!=y)
    if op=='FNEG': return a^(1<<(w-1))
    if op=='FABS': return a&~(1<<(w-1))
    if op=='FRTI': return fpk(frti(fv(a,aw),imm),w)
    if op=='FSQRT':
        x=fv(a,aw); return fpk(math.sqrt(x) if x>=0 else math.nan,w)
    if op=='SI2F': return fpk(float(sx(a,aw)),w)
    if op=='UI2F': return fpk(float(a),w)
    if op=='F2SI':
        x=fv(a,aw)
        if not (-9223372036854775808.0<=x<9223372036854775808.0): return (1<<63)&m
        return int(x)&m
    if op=='F2UI':
        x=fv(a,aw)
        if not (-1<x<18446744073709551616.0): return (1<<63)&m
        return int(x)&m
    if op=='FPEXT': return d2bits(bits2f(a))
    if op=='FPTRUNC': return f2bits(bits2d(a))
    if op in('BV2F','F2BV'): return a
    raise ValueError(op)

class Table:
    def __init__(self):
        self.t={}; self.nid=0; self.vars={}; self.bounds={}
    # raw
    def raw(self,op,w,fp,a,b,c,imm):
        k=(op,w,fp,a.id if a is not None else 0,b.id if b is not None else 0,c.id if c is not None else 0,imm)
        n=self.t.get(k)
        if n is None:
            n=N(); n.op=op;n.w=w;n.fp=fp;n.a=a;n.b=b;n.c=c;n.imm=imm; self.nid+=1; n.id=self.nid; n.z=None
            s=0; t=False
            if a is not None: s|=a.sup; t=t or a.txt
            if b is not None: s|=b.sup; t=t or b.txt
            if c is not None: s|=c.sup; t=t or c.txt
            if op=='VAR': s=1<<imm
            elif op=='TABLE': s=1<<imm[0]
            elif op=='TEXT': t=True
            n.sup=s; n.txt=t; n.r=self.rng(n)
            self.t[k]=n
        return n
    # value ranges: signed interval of a bit-vector (0..1 for one bit), interval of a REAL that is certainly finite (else None)
    def setbounds(self,bounds):
        self.bounds=bounds
        for n in sorted(self.t.values(),key=lambda n:n.id): n.r=self.rng(n)
    def rng(self,n):
        op=n.op; w=n.w; a,b=n.a,n.b
        if n.fp:
            if w!=64: return None
            if op=='CONST':
                x=bits2d(n.imm); return None if x!=x or math.isinf(x) else (x,x)
            if op=='VAR': return self.bounds.get((n.imm,1))
            if op=='SI2F': return (float(a.r[0]),float(a.r[1])) if a.w>1 else None
            if op=='UI2F': return (float(a.r[0]),float(a.r[1])) if a.r[0]>=0 else (0.0,float((1<<a.w)-1))
            if op=='ITE':
                x,y=b.r,n.c.r
                return (min(x[0],y[0]),max(x[1],y[1])) if x and y else None
            if op in('FADD','FSUB','FMUL','FDIV'):
                if a.w!=64 or not a.r or not b.r: return None
                if op=='FDIV' and b.r[0]<=0<=b.r[1]: return None
                try: v=[fv(compute(op,64,64,0,d2bits(x),d2bits(y),0),64) for x in a.r for y in b.r]
                except OverflowError: return None
                lo,hi=min(v),max(v)
                return None if math.isinf(lo) or math.isinf(hi) or lo!=lo or hi!=hi else (lo,hi)
            if op=='FNEG': return (-a.r[1],-a.r[0]) if a.r else None
            if op=='FABS':
                if not a.r: return None
                x,y=abs(a.r[0]),abs(a.r[1]); return (0.0 if a.r[0]<=0<=a.r[1] else min(x,y),max(x,y))
            if op=='FRTI': return (frti(a.r[0],n.imm),frti(a.r[1],n.imm)) if a.r else None
            if op=='FREM' and a.r and b.op=='CONST' and b.r and b.r[0]: k=abs(b.r[0]); return (-k,k)
            return None
        if w==1: return (n.imm,n.imm) if op=='CONST' else (0,1)
        full=(-(1<<(w-1)),(1<<(w-1))-1); r=None
        if op=='CONST': x=sx(n.imm,w); return (x,x)
        if op=='VAR': r=self.bounds.get((n.imm,0))
        elif op=='TABLE':
            v=[sx(x,w) for x in n.imm[1]]; r=(min(v),max(v))
        elif op=='TEXT':
            k=(n.imm>>16)&255; r=(43,110) if k==1 else (45,57) if k==0 and n.imm&255==0 and a.r[0]<0 and (n.imm>>8)&255>1 else (48,57)
        elif op=='ADD': r=(a.r[0]+b.r[0],a.r[1]+b.r[1])
        elif op=='SUB': r=(a.r[0]-b.r[1],a.r[1]-b.r[0])
        elif op=='MUL': v=[x*y for x in a.r for y in b.r]; r=(min(v),max(v))
        elif op=='ZEXT': r=a.r if a.r[0]>=0 else (0,(1<<a.w)-1)
        elif op=='SEXT': r=a.r if a.w>1 else (-1,0)
        elif op=='EXTRACT':
            if n.imm==0: r=a.r
            elif a.r[0]>=0: r=(0,a.r[1]>>n.imm)
        elif op=='ITE': r=(min(b.r[0],n.c.r[0]),max(b.r[1],n.c.r[1]))
        elif op in('SREM','UREM') and b.op=='CONST':
            k=abs(sx(b.imm,w))
            if k and (op=='SREM' or sx(b.imm,w)>0): r=(max(-(k-1),a.r[0]) if op=='SREM' and a.r[0]<0 else 0,min(k-1,a.r[1]) if a.r[0]>=0 or op=='SREM' and a.r[1]>0 else k-1 if op=='UREM' else 0)
        elif op in('SDIV','UDIV') and b.op=='CONST' and sx(b.imm,w)>0 and (op=='SDIV' or a.r[0]>=0):
            k=sx(b.imm,w); t=lambda x:x//k if x>=0 else -(-x//k)
            r=(t(a.r[0]),t(a.r[1]))
        elif op=='AND':
            if b.op=='CONST' and sx(b.imm,w)>=0: r=(0,sx(b.imm,w))
        elif op=='LSHR' and b.op=='CONST' and a.r[0]>=0 and b.imm<w: r=(a.r[0]>>b.imm,a.r[1]>>b.imm)
        elif op=='ASHR' and b.op=='CONST' and b.imm<w: r=(a.r[0]>>b.imm,a.r[1]>>b.imm)
        elif op=='F2SI' and a.r and a.w==64: r=(int(a.r[0]),int(a.r[1]))
        return r if r and full[0]<=r[0] and r[1]<=full[1] else full
    # comparisons of a monotone function of one integer with a constant become integer comparisons
    def chain(self,n):
        st=[]
        while n.op!='SI2F':
            if n.w!=64 or not n.r: return None
            if n.op in('FADD','FSUB','FMUL','FDIV'):
                if n.b.op=='CONST': st.append(n); n=n.a
                elif n.a.op=='CONST' and n.op!='FDIV': st.append(n); n=n.b
                else: return None
            elif n.op in('FNEG','FRTI'): st.append(n); n=n.a
            else: return None
        if n.a.w<2: return None
        up=True
        for x in st:
            if x.op=='FNEG' or x.op=='FSUB' and x.a.op=='CONST' or x.op in('FMUL','FDIV') and bits2d(x.b.imm if x.b.op=='CONST' else x.a.imm)<0: up=not up
        st.reverse(); return n.a,st,up
    def fcmp(self,op,a,b):
        """FLT/FLE/FEQ of two terms, or None"""
        if not a.r or not b.r:
            return None
        if a is b: return self.const(op!='FLT',1)
        if a.r[1]<b.r[0]: return self.const(op!='FEQ',1)
        if a.r[0]>b.r[1]: return self.const(0,1)
        if op=='FLT' and a.r[0]>=b.r[1]: return self.const(0,1)
        if op=='FLE' and a.r[1]<=b.r[0]: return self.const(1,1)
        if op=='FEQ':
            for x,y in((a,b),(b,a)):
                if y.op=='FRTI' and y.a is x:
                    if x.op=='SI2F' or x.op=='FRTI': return self.const(1,1)
                    if x.op=='FDIV' and x.b.op=='CONST' and x.a.op=='SI2F': k=bits2d(x.b.imm)
                    elif x.op=="FMUL" and x.b.op=="CONST" and x.a.op=="SI2F" and x.b.imm<<1&M64 and x.b.imm&((1<<52)-1)==0: k=1/bits2d(x.b.imm)   # division by a power of two
                    else: continue
                    m=x.a.a
                    if 1<k<2**53 and k==int(k) and m.w>1 and -(1<<53)<m.r[0] and m.r[1]<1<<53 and k<1<<(m.w-1):
                        return self.mk('EQ',1,0,self.mk('SREM',m.w,0,m,self.const(int(k),m.w)),self.const(0,m.w))
        if a.op=='CONST' or b.op=='CONST':
            f,c=(b,a) if a.op=='CONST' else (a,b)
            h=self.chain(f)
            if h is None: return None
            x,st,up=h; cv=bits2d(c.imm); lo,hi=x.r
            def ev(v):
                y=d2bits(float(v))
                for n in st:
                    if n.op in('FNEG','FRTI'): y=compute(n.op,64,64,n.imm,y,0,0)
                    elif n.b.op=='CONST': y=compute(n.op,64,64,0,y,n.b.imm,0)
                    else: y=compute(n.op,64,64,0,n.a.imm,y,0)
                return bits2d(y)
            def first(p):   # least v in lo..hi+1 with p (p monotone: false..true)
                l,h=lo,hi+1
                while l<h:
                    m=(l+h)>>1
                    if p(m): h=m
                    else: l=m+1
                return l
            def below(k):   # x<k
                if k<=lo: return self.const(0,1)
                if k>hi: return self.const(1,1)
                return self.mk('SLT',1,0,x,self.const(k,x.w))
            ge=(lambda v:ev(v)>=cv); gt=(lambda v:ev(v)>cv); le=(lambda v:ev(v)<=cv); lt=(lambda v:ev(v)<cv)
            if op=='FEQ':
                k1,k2=(first(ge),first(gt)) if up else (first(le),first(lt))
                if k1>=k2: return self.const(0,1)
                if k2==k1+1: return self.mk('EQ',1,0,x,self.const(k1,x.w))
                return self.mk('AND',1,0,self.NOT(below(k1)),below(k2))
            # direction: f op c, or c op f
            if f is a: strict,less=op=='FLT',True
            else: strict,less=op=='FLT',False
            if less: # f<c or f<=c
                return below(first(ge if strict else gt)) if up else self.NOT(below(first(lt if strict else le)))
            return self.NOT(below(first(gt if strict else ge))) if up else below(first(le if strict else lt))
        return None
    def const(self,v,w,fp=0): return self.raw('CONST',w,fp,None,None,None,v&((1<<w)-1))
    def real(self,d): return self.raw('CONST',64,1,None,None,None,d2bits(d))
    def var(self,vid,w,fp=0): return self.raw('VAR',w,fp,None,None,None,vid)
    def NOT(self,a):
        if a.op=='CONST': return self.const(1-a.imm,1)
        if a.op=='XOR' and a.b.op=='CONST' : return a.a
        return self.raw('XOR',1,0,a,self.const(1,1),None,0)
    def low(self,n,w):
        if n.op in('ADD','SUB','MUL'): return self.mk(n.op,w,0,self.low(n.a,w),self.low(n.b,w))
        return self.mk('EXTRACT',w,0,n,imm=0)
    def mk(self,op,w,fp,a=None,b=None,c=None,imm=0):
        if op in COMM and a is not None and b is not None:
            if a.op=='CONST' and b.op!='CONST': a,b=b,a
            elif b.op!='CONST' and a.id>b.id: a,b=b,a
        ac=a is not None and a.op=='CONST'; bc=b is not None and b.op=='CONST'
        if ac and (b is None or bc) and (c is None or c.op=='CONST') and op!='TEXT':
            return self.raw('CONST',w,fp,None,None,None,compute(op,w,a.w,imm,a.imm,b.imm if b is not None else 0,c.imm if c is not None else 0,b.w if b is not None else 0))
        if op in('EQ','SLT','ULT') and a.w>1 and not a.fp:
            x,y=a.r,b.r
            if op=='EQ':
                if x[1]<y[0] or y[1]<x[0]: return self.const(0,1)
            elif op=='SLT' or x[0]>=0 and y[0]>=0:
                if x[1]<y[0]: return self.const(1,1)
                if x[0]>=y[1]: return self.const(0,1)
        elif op in('FEQ','FLT','FLE') and a.w==64:
            q=self.fcmp(op,a,b)
            if q is not None: return q
        elif op=='FUNO' and a.r and b.r: return self.const(0,1)
        if op=='EQ':
            if a is b: return self.const(1,1)
            if bc:
                k=b.imm
                if a.w==1: return a if k==1 else self.NOT(a)
                if a.op=='ZEXT':
                    if k>>a.a.w: return self.const(0,1)
                    return self.mk('EQ',1,0,a.a,self.const(k,a.a.w))
                if a.op=='SEXT':
                    x=sx(k,a.w)
                    if not(-(1<<(a.a.w-1))<=x<(1<<(a.a.w-1))): return self.const(0,1)
                    return self.mk('EQ',1,0,a.a,self.const(x,a.a.w))
                if a.op=='ADD' and a.b.op=='CONST': return self.mk('EQ',1,0,a.a,self.const(k-a.b.imm,a.w))
                if a.op=='SUB' and a.a.op=='CONST': return self.mk('EQ',1,0,a.b,self.const(a.a.imm-k,a.w))
                if a.op=='XOR' and a.b.op=='CONST': return self.mk('EQ',1,0,a.a,self.const(k^a.b.imm,a.w))
                if a.op=='ITE' and a.b.op=='CONST' and a.c.op=='CONST':
                    t=a.b.imm==k; f=a.c.imm==k
                    if t and f: return self.const(1,1)
                    if t: return a.a
                    if f: return self.NOT(a.a)
                    return self.const(0,1)
            if a.op=='ZEXT' and b.op=='ZEXT' and a.a.w==b.a.w: return self.mk('EQ',1,0,a.a,b.a)
            if a.op=='SEXT' and b.op=='SEXT' and a.a.w==b.a.w: return self.mk('EQ',1,0,a.a,b.a)
            if a.op=='SUB' and bc and b.imm==0: return self.mk('EQ',1,0,a.a,a.b)
        elif op=='SLE': return self.NOT(self.mk('SLT',1,0,b,a))
        elif op=='ULE': return self.NOT(self.mk('ULT',1,0,b,a))
        elif op in('SLT','ULT'):
            if a is b: return self.const(0,1)
            if ac: # c<x  ==  !(x<c+1)
                top=((1<<(a.w-1))-1) if op=='SLT' else (1<<a.w)-1
                if a.imm==top: return self.const(0,1)
                return self.NOT(self.mk(op,1,0,b,self.const(a.imm+1,a.w)))
            if bc:
                lo=(1<<(a.w-1)) if op=='SLT' else 0
                if b.imm==lo: return self.const(0,1)
                if a.op=='ZEXT' and a.a.w<a.w:
                    k=b.imm if op=='ULT' else sx(b.imm,b.w)
                    if k<=0: return self.const(0,1)
                    if k>=(1<<a.a.w): return self.const(1,1)
                    return self.mk('ULT',1,0,a.a,self.const(k,a.a.w))
                if a.op=='SEXT' and op=='SLT':
                    k=sx(b.imm,b.w); h=1<<(a.a.w-1)
                    if k>=h: return self.const(1,1)
                    if k<=-h: return self.const(0,1)
                    return self.mk('SLT',1,0,a.a,self.const(k,a.a.w))
                if op=='ULT' and b.imm==1: return self.mk('EQ',1,0,a,self.const(0,a.w))
        elif op=='XOR':
            if w==1 and bc: return self.NOT(a) if b.imm else a
            if bc and b.imm==0: return a
            if a is b: return self.const(0,w)
        elif op=='AND':
            if bc:
                if b.imm==0: return b
                if b.imm==(1<<w)-1: return a
                if (b.imm&(b.imm+1))==0: # low mask
                    k=b.imm.bit_length(); return self.mk('ZEXT',w,0,self.mk('EXTRACT',k,0,a,imm=0))
            if a is b: return a
        elif op=='OR':
            if bc:
                if b.imm==0: return a
                if b.imm==(1<<w)-1: return b
            if a is b: return a
        elif op=='ADD':
            if bc:
                if b.imm==0: return a
                if a.op=='ADD' and a.b.op=='CONST': return self.mk('ADD',w,0,a.a,self.const(a.b.imm+b.imm,w))
                if a.op=='SUB' and a.a.op=='CONST': return self.mk('SUB',w,0,self.const(a.a.imm+b.imm,w),a.b)
        elif op=='SUB':
            if bc: return self.mk('ADD',w,0,a,self.const(-b.imm,w))
            if a is b: return self.const(0,w)
            if ac and b.op=='SUB' and b.a.op=='CONST': return self.mk('ADD',w,0,b.b,self.const(a.imm-b.a.imm,w))
            if ac and b.op=='ADD' and b.b.op=='CONST': return self.mk('SUB',w,0,self.const(a.imm-b.b.imm,w),b.a)
        elif op=='MUL':
            if bc:
                if b.imm==0: return b
                if b.imm==1: return a
                if b.imm==(1<<w)-1: return self.mk('SUB',w,0,self.const(0,w),a)
        elif op in('SDIV','UDIV'):
            if bc and b.imm==1: return a
        elif op in('SHL','LSHR','ASHR'):
            if bc and b.imm==0: return a
        elif op=='ZEXT':
            if a.w==w: return a
            if a.op=='ZEXT': return self.mk('ZEXT',w,0,a.a)
        elif op=='SEXT':
            if a.w==w: return a
            if a.op=='SEXT': return self.mk('SEXT',w,0,a.a)
            if a.op=='ZEXT' and a.a.w<a.w: return self.mk('ZEXT',w,0,a.a)
        elif op=='EXTRACT':
            if imm==0 and a.w==w: return a
            if a.op=='EXTRACT': return self.mk('EXTRACT',w,0,a.a,imm=imm+a.imm)
            if a.op=='CONCAT':
                lw=a.b.w
                if imm+w<=lw: return self.mk('EXTRACT',w,0,a.b,imm=imm)
                if imm>=lw: return self.mk('EXTRACT',w,0,a.a,imm=imm-lw)
            if a.op=='ZEXT':
                if imm+w<=a.a.w: return self.mk('EXTRACT',w,0,a.a,imm=imm)
                if imm>=a.a.w: return self.const(0,w)
                if imm==0: return self.mk('ZEXT',w,0,a.a)
            if a.op=='SEXT' and imm+w<=a.a.w: return self.mk('EXTRACT',w,0,a.a,imm=imm)
            if a.op in('OR','AND','XOR'): # bit fields
                x=self.mk('EXTRACT',w,0,a.a,imm=imm); y=self.mk('EXTRACT',w,0,a.b,imm=imm)
                if x.op=='CONST' or y.op=='CONST': return self.mk(a.op,w,0,x,y)
            if a.op=='SEXT' and imm==0: return self.mk('SEXT',w,0,a.a)
            if a.op=='ITE' and a.b.op=='CONST' and a.c.op=='CONST':
                return self.mk('ITE',w,0,a.a,self.mk('EXTRACT',w,0,a.b,imm=imm),self.mk('EXTRACT',w,0,a.c,imm=imm))
        elif op=='CONCAT':
            if a.op=='EXTRACT' and b.op=='EXTRACT' and a.a is b.a and a.imm==b.imm+b.w: return self.mk('EXTRACT',w,0,a.a,imm=b.imm)
            if ac and a.imm==0: return self.mk('ZEXT',w,0,b)
            if a.op=='EXTRACT' and a.imm==b.w and a.a.op in('ADD','SUB','MUL') and self.low(a.a,b.w) is b: # pieces of one word whose lowest piece was narrowed
                return a.a if a.a.w==w else self.low(a.a,w)
        elif op=='ITE':
            if ac: return b if a.imm else c
            if b is c: return b
            if a.op=='XOR' and a.w==1 and a.b.op=='CONST': return self.mk('ITE',w,fp,a.a,c,b)
            if w==1 and b.op=='CONST' and c.op=='CONST': return a if b.imm else self.NOT(a)
        elif op=='FNEG':
            if a.op=='FNEG': return a.a
        elif op=='FSUB':
            if ac and a.imm==1<<(w-1): return self.mk('FNEG',w,1,b)
        elif op=='FMUL':
            if bc and w==64 and b.imm==0xbff0000000000000: return self.mk('FNEG',w,1,a)
            if bc and w==64 and b.imm==0x3ff0000000000000: return a
        elif op=='FDIV':
            if bc and w==64 and b.imm==0x3ff0000000000000: return a
            if bc and w==64 and b.imm&((1<<52)-1)==0 and 2<((b.imm>>52)&2047)<2044: return self.mk('FMUL',w,1,a,self.const((b.imm&(1<<63))|((2046-((b.imm>>52)&2047))<<52),64,1))
        elif op=='BV2F':
            if a.op=='F2BV': return a.a
            if a.op=='VAR' and w==64 and a.w==64: return self.var(a.imm,64,1)
        elif op=='F2BV':
            if a.op=='BV2F': return a.a
            if a.op=='VAR' and w==64: return self.var(a.imm,64,0)
        elif op=='FEQ':
            if bc and (b.imm<<1)&M64==0 and w==1 and a.w==64:
                if a.op=='FSUB' and a.a.r and a.b.r: return self.mk('FEQ',1,0,a.a,a.b)
                if a.op=='ITE' and a.b.op=='CONST' and (a.b.imm<<1)&M64==0 and a.c.op=='FSUB':
                    if a.c.a.r and a.c.b.r: return self.mk('OR',1,0,a.a,self.mk('FEQ',1,0,a.c.a,a.c.b))
                    if a.a.op=='FEQ' and {a.a.a.id,a.a.b.id}=={a.c.a.id,a.c.b.id}: return a.a
        elif op=='FLT':
            if a is b: return self.const(0,1)
        return self.raw(op,w,fp,a,b,c,imm)

class Eval:
    """concrete values of terms under one assignment (var id -> raw bits)"""
    def __init__(self,asg): self.asg=asg; self.m={}
    def __call__(self,n):
        m=self.m; r=m.get(n.id)
        if r is not None: return r
        st=[n]
        while st:
            x=st[-1]
            if x.id in m: st.pop(); continue
            op=x.op
            if op=='CONST': m[x.id]=x.imm; st.pop(); continue
            if op=='VAR': m[x.id]=self.asg[x.imm]; st.pop(); continue
            if op=='TABLE': m[x.id]=x.imm[1][self.asg[x.imm[0]]]; st.pop(); continue
            a,b,c=x.a,x.b,x.c; ok=True
            if a is not None and a.id not in m: st.append(a); ok=False
            if b is not None and b.id not in m: st.append(b); ok=False
            if c is not None and c.id not in m: st.append(c); ok=False
            if not ok: continue
            if op=='TEXT': m[x.id]=textchar(x,m[a.id])
            else: m[x.id]=compute(op,x.w,a.w,x.imm,m[a.id],m[b.id] if b is not None else 0,m[c.id] if c is not None else 0,b.w if b is not None else 0)
            st.pop()
        return m[n.id]
def realtext(d,prec,fmt):
    if d!=d: return '-nan' if math.copysign(1,d)<0 else 'nan'
    if math.isinf(d): return 'inf' if d>0 else '-inf'
    if fmt==0: return '%.*g'%(prec or 0 if prec else prec,d)
    if fmt==1: return '%.*f'%(prec,d)
    if fmt==2: return '%.*e'%(prec,d)
    if fmt==9:
        from decimal import Decimal
        s=format(Decimal(repr(d)),'f'); return s if '.' in s else s+'.0'
    return float.hex(d)
def textof(n,v):
    """text of a TEXT family (imm of any of its characters) for value bits v"""
    kind=(n.imm>>16)&255
    if kind==0: return str(sx(v,n.a.w))
    if kind==2: return str(v)
    return realtext(bits2d(v),(n.imm>>24)&255,(n.imm>>32)&255)
def textchar(n,v):
    s=textof(n,v); i=n.imm&255
    return ord(s[i]) if i<len(s) else 0

# ------------------------------------------------------------------ z3
import z3
RNE=z3.RNE(); RTN=z3.RTN(); RTP=z3.RTP(); RTZ=z3.RTZ(); RNA=z3.RNA()
class Untranslatable(Exception): pass
F64=z3.Float64(); F32=z3.Float32()
def zvar(n): return z3.BitVec('v%d'%n.imm,n.w)
def bv(n):
    z=toz(n)
    return z3.If(z,z3.BitVecVal(1,1),z3.BitVecVal(0,1)) if n.w==1 else z
def toz(n):
    if n.z is not None: return n.z
    st=[n]
    while st:
        x=st[-1]
        if x.z is not None: st.pop(); continue
        k=[y for y in (x.a,x.b,x.c) if y is not None and y.z is None]
        if k and x.op!='TEXT': st.extend(k); continue
        if x.op=='TEXT' and x.a.z is None: st.append(x.a); continue
        x.z=_toz(x); st.pop()
    return n.z
def _toz(n):
    op=n.op;a=n.a;b=n.b;c=n.c;w=n.w
    if op=='CONST':
        if n.fp: return z3.fpBVToFP(z3.BitVecVal(n.imm,w),F64 if w==64 else F32)
        if w==1: return z3.BoolVal(bool(n.imm))
        return z3.BitVecVal(n.imm,w)
    if op=='VAR':
        z=zvar(n)
        if n.fp: return z3.fpBVToFP(z,F64)
        return z==1 if w==1 else z
    if op=='TABLE':
        vid,tab=n.imm; v=z3.BitVec('v%d'%vid,8); r=z3.BitVecVal(tab[-1],8)
        for i in range(len(tab)-1): r=z3.If(v==i,z3.BitVecVal(tab[i],8),r)
        return r
    if op=='TEXT':
        kind=(n.imm>>16)&255
        if kind==1: raise Untranslatable('digits of a REAL')
        i=n.imm&255; nn=(n.imm>>8)&255; x=toz(a)
        if kind==0:
            neg=x<0; ax=z3.If(neg,-x,x)
        else: neg=None; ax=x
        p=nn-1-i
        d=z3.Extract(7,0,z3.URem(z3.UDiv(ax,z3.BitVecVal(10**p,a.w)) if p and 10**p<1<<a.w else ax,z3.BitVecVal(10,a.w)))+48
        if i==0 and kind==0: d=z3.If(neg,z3.BitVecVal(45,8),d)
        return d
    if op=='ITE': return z3.If(toz(a),toz(b),toz(c))
    if w==1 and op in('AND','OR','XOR'):
        za,zb=toz(a),toz(b)
        return z3.And(za,zb) if op=='AND' else z3.Or(za,zb) if op=='OR' else (z3.Not(za) if b.op=='CONST' and b.imm else z3.Xor(za,zb))
    if op=='EQ':
        if a.w==1: return toz(a)==toz(b)
        return toz(a)==toz(b)
    if op=='ADD': return bv(a)+bv(b) if w>1 else z3.Xor(toz(a),toz(b))
    if op=='SUB': return bv(a)-bv(b) if w>1 else z3.Xor(toz(a),toz(b))
    if op=='MUL': return bv(a)*bv(b)
    if op=='UDIV': return z3.UDiv(bv(a),bv(b))
    if op=='UREM': return z3.URem(bv(a),bv(b))
    if op=='SDIV': return bv(a)/bv(b)
    if op=='SREM': return z3.SRem(bv(a),bv(b))
    if op=='AND': return bv(a)&bv(b)
    if op=='OR': return bv(a)|bv(b)
    if op=='XOR': return bv(a)^bv(b)
    if op=='SHL': return bv(a)<<bv(b)
    if op=='LSHR': return z3.LShR(bv(a),bv(b))
    if op=='ASHR': return bv(a)>>bv(b)
    if op=='ULT': return z3.ULT(bv(a),bv(b))
    if op=='SLT': return bv(a)<bv(b)
    if op=='ZEXT':
        return z3.ZeroExt(w-a.w,bv(a))
    if op=='SEXT': return z3.SignExt(w-a.w,bv(a))
    if op=='EXTRACT':
        r=z3.Extract(n.imm+w-1,n.imm,bv(a)); return r==1 if w==1 else r
    if op=='CONCAT': return z3.Concat(bv(a),bv(b))
    if op=='FADD': return z3.fpAdd(RNE,toz(a),toz(b))
    if op=='FSUB': return z3.fpSub(RNE,toz(a),toz(b))
    if op=='FMUL': return z3.fpMul(RNE,toz(a),toz(b))
    if op=='FDIV': return z3.fpDiv(RNE,toz(a),toz(b))
    if op=='FEQ': return z3.fpEQ(toz(a),toz(b))
    if op=='FLT': return z3.fpLT(toz(a),toz(b))
    if op=='FLE': return z3.fpLEQ(toz(a),toz(b))
    if op=='FUNO': return z3.Or(z3.fpIsNaN(toz(a)),z3.fpIsNaN(toz(b)))
    if op=='FNEG': return z3.fpNeg(toz(a))
    if op=='FABS': return z3.fpAbs(toz(a))
    if op=='FSQRT': return z3.fpSqrt(RNE,toz(a))
    if op=='FRTI': return z3.fpRoundToIntegral({2:RTN,3:RTP,4:RTZ,5:RNA,6:RNE}[n.imm],toz(a))
    if op=='SI2F': return z3.fpSignedToFP(RNE,bv(a),F64 if w==64 else F32)
    if op=='UI2F': return z3.fpUnsignedToFP(RNE,bv(a),F64 if w==64 else F32)
    if op=='F2SI':
        x=toz(a)
        inr=z3.And(z3.fpGEQ(x,z3.FPVal(-9223372036854775808.0,F64)),z3.fpLT(x,z3.FPVal(9223372036854775808.0,F64)))
        r=z3.If(inr,z3.fpToSBV(RTZ,x,z3.BitVecSort(64)),z3.BitVecVal(1<<63,64))
        return r if w==64 else z3.Extract(w-1,0,r)
    if op=='FPEXT': return z3.fpFPToFP(RNE,toz(a),F64)
    if op=='FPTRUNC': return z3.fpFPToFP(RNE,toz(a),F32)
    if op=='BV2F': return z3.fpBVToFP(bv(a),F64 if w==64 else F32)
    raise Untranslatable(op)
