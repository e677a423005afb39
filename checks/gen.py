"""larger generated programs: every feature combined, a few symbolic holes each (fixed seeds, so every run sees the same programs)"""
import random, re
from .common import *
from ref import interp
FEAT=dict(ctl=3,proc=2,arr=2,rec=2,ptr=1,enum=1,str=2,real=1,const=1,text=0,rand=0,err=0,brk=1,elseif=1,date=0,inp=0)
class G:
    def __init__(s,seed,feat,size):
        s.r=random.Random(seed); s.f=dict(FEAT); s.f.update(feat); s.h={}; s.nh=s.f.get('holes',4); s.size=size; s.uid=0; s.procs=[]; s.stdin=[]
        s.loopdepth=0; s.infn=None; s.calls=True
    def ch(s,p): return s.r.random()<p
    def pick(s,*a): return s.r.choice(a)
    def hole(s,lo,hi,p=.5):
        if s.nh>0 and s.ch(p):
            if (lo,hi)==(-3,4): lo,hi=s.pick((-3,4),(-9,9),(-200,200),(-10**6,10**6)) if not s.f['rand'] else s.pick((-3,4),(-9,9),(-40,40))
            s.nh-=1; k='h%d'%len(s.h); s.h[k]=I(lo,hi,s.r.randint(max(lo,-3),min(hi,4))); return '(<<%s>>)'%k
        x=s.r.randint(lo,hi); return '(%d)'%x if x<0 else str(x)
    def new(s,p): s.uid+=1; return p+str(s.uid)
    # ---- scopes: name -> type; 'ro' names may not be assigned
    def setup(s):
        d=[]; v=s.v={}; s.ro=set(); f=s.f
        def dec(n,t,init=None):
            v[n]=t; d.append('DECLARE %s : %s'%(n,t))
            if init is not None: d.append('%s <- %s'%(n,init))
        if f['enum']: d.append('TYPE Col = (Red, Green, Blue)')
        if f['rec']:
            d.append('TYPE Sub\nDECLARE y : INTEGER\nDECLARE w : ARRAY[1:2] OF INTEGER\nENDTYPE')
            d.append('TYPE Rec\nDECLARE x : INTEGER\nDECLARE s : STRING\nDECLARE in : Sub\nENDTYPE')
        if f['ptr']: d.append('TYPE PI = ^INTEGER')
        if f['ptr'] and f['rec']: d.append('TYPE PR = ^Rec')
        if f['const']:
            d.append('CONSTANT cI = %s'%s.pick('3','-2','7')); v['cI']='INTEGER'; s.ro.add('cI')
            d.append('CONSTANT cS = "%s"'%s.pick('k','zz')); v['cS']='STRING'; s.ro.add('cS')
        for n in ('g0','g1','g2'): dec(n,'INTEGER',s.hole(-3,4))
        dec('b0','BOOLEAN',s.pick('TRUE','FALSE'))
        if f['str']: dec('s0','STRING','"%s"'%s.pick('ab','x','hey')); dec('c0','CHAR',"'%s'"%s.pick('q','A'))
        if f['real']: dec('r0','REAL',s.pick('1.5','0.25','10.0'))
        if f['enum']: dec('e0','Col',s.pick('Red','Blue')); dec('e1','Col','Green')
        if f['date']: dec('d0','DATE','%d/%d/%d'%(s.r.randint(1,28),s.r.randint(1,12),s.r.randint(1999,2024)))
        s.arr={}
        if f['arr']:
            for n in ('a0','a1'): d.append('DECLARE %s : ARRAY[0:3] OF INTEGER'%n); s.arr[n]=((0,3),)
            d.append('DECLARE m0 : ARRAY[-1:1, 1:2] OF INTEGER'); s.arr['m0']=((-1,1),(1,2))
            for n in s.r.sample(['a0[1]','a0[3]','a1[0]','a1[1]','m0[0, 2]','m0[-1, 1]'],3): d.append('%s <- %d'%(n,s.r.randint(2,40)))
        s.recs=[]
        if f['rec']:
            d.append('DECLARE k0, k1 : Rec'); d.append('DECLARE ra : ARRAY[1:2] OF Rec'); s.recs=['k0','k1','ra[1]','ra[2]']; d+=['k0.x <- 50','k0.s <- "k"','k0.in.w[2] <- 51','k1.in.y <- 60','k1.in.w[1] <- 61','ra[2].x <- 70','ra[2].s <- "r"','ra[1].in.w[2] <- 71']
        s.ptrs=[]; s.prs=[]
        if f['ptr']:
            d.append('DECLARE p0, p1 : PI'); s.ptrs=['p0','p1']; d+=['p0 <- ^g0','p1 <- ^g1']
            if f['rec']: d+=['DECLARE q0 : PR','q0 <- ^k0']; s.prs=['q0']
        return d
    def vars(s,t,w=False): return [n for n,x in s.v.items() if x==t and not(w and n in s.ro)]
    def idx(s,lo,hi):
        if s.ch(.03+.12*bool(s.f['err'])): return s.hole(lo-1,hi+1,.8)
        cs=[n for n,(a,b) in s.rng.items() if a>=lo and b<=hi]
        if cs and s.ch(.5): return s.r.choice(cs)
        return s.hole(lo,hi,.35)
    def elem(s):
        n=s.r.choice(list(s.arr)); return n+'['+', '.join(s.idx(a,b) for a,b in s.arr[n])+']'
    def recv(s):
        if s.prs and s.ch(.2): return 'q0^'
        if s.ch(.15): return 'ra[%s]'%s.idx(1,2)
        return s.r.choice(s.recs+[n for n,t in s.v.items() if t=='Rec'])
    def ilv(s):
        """an INTEGER place that may be written"""
        k=s.r.random(); o=[]
        if s.arr and k<.25: return s.elem()
        if s.recs and k<.5: return s.recv()+s.pick('.x','.in.y','.in.w[%s]'%s.idx(1,2))
        if s.ptrs and k<.62: return s.r.choice(s.ptrs)+'^'
        return s.r.choice(s.vars('INTEGER',True))
    def int(s,d=2):
        k=s.r.random()
        if d<=0 or k<.18: return s.hole(-3,4,.25) if s.ch(.5) else s.r.choice(s.vars('INTEGER'))
        if k<.45:
            if s.ch(.3): return s.r.choice(s.vars('INTEGER'))
            return s.ilv()
        if k<.7: return '%s %s %s'%(s.int(d-1),s.pick('+','-'),s.int(0) if s.ch(.7) else '(%s)'%s.int(d-1))
        if k<.76: return '(%s) * %s'%(s.int(d-1),s.pick('2','3','(-1)'))
        if k<.8: return 'LENGTH(%s)'%s.strv(d-1) if s.f['str'] else s.int(0)
        if k<.83 and s.f['err']: return '%s DIV %s'%(s.pick('7','12'),s.hole(0,3,.8))
        if s.calls:
            fs=[p for p in s.procs if p['ret']=='INTEGER']
            if fs: return s.callx(s.r.choice(fs),d)
        return '-(%s)'%s.int(d-1)
    def callx(s,p,d=1,**k):
        return p['n']+'('+', '.join(s.arg(p,q,d) for q in p['ps'])+')'
    def arg(s,p,q,d):
        n,t,ref=q
        if n=='dep': return s.hole(0,2,.4)
        if ref:
            if t=='INTEGER': return s.ilv()
            if t=='Rec': return s.r.choice(s.recs)
            return s.r.choice(s.vars(t,True))
        if t=='PI': return s.r.choice(s.ptrs)
        return s.expr(t,d-1)
    def expr(s,t,d=1):
        return {'INTEGER':s.int,'BOOLEAN':s.bool,'STRING':s.strv,'Col':s.enum,'REAL':s.real,'CHAR':s.chr,'Rec':lambda d:s.recv()}[t](d)
    def chr(s,d=1): return s.pick('c0',"'z'","'%s'"%s.pick('b','7'))
    def enum(s,d=1):
        v=s.pick('Red','Green','Blue',*s.vars('Col'))
        return v if s.ch(.6) else '%s %s'%(v,'+ '+s.int(0) if s.ch(.6) else '- '+s.hole(-4,4,.3))
    def real(s,d=1):
        k=s.r.random()
        if d<=0 or k<.4: return s.pick('r0','2.5','0.5')
        if k<.7: return 'r0 %s %s'%(s.pick('+','-'),s.pick('1.5','0.25','2'))
        return '%s %s 0.5'%(s.r.choice(s.vars('INTEGER')),s.pick('+','*','-'))
    def strv(s,d=1):
        k=s.r.random()
        if d<=0 or k<.35: return s.r.choice(s.vars('STRING')) if s.ch(.6) else '"%s"'%s.pick('u','vw','')
        if k<.5 and s.recs: return s.recv()+'.s'
        if k<.8: return '%s & %s'%(s.strv(d-1),s.pick(s.strv(0),'(%s)'%s.int(0),'c0','b0'))
        if k<.9: return '%s(%s)'%(s.pick('TO_UPPER','TO_LOWER'),s.strv(d-1))
        fs=[p for p in s.procs if p['ret']=='STRING']
        if fs and s.calls: return s.callx(s.r.choice(fs),d)
        return s.strv(d-1)
    def bool(s,d=2):
        k=s.r.random()
        if k<.55 or d<=0: return '%s %s %s'%(s.int(1),s.pick('<','>','<=','>=','=','<>'),s.int(0))
        if k<.62: return s.r.choice(s.vars('BOOLEAN'))
        if k<.8: return '(%s) %s (%s)'%(s.bool(d-1),s.pick('AND','OR'),s.bool(d-1))
        if k<.86: return 'NOT (%s)'%s.bool(d-1)
        if k<.92 and s.f['str']: return '%s %s %s'%(s.strv(0),s.pick('=','<>'),s.strv(0))
        if s.f['enum']: return '%s %s %s'%(s.r.choice(s.vars('Col')),s.pick('=','<>'),s.pick('Red','Blue','e1'))
        fs=[p for p in s.procs if p['ret']=='BOOLEAN']
        if fs and s.calls: return s.callx(s.r.choice(fs),d)
        return s.bool(d-1)
    # ---- statements
    def block(s,d,n=None):
        out=[]
        for _ in range(n or s.r.randint(1,3)):
            if s.left<=0: break
            out+=s.stmt(d)
        return out or ['OUTPUT "-"']
    def stmt(s,d):
        s.left-=1; f=s.f; w=[]
        def add(k,f_): w.append((k,f_))
        add(4,s.st_assign); add(2.5,s.st_out)
        if d>0:
            add(2*f['ctl'],lambda:s.st_if(d)); add(f['ctl'],lambda:s.st_case(d)); add(1.6*f['ctl'],lambda:s.st_loop(d))
        if s.procs and s.calls: add(2*f['proc'],s.st_call)
        if f['arr']: add(f['arr']*.6,s.st_arr)
        if f['rec']: add(f['rec']*.8,s.st_rec)
        if f['ptr']: add(f['ptr']*1.5,s.st_ptr)
        if s.loopdepth and f['brk']: add(1.5*f['brk'],s.st_brk)
        if s.infn and s.infn[1]: add(.8,lambda:['IF %s THEN'%s.bool(1),'RETURN '+s.expr(s.infn[1]),'ENDIF'])
        if f['inp']: add(f['inp'],s.st_inp)
        if f['text'] and s.files: add(f['text']*2,lambda:s.st_text(d))
        if f['rand'] and s.rfiles: add(f['rand']*2,lambda:s.st_rand(d))
        if f['err']: add(f['err']*.5,s.st_err)
        x=s.r.random()*sum(k for k,_ in w)
        for k,g in w:
            x-=k
            if x<=0: return g()
        return w[-1][1]()
    def st_assign(s):
        k=s.r.random()
        if k<.6: return ['%s <- %s'%(s.ilv(),s.int(2))]
        if k<.68 : return ['b0 <- %s'%s.bool(1)]
        if k<.84 and s.f['str']:
            t=s.r.choice(s.vars('STRING',True)+[x+'.s' for x in s.recs[:2]]); return ['%s <- RIGHT("__" & %s, 2)'%(t,s.strv(1))]
        if k<.92 and s.f['enum']: return ['%s <- %s'%(s.r.choice(s.vars('Col',True)),s.enum())]
        if s.f['real']: return ['r0 <- %s'%s.pick(s.int(1),s.real(0)+' + 0.5','%s / 4'%s.r.choice(s.vars('INTEGER')))]
        return ['%s <- %s'%(s.ilv(),s.int(1))]
    def st_out(s):
        t=['INTEGER','INTEGER','BOOLEAN']+['STRING']*bool(s.f['str'])+['Col']*bool(s.f['enum'])+['REAL']*bool(s.f['real'])
        return ['OUTPUT "%s ", %s'%(s.new('o'),', " ", '.join(s.expr(s.r.choice(t)) for _ in range(s.r.randint(1,2))))]
    def st_if(s,d):
        out=['IF %s THEN'%s.bool()]+s.block(d-1)
        if s.f['elseif'] and s.ch(.3): out+=['ELSE IF %s THEN'%s.bool()]+s.block(d-1)
        if s.ch(.5): out+=['ELSE']+s.block(d-1)
        return out+['ENDIF']
    def st_case(s,d):
        k=s.r.random()
        if k<.7 or not s.f['enum']:
            v=s.r.choice(s.vars('INTEGER')); labs=[]
            for _ in range(s.r.randint(1,3)):
                a=s.hole(-3,4,.3); labs.append(a if s.ch(.5) else '%s TO %s'%(a,s.hole(-1,5,.3)))
        else: v=s.r.choice(s.vars('Col')); labs=s.r.sample(['Red','Green','Blue'],2)
        out=['CASE OF '+v]
        for l in labs+['OTHERWISE']*s.ch(.6):
            b=s.block(d-1,s.r.randint(1,2)); out+=[l+' : '+b[0]]+b[1:]
        return out+['ENDCASE']
    def st_loop(s,d):
        k=s.r.random(); s.loopdepth+=1; save=dict(s.rng)
        if k<.55:
            i=s.new('i'); st=s.pick('','',' STEP 1',' STEP -1',' STEP -1',' STEP 2',' STEP -2')
            if '-' in st: a,b=s.hole(0,3,.4),s.hole(-1,1,.2)
            else: a,b=s.hole(-1,1,.2),s.hole(0,3,.4)
            s.pre.append('DECLARE %s : INTEGER'%i)
            s.v[i]='INTEGER'; s.ro.add(i)
            if '<' not in a+b: x,y=int(a.strip('()')),int(b.strip('()')); s.rng[i]=(min(x,y),max(x,y))
            body=s.block(d-1); out=['FOR %s <- %s TO %s%s'%(i,a,b,st)]+body+['NEXT'+s.pick(' '+i,'')]
            s.rng.pop(i,None)
        else:
            i=s.new('n'); s.pre.append('DECLARE %s : INTEGER'%i); s.v[i]='INTEGER'; s.ro.add(i); lim=s.hole(1,3,.3)
            body=s.block(d-1)
            if k<.8: out=[i+' <- 0','WHILE %s < %s%s DO'%(i,lim,s.pick('',' AND (%s)'%s.bool(1))),'%s <- %s + 1'%(i,i)]+body+['ENDWHILE']
            else: out=[i+' <- 0','REPEAT','%s <- %s + 1'%(i,i)]+body+['UNTIL %s >= %s%s'%(i,lim,s.pick('',' OR (%s)'%s.bool(1)))]
        s.rng=save; s.loopdepth-=1
        if s.ch(.6): del s.v[i]
        return out
    def st_brk(s): return ['IF %s THEN'%s.bool(1),s.pick('BREAK','CONTINUE','CONTINUE'),'ENDIF']
    def st_call(s):
        p=s.r.choice(s.procs)
        if not p['ret']: return ['CALL '+p['n']+('('+', '.join(s.arg(p,q,1) for q in p['ps'])+')' if p['ps'] else s.pick('','()'))]
        if p['ret']=='INTEGER': return ['%s <- %s'%(s.ilv(),s.callx(p))]
        return ['OUTPUT "%s ", %s'%(s.new('o'),s.callx(p))]
    def st_arr(s): return s.pick(['a0 <- a1'],['a1 <- a0'],['%s <- %s'%(s.elem(),s.int(1))])
    def st_rec(s):
        a,b=s.recv(),s.recv(); return s.pick(['%s <- %s'%(a,b)],['%s.in <- %s.in'%(a,b)],['%s.in.w <- %s.in.w'%(a,b)],['%s.x <- %s'%(a,s.int(1))],['%s.in.w[%s] <- %s'%(a,s.idx(1,2),s.int(1))])
    def st_ptr(s):
        p=s.r.choice(s.ptrs); k=s.r.random()
        if k<.5: return ['%s <- ^%s'%(p,s.ilv() if s.ch(.7) else s.r.choice(s.vars('INTEGER',True)))]
        if k<.65: return ['p0 <- p1'] if s.ch(.5) else ['p1 <- p0']
        if k<.8 and s.prs: return ['q0 <- ^%s'%s.r.choice(s.recs)]
        return ['%s^ <- %s'%(p,s.int(1))]
    def st_inp(s):
        if s.ch(.3) and s.f['str']: s.stdin.append(s.pick('ok','5','')); return ['INPUT '+s.r.choice(s.vars('STRING',True))]
        return ['INPUT '+s.ilv()]
    def st_err(s):
        if s.f['const']>=2 and s.ch(.6):
            e=s.pick(['cI <- %s'%s.int(1)],['cI <- cI'],['FOR cI <- 1 TO 2','OUTPUT cI','NEXT'],['INPUT cI'],['p0 <- ^cI','p0^ <- 9'] if s.ptrs else ['cI <- 1'],['cS <- "no"'],['INPUT cS'],['DECLARE cI : INTEGER'],['CONSTANT cI = 12'])
            bf=[q for q in s.procs if any(x[2] and x[1]=='INTEGER' for x in q['ps'])]
            if bf and s.ch(.5):
                q=s.r.choice(bf); a=', '.join('cI' if x[2] and x[1]=='INTEGER' else s.arg(q,x,0) for x in q['ps']); e=['OUTPUT '+q['n']+'('+a+')' if q['ret'] else 'CALL %s(%s)'%(q['n'],a)]
            return ['IF %s THEN'%s.bool(0)]+e+['ENDIF']
        if s.f['err']>=2 and s.ch(.6):
            e=s.pick('%s <- %s'%(s.ilv(),s.pick('"5"','2.5','TRUE',"'1'",'1.0')),'b0 <- %s'%s.pick('1','"TRUE"','0.0'),'g0 <- '+s.pick('s0','r0','b0'),'c0 <- "%s"'%s.pick('ab','','x'),'s0 <- '+s.pick('c0','5','b0'),'r0 <- '+s.pick('3','"1"','TRUE'),'e0 <- '+s.pick('1','"Red"') if s.f['enum'] else 'b0 <- 2')
            return ['IF %s THEN'%s.bool(0),e,'ENDIF']
        e=s.pick('%s <- 7 DIV %s'%(s.ilv(),s.hole(-1,2,.9)),'OUTPUT MID("abc", %s, 1)'%s.hole(0,4,.9),'OUTPUT LEFT("abc", %s)'%s.hole(-1,4,.9),'g0 <- "no"','OUTPUT undef','CALL nothere')
        if '<<' in e: return [e]
        return ['IF %s > 5 THEN'%s.r.choice(s.vars('INTEGER',True)),e,'ENDIF']
    def st_text(s,d):
        fn=s.files.pop(); l=s.new('l'); s.pre.append('DECLARE %s : STRING'%l); k=s.r.random(); i=s.new('j'); s.pre.append('DECLARE %s : INTEGER'%i); q='"%s"'%fn
        if k<.5:
            out=['OPENFILE %s FOR %s'%(q,s.pick('WRITE','APPEND')),'FOR %s <- 1 TO %s'%(i,s.hole(0,3,.4)),'WRITEFILE %s, %s'%(q,s.pick(s.strv(1),s.int(1),'"%s" & %s'%(s.new('w'),i),s.bool(0) if False else 'b0'))]+(s.block(d-1,1) if d>0 else [])+['NEXT '+i]
            if s.ch(.3): out+=['WRITEFILE %s, %s'%(q,s.strv(1))]
            out+=['CLOSEFILE '+q] if s.ch(.9) else []
        else:
            out=['OPENFILE %s FOR READ'%q,'WHILE NOT EOF(%s) DO'%q,'READFILE %s, %s'%(q,l),'OUTPUT "%s ", %s'%(s.new('t'),l)]+(s.block(d-1,1) if d>0 else [])+['ENDWHILE','CLOSEFILE '+q]
        s.files.append(fn); s.r.shuffle(s.files); return out
    def st_rand(s,d):
        fn=s.rfiles.pop(); q='"%s"'%fn; t=s.pick('g0','s0','k0','a0') ; i=s.new('j'); s.pre.append('DECLARE %s : INTEGER'%i)
        t={'r.dat':'g0','s.dat':'s0','k.dat':'k0'}[fn]
        out=['OPENFILE %s FOR RANDOM'%q]
        if s.ch(.6): out+=['FOR %s <- 1 TO %s'%(i,s.hole(1,3,.3)),'SEEK %s, %s'%(q,i)]+s.mod(t,i)+['PUTRECORD %s, %s'%(q,t),'NEXT '+i]
        for _ in range(s.r.randint(1,4)):
            out+=['SEEK %s, %s'%(q,s.hole(1,3,.5))] if s.ch(.8) else []
            out+=(s.mod(t,s.hole(-3,4,.3))+['PUTRECORD %s, %s'%(q,t)]) if s.ch(.4) else ['GETRECORD %s, %s'%(q,t)]+(['OUTPUT "%s ", %s'%(s.new('t'),t if t!='k0' else 'k0.x, k0.s, k0.in.w[2]')])
            if d>0 and s.ch(.2): out+=s.block(d-1,1)
            if s.ch(.15): out+=['CLOSEFILE '+q,'OPENFILE %s FOR RANDOM'%q]
        if s.ch(.9): out+=['CLOSEFILE '+q]
        s.rfiles.append(fn); s.r.shuffle(s.rfiles); return out
    def mod(s,t,i):
        if t=='g0': return ['g0 <- g0 + %s'%i]
        if t=='s0': return ['s0 <- RIGHT("#" & %s & s0, 2)'%i]
        return ['k0.x <- k0.x - %s'%i,'k0.in.w[2] <- %s'%i,'k0.s <- "r" & %s'%i]
    # ---- procedures
    def proc(s):
        r=s.r; n=s.new(s.pick('P','F')); fn=n[0]=='F'; ret=s.pick('INTEGER','INTEGER','STRING' if s.f['str'] else 'INTEGER','BOOLEAN') if fn else None
        ps=[]; rec=s.ch(.25)
        if rec: ps.append(('dep','INTEGER',False))
        ts=['INTEGER']*3+['BOOLEAN']+['STRING']*bool(s.f['str'])+['Rec']*bool(s.f['rec'])+['Col']*bool(s.f['enum'])+['PI']*bool(s.f['ptr'])
        for _ in range(r.randint(0,3)):
            t=r.choice(ts); nm=s.pick('u','v','w','x')+str(len(ps)) if s.ch(.7) else s.pick('g0','g1','g2') if t=='INTEGER' else 'u%d'%len(ps)
            if nm in [p[0] for p in ps]: continue
            ps.append((nm,t,s.ch(.4) and t!='PI'))
        sv=dict(s.v); so=set(s.ro); sp=s.pre; srng=s.rng; s.rng={}; s.pre=[]; spt=list(s.ptrs); srec=list(s.recs)
        for nm,t,ref in ps:
            if t=='PI': s.ptrs.append(nm)
            else: s.v[nm]=t; s.ro.discard(nm)
            if nm=='dep': s.ro.add(nm)
        loc=[]
        for _ in range(r.randint(0,2)):
            nm=s.pick('l0','l1','g1','g2')
            if nm in [p[0] for p in ps] or any(x.startswith('DECLARE %s '%nm) for x in loc): continue
            loc.append('DECLARE %s : INTEGER'%nm); s.v[nm]='INTEGER'
            if s.ch(.7): loc.append('%s <- %s'%(nm,s.int(1)))
        if s.f['rec'] and s.ch(.2): loc.append('DECLARE lr : Rec'); s.v['lr']='Rec'; s.recs=s.recs+['lr']; loc.append('lr <- '+s.pick('k0','k1','ra[2]'))
        s.infn=(n,ret); ld=s.loopdepth; s.loopdepth=0; s.left=s.r.randint(2,5)
        body=s.block(2,s.r.randint(1,4))
        if rec:
            args=', '.join('dep - 1' if q[0]=='dep' else (q[0] if q[2] or q[1]=='PI' else s.expr(q[1],0)) for q in ps)
            me={'n':n,'ps':ps,'ret':ret}
            head=['IF dep <= 0 THEN']+(['RETURN '+s.expr(ret,0)] if fn else ['OUTPUT "%s"'%s.new('z')]+(['RETURN'] if False else []))
            if fn:
                body=head+['ENDIF']+body+(['RETURN %s(%s)%s'%(n,args,{'INTEGER':s.pick('',' + dep',' - 1'),'STRING':' & dep','BOOLEAN':''}[ret])])
                if ret=='STRING': body[-1]='RETURN RIGHT("_" & %s(%s) & dep, 2)'%(n,args)
            else: body=head+['ELSE']+body+['CALL %s(%s)'%(n,args)]+s.block(1,1)+['ENDIF']
        elif fn:
            if s.ch(.97): body.append('RETURN '+s.expr(ret))
        pre=s.pre; s.pre=sp; s.v=sv; s.ro=so; s.rng=srng; s.infn=None; s.loopdepth=ld; s.ptrs=spt; s.recs=srec
        s.procs.append({'n':n,'ps':ps,'ret':ret})
        sig=[]; last=False
        for nm,t,ref in ps:
            sig.append(('BYREF ' if ref else 'BYVAL ' if last or s.ch(.15) else '')+'%s : %s'%(nm,t)); last=ref
        head=('FUNCTION ' if fn else 'PROCEDURE ')+n+('('+', '.join(sig)+')' if sig or fn else '')+(' RETURNS '+ret if fn else '')
        return [head]+pre+loc+body+['ENDFUNCTION' if fn else 'ENDPROCEDURE']
    def dump(s):
        out=['OUTPUT "= ", g0, " ", g1, " ", g2, " ", b0']
        if s.f['str']: out.append('OUTPUT "=s ", s0, " ", c0')
        if s.f['real']: out.append('OUTPUT "=r ", r0')
        if s.f['enum']: out.append('OUTPUT "=e ", e0, " ", e1')
        if s.f['const']: out.append('OUTPUT "=c ", cI, " ", cS')
        if s.f['date']: out.append('OUTPUT "=d ", d0')
        if s.arr: out+=['OUTPUT "=a ", '+', " ", '.join('%s[%d]'%(n,i) for n in('a0','a1') for i in range(4)),'OUTPUT "=m ", '+', " ", '.join('m0[%d, %d]'%(i,j) for i in(-1,0,1) for j in(1,2))]
        for r in s.recs: out.append('OUTPUT "=k ", '+', " ", '.join(r+x for x in('.x','.s','.in.y','.in.w[1]','.in.w[2]')))
        if s.ptrs: out.append('OUTPUT "=p ", p0^, " ", p1^'+(', " ", q0^.x' if s.prs else ''))
        return out
    def program(s):
        s.rng={}; s.pre=[]; d=s.setup(); s.files=['f.txt','g.txt','h.txt'] if s.f['text'] else []; s.rfiles=['r.dat']+['s.dat']*bool(s.f['str'])+['k.dat']*bool(s.f['rec']) if s.f['rand'] else []
        pr=[]
        for fn in list(s.files):
            if s.ch(.7): d+=['OPENFILE "%s" FOR WRITE'%fn,'WRITEFILE "%s", "%s"'%(fn,s.pick('first','','1 2')),'CLOSEFILE "%s"'%fn]
        for fn in s.rfiles:
            if s.ch(.7): t={'r.dat':'g0','s.dat':'s0','k.dat':'k0'}[fn]; d+=['OPENFILE "%s" FOR RANDOM'%fn]+[x for k in range(1,s.r.randint(2,4)) for x in ('SEEK "%s", %d'%(fn,k),'PUTRECORD "%s", %s'%(fn,t))]+['CLOSEFILE "%s"'%fn]
        for _ in range(s.r.randint(1,3) if s.f['proc'] else 0):
            fs,rs=s.files,s.rfiles
            if s.ch(.6): s.files,s.rfiles=[],[]
            pr+=s.proc(); s.files,s.rfiles=fs,rs
        s.left=s.size; body=[]
        while s.left>0: body+=s.stmt(3)
        if s.f['inp']: s.stdin=[str(s.r.randint(-3,9)) if s.ch(.8) else s.pick('abc','2.5','') for _ in range(60)]
        return '\n'.join(d+s.pre+pr+body+s.dump())+'\n'
def interesting(src,stdin,h,maxstep=1500):
    """does the program, with the initial values, run for a while within what the reference defines?"""
    from sym.template import Tpl
    o=[]; t=T(o,'x',src,stdin=stdin,**h); asg={v.id:v.init for v in t.vars}
    s=t.render(t.runs[0].src,asg,'p')[0]
    try:
        x=interp.Interp(list(s),list(t.render(t.runs[0].stdin,asg,'p')[0]),False,interp.FS({}),maxstep=maxstep); r=x.run()
    except (interp.Unspecified,interp.StepLimit): return None
    return r.out
def programs(tag,n,feat={},size=(6,14),err=True):
    """n programs (name, source, stdin, holes)"""
    k=0; i=0
    while k<n:
        i+=1; r=random.Random('%s/%d'%(tag,i)); g=G('%s/%d/g'%(tag,i),feat,r.randint(*size)); src=g.program(); stdin='\n'.join(g.stdin)+'\n' if g.f['inp'] else ''
        if i<n*20+50:
            x=interesting(src,stdin,g.h)
            if x is None: continue
        k+=1; yield 'gen/%d'%i,src,stdin,g.h
def add(out,tag,n,feat={},size=(6,14),asan=1,tf=None,more=(),**kw):
    """tf: maps source to source (or None) before it becomes a template"""
    for nm,src,stdin,h in programs(tag,n,feat,size):
        if tf: src=tf(random.Random(tag+nm),src)
        if src: T(out,nm,src,stdin=stdin,prio=-1,asan=asan,maxstep=6000,more=more,**kw,**h)
def back(files):
    """a later run that prints what the files contain (text files by their lines)"""
    return ''.join('OUTPUT "%s"\nOPENFILE "%s" FOR READ\nWHILE NOT EOF("%s") DO\nREADFILE "%s", ln\nOUTPUT "[", ln, "]"\nENDWHILE\nCLOSEFILE "%s"\n'%((f,)*5) for f in files)
def layout(r,src):
    """random indentation, blanks between tokens, blank lines, comments and line ends"""
    from .c10 import toks,need
    out=[]; ls=src.rstrip('\n').split('\n')
    for l in ls:
        while r.random()<.12: out.append(r.choice(['','  ','\t','// note "x','    // DECLARE g0','//']))
        t=[re.sub(r'^HOLE(h\d+)$',r'<<\1>>',k) for k in toks(re.sub(r'<<(h\d+)>>',r'HOLE\1',l))]; x=r.choice(['','','  ','\t','     ']); p=None
        for k in t:
            if p is not None:
                g=r.choice(['',' ','  ','\t ']) if r.random()<.3 else ' '
                if not g and (need(p,k) or k=='(' or p=='.' or k=='.'): g=' '
                if p in('.',) or k in('.','^') or p=='^' or k=='[' : g=''
                x+=g
            x+=k; p=k
        x+=r.choice(['','','',' ','\t',' // c','// OUTPUT 1','\r'])
        out.append(x)
    return ''.join(x+'\n' for x in out)
def crlf(r,src): return src.replace('\n','\r\n') if r.random()<.5 else src
RB='TYPE Sub\nDECLARE y : INTEGER\nDECLARE w : ARRAY[1:2] OF INTEGER\nENDTYPE\nTYPE Rec\nDECLARE x : INTEGER\nDECLARE s : STRING\nDECLARE in : Sub\nENDTYPE\nDECLARE k0 : Rec\nDECLARE g0 : INTEGER\nDECLARE s0 : STRING\n'+''.join('OPENFILE "%s.dat" FOR RANDOM\nFOR i <- 1 TO 2\nSEEK "%s.dat", i\nGETRECORD "%s.dat", %s\nOUTPUT %s\nNEXT\n'%(f,f,f,v,o) for f,v,o in(('k','k0','k0.x, " ", k0.s, " ", k0.in.w[2], " ", k0.in.y'),('s','s0','s0'),('r','g0','g0')))
# property: (programs in quick, in thorough, features, size, ASan replay of every k-th path, options)
TAB={
'C02':(80,300,dict(proc=0,ctl=1,arr=.5,rec=0,ptr=0,enum=.5,real=2,str=2,holes=6),(8,14),1,{}),
'C03':(120,400,dict(ctl=4,proc=1,brk=2,rec=0,ptr=0,real=0,const=0,arr=.5),(6,14),1,{}),
'C04':(120,400,dict(proc=4,ctl=1.5,real=0,const=0),(5,11),4,{}),
'C05':(120,400,dict(err=3,proc=2,inp=1.5,ptr=.5),(6,14),1,{}),
'C06':(100,400,dict(arr=5,rec=.7,ptr=.7,err=.3,ctl=1.5,str=0,real=0),(8,16),4,{}),
'C07':(120,400,dict(rec=6,arr=.5,ptr=1,ctl=1.2,real=0,str=1),(8,16),4,{}),
'C08':(120,400,dict(const=3,err=2,proc=3,ptr=1,inp=.5,rec=0),(6,14),1,{}),
'C09':(120,400,dict(ptr=6,proc=2.5,rec=1,arr=1,real=0,ctl=1),(8,16),4,{}),
'C10':(80,300,dict(err=.5,text=.3),(6,14),1,dict(tf='layout')),
'C11':(120,400,dict(err=3,proc=4,ctl=2),(6,12),1,{}),
'C12':(100,300,dict(err=2,text=.5,inp=.3),(6,12),1,dict(tf='entries',repl=True)),
'C13':(60,300,dict(rand=5,proc=1,ctl=1,ptr=.3),(6,12),1,dict(more=[RB])),
'C14':(80,300,dict(rand=6,proc=.6,ctl=1.5,ptr=0,enum=0,real=0),(6,12),1,dict(more=[RB])),
'C15':(100,300,dict(text=6,proc=1,ctl=1.5,ptr=0),(6,12),1,dict(more=[back(['f.txt','g.txt','h.txt'])])),
'C16':(100,300,dict(text=4,rand=2,err=1.5,proc=1.5,ctl=1,ptr=0,real=0),(6,12),1,dict(more=[back(['f.txt','g.txt','h.txt']),RB])),
'C19':(100,300,dict(enum=6,proc=2,real=0,ptr=.4,str=.5),(6,14),1,{}),
'C20':(100,300,dict(err=.3,text=.3,inp=.4),(6,12),1,dict(ped=True)),
}
def extend(prop,tier,out):
    if prop not in TAB: return out
    n,m,feat,size,asan,o=TAB[prop]; n=n if tier=='quick' else m
    if prop=='C20':
        from .common import both
        for nm,src,stdin,h in programs(prop+'c',n*2//3,{**feat,'brk':0,'elseif':0},size): T(out,nm,src,stdin=stdin,prio=-1,maxstep=6000,**h); both(out[-1])
        for nm,src,stdin,h in programs(prop+'u',n//3,feat,size): T(out,nm+'u',src,stdin=stdin,prio=-1,maxstep=6000,**h); both(out[-1])
        return out
    k={}
    if o.get('tf')=='layout': k['tf']=layout
    if o.get('tf')=='entries':
        from .c12 import entries
        k['tf']=lambda r,s:entries(s)
    if o.get('repl'): k['repl']=True
    if o.get('more'): k['more']=o['more']
    add(out,prop,n,feat,size,asan,**k); return out
