"""C07: records are values."""
from .common import *
BOUNDS='record types of 1 to 8 fields of all kinds in mixed order (up to 60 leaves), nested up to 3 levels, with 1-D and 2-D array fields and arrays of records; every copying construct (assignment, BYVAL, RETURN, element copy, whole-array copy, field copy, pointer target copy, random file round trip) followed by every kind of write to either side; histories of 3 symbolic operations out of 12; field values symbolic of every type.'
OPTS=dict(asan='all')
QUICK=50
TY='''TYPE E = (A1, B1, C1)
TYPE I
DECLARE n : INTEGER
DECLARE s : STRING
ENDTYPE
TYPE M
DECLARE q : I
DECLARE t : ARRAY[1:2] OF I
ENDTYPE
TYPE R
DECLARE x : INTEGER
DECLARE v : ARRAY[1:3] OF INTEGER
DECLARE w : ARRAY[0:1, 0:1] OF STRING
DECLARE m : M
DECLARE e : E
ENDTYPE
'''
SH='PROCEDURE SH(BYREF r : R)\nOUTPUT r.x, " ", r.v[1], " ", r.v[2], " ", r.v[3], " ", r.w[0,0], r.w[1,1], "|", r.m.q.n, r.m.q.s, "|", r.m.t[1].n, r.m.t[2].n, r.m.t[2].s, "|", r.e\nENDPROCEDURE\n'
PATH={'x':('<<b>>',I()),'v[<<i>>]':('<<b>>',I()),'w[<<k>>, 1]':('"<<b>>"',BY(2)),'m.q.n':('<<b>>',I()),'m.q.s':('"<<b>>"',BY(2)),'m.t[<<i>>].n':('<<b>>',I()),'m.t[2].s':('"<<b>>"',BY(2)),'e':('<<b>>',CH('A1','B1','C1'))}
def fill(r,a='<<a>>'):
    return f'{r}.x <- {a}\n{r}.v[2] <- {a}\n{r}.v[3] <- 3\n{r}.w[1,1] <- "w"\n{r}.m.q.n <- 8\n{r}.m.q.s <- "s"\n{r}.m.t[2].n <- {a}\n{r}.m.t[2].s <- "u"\n{r}.e <- B1\n'
import random
def shape(seed):
    """a record type with many fields of every kind in mixed order -> (declarations, leaves of X as (path,type))"""
    r=random.Random('shape%d'%seed); decl=[]; cnt=[0]
    SC=['INTEGER','STRING','REAL','CHAR','BOOLEAN','DATE','E']
    def rec(name,depth):
        leaves=[]; fs=[]
        for k in range(r.randint(3,6) if depth else r.randint(4,8)):
            f='f%d'%k; q=r.random()
            if q<.4 or (q>=.75 and depth>=2):
                t=r.choice(SC); fs.append(f'DECLARE {f} : {t}'); leaves.append((f,t))
            elif q<.75:
                t=r.choice(SC[:4]); d=r.choice([(1,2),(0,1),(1,3),(-1,0)])
                if r.random()<.3: fs.append(f'DECLARE {f} : ARRAY[{d[0]}:{d[1]}, 1:2] OF {t}'); leaves+=[(f'{f}[{i}, {j}]',t) for i in range(d[0],d[1]+1) for j in(1,2)]
                else: fs.append(f'DECLARE {f} : ARRAY[{d[0]}:{d[1]}] OF {t}'); leaves+=[(f'{f}[{i}]',t) for i in range(d[0],d[1]+1)]
            else:
                cnt[0]+=1; n='N%d'%cnt[0]; sub=rec(n,depth+1)
                if r.random()<.35: fs.append(f'DECLARE {f} : ARRAY[1:2] OF {n}'); leaves+=[(f'{f}[{i}].{x}',t) for i in(1,2) for x,t in sub]
                else: fs.append(f'DECLARE {f} : {n}'); leaves+=[(f'{f}.{x}',t) for x,t in sub]
        decl.append(f'TYPE {name}\n'+'\n'.join(fs)+'\nENDTYPE\n'); return leaves
    lv=rec('X',0); return 'TYPE E = (A1, B1, C1)\n'+''.join(decl),lv
def lval(t,k): return {'INTEGER':str(100+k),'STRING':'"s%d"'%k,'REAL':'%d.5'%k,'CHAR':"'%c'"%(97+k%26),'BOOLEAN':'TRUE' if k%2 else 'FALSE','DATE':'%d/2/20%02d'%(k%28+1,k%90+10),'E':'A1 + %d'%k}[t]
def shapes(out,n,nw):
    CP=['y <- x','y <- F(x)','xa[2] <- x\nya <- xa\ny <- ya[2]','p <- ^x\ny <- p^','CALL B(x)','CALL R(x, y)','o.z <- x\no2 <- o\ny <- o2.z','OPENFILE "f" FOR RANDOM\nPUTRECORD "f", x\nGETRECORD "f", y\nCLOSEFILE "f"','y <- x\nCALL R(y, y)\ny <- y']
    for k in range(n):
        d,lv=shape(k)
        if len(lv)>60: continue
        def pr(v): 
            ls=[f'{v}.{p}' for p,_ in lv]; return ''.join('OUTPUT '+', ",", '.join(ls[i:i+8])+'\n' for i in range(0,len(ls),8))
        hd=d+'TYPE PX = ^X\nTYPE OX\nDECLARE u : ARRAY[1:1] OF X\nDECLARE z : X\nENDTYPE\nDECLARE x, y : X\nDECLARE xa, ya : ARRAY[1:2] OF X\nDECLARE p : PX\nDECLARE o, o2 : OX\nPROCEDURE SX(BYREF q : X)\n'+pr('q')+'ENDPROCEDURE\nFUNCTION F(q : X) RETURNS X\nDECLARE l : X\nl <- q\nq <- y\nRETURN l\nENDFUNCTION\nPROCEDURE R(a : X, BYREF b : X)\nb <- a\nENDPROCEDURE\nPROCEDURE B(BYVAL q : X)\ny <- q\nq <- xa[1]\nCALL SX(q)\nENDPROCEDURE\n'
        fill=''.join(f'x.{pt} <- {lval(t,i)}\n' for i,(pt,t) in enumerate(lv))
        disp='CASE OF c\n'+''.join(f'{i}: {c}\n' for i,c in enumerate(CP))+'ENDCASE\n'
        wl=sorted(random.Random(k).sample(range(len(lv)),min(nw,len(lv))))
        wr='CASE OF w\n'+''.join(f'{wl.index(i)}: {"x" if i%2 else "y"}.{pt} <- {lval(t,i+31)}\n' for i,(pt,t) in enumerate(lv) if i in wl)+'ENDCASE\n'
        T(out,f'shape/{k}',hd+'DECLARE c, w : INTEGER\nINPUT c\n'+fill+disp+'CALL SX(y)\nINPUT w\n'+wr+'CALL SX(x)\nCALL SX(y)\n',stdin='<<c>>\n<<w>>\n',c=I(0,len(CP)-1),w=I(0,len(wl)),weight=2,maxstep=20000)
def templates(tier):
    out=[]; deep=tier!='quick'
    shapes(out,60 if deep else 16,30 if deep else 4)
    D=TY+SH+'DECLARE r, s : R\nDECLARE ra, rb : ARRAY[1:3] OF R\nTYPE PR = ^R\nDECLARE p : PR\nTYPE O\nDECLARE in : R\nDECLARE arr : ARRAY[1:2] OF R\nENDTYPE\nDECLARE o, o2 : O\n'
    # copying construct x written path x side
    COPY={'assign':('','s <- r\n','r','s'),'elem':('','ra[2] <- r\n','r','ra[2]'),'fromelem':('ra[1] <- r\n','s <- ra[1]\n','ra[1]','s'),'elemelem':('ra[1] <- r\n','ra[3] <- ra[1]\n','ra[1]','ra[3]'),'array':('ra[2] <- r\n','rb <- ra\n','ra[2]','rb[2]'),'ptr':('p <- ^s\n','p^ <- r\n','r','s'),'ptr2':('p <- ^r\n','s <- p^\n','r','s'),'field':('','o.in <- r\n','r','o.in'),'outer':('o.in <- r\n','o2 <- o\n','o.in','o2.in'),'outerarr':('o.arr[2] <- r\n','o2 <- o\n','o.arr[2]','o2.arr[2]'),'implicit':('','z <- r\n','r','z'),'implicit2':('','z <- ra[1]\nz <- r\n','r','z'),'fn':('FUNCTION F(q : R) RETURNS R\nq.x <- q.x + 1\nRETURN q\nENDFUNCTION\n','s <- F(r)\n','r','s'),'fn2':('FUNCTION F RETURNS R\nRETURN r\nENDFUNCTION\n','s <- F()\n','r','s'),'fnelem':('FUNCTION F(n : INTEGER) RETURNS R\nRETURN ra[n]\nENDFUNCTION\nra[1] <- r\n','s <- F(1)\n','ra[1]','s'),'swap':('PROCEDURE SW(BYREF a : R, BYREF b : R)\nDECLARE t : R\nt <- a\na <- b\nb <- t\nENDPROCEDURE\ns.x <- 55\n','CALL SW(r, s)\n','r','s')}
    for cn,(p0,c,A,Bs) in COPY.items():
        for k,(pt,(lit,sp)) in enumerate(PATH.items()):
            for sd,(x,y) in (('src',(A,Bs)),('dst',(Bs,A))) :
                hh={'a':I(),'b':sp}
                if '<<i>>' in pt: hh['i']=I(0,4)
                if '<<k>>' in pt: hh['k']=I(0,1)
                T(out,f'{cn}/{k}{sd}',D+fill('r')+p0+c+f'{x}.{pt} <- {lit}\nCALL SH({A})\nCALL SH({Bs})\nCALL SH(r)\n',**hh)
    # BYVAL / BYREF
    for k,(pt,(lit,sp)) in enumerate(PATH.items()):
        hh={'a':I(),'b':sp}
        if '<<i>>' in pt: hh['i']=I(0,4)
        if '<<k>>' in pt: hh['k']=I(0,1)
        for m in('BYVAL','BYREF',''):
            T(out,f'param/{m}{k}',D+fill('r')+f'PROCEDURE P({m} q : R)\nq.{pt} <- {lit}\nCALL SH(q)\nENDPROCEDURE\nCALL P(r)\nCALL SH(r)\nra[2] <- r\nCALL P(ra[2])\nCALL SH(ra[2])\n',**hh)
        T(out,f'param/outer{k}',D+fill('r')+f'PROCEDURE P(BYVAL q : O)\nq.in.{pt} <- {lit}\nr.{pt} <- {lit}\nCALL SH(q.in)\nCALL SH(q.arr[1])\nENDPROCEDURE\no.in <- r\no.arr[1] <- r\nCALL P(o)\nCALL SH(o.in)\nCALL SH(o.arr[1])\nCALL SH(r)\n',**hh)
        T(out,f'param/rec{k}',D+fill('r')+f'PROCEDURE P(q : R, n : INTEGER)\nIF n > 0 THEN\nq.{pt} <- {lit}\nCALL P(q, n - 1)\nENDIF\nq.x <- q.x + 1\nCALL SH(q)\nENDPROCEDURE\nCALL P(r, 2)\nCALL SH(r)\n',**hh)
    # default values
    T(out,'default',TY+'DECLARE r : R\nTYPE PI = ^INTEGER\nTYPE Q\nDECLARE i : INTEGER\nDECLARE f : REAL\nDECLARE b : BOOLEAN\nDECLARE s : STRING\nDECLARE e : E\nDECLARE k : I\nDECLARE a : ARRAY[1:2] OF REAL\nDECLARE p : PI\nENDTYPE\nDECLARE q : Q\nDECLARE qa : ARRAY[1:2] OF Q\nOUTPUT q.i, q.f, q.b, q.s, q.e, q.k.n, q.k.s, q.a[1], q.a[2]\nq.i <- <<a>>\nDECLARE q2 : Q\nOUTPUT q2.i, q2.f\nOUTPUT qa[<<i>>].i, qa[<<i>>].f, qa[<<i>>].e\nOUTPUT r.x, r.v[1], r.w[0,1], r.m.q.n, r.m.t[1].s, r.e\nOUTPUT q.p^\n',a=I(),i=I(0,3))
    T(out,'defaultlocal',TY+SH+'PROCEDURE P(n : INTEGER)\nDECLARE r : R\nCALL SH(r)\nr.x <- n\nr.v[1] <- n\nr.m.t[1].n <- n\nIF n > 0 THEN\nCALL P(n - 1)\nENDIF\nCALL SH(r)\nENDPROCEDURE\nCALL P(<<n>>)\nCALL P(1)\n',n=I(-1,3))
    # field types
    SRC=['7','2.5','TRUE',"'x'",'"y"','"yz"','1/2/2021','A1','D1','i','g','r','a2','a3','r.k','r.a','p']
    for k,f in enumerate(['n','f','b','c','s','d','e','i','a','a[1]','p','i.n','nope','i.nope','n.x','a.n','s.s']):
        T(out,f'fieldtype/{k}',TY+'TYPE F = (D1, E2)\nTYPE G\nDECLARE n : INTEGER\nDECLARE s : STRING\nENDTYPE\nTYPE PI = ^INTEGER\nTYPE Q\nDECLARE n : INTEGER\nDECLARE f : REAL\nDECLARE b : BOOLEAN\nDECLARE c : CHAR\nDECLARE s : STRING\nDECLARE d : DATE\nDECLARE e : E\nDECLARE i : I\nDECLARE a : ARRAY[1:2] OF INTEGER\nDECLARE p : PI\nENDTYPE\nDECLARE q, r : Q\nDECLARE i : I\nDECLARE g : G\nDECLARE a2 : ARRAY[1:2] OF INTEGER\nDECLARE a3 : ARRAY[1:3] OF INTEGER\nDECLARE p : PI\nn <- 4\np <- ^n\nnope <- 3\nq.n <- 1\nq.s <- "old"\nq.a[1] <- 5\nq.d <- 5/6/2020\nq.c <- \'c\'\nOUTPUT "a"\nq.'+f+' <- <<e>>\nOUTPUT q.n, q.f, q.b, q.c, q.s, q.d, q.e, q.i.n, q.a[1], q.a[2], nope\n',e=CH(*[x for x in SRC if x not in('r.k',)]),weight=2)
    # an undeclared field is an error wherever it is used
    for k,st in enumerate(['OUTPUT r.z\n','r.z <- 3\n','INPUT r.z\n','CALL P(r.z)\n','p <- ^r.z\n','OUTPUT r.m.z\n','OUTPUT r.m.q.x\n','OUTPUT r.v.x\n','OUTPUT r.x.v\n','OUTPUT x.r\n','OUTPUT ra[1].z\n','OUTPUT r.m.t[1].x\n','OUTPUT r.z[1]\n','OUTPUT r[1]\n','OUTPUT r.w.x\n','OUTPUT r.r\n','r.r <- r\n','OUTPUT r.A1\n','OUTPUT r.R\n','OUTPUT r.P\n']):
        T(out,f'undeclared/{k}',D+'PROCEDURE P(BYREF q : INTEGER)\nOUTPUT q\nENDPROCEDURE\nx <- <<a>>\nz <- <<a>>\nr.x <- 5\nOUTPUT "a"\n'+st+'OUTPUT z, x\n',stdin='7\n',a=I())
    # values that are records: comparisons, operators, OUTPUT
    for k,e in enumerate(['r = s','r <> s','r + 1','r & "a"','NOT r','-r','r < s','r AND TRUE','LENGTH(r)','INTEGER(r)','r']):
        T(out,f'op/{k}',D+'r.x <- <<a>>\nOUTPUT "q"\nOUTPUT '+e+'\nOUTPUT "z"\n',a=I())
    # record types of the same shape are different types
    T(out,'sameshape','TYPE P\nDECLARE x : INTEGER\nENDTYPE\nTYPE Q\nDECLARE x : INTEGER\nENDTYPE\nDECLARE p, p2 : P\nDECLARE q : Q\np.x <- <<a>>\np2 <- p\nOUTPUT p2.x\n<<s>>\nOUTPUT "no", q.x\n',a=I(),s=CH('q <- p','p <- q','q.x <- p.x','p <- 5','p.x <- q'))
    T(out,'fntype','TYPE P\nDECLARE x : INTEGER\nENDTYPE\nTYPE Q\nDECLARE x : INTEGER\nENDTYPE\nDECLARE p : P\nDECLARE q : Q\nFUNCTION F(z : <<s>>) RETURNS <<t>>\nOUTPUT z.x\nRETURN z\nENDFUNCTION\np.x <- <<a>>\nq <- F(p)\nOUTPUT q.x\n',a=I(),s=CH('P','Q'),t=CH('P','Q'))
    # temporaries
    T(out,'temp','TYPE P\nDECLARE x : INTEGER\nDECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE\nFUNCTION F(n : INTEGER) RETURNS P\nDECLARE p : P\np.x <- n\np.v[1] <- n * 2\np.v[2] <- n * 3\nIF n > 0 THEN\nDECLARE t : P\nt <- F(n - 1)\np.v[2] <- t.v[1] + t.x\nENDIF\nRETURN p\nENDFUNCTION\nDECLARE a, b : P\na <- F(<<n>>)\nb <- F(1)\nOUTPUT a.x, " ", a.v[1], " ", a.v[2], " ", b.x, " ", b.v[1], " ", b.v[2]\n',n=I(-1,4))
    T(out,'temparg','TYPE P\nDECLARE x : INTEGER\nDECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE\nFUNCTION F(n : INTEGER) RETURNS P\nDECLARE p : P\np.x <- n\np.v[1] <- n * 2\nRETURN p\nENDFUNCTION\nFUNCTION G(a : P, BYVAL b : P) RETURNS INTEGER\na.v[1] <- a.v[1] + b.x\nb <- a\nb.v[2] <- 9\nRETURN a.v[1] * 100 + b.v[1] + a.v[2]\nENDFUNCTION\nDECLARE d : P\nd <- F(<<n>>)\nOUTPUT G(F(<<m>>), d), G(d, d), d.v[1]\n',n=I(-99,99),m=I(-99,99))
    # through a random file
    for k,(pt,(lit,sp)) in enumerate(PATH.items()):
        hh={'a':I(),'b':sp}
        if '<<i>>' in pt: hh['i']=I(1,2)
        if '<<k>>' in pt: hh['k']=I(0,1)
        T(out,f'file/{k}',D+fill('r')+f'r.w[0,0] <- "-"\nr.w[0,1] <- "-"\nr.w[1,0] <- "-"\nr.m.t[1].s <- "-"\nOPENFILE "f" FOR RANDOM\nSEEK "f", 1\nPUTRECORD "f", r\nr.{pt} <- {lit}\nGETRECORD "f", s\nCALL SH(s)\ns.{pt} <- {lit}\nCALL SH(r)\nCALL SH(s)\nGETRECORD "f", s\nCALL SH(s)\nCLOSEFILE "f"\n',**hh)
    # self reference through pointers
    T(out,'list','TYPE PN = ^N\nTYPE N\nDECLARE v : INTEGER\nDECLARE next : PN\nENDTYPE\nDECLARE a, b, c : N\n' if False else 'TYPE N\nDECLARE v : INTEGER\nENDTYPE\nTYPE PN = ^N\nTYPE L\nDECLARE n : N\nDECLARE next : PN\nENDTYPE\nDECLARE a, b : L\na.n.v <- <<a>>\nb.next <- ^a.n\nb <- a\nb.next <- ^b.n\na.next <- ^b.n\nb.n.v <- <<b>>\nOUTPUT a.n.v, b.n.v\nDECLARE p : PN\np <- a.next\np^.v <- 5\nOUTPUT a.n.v, b.n.v\n',a=I(),b=I())
    # self copies
    T(out,'self',D+fill('r')+'r <- r\nCALL SH(r)\nra[<<i>>] <- r\nra[<<i>>] <- ra[<<i>>]\nra <- ra\nr.v <- r.v\nr.m <- r.m\nr.m.q <- r.m.t[2]\nr.m.t[1] <- r.m.t[2]\nr.m.t[2].n <- 3\nCALL SH(r)\nCALL SH(ra[2])\n',a=I(),i=I(0,4))
    T(out,'part',D+fill('r')+'o.in <- r\no.arr[1] <- o.in\no.in <- o.arr[2]\nCALL SH(o.in)\nCALL SH(o.arr[1])\no.arr[2].m <- o.arr[1].m\no.arr[1].m.t[2].n <- 1\nCALL SH(o.arr[2])\no.arr[1] <- o.arr[2]\nCALL SH(o.arr[1])\no2.arr <- o.arr\no.arr[1].x <- 12\nCALL SH(o2.arr[1])\n',a=I())
    # histories
    OPS='r <- s\n','s <- r\n','a[i] <- r\n','r <- a[i]\n','a[i] <- a[j]\n','r.n <- v\n','r.t[i] <- v\n','s.t[j] <- v\n','a[i].t[j] <- v\n','a[j].n <- v\n','b <- a\n','s <- F(a[i])\n','r.t <- a[i].t\n','p^.n <- v\n','p <- ^a[i]\n'
    head='TYPE Q\nDECLARE n : INTEGER\nDECLARE t : ARRAY[1:2] OF INTEGER\nENDTYPE\nTYPE PQ = ^Q\nFUNCTION F(z : Q) RETURNS Q\nz.n <- z.n + 1\nz.t[1] <- z.t[2]\nRETURN z\nENDFUNCTION\nPROCEDURE S(BYREF q : Q)\nOUTPUT q.n, " ", q.t[1], " ", q.t[2]\nENDPROCEDURE\nDECLARE r, s : Q\nDECLARE a, b : ARRAY[1:2] OF Q\nDECLARE p : PQ\nDECLARE o, i, j, v : INTEGER\nr.n <- 1\nr.t[1] <- 2\ns.n <- 3\ns.t[2] <- 4\na[1].n <- 5\na[1].t[1] <- 6\na[2].t[2] <- 7\np <- ^s\n'
    disp='WHILE TRUE\nINPUT o\nINPUT i\nj <- 3 - i\nv <- v + 10\nCASE OF o\n'+''.join(f'{k}: {s}' for k,s in enumerate(OPS))+'OTHERWISE: BREAK\nENDCASE\nENDWHILE\nCALL S(r)\nCALL S(s)\nCALL S(a[1])\nCALL S(a[2])\nCALL S(b[1])\nCALL S(b[2])\n'
    for a in range(15):
        s=f'{a}\n<<a>>\n'; hh={'a':I(1,2)}
        for q in range(1 if not deep else 2): hh[f'o{q}']=I(0,14); hh[f'i{q}']=I(1,2); s+=f'<<o{q}>>\n<<i{q}>>\n'
        for f in ('6\n2\n','8\n1\n') if not deep else ('6\n1\n7\n2\n8\n1\n8\n2\n',): 
            T(out,f'hist/{a}{f[0]}',head+disp,stdin=s+f+'99\n0\n',weight=3,**hh)
    return out
