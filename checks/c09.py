"""C09: pointers."""
from .common import *
BOUNDS='targets: variables, 1-D/2-D array elements, record fields, nested; pointers held in variables, array elements, record fields, parameters (BYVAL/BYREF) and returned from functions; pointers to pointers; dead targets: locals, parameters, local arrays/records of returned activations (with up to 3 later activations re-using the storage); type checks over all pairs of pointer type and target; histories of 3 symbolic operations out of 12; one dereference executed in loops and activations through a changing path (array of pointers, record fields, pointers to pointers); pointers copied again after their first target changed or died'
OPTS=dict(asan='all')
QUICK=45
LIT={'INTEGER':('<<a>>','<<b>>',I(),I()),'REAL':('<<a>>','<<b>>',R(),R()),'BOOLEAN':('<<a>>','<<b>>',B,B),'CHAR':("'<<a>>'","'<<b>>'",BY(1),BY(1)),'STRING':('"<<a>>"','"<<b>>"',BY(2),BY(2)),'DATE':('<<a>>','<<b>>',CH('1/2/2021','29/2/2020'),CH('3/4/1999','31/12/2024')),'E':('<<a>>','<<b>>',CH('A1','B1','C1'),CH('A1','B1','C1'))}
def templates(tier):
    out=[]; deep=tier!='quick'
    E='TYPE E = (A1, B1, C1)\nTYPE F = (D1, G1)\n'
    for ty,(la,lb,sa,sb) in LIT.items():
        P=E+f'TYPE P = ^{ty}\nTYPE R\nDECLARE f : {ty}\nDECLARE g : ARRAY[0:2] OF {ty}\nENDTYPE\nDECLARE v, u : {ty}\nDECLARE a : ARRAY[1:3] OF {ty}\nDECLARE r : R\nDECLARE ra : ARRAY[1:2] OF R\nDECLARE p, q : P\n'+(''.join(f'{x} <- {la}\n' for x in ('v','u','a[1]','a[2]','a[3]','r.f','r.g[1]','ra[2].f','ra[1].g[2]','ra[2].g[2]')) if ty in('CHAR','DATE') else '')
        sh='OUTPUT v, u, a[1], a[2], a[3], r.f, r.g[1], ra[2].f, ra[1].g[2]\n'
        for n,t in {'var':'v','elem':'a[<<i>>]','field':'r.f','farr':'r.g[<<i>>]','rarr':'ra[<<i>>].f','rarr2':'ra[<<i>>].g[2]'}.items():
            hh={'a':sa,'b':sb}
            if '<<i>>' in t: hh['i']=I(-1,4)
            t2=t
            T(out,f'{ty}/{n}',P+f'{t} <- {la}\np <- ^{t}\nOUTPUT p^\n{t} <- {lb}\nOUTPUT p^\nq <- p\np^ <- {la}\nOUTPUT {t}, q^\nq^ <- {lb}\n'+sh+f'q <- ^u\nOUTPUT p^\nu <- p^\nq^ <- {la}\n'+sh+f'OUTPUT p^, q^\n',**hh)
        T(out,f'{ty}/input',P+f'p <- ^a[2]\nINPUT p^\n'+sh+'OUTPUT p^\n',stdin='<<x>>\n',x=BY(2,b'12.TAx'),**({'a':sa} if '<<a>>' in P+sh else {}))
    # pointer holders
    H='TYPE P = ^INTEGER\nTYPE PP = ^P\nTYPE R\nDECLARE p : P\nDECLARE n : INTEGER\nDECLARE q : ARRAY[1:2] OF P\nENDTYPE\nTYPE PR = ^R\nDECLARE x, y : INTEGER\nDECLARE p, q : P\nDECLARE pp : PP\nDECLARE r, s : R\nDECLARE pr : PR\nDECLARE ap, bp : ARRAY[1:3] OF P\nx <- <<a>>\ny <- <<b>>\n'
    SX='OUTPUT x, " ", y\n'
    ab=dict(a=I(),b=I())
    T(out,'hold/pp',H+'p <- ^x\npp <- ^p\nOUTPUT pp^^\npp^^ <- 5\n'+SX+'pp^ <- ^y\nOUTPUT p^\np^ <- 6\n'+SX+'q <- pp^\nq^ <- 7\n'+SX,**ab)
    T(out,'hold/field',H+'r.p <- ^r.n\nr.p^ <- x\nOUTPUT r.n\ns <- r\ns.n <- 9\nOUTPUT s.p^\ns.p^ <- 3\nOUTPUT r.n, s.n\nr.q[1] <- ^x\nr.q[2] <- r.q[1]\nr.q[2]^ <- 4\n'+SX,**ab)
    T(out,'hold/arr',H+'ap[<<i>>] <- ^x\nap[2] <- ^y\nbp <- ap\nbp[<<i>>]^ <- 3\n'+SX+'ap[<<i>>]^ <- ap[2]^ + 1\n'+SX,i=I(0,4),**ab)
    T(out,'hold/pr',H+'pr <- ^r\npr^.n <- x\nOUTPUT r.n\npr^.p <- ^y\npr^.p^ <- 8\n'+SX+'s <- pr^\nr.n <- 1\nOUTPUT s.n, pr^.n\npr^ <- s\nOUTPUT r.n\npr^.q[1] <- ^x\nOUTPUT pr^.q[1]^\nOUTPUT pr^.q[2]^\n',**ab)
    T(out,'hold/param','PROCEDURE W(z : P, n : INTEGER)\nz^ <- n\nz <- ^y\nz^ <- n + 1\nENDPROCEDURE\nPROCEDURE V(BYREF z : P)\nz <- ^y\nENDPROCEDURE\nFUNCTION F(z : P) RETURNS P\nz^ <- z^ + 1\nRETURN z\nENDFUNCTION\n'.join(['TYPE P = ^INTEGER\n',H.split('\n',1)[1]])+'p <- ^x\nCALL W(p, 3)\n'+SX+'p^ <- 4\n'+SX+'CALL V(p)\np^ <- 5\n'+SX+'q <- F(p)\nOUTPUT q^\nq^ <- 6\n'+SX+'CALL W(F(p), 9)\n'+SX,**ab)
    T(out,'hold/swap',H+'p <- ^x\nq <- ^y\nx <- q^\ny <- p^\n'+SX+'p^ <- q^ + p^ * 2\n'+SX,**ab)
    T(out,'self',H+'p <- ^x\np <- ^p^\np^ <- 3\n'+SX+'pp <- ^p\npp^ <- pp^\nq <- ^pp^^\nq^ <- 4\n'+SX,**ab)
    T(out,'const','TYPE P = ^INTEGER\nDECLARE p : P\nCONSTANT c = 5\np <- ^c\nOUTPUT p^\np^ <- <<a>>\nOUTPUT c\n',a=I())
    # a pointer taken deep inside a chain of BYREF parameters denotes the variable itself, also after every level has returned
    for tg in ('v','a[2]','r.f','ra[1].f','pv^'):
        for depth in (1,2,3):
            ps=''.join(f'PROCEDURE L{i}(BYREF b{i} : INTEGER, BYVAL n : INTEGER)\nIF n = {i} THEN\np <- ^b{i}\nENDIF\nCALL L{i+1}(b{i}, n)\nb{i} <- b{i} + 1\nOUTPUT p^\nENDPROCEDURE\n' for i in range(depth))+f'PROCEDURE L{depth}(BYREF b : INTEGER, BYVAL n : INTEGER)\nIF n >= {depth} THEN\np <- ^b\nENDIF\nb <- b * 2\nENDPROCEDURE\n'
            T(out,f'byrefchain/{tg}/{depth}','TYPE P = ^INTEGER\nTYPE R\nDECLARE f : INTEGER\nENDTYPE\nDECLARE p, pv : P\nDECLARE v, w : INTEGER\nDECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE r : R\nDECLARE ra : ARRAY[1:2] OF R\nw <- 77\np <- ^w\npv <- ^w\n'+f'{tg} <- <<a>>\n'+ps+f'CALL L0({tg}, <<n>>)\nOUTPUT p^, " ", {tg}\np^ <- p^ + 5\nOUTPUT {tg}, " ", w\n{tg} <- 3\nOUTPUT p^, " ", v, " ", a[2], " ", r.f\n',a=I(-10**6,10**6),n=I(-1,depth))
    T(out,'byrefchain/dead','TYPE P = ^INTEGER\nDECLARE p : P\nDECLARE v : INTEGER\nv <- 1\nPROCEDURE A(BYREF x : INTEGER)\nDECLARE l : INTEGER\nl <- 9\nCALL B(l, x)\nOUTPUT p^\nENDPROCEDURE\nPROCEDURE B(BYREF y : INTEGER, BYREF z : INTEGER)\nCALL C(y, z, <<n>>)\nENDPROCEDURE\nPROCEDURE C(BYREF y : INTEGER, BYREF z : INTEGER, BYVAL k : INTEGER)\nIF k > 0 THEN\np <- ^y\nELSE\np <- ^z\nENDIF\np^ <- p^ + k\nENDPROCEDURE\nCALL A(v)\nOUTPUT v\nOUTPUT p^\np^ <- 4\nOUTPUT v\n',n=I(-5,5))
    # never set
    for k,st in enumerate(['OUTPUT p^\n','p^ <- 3\n','x <- p^\n','INPUT p^\n','CALL W(p^)\n','q <- p\nOUTPUT "c"\nOUTPUT q^\n','q <- ^p^\n','OUTPUT ap[2]^\n','OUTPUT r.p^\n','r.q[1]^ <- 4\n','s <- r\nOUTPUT s.p^\n','bp <- ap\nbp[1]^ <- 3\n','CALL V(p)\n','OUTPUT F()^\n','OUTPUT F() = F()\n','OUTPUT pr^.n\n','pr^.n <- 3\n','s <- pr^\n','pr^ <- s\n','OUTPUT pp^^\n','pp <- ^p\nOUTPUT "s"\nOUTPUT pp^^\n','pp^ <- ^x\n','OUTPUT p\n','OUTPUT p = q\n','OUTPUT x^\n','x^ <- 3\n','OUTPUT (p)^\n','p <- x\n','p <- 5\n','p <- ^5\n','p <- ^(x)\n','p <- ^F\n','p <- ^nope\n','p <- ^ap\n','p <- ^W\n','nw <- ^x\nOUTPUT "t"\n','nw <- p\nOUTPUT "u"\nOUTPUT nw^\n']):
        T(out,f'unset/{k}',H+'PROCEDURE W(BYREF z : INTEGER)\nz <- 3\nENDPROCEDURE\nPROCEDURE V(z : P)\nOUTPUT "v"\nOUTPUT z^\nENDPROCEDURE\nFUNCTION F RETURNS P\nDECLARE l : P\nRETURN l\nENDFUNCTION\nOUTPUT "a"\n'+st+SX,stdin='7\n',**ab)
    T(out,'unsetrepl','TYPE P = ^INTEGER\nDECLARE p : P\nDECLARE x : INTEGER\nx <- <<a>>\np^ <- 3\nx <- p^\nx\np <- ^x\np^ <- 4\nx\np^\nEXIT\n',repl=True,a=I())
    # type checks
    for tt in ('INTEGER','REAL','STRING','E','R','P0'):
        T(out,f'type/{tt}',E+'TYPE P0 = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nENDTYPE\nTYPE R2\nDECLARE n : INTEGER\nENDTYPE\nDECLARE i : INTEGER\nDECLARE f : REAL\nDECLARE s : STRING\nDECLARE c : CHAR\nDECLARE b : BOOLEAN\nDECLARE d : DATE\nDECLARE e : E\nDECLARE g : F\nDECLARE r : R\nDECLARE r2 : R2\nDECLARE p0 : P0\nDECLARE ai : ARRAY[1:2] OF INTEGER\nDECLARE ar : ARRAY[1:2] OF R\n'+f'TYPE PT = ^{tt}\nDECLARE p : PT\nOUTPUT "a"\np <- ^<<t>>\nOUTPUT "b"\n',t=CH('i','f','s','c','b','d','e','g','r','r2','p0','ai','ai[1]','ar[2]','r.n','ar[1].n','p0^','p'),weight=2)
    T(out,'type/copy','TYPE P = ^INTEGER\nTYPE Q = ^INTEGER\nTYPE S = ^REAL\nDECLARE p, p2 : P\nDECLARE q : Q\nDECLARE s : S\nx <- <<a>>\ny <- 1.5\np <- ^x\nq <- ^x\ns <- ^y\nOUTPUT "a"\n<<l>> <- <<r>>\nOUTPUT "b"\n',a=I(),l=CH('p','q','s','p2'),r=CH('p','q','s','p2'))
    T(out,'type/write','TYPE P = ^INTEGER\nDECLARE p : P\nDECLARE x : INTEGER\nx <- <<a>>\np <- ^x\nOUTPUT "a"\np^ <- <<e>>\nOUTPUT x\n',a=I(),e=CH('2.5','"s"',"'c'",'TRUE','p','1/2/2020','7'))
    T(out,'type/def','TYPE P = ^<<t>>\nDECLARE p : P\nOUTPUT "b"\n',t=CH('INTEGER','STRING','Q','P','nope','CHAR'))
    # dead targets
    N='TYPE P = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nDECLARE v : ARRAY[1:3] OF INTEGER\nENDTYPE\nTYPE PR = ^R\nDECLARE p : P\nDECLARE g : INTEGER\nDECLARE pr : PR\ng <- 1\n'
    TG={'local':('DECLARE l : INTEGER\nl <- n\n','l'),'param':('','n'),'larr':('DECLARE l : ARRAY[1:3] OF INTEGER\nl[2] <- n\n','l[2]'),'lrec':('DECLARE l : R\nl.n <- n\n','l.n'),'lrecarr':('DECLARE l : ARRAY[1:2] OF R\nl[2].v[3] <- n\n','l[2].v[3]'),'impl':('l <- n\n','l'),'global':('g <- n\n','g'),'for':('FOR l <- n TO n\nNEXT\n','l')}
    USE={'read':'OUTPUT p^\n','write':'p^ <- 5\n','input':'INPUT p^\n','copy':'DECLARE q : P\nq <- p\nOUTPUT "c"\nOUTPUT q^\n','addr':'p <- ^p^\n','byref':'CALL W(p^)\n','expr':'g <- g + p^\n'}
    for k,(d,t) in TG.items():
        for u,us in USE.items():
            T(out,f'dead/{k}/{u}',N+f'PROCEDURE W(BYREF z : INTEGER)\nz <- 3\nENDPROCEDURE\nPROCEDURE S(n : INTEGER)\n{d}p <- ^{t}\nOUTPUT p^\np^ <- p^ + 1\nOUTPUT {t}\nENDPROCEDURE\nCALL S(<<a>>)\nOUTPUT "z"\n{us}OUTPUT g\n',stdin='12\n',a=I(-2**40,2**40))
        T(out,f'dead/{k}/reuse',N+f'PROCEDURE S(n : INTEGER)\n{d}p <- ^{t}\nENDPROCEDURE\nPROCEDURE T(m : INTEGER)\nDECLARE l, k : INTEGER\nDECLARE b : ARRAY[1:3] OF INTEGER\nl <- m\nk <- m\nb[2] <- m\nIF m > 1 THEN\nCALL T(m - 1)\nENDIF\nIF m = <<k>> THEN\nOUTPUT p^\nENDIF\nOUTPUT l, k, b[2]\nENDPROCEDURE\nCALL S(<<a>>)\nCALL T(3)\nCALL S(4)\nCALL T(1)\nOUTPUT g\nOUTPUT p^\n',a=I(-2**40,2**40),k=I(0,4))
        T(out,f'dead/{k}/reusew',N+f'PROCEDURE S(n : INTEGER)\n{d}IF n > 0 THEN\np <- ^{t}\nENDIF\nIF n = 0 THEN\np^ <- 99\nENDIF\nOUTPUT {t}\nENDPROCEDURE\nCALL S(1)\nCALL S(<<a>>)\nOUTPUT "q"\n',a=I(-1,2))
        T(out,f'alive/{k}',N+f'PROCEDURE U(m : INTEGER)\np^ <- p^ + m\nIF m > 0 THEN\nCALL U(m - 1)\nENDIF\nENDPROCEDURE\nPROCEDURE S(n : INTEGER)\n{d}p <- ^{t}\nCALL U(<<m>>)\nOUTPUT {t}, p^\nENDPROCEDURE\nCALL S(<<a>>)\nCALL S(5)\n',a=I(-999,999),m=I(-1,3))
        T(out,f'rec/{k}',N+f'PROCEDURE S(n : INTEGER)\n{d}IF n = <<k>> THEN\np <- ^{t}\nENDIF\nIF n > 0 THEN\nCALL S(n - 1)\nENDIF\nOUTPUT n\nIF n <= <<k>> THEN\np^ <- p^ + 100\nOUTPUT {t}\nENDIF\nENDPROCEDURE\nCALL S(3)\nOUTPUT "e"\nOUTPUT p^\n',k=I(-1,4))
        # the pointer copied again to the same place in every call (the cell may reuse a dead one's storage), used while alive and after
        for c,(dc,cp,rd) in {'var':('DECLARE q : P\n','q <- p\n','q^'),'field':('TYPE H\nDECLARE q : P\nDECLARE w : INTEGER\nENDTYPE\nDECLARE h, h2 : H\n','h.q <- p\nh2 <- h\n','h2.q^'),'elem':('DECLARE ap, bp : ARRAY[1:2] OF P\n','ap[2] <- p\nbp <- ap\n','bp[2]^'),'ref':('DECLARE q : P\nPROCEDURE CP(BYREF z : P, BYVAL y : P)\nz <- y\nENDPROCEDURE\n','CALL CP(q, p)\n','q^'),'ret':('DECLARE q : P\nFUNCTION GT() RETURNS P\nRETURN p\nENDFUNCTION\n','q <- GT()\n','q^')}.items():
            T(out,f'again/{k}/{c}',N+dc+f'PROCEDURE S(n : INTEGER)\n{d}p <- ^{t}\n{cp}OUTPUT {rd}, p^\n{rd} <- {rd} + 1\nOUTPUT {t}, {rd}\nENDPROCEDURE\nPROCEDURE D(m : INTEGER)\nIF m > 0 THEN\nCALL D(m - 1)\nELSE\nCALL S(m + 7)\nENDIF\nENDPROCEDURE\nCALL S(<<a>>)\nCALL S(<<a>> + 1)\nCALL D(<<m>>)\nCALL S(3)\np <- ^g\nIF <<m>> > 0 THEN\n{cp}ENDIF\nOUTPUT "x"\nOUTPUT {rd}\n',a=I(-999,999),m=I(0,2,1),weight=.7)
    T(out,'dead/return',N+'FUNCTION F(n : INTEGER) RETURNS P\nDECLARE l : INTEGER\nDECLARE q : P\nl <- n\nIF n > <<k>> THEN\nq <- ^l\nELSE\nq <- ^g\nENDIF\nRETURN q\nENDFUNCTION\np <- F(<<a>>)\nOUTPUT "r"\nOUTPUT p^\np^ <- 8\nOUTPUT g\n',a=I(),k=I())
    T(out,'dead/recfield',N+'TYPE H\nDECLARE q : P\nENDTYPE\nDECLARE h, h2 : H\nPROCEDURE S(n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nh.q <- ^l\nh2 <- h\nENDPROCEDURE\nCALL S(<<a>>)\nCALL S(2)\nOUTPUT "h"\nOUTPUT h2.q^\n',a=I())
    T(out,'dead/pr',N+'PROCEDURE S(n : INTEGER)\nDECLARE l : R\nl.n <- n\npr <- ^l\npr^.v[2] <- n\nOUTPUT pr^.n, l.v[2]\nENDPROCEDURE\nCALL S(<<a>>)\nOUTPUT "h"\n<<u>>\nOUTPUT g\n',a=I(),u=CH('OUTPUT pr^.n','pr^.n <- 3','pr^.v[1] <- 3','g <- pr^.v[2]','p <- ^pr^.n'))
    T(out,'dead/pp',N+'TYPE PP = ^P\nDECLARE pp : PP\nPROCEDURE S(n : INTEGER)\nDECLARE l : INTEGER\nDECLARE q : P\nl <- n\nq <- ^l\nIF n > 0 THEN\npp <- ^q\nELSE\np <- ^g\npp <- ^p\nENDIF\nOUTPUT pp^^\nENDPROCEDURE\nCALL S(<<a>>)\nOUTPUT "h"\nOUTPUT pp^^\n',a=I(-1,2))
    T(out,'byref','TYPE P = ^INTEGER\nDECLARE p : P\nPROCEDURE S(BYREF n : INTEGER, BYVAL m : INTEGER)\nIF <<c>> THEN\np <- ^n\nELSE\np <- ^m\nENDIF\np^ <- p^ + 1\nOUTPUT n, m\nENDPROCEDURE\nDECLARE a : ARRAY[1:2] OF INTEGER\nx <- <<a>>\nCALL S(x, x)\nOUTPUT x\nCALL S(a[2], x)\nOUTPUT a[2]\nOUTPUT p^\np^ <- 77\nOUTPUT x, a[2]\n',a=I(),c=B)
    T(out,'byreflocal',N+'PROCEDURE Q(BYREF z : INTEGER)\np <- ^z\nENDPROCEDURE\nPROCEDURE S(n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nCALL Q(l)\np^ <- p^ + 1\nOUTPUT l, p^\nENDPROCEDURE\nCALL S(<<a>>)\nOUTPUT "e"\nOUTPUT p^\n',a=I())
    T(out,'byrefrec',N+'DECLARE r : R\nDECLARE ra : ARRAY[1:2] OF R\nPROCEDURE Q(BYREF z : R)\np <- ^z.n\npr <- ^z\npr^.v[1] <- 4\nENDPROCEDURE\nr.n <- <<a>>\nCALL Q(r)\nOUTPUT p^, r.v[1]\np^ <- 3\nOUTPUT r.n\nCALL Q(ra[2])\npr^.n <- <<a>>\nOUTPUT ra[2].n, ra[2].v[1], p^\n',a=I())
    # targets survive copies of the containing value
    T(out,'overwrite','TYPE P = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nDECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE\nDECLARE r, s : R\nDECLARE a, b : ARRAY[1:2] OF INTEGER\nDECLARE ra, rb : ARRAY[1:2] OF R\nDECLARE p : P\ns.n <- <<a>>\ns.v[2] <- <<b>>\nb[2] <- <<a>>\np <- ^r.n\nr <- s\nOUTPUT p^\np^ <- 5\nOUTPUT r.n, s.n\np <- ^r.v[2]\nr <- s\nOUTPUT p^\np^ <- 6\nOUTPUT r.v[2], s.v[2]\np <- ^a[2]\na <- b\nOUTPUT p^\np^ <- 7\nOUTPUT a[2], b[2]\np <- ^ra[1].v[2]\nra[1] <- s\nOUTPUT p^\np^ <- 8\nOUTPUT ra[1].v[2], s.v[2]\nra <- rb\nOUTPUT p^\np^ <- 9\nOUTPUT ra[1].v[2]\np <- ^r.v[1]\nr.v <- a\nOUTPUT p^\np^ <- 10\nOUTPUT r.v[1]\n',**ab)
    T(out,'overwritefile','TYPE P = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nDECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE\nDECLARE r, s : R\nDECLARE p, q : P\nOPENFILE "f" FOR RANDOM\ns.n <- <<a>>\ns.v[2] <- <<b>>\nPUTRECORD "f", s\np <- ^r.n\nq <- ^r.v[2]\nGETRECORD "f", r\nOUTPUT p^, q^\np^ <- 1\nq^ <- 2\nOUTPUT r.n, r.v[2]\nCLOSEFILE "f"\n',**ab)
    # histories
    OPS='p <- ^x\n','p <- ^a[i]\n','q <- p\n','p^ <- v\n','q^ <- v\n','p <- ^r.n\n','x <- q^ + 1\n','a[i] <- p^\n','a <- b\n','r <- s\n','CALL D(v)\n','CALL W(p, v)\n','CALL V(q)\n','s.n <- p^\n'
    head='TYPE P = ^INTEGER\nTYPE R\nDECLARE n : INTEGER\nENDTYPE\nDECLARE p, q : P\nDECLARE r, s : R\nDECLARE a, b : ARRAY[1:2] OF INTEGER\nDECLARE x, o, i, v : INTEGER\nPROCEDURE D(n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nq <- ^l\nq^ <- q^ + 1\nOUTPUT l\nENDPROCEDURE\nPROCEDURE W(z : P, n : INTEGER)\nz^ <- n\nENDPROCEDURE\nPROCEDURE V(BYREF z : P)\nz <- ^b[2]\nENDPROCEDURE\nx <- 1\na[1] <- 2\na[2] <- 3\nb[1] <- 4\nb[2] <- 5\nr.n <- 6\ns.n <- 7\np <- ^x\nq <- ^b[1]\n'
    disp='WHILE TRUE\nINPUT o\nINPUT i\nv <- v + 10\nCASE OF o\n'+''.join(f'{k}: {s}' for k,s in enumerate(OPS))+'OTHERWISE: BREAK\nENDCASE\nENDWHILE\nOUTPUT x, " ", a[1], " ", a[2], " ", b[1], " ", b[2], " ", r.n, " ", s.n\nOUTPUT p^\nOUTPUT q^\n'
    for a in range(14):
        s=f'{a}\n<<a>>\n'; hh={'a':I(1,2)}
        for q in range(2 if not deep else 3): hh[f'o{q}']=I(0,13); hh[f'i{q}']=I(1,2) if deep else I(1,1); s+=f'<<o{q}>>\n<<i{q}>>\n'
        T(out,f'hist/{a}',head+disp,stdin=s+'3\n1\n4\n2\n99\n0\n',weight=5,**hh)
    # one place in the program that is executed for different pointers, each time through another path
    W='TYPE P = ^INTEGER\nTYPE PP = ^P\nTYPE N\nDECLARE q : P\nDECLARE l : ARRAY[1:3] OF P\nENDTYPE\nTYPE PN = ^N\nDECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE p : ARRAY[1:3] OF P\nDECLARE n : ARRAY[1:3] OF N\nDECLARE r : N\nDECLARE pp : PP\nDECLARE pn : PN\nDECLARE g : P\nDECLARE s : INTEGER\nFOR i <- 1 TO 3\na[i] <- i * 10\np[i] <- ^a[i]\nn[i].q <- ^a[i]\nn[i].l[4 - i] <- ^a[i]\nr.l[i] <- ^a[i]\nNEXT\n'
    E='OUTPUT a[1], " ", a[2], " ", a[3], " ", s\n'
    VIA=[('arr','','p[i]^'),('field','','n[i].q^'),('felem','','r.l[i]^'),('both','','n[i].l[4 - i]^'),('pp','pp <- ^p[i]\n','pp^^'),('pn','pn <- ^n[i]\n','pn^.q^'),('pne','pn <- ^n[i]\n','pn^.l[4 - i]^'),('var','g <- ^a[i]\n','g^'),('varp','g <- p[i]\n','g^'),('rec','r <- n[i]\n','r.q^'),('idx','','p[a[i] DIV 10]^')]
    for nm,set_,e in VIA:
        T(out,f'loop/read/{nm}',W+f'FOR i <- 1 TO 3\n{set_}s <- s * 100 + {e}\nOUTPUT {e}\nNEXT\n'+E+f'FOR i <- <<k>> TO 1 STEP -1\n{set_}OUTPUT {e}, s\nNEXT\n',k=I(1,4))
        if nm!='idx': T(out,f'loop/write/{nm}',W+f'FOR i <- 1 TO 3\n{set_}{e} <- {e} + <<a>> + i\nNEXT\n'+E,a=I(-1000,1000))
        T(out,f'loop/ref/{nm}',W+f'PROCEDURE Q(BYREF x : INTEGER)\nx <- x + <<a>>\nENDPROCEDURE\nFOR i <- 1 TO 3\n{set_}CALL Q({e})\nNEXT\n'+E+f'PROCEDURE Z(i : INTEGER)\n{set_}OUTPUT {e}\n{e} <- i\nIF i > 1 THEN\nCALL Z(i - 1)\nENDIF\n{set_}OUTPUT {e}\nENDPROCEDURE\n'+('' if nm=='idx' else 'CALL Z(3)\n')+E,a=I(-1000,1000))
        T(out,f'loop/store/{nm}',W+f'DECLARE h : P\nFOR i <- 1 TO 3\n{set_}h <- ^{e}\nh^ <- h^ + <<a>>\n{set_}s <- s + {e} * i\nNEXT\n'.replace(f'h <- ^{e}',f'h <- {e[:-1]}')+E,a=I(0,0) if nm=='idx' else I(-1000,1000)) if nm!='idx' else None
        T(out,f'loop/pass/{nm}',W+f'PROCEDURE Q(x : P, BYVAL i : INTEGER)\nx^ <- x^ + <<a>> * i\nx <- ^a[1]\nENDPROCEDURE\nPROCEDURE U(BYREF x : P)\nx <- ^a[2]\nENDPROCEDURE\nFOR i <- 1 TO 3\n{set_}CALL Q({e[:-1]}, i)\nNEXT\n'+E+f'FOR i <- 1 TO 3\n{set_}CALL U({e[:-1]})\nNEXT\nFOR i <- 1 TO 3\n{set_}{e} <- {e} + i\nNEXT\n'+E,a=I(-1000,1000)) if nm!='idx' else None
    return out
