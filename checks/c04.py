"""C04: procedure and function calls."""
from .common import *
BOUNDS='parameter lists of up to 4 parameters with every passing mode; arguments of all types (scalars, enumerations, pointers, records, array elements, record fields, nested); call depth up to 6 (recursion); a function with an effect in every expression position of every statement; histories of 3 symbolic operations out of 12 inside up to 3 nested activations; values symbolic (64-bit INTEGER, REAL, bytes); user-defined types as parameter and result types against every other type; effects of arguments, operands and indices on one another; arguments of every type passed by reference through up to 3 levels of calls'
OPTS=dict(asan='all')
QUICK=45
LIT={'INTEGER':('<<a>>','<<b>>',I(),I()),'REAL':('<<a>>','<<b>>',R(),R()),'BOOLEAN':('<<a>>','<<b>>',B,B),'CHAR':("'<<a>>'","'<<b>>'",BY(1),BY(1)),'STRING':('"<<a>>"','"<<b>>"',BY(2),BY(2))}
def templates(tier):
    out=[]
    # every type, every target kind, both modes
    for ty,(la,lb,sa,sb) in LIT.items():
        k=ty[0]
        P=f'PROCEDURE W(BYREF x : {ty})\nx <- {lb}\nOUTPUT "in ", x\nENDPROCEDURE\nPROCEDURE V(BYVAL x : {ty})\nx <- {lb}\nOUTPUT "in ", x\nENDPROCEDURE\nPROCEDURE D(x : {ty})\nx <- {lb}\nOUTPUT "in ", x\nENDPROCEDURE\nTYPE R\nDECLARE f : {ty}\nDECLARE g : ARRAY[0:2] OF {ty}\nENDTYPE\nDECLARE v : {ty}\nDECLARE a : ARRAY[1:3] OF {ty}\nDECLARE r : R\nDECLARE ra : ARRAY[1:2] OF R\n'
        for n,t in {'var':'v','elem':'a[2]','field':'r.f','farr':'r.g[1]','rarr':'ra[2].f','rarr2':'ra[1].g[0]'}.items():
            T(out,f'{k}/{n}',P+f'{t} <- {la}\nCALL V({t})\nOUTPUT {t}\nCALL D({t})\nOUTPUT {t}\nCALL W({t})\nOUTPUT {t}\nOUTPUT v, a[1], a[2], a[3], r.f, r.g[0], r.g[1], ra[1].f, ra[2].f, ra[1].g[0]\n',a=sa,b=sb)
        T(out,f'{k}/alias',f'PROCEDURE S(BYREF x : {ty}, y : {ty}, BYVAL z : {ty})\nt <- x\nx <- y\nOUTPUT x, y, z\ny <- t\nz <- x\nOUTPUT x, y, z, v\nENDPROCEDURE\nDECLARE v, w : {ty}\nv <- {la}\nw <- {lb}\nCALL S(v, w, v)\nOUTPUT v, " ", w\nCALL S(v, v, w)\nOUTPUT v, " ", w\n',a=sa,b=sb)
        T(out,f'{k}/ret',f'FUNCTION F(x : {ty}) RETURNS {ty}\nx <- {lb}\nRETURN x\nx <- {la}\nOUTPUT "no"\nENDFUNCTION\nFUNCTION G(x : {ty}) RETURNS {ty}\nRETURN x\nENDFUNCTION\nDECLARE v : {ty}\nv <- {la}\nOUTPUT F(v), G(v), v\nv <- G(F(v))\nOUTPUT v\n',a=sa,b=sb)
        T(out,f'{k}/ptr',f'TYPE P = ^{ty}\nPROCEDURE W(q : P)\nq^ <- {lb}\nENDPROCEDURE\nPROCEDURE W2(BYREF q : P, BYREF w : {ty})\nq <- ^w\nq^ <- {la}\nENDPROCEDURE\nDECLARE v, u : {ty}\nDECLARE p : P\nv <- {la}\nu <- {lb}\np <- ^v\nCALL W(p)\nOUTPUT v, u, p^\nCALL W2(p, u)\nOUTPUT v, u, p^\n',a=sa,b=sb)
    # passing mode carried over to the following parameters
    M=('BYREF ','BYVAL ','      ')
    T(out,'modes3','PROCEDURE P(<<m>>x : INTEGER, <<n>>y : INTEGER, <<o>>z : INTEGER)\nx <- x + 1\ny <- y + 10\nz <- z + 100\nOUTPUT x, " ", y, " ", z\nENDPROCEDURE\na <- <<a>>\nb <- <<b>>\nc <- <<c>>\nCALL P(a, b, c)\nOUTPUT a, " ", b, " ", c\n',weight=3,m=CH(*M),n=CH(*M),o=CH(*M),a=I(-99,99),b=I(-99,99),c=I(-99,99))
    T(out,'modes4','FUNCTION P(<<m>>x : INTEGER, <<n>>y : REAL, <<o>>z : STRING, <<p>>w : CHAR) RETURNS INTEGER\nx <- x + 1\ny <- y + 0.5\nz <- z & "q"\nw <- \'k\'\nRETURN x\nENDFUNCTION\na <- 5\nb <- 2.25\nc <- "s"\nd <- \'c\'\nOUTPUT P(a, b, c, d)\nOUTPUT a, " ", b, " ", c, " ", d\n',weight=5,m=CH(*M),n=CH(*M),o=CH(*M),p=CH(*M))
    T(out,'modes/litarg','PROCEDURE P(<<m>>x : INTEGER, <<n>>y : INTEGER)\nx <- x + 1\ny <- y + 10\nOUTPUT x, " ", y\nENDPROCEDURE\na <- <<a>>\nCALL P(a, 5)\nOUTPUT a\nCALL P(a + 1, a)\nOUTPUT a\n',m=CH(*M),n=CH(*M),a=I())
    T(out,'modes/alias3','PROCEDURE P(<<m>>x : INTEGER, <<n>>y : INTEGER, <<o>>z : INTEGER)\nx <- x + 1\ny <- y * 2\nz <- x + y\nOUTPUT x, " ", y, " ", z, " ", v\nENDPROCEDURE\nv <- <<a>>\nCALL P(v, v, v)\nOUTPUT v\n',weight=3,m=CH(*M),n=CH(*M),o=CH(*M),a=I(-50,50))
    # implicit conversion of arguments
    TY=['INTEGER','REAL   ','BOOLEAN','CHAR   ','STRING ','DATE   ']
    ARG=['5','2.5','TRUE',"'c'",'"c"','"xyz"','1/2/2020','""','v','f','s','d']
    pre='v <- 7\nf <- 1.5\ns <- "s"\nd <- 3/4/2021\n'
    T(out,'conv/byval',pre+'PROCEDURE P(x : <<t>>)\nOUTPUT x\nENDPROCEDURE\nCALL P(<<e>>)\n',weight=4,t=CH(*TY),e=CH(*ARG))
    T(out,'conv/byref',pre+'PROCEDURE P(BYREF x : <<t>>)\nOUTPUT x\nENDPROCEDURE\nCALL P(<<e>>)\n',weight=4,t=CH(*TY),e=CH(*ARG))
    T(out,'conv/ret',pre+'FUNCTION F RETURNS <<t>>\nRETURN <<e>>\nENDFUNCTION\nOUTPUT F()\n',weight=4,t=CH(*TY),e=CH(*ARG))
    T(out,'conv/fn',pre+'FUNCTION F(x : <<t>>, y : INTEGER) RETURNS INTEGER\nOUTPUT x\nRETURN y\nENDFUNCTION\nOUTPUT F(<<e>>, v)\n',weight=4,t=CH(*TY),e=CH(*ARG))
    T(out,'conv/int','PROCEDURE P(x : REAL, y : INTEGER)\nOUTPUT x\nx <- x / 2\nOUTPUT x, y\nENDPROCEDURE\nv <- <<a>>\nCALL P(v, v)\nOUTPUT v\n',a=I(-2**40,2**40))
    T(out,'conv/char','PROCEDURE P(x : STRING, y : CHAR)\nOUTPUT x, y, LENGTH(x)\nENDPROCEDURE\nCALL P(\'<<a>>\', "<<b>>")\nCALL P("<<b>><<a>>", \'<<a>>\')\nCALL P(\'<<a>>\', "<<b>><<a>>")\n',a=BY(1),b=BY(1))
    # argument counts
    for n in range(0,4):
        ps=', '.join(f'p{i} : INTEGER' for i in range(n))
        for m in range(0,4):
            ar=', '.join(['<<a>>','2','3','4'][:m])
            src=f'PROCEDURE P({ps})\nOUTPUT "in"\nENDPROCEDURE\nFUNCTION F({ps}) RETURNS INTEGER\nRETURN 1\nENDFUNCTION\n'
            T(out,f'count/p{n}{m}',src+f'OUTPUT "x"\nCALL P({ar})\nOUTPUT "y"\n',**({'a':I()} if m else {}))
            T(out,f'count/f{n}{m}',src+f'OUTPUT "x"\nOUTPUT F({ar})\nOUTPUT "y"\n',**({'a':I()} if m else {}))
    for i,(d,c) in enumerate([('PROCEDURE P','CALL P'),('PROCEDURE P()','CALL P'),('PROCEDURE P','CALL P()'),('PROCEDURE P(x : INTEGER)','CALL P'),('PROCEDURE P','CALL P(1)'),('PROCEDURE P','CALL Q'),('PROCEDURE P','P()'),('PROCEDURE P','CALL P()\nCALL P')]):
        T(out,f'noparen/{i}',f'{d}\nOUTPUT "in"\nENDPROCEDURE\n{c}\nOUTPUT <<a>>\n',a=I())
    # BYREF needs a variable
    for i,e in enumerate(['5','v + 1','(v)','F(v)','-v','c','v','a[1]','a[v]','a[<<a>>]','r.f','p^','undef','a','r','LENGTH("abc")','INTEGER(v)','v <- 3','E1','TRUE','q']):
        T(out,f'byrefarg/{i}','TYPE R\nDECLARE f : INTEGER\nENDTYPE\nTYPE PI = ^INTEGER\nTYPE E = (E1, E2)\nPROCEDURE W(BYREF x : INTEGER)\nx <- x + 1\nOUTPUT "in"\nENDPROCEDURE\nFUNCTION F(x : INTEGER) RETURNS INTEGER\nRETURN x\nENDFUNCTION\nDECLARE a : ARRAY[1:4] OF INTEGER\nDECLARE r : R\nDECLARE p, q : PI\nCONSTANT c = 9\nv <- <<a>>\np <- ^v\nCALL W('+e+')\nOUTPUT v, a[1], a[4], r.f, c\n',a=I(-1,6))
    # locals belong to one activation
    T(out,'local/recursion','PROCEDURE P(n : INTEGER)\nDECLARE x : INTEGER\nOUTPUT "new ", x\nx <- n * <<a>>\nIF n > 0 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT n, " ", x\nENDPROCEDURE\nCALL P(<<n>>)\n',a=I(),n=I(-1,4))
    T(out,'local/arrays','PROCEDURE P(n : INTEGER)\nDECLARE x : ARRAY[1:3] OF INTEGER\nOUTPUT x[1], x[3]\nx[1] <- n * <<a>>\nx[3] <- n\nIF n > 0 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT n, " ", x[1], x[3]\nENDPROCEDURE\nCALL P(<<n>>)\n',a=I(),n=I(-1,4))
    T(out,'local/implicit','PROCEDURE P(n : INTEGER)\nx <- n * <<a>>\nIF n > 0 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT n, " ", x\nENDPROCEDURE\nCALL P(<<n>>)\nOUTPUT "end"\nOUTPUT x\n',a=I(),n=I(-1,4))
    T(out,'local/gone','PROCEDURE P\nDECLARE x : INTEGER\nx <- <<a>>\nOUTPUT x\nENDPROCEDURE\nCALL P()\nCALL P()\nOUTPUT "a"\nOUTPUT x\nOUTPUT "b"\n',a=I())
    T(out,'local/caller','PROCEDURE Q\nOUTPUT x\nENDPROCEDURE\nPROCEDURE P\nDECLARE x : INTEGER\nx <- <<a>>\nCALL Q()\nENDPROCEDURE\nIF <<b>> THEN\nx <- 4\nENDIF\nCALL P()\nOUTPUT x\n',a=I(),b=B)
    T(out,'local/callerw','PROCEDURE Q\nx <- <<b>>\nOUTPUT x\nENDPROCEDURE\nPROCEDURE P\nDECLARE x : INTEGER\nx <- <<a>>\nCALL Q()\nOUTPUT x\nENDPROCEDURE\nCALL P()\nOUTPUT "z"\nOUTPUT x\n',a=I(),b=I())
    T(out,'local/shadow','DECLARE x : INTEGER\nx <- <<a>>\nPROCEDURE P(n : INTEGER)\nOUTPUT x\nx <- x + 1\nIF n > <<b>> THEN\nDECLARE x : STRING\nx <- "loc"\nENDIF\nOUTPUT x\nENDPROCEDURE\nFOR i <- 1 TO 4\nCALL P(i)\nNEXT\nOUTPUT x\n',a=I(),b=I(0,5))
    T(out,'local/shadowarr','DECLARE x : ARRAY[1:2] OF INTEGER\nx[1] <- <<a>>\nPROCEDURE P(n : INTEGER)\nOUTPUT x[1]\nIF n > <<b>> THEN\nDECLARE x : ARRAY[1:2] OF INTEGER\nENDIF\nx[1] <- x[1] + n\nOUTPUT x[1]\nENDPROCEDURE\nFOR i <- 1 TO 3\nCALL P(i)\nNEXT\nOUTPUT x[1]\n',a=I(),b=I(0,4))
    T(out,'local/param','DECLARE x : INTEGER\nx <- <<a>>\nPROCEDURE P(x : STRING)\nOUTPUT x\nx <- x & "!"\nOUTPUT x\nENDPROCEDURE\nCALL P("<<b>>")\nOUTPUT x\nPROCEDURE Q(BYREF x : INTEGER)\nx <- x + 1\nOUTPUT x\nENDPROCEDURE\ny <- 5\nCALL Q(y)\nOUTPUT x, y\nCALL Q(x)\nOUTPUT x, y\n',a=I(),b=BY(2))
    T(out,'local/types','PROCEDURE P(n : INTEGER)\nTYPE T = (A, B, C)\nDECLARE t : T\nt <- B\nt <- t + n\nOUTPUT t\nENDPROCEDURE\nCALL P(<<a>>)\nCALL P(2)\nOUTPUT "q"\nDECLARE t : T\n',a=I(-9,9))
    T(out,'local/rectype','TYPE G\nDECLARE x : INTEGER\nENDTYPE\nPROCEDURE P(n : INTEGER)\nTYPE G\nDECLARE x : STRING\nDECLARE y : INTEGER\nENDTYPE\nDECLARE g : G\ng.x <- "s"\ng.y <- n\nOUTPUT g.x, g.y\nh.x <- n\ng <- h\nENDPROCEDURE\nDECLARE h : G\nh.x <- 3\nCALL P(<<a>>)\nOUTPUT h.x\n',a=I())
    T(out,'local/enumshadow','TYPE E = (A, B)\nDECLARE g : E\nPROCEDURE P(n : INTEGER)\nTYPE E = (X, Y, Z)\nDECLARE l : E\nl <- Z\nOUTPUT l, g\ng <- g + n\nOUTPUT g\nl <- l + n\nOUTPUT l\nIF n > 2 THEN\ng <- l\nENDIF\nENDPROCEDURE\nCALL P(<<a>>)\nOUTPUT g\n',a=I(-4,4))
    T(out,'local/for','PROCEDURE P(n : INTEGER)\nFOR i <- 1 TO n\nIF n > 1 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT n, i\nNEXT\nOUTPUT i\nENDPROCEDURE\nCALL P(<<n>>)\nOUTPUT "z"\nOUTPUT i\n',n=I(-1,3))
    # recursion with results
    T(out,'rec/fact','FUNCTION F(n : INTEGER) RETURNS INTEGER\nIF n <= 1 THEN\nRETURN 1\nENDIF\nRETURN n * F(n - 1)\nENDFUNCTION\nOUTPUT F(<<n>>)\n',n=I(-2,6))
    T(out,'rec/fib','FUNCTION F(n : INTEGER) RETURNS INTEGER\nDECLARE x, y : INTEGER\nIF n < 2 THEN\nRETURN n + <<a>>\nELSE\nx <- F(n - 1)\ny <- F(n - 2)\nRETURN x + y\nENDIF\nENDFUNCTION\nOUTPUT F(<<n>>)\n',n=I(-1,5),a=I())
    T(out,'rec/mutual','FUNCTION E(n : INTEGER) RETURNS BOOLEAN\nIF n = 0 THEN\nRETURN TRUE\nENDIF\nRETURN O(n - 1)\nENDFUNCTION\nFUNCTION O(n : INTEGER) RETURNS BOOLEAN\nIF n = 0 THEN\nRETURN FALSE\nENDIF\nRETURN E(n - 1)\nENDFUNCTION\nOUTPUT E(<<n>>), O(<<n>>)\n',n=I(0,5))
    T(out,'rec/byref','PROCEDURE P(BYREF x : INTEGER, n : INTEGER)\nIF n > 0 THEN\nx <- x + n\nCALL P(x, n - 1)\nx <- x * 2\nENDIF\nENDPROCEDURE\nv <- <<a>>\nCALL P(v, <<n>>)\nOUTPUT v\n',n=I(-1,5),a=I())
    T(out,'rec/byref2','PROCEDURE P(BYREF x : INTEGER, BYREF y : INTEGER, BYVAL n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nIF n > 0 THEN\nx <- x + 1\nCALL P(y, l, n - 1)\nOUTPUT n, x, y, l\nENDIF\ny <- y + 10\nENDPROCEDURE\nv <- <<a>>\nw <- 0\nCALL P(v, w, <<n>>)\nOUTPUT v, " ", w\n',n=I(-1,4),a=I())
    T(out,'rec/string','FUNCTION Rev(s : STRING) RETURNS STRING\nIF LENGTH(s) = 0 THEN\nRETURN ""\nENDIF\nRETURN Rev(RIGHT(s, LENGTH(s) - 1)) & LEFT(s, 1)\nENDFUNCTION\nOUTPUT Rev("<<a>>")\n',a=BY(3))
    T(out,'rec/arrayelem','PROCEDURE P(BYREF e : INTEGER, i : INTEGER)\ne <- e + i\nIF i < 3 THEN\nCALL P(a[i + 1], i + 1)\nENDIF\ne <- e * 2\nENDPROCEDURE\nDECLARE a : ARRAY[1:3] OF INTEGER\na[2] <- <<a>>\nCALL P(a[<<n>>], <<n>>)\nOUTPUT a[1], " ", a[2], " ", a[3]\n',n=I(0,4),a=I())
    # functions
    T(out,'fn/retloop','FUNCTION F(n : INTEGER) RETURNS INTEGER\nFOR i <- 1 TO 5\nFOR j <- 1 TO 3\nIF i * j >= n THEN\nRETURN i * 10 + j\nENDIF\nNEXT\nNEXT\nRETURN -1\nENDFUNCTION\nOUTPUT F(<<n>>)\n',n=I(-1,17))
    T(out,'fn/retwhile','FUNCTION F(n : INTEGER) RETURNS INTEGER\nWHILE TRUE DO\nREPEAT\nn <- n + 3\nIF n > 10 THEN\nRETURN n\nENDIF\nUNTIL n > 4\nENDWHILE\nENDFUNCTION\nOUTPUT F(<<n>>), F(<<n>> + 1)\n',n=I(-6,20))
    T(out,'fn/retcase','FUNCTION F(n : INTEGER) RETURNS STRING\nCASE OF n\n1 : RETURN "one"\n2 TO 4 : RETURN "few"\nOTHERWISE : RETURN "many"\nENDCASE\nENDFUNCTION\nOUTPUT F(<<n>>), F(3), F(<<n>>)\n',n=I())
    T(out,'fn/missing','FUNCTION F(n : INTEGER) RETURNS INTEGER\nIF n > 5 THEN\nRETURN n\nENDIF\nOUTPUT "fall"\nENDFUNCTION\nOUTPUT "a"\nx <- F(<<n>>)\nOUTPUT x\nOUTPUT F(x)\n',n=I())
    T(out,'fn/missingloop','FUNCTION F(n : INTEGER) RETURNS INTEGER\nFOR i <- 1 TO n\nIF i = 3 THEN\nRETURN i\nENDIF\nNEXT\nENDFUNCTION\nOUTPUT F(<<n>>)\nOUTPUT "b"\n',n=I(-1,5))
    T(out,'fn/outside','OUTPUT "a"\nIF <<b>> THEN\nRETURN 5\nENDIF\nOUTPUT "c"\n',b=B)
    T(out,'fn/inproc','PROCEDURE P(n : INTEGER)\nIF n > 2 THEN\nRETURN n\nENDIF\nOUTPUT "c"\nENDPROCEDURE\nCALL P(<<n>>)\nOUTPUT "d"\n',n=I())
    T(out,'fn/inproc2','PROCEDURE P(n : INTEGER)\nIF n > 2 THEN\nRETURN n\nENDIF\nOUTPUT "c"\nENDPROCEDURE\nFUNCTION F(n : INTEGER) RETURNS INTEGER\nCALL P(n)\nRETURN n + 1\nENDFUNCTION\nOUTPUT F(<<n>>)\nOUTPUT "d"\n',n=I())
    T(out,'fn/side','FUNCTION F(BYREF x : INTEGER) RETURNS INTEGER\nx <- x + 1\nRETURN x * 10\nENDFUNCTION\nv <- <<a>>\nOUTPUT F(v) + F(v) * v\nOUTPUT v\nw <- v + F(v)\nOUTPUT w, v\nv <- F(v)\nOUTPUT v\n',a=I(-1000,1000))
    T(out,'fn/sideargs','FUNCTION N RETURNS INTEGER\nk <- k + 1\nRETURN k\nENDFUNCTION\nPROCEDURE P(a : INTEGER, b : INTEGER, c : INTEGER)\nOUTPUT a, " ", b, " ", c\nENDPROCEDURE\nk <- <<a>>\nCALL P(N(), k, N())\nOUTPUT k\nDECLARE z : ARRAY[1:3] OF INTEGER\nz[1] <- 7\nOUTPUT k\n',a=I())
    T(out,'fn/sideidx','FUNCTION N RETURNS INTEGER\nk <- k + 1\nOUTPUT "N", k\nRETURN k\nENDFUNCTION\nPROCEDURE P(b : INTEGER)\nOUTPUT b, k\nENDPROCEDURE\nDECLARE k : INTEGER\nk <- <<a>>\nDECLARE z : ARRAY[1:3] OF INTEGER\nz[1] <- 11\nz[2] <- 22\nz[3] <- 33\nCALL P(z[N()])\nOUTPUT k\n',a=I(-1,4))
    T(out,'fn/discard','FUNCTION F(x : INTEGER) RETURNS INTEGER\ng <- g + x\nRETURN x\nENDFUNCTION\ng <- 1\nF(<<a>>)\nF(2)\nOUTPUT g\n',a=I())
    T(out,'fn/nested','FUNCTION A(x : INTEGER, y : INTEGER) RETURNS INTEGER\nRETURN x * 2 + y\nENDFUNCTION\nOUTPUT A(A(<<a>>, 1), A(2, A(<<b>>, 3)))\n',a=I(),b=I())
    T(out,'fn/global','FUNCTION F RETURNS INTEGER\ng <- g + 1\nDECLARE g : INTEGER\ng <- 100\nRETURN g\nENDFUNCTION\ng <- <<a>>\nOUTPUT F(), g\nOUTPUT F() + F(), g\n',a=I())
    T(out,'fn/date','FUNCTION F(d : DATE) RETURNS DATE\nd <- SETDATE(1, 1, YEAR(d))\nRETURN d\nENDFUNCTION\nv <- 5/6/2020\nOUTPUT F(v), v\n')
    T(out,'fn/record','TYPE R\nDECLARE x : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nFUNCTION Mk(n : INTEGER) RETURNS R\nDECLARE r : R\nr.x <- n\nr.a[2] <- n + 1\nRETURN r\nENDFUNCTION\nFUNCTION Md(r : R) RETURNS R\nr.x <- r.x + 100\nr.a[1] <- 5\nRETURN r\nENDFUNCTION\nDECLARE p, q : R\np <- Mk(<<a>>)\nq <- Md(p)\nOUTPUT p.x, " ", p.a[1], " ", p.a[2]\nOUTPUT q.x, " ", q.a[1], " ", q.a[2]\np <- Md(Md(Mk(2)))\nOUTPUT p.x, p.a[1], p.a[2]\n',a=I())
    T(out,'fn/enum','TYPE E = (A, B, C)\nFUNCTION Nx(e : E) RETURNS E\ne <- e + 1\nRETURN e\nENDFUNCTION\nDECLARE e : E\ne <- <<a>>\nOUTPUT Nx(e), e, Nx(Nx(e))\n',a=CH('A','B','C'))
    T(out,'fn/redef','FUNCTION F RETURNS INTEGER\nRETURN <<a>>\nENDFUNCTION\nOUTPUT F()\nFUNCTION F RETURNS INTEGER\nRETURN 2\nENDFUNCTION\nOUTPUT F()\n',a=I())
    T(out,'pr/redef','PROCEDURE P\nOUTPUT <<a>>\nENDPROCEDURE\nCALL P()\nPROCEDURE P\nENDPROCEDURE\nCALL P()\n',a=I())
    T(out,'pr/redefbuiltin','OUTPUT LENGTH("abc")\nFUNCTION LENGTH(s : STRING) RETURNS INTEGER\nRETURN 99\nENDFUNCTION\nOUTPUT LENGTH("x")\n')
    T(out,'pr/forward','IF <<b>> THEN\nCALL P(1)\nENDIF\nPROCEDURE P(x : INTEGER)\nOUTPUT x\nENDPROCEDURE\nCALL P(2)\n',b=B)
    T(out,'pr/nested','PROCEDURE A(BYREF x : INTEGER)\nx <- x + 1\nCALL Bb(x)\nENDPROCEDURE\nPROCEDURE Bb(BYREF y : INTEGER)\ny <- y * 2\nCALL Cc(y, y)\nENDPROCEDURE\nPROCEDURE Cc(BYREF z : INTEGER, BYVAL w : INTEGER)\nz <- z - 3\nw <- 0\nOUTPUT z, w, v\nENDPROCEDURE\nv <- <<a>>\nCALL A(v)\nOUTPUT v\n',a=I())
    T(out,'pr/reassign','TYPE R\nDECLARE x : INTEGER\nDECLARE s : STRING\nENDTYPE\nPROCEDURE P(BYREF x : INTEGER, BYREF s : STRING)\nr <- q\nx <- x + 1\ns <- s & "!"\nOUTPUT r.x, r.s\nENDPROCEDURE\nDECLARE r, q : R\nq.x <- <<a>>\nq.s <- "<<b>>"\nCALL P(r.x, r.s)\nOUTPUT r.x, r.s, q.x, q.s\n',a=I(),b=BY(1))
    T(out,'pr/reassignarr','PROCEDURE P(BYREF x : INTEGER)\na <- b\nx <- x + 1\nOUTPUT a[1], a[2]\nENDPROCEDURE\nDECLARE a, b : ARRAY[1:2] OF INTEGER\nb[1] <- <<a>>\nb[2] <- 20\nCALL P(a[<<i>>])\nOUTPUT a[1], a[2], b[1], b[2]\n',a=I(),i=I(0,3))
    T(out,'pr/reassignnest','TYPE I1\nDECLARE x : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nTYPE O1\nDECLARE i : I1\nDECLARE l : ARRAY[1:2] OF I1\nENDTYPE\nPROCEDURE P(BYREF x : INTEGER, BYREF y : INTEGER, BYREF z : I1)\no <- u\nx <- x + 1\ny <- y + 2\nz.x <- z.x + 3\nOUTPUT o.i.x, " ", o.l[1].a[2], " ", o.l[2].x\nENDPROCEDURE\nDECLARE o, u : O1\nu.i.x <- <<a>>\nu.l[1].a[2] <- <<b>>\nu.l[2].x <- 7\nCALL P(o.i.x, o.l[1].a[2], o.l[2])\nOUTPUT u.i.x, " ", u.l[1].a[2], " ", u.l[2].x\nOUTPUT o.i.x, " ", o.l[1].a[2], " ", o.l[2].x\n',a=I(),b=I())
    T(out,'pr/idxchange','PROCEDURE P(BYREF e : INTEGER)\ni <- i + 1\ne <- e + 100\nOUTPUT i, e\nENDPROCEDURE\nDECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE i : INTEGER\nFOR k <- 1 TO 3\na[k] <- k\nNEXT\ni <- <<i>>\nCALL P(a[i])\nOUTPUT i, " ", a[1], " ", a[2], " ", a[3]\n',i=I(0,4))
    T(out,'pr/ptrarg','TYPE P = ^INTEGER\nPROCEDURE W(BYREF x : INTEGER)\nx <- x + 1\np <- ^w\nx <- x + 1\nENDPROCEDURE\nDECLARE v, w : INTEGER\nDECLARE p : P\nv <- <<a>>\np <- ^v\nCALL W(p^)\nOUTPUT v, w, p^\n',a=I())
    T(out,'pr/input','PROCEDURE P(BYREF x : INTEGER, y : STRING)\nINPUT x\nINPUT y\nOUTPUT x, y\nENDPROCEDURE\nv <- 1\ns <- "a"\nCALL P(v, s)\nOUTPUT v, s\n',stdin='<<a>>\n<<b>>\n',a=I(),b=BY(2))
    T(out,'pr/error','PROCEDURE P(n : INTEGER)\nIF n = 0 THEN\nOUTPUT 1 DIV n\nENDIF\nCALL Q(n - 1)\nENDPROCEDURE\nPROCEDURE Q(n : INTEGER)\nOUTPUT n\nx <- F(n)\nENDPROCEDURE\nFUNCTION F(n : INTEGER) RETURNS INTEGER\nCALL P(n)\nRETURN 1\nENDFUNCTION\nCALL P(<<n>>)\n',n=I(0,3))
    T(out,'pr/errarg','PROCEDURE P(x : INTEGER, BYREF y : INTEGER)\nOUTPUT "in"\nENDPROCEDURE\nDECLARE a : ARRAY[1:2] OF INTEGER\nOUTPUT "s"\nCALL P(1 DIV <<a>>, a[<<b>>])\nOUTPUT "e"\n',a=I(-1,2),b=I(0,3))
    for ty,l in (('REAL','2.5'),('BOOLEAN','TRUE'),('CHAR',"'x'"),('STRING','"st"'),('DATE','1/2/2020'),('E','Red'),('R','r0'),('PT','p0')):
        o='' if ty in('R','PT') else 'OUTPUT F(3)\n'
        T(out,f'fn/missing-{ty}','TYPE E = (Red, Green)\nTYPE R\nDECLARE x : INTEGER\nENDTYPE\nTYPE PT = ^INTEGER\nDECLARE r0 : R\nDECLARE i0 : INTEGER\nDECLARE p0 : PT\np0 <- ^i0\nDECLARE v : '+ty+'\n'+f'v <- {l}\nFUNCTION F(n : INTEGER) RETURNS {ty}\nIF n > 5 THEN\nRETURN v\nELSE IF n < -5 THEN\nRETURN G(n)\nENDIF\nOUTPUT "fall"\nENDFUNCTION\nFUNCTION G(n : INTEGER) RETURNS {ty}\nIF n < -7 THEN\nRETURN F(-n)\nENDIF\nFOR i <- 1 TO 2\nOUTPUT "g", i\nNEXT\nENDFUNCTION\nOUTPUT "a"\nv <- F(<<n>>)\nOUTPUT "b"\n'+o,n=I(-20,20))
    # who sees which name: the callee's own locals, then the globals, never a caller's
    for c1 in 'PF':
        for c2 in 'PF':
            d2=('PROCEDURE C2(n : INTEGER)\n%sENDPROCEDURE\n' if c2=='P' else 'FUNCTION C2(n : INTEGER) RETURNS INTEGER\n%sRETURN n\nENDFUNCTION\n')%'OUTPUT "in ", g\ng <- g + n\nIF n > 3 THEN\nlocal <- local + 1\nENDIF\nIF n > 2 THEN\narr[1] <- n\nENDIF\n'
            cl='CALL C2(n)\n' if c2=='P' else 'OUTPUT C2(n)\n'
            d1=('PROCEDURE C1(n : INTEGER)\n%sENDPROCEDURE\n' if c1=='P' else 'FUNCTION C1(n : INTEGER) RETURNS INTEGER\n%sRETURN n\nENDFUNCTION\n')%f'DECLARE local, g : INTEGER\nDECLARE arr : ARRAY[1:2] OF INTEGER\nlocal <- 50\ng <- 60\narr[1] <- 70\n{cl}OUTPUT local, " ", g, " ", arr[1]\nIF n = 1 THEN\n{cl.replace("(n)","(n + 1)")}ENDIF\nOUTPUT g\n'
            cm='CALL C1(<<n>>)\n' if c1=='P' else 'OUTPUT C1(<<n>>)\n'
            T(out,f'scope/callee{c1}{c2}','DECLARE g : INTEGER\nDECLARE arr : ARRAY[1:2] OF INTEGER\ng <- <<a>>\n'+d2+d1+cm+'OUTPUT g, " ", arr[1]\n'+cm,n=I(-1,5),a=I())
            if c2=='F': T(out,f'scope/inexpr{c1}','FUNCTION C2(n : INTEGER) RETURNS INTEGER\ng <- g + n\nRETURN g * 10\nENDFUNCTION\n'+('PROCEDURE C1(BYREF r : INTEGER)\n%sENDPROCEDURE\n' if c1=='P' else 'FUNCTION C1(BYREF r : INTEGER) RETURNS INTEGER\n%sRETURN g\nENDFUNCTION\n')%'DECLARE g : INTEGER\ng <- 5\nr <- C2(g) + g\nFOR g <- 1 TO C2(1) - C2(0)\nOUTPUT g\nNEXT\n'+'DECLARE g, w : INTEGER\ng <- <<a>>\n'+('CALL C1(<<v>>)\n' if c1=='P' else 'OUTPUT C1(<<v>>)\n')+'OUTPUT g, " ", w\n',a=I(),v=CH('g','w'))
    # a local declared (or first assigned) after the global of the same name was already used by the same statement
    for k,(dg,dl,use) in enumerate([('DECLARE x : INTEGER\n','DECLARE x : INTEGER','x'),('DECLARE x : ARRAY[1:2] OF INTEGER\n','DECLARE x : ARRAY[1:2] OF INTEGER','x[1]'),('DECLARE x : ARRAY[1:2] OF INTEGER\n','DECLARE x : ARRAY[0:1] OF INTEGER','x[1]'),('TYPE R\nDECLARE f : INTEGER\nENDTYPE\nDECLARE x : R\n','DECLARE x : R','x.f'),('CONSTANT x = 7\n','DECLARE x : INTEGER','x')]):
        w='' if k==4 else f'{use} <- {use} + i\n'
        T(out,f'scope/late/{k}',dg+('' if k==4 else f'{use} <- <<a>>\n')+f'PROCEDURE P(n : INTEGER)\nDECLARE i : INTEGER\nFOR i <- 1 TO 3\nOUTPUT {use}\n{w}IF i = n THEN\n{dl}\nENDIF\nOUTPUT {use}\nNEXT\nIF n > 1 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT {use}\nENDPROCEDURE\nCALL P(<<n>>)\nOUTPUT {use}\nCALL P(<<n>> - 1)\nOUTPUT {use}\n',n=I(-1,4),**({} if k==4 else dict(a=I())))
    # BYREF handed on through several levels, each level writing before and after the deeper one
    for depth in (2,3,4):
        ps=''.join(f'PROCEDURE L{i}(BYREF p{i} : INTEGER, BYREF q{i} : INTEGER, BYVAL n : INTEGER)\np{i} <- p{i} + 1\nIF n > {depth-i} THEN\nCALL L{i+1}(q{i}, p{i}, n)\nELSE\nCALL L{i+1}(p{i}, q{i}, n)\nENDIF\nq{i} <- q{i} * 2 + n\nOUTPUT p{i}, " ", q{i}, " ", v, " ", a[2]\nENDPROCEDURE\n' for i in range(depth))+f'PROCEDURE L{depth}(BYREF p : INTEGER, BYREF q : INTEGER, n : INTEGER)\np <- p - 100\nv <- v + 1000\nq <- q + 10\na[2] <- a[2] + 1\nENDPROCEDURE\n'
        T(out,f'byref/chain{depth}','DECLARE v : INTEGER\nDECLARE a : ARRAY[1:3] OF INTEGER\nv <- <<a>>\n'+ps+'CALL L0(<<t>>, <<u>>, <<n>>)\nOUTPUT v, " ", a[1], " ", a[2], " ", a[3]\n',a=I(-10**6,10**6),n=I(0,4),t=CH('v   ','a[2]'),u=CH('a[1]','a[2]','v   '))
    # the same for every type: the referenced cell is a variable, an element, a field or an element of a field; levels are procedures and functions
    UP={'INTEGER':('@ <- @ + n\n','@ <- @ * 2\n','@','@ <- 3\n'),'REAL':('@ <- @ + 0.5\n','@ <- n\n','@','@ <- 1.25\n'),'STRING':('@ <- @ & "k"\n','@ <- "n" & n\n','@','@ <- "s"\n'),'CHAR':("@ <- 'q'\n","@ <- 'r'\n",'@',"@ <- 'a'\n"),'BOOLEAN':('@ <- NOT @\n','@ <- n > 2\n','@','@ <- TRUE\n'),
        'DATE':('@ <- 5/6/2007\n','@ <- 31/12/1999\n','@','@ <- 1/1/2000\n'),'Col':('@ <- @ + 1\n','@ <- Blue\n','@','@ <- Red\n'),'PI':('@ <- ^i2\n','@^ <- @^ + 7\n','@^','@ <- ^i1\n'),
        'In':('@.z <- @.z + n\n','@.w[2] <- "k"\n@.z <- 5\n','@.z, "," , @.w[1], @.w[2]','@.z <- 1\n@.w[1] <- "w"\n'),'Rec':('@.x <- @.x + n\n@.n.w[1] <- @.s\n','@ <- other\n','@.x, "," , @.s, @.n.z, @.n.w[1], @.n.w[2], @.q[1].z','@.x <- 4\n@.s <- "s"\n@.n.z <- 6\n')}
    CELLS=('v','a[2]','b.c','b.d[2]','bs[1].c','bs[2].d[1]')
    for ty,(u1,u2,sh,ini) in UP.items():
        for k,lv in enumerate(('PPP','FFF','PFP','FP','PF') if tier!='quick' else ('PPP','FFP','PF')):
            pre='TYPE Col = (Red, Green, Blue)\nTYPE PI = ^INTEGER\nTYPE In\nDECLARE z : INTEGER\nDECLARE w : ARRAY[1:2] OF STRING\nENDTYPE\nTYPE Rec\nDECLARE x : INTEGER\nDECLARE s : STRING\nDECLARE n : In\nDECLARE q : ARRAY[1:1] OF In\nENDTYPE\n'
            pre+=f'TYPE Box\nDECLARE pad : INTEGER\nDECLARE c : {ty}\nDECLARE d : ARRAY[1:2] OF {ty}\nENDTYPE\nDECLARE i1, i2 : INTEGER\ni1 <- 11\ni2 <- 22\nDECLARE other : Rec\nother.x <- 90\nother.n.z <- 91\nother.s <- "o"\nother.q[1].z <- 92\nDECLARE v : {ty}\nDECLARE a : ARRAY[1:2] OF {ty}\nDECLARE b : Box\nDECLARE bs : ARRAY[1:2] OF Box\n'
            pre+=''.join(ini.replace('@',c) for c in CELLS+('a[1]',))
            show=lambda c:'OUTPUT '+sh.replace('@',c)+'\n'; d=''
            for i in reversed(range(len(lv))):
                call='' if i+1==len(lv) else (f'CALL L{i+1}(p{i}, n - 1)\n' if lv[i+1]=='P' else f'OUTPUT L{i+1}(p{i}, n - 1)\n')
                body=f'IF n > {2-i} THEN\n'+u1.replace('@',f'p{i}')+'ENDIF\n'+call+show(f'p{i}')+(u2.replace('@',f'p{i}') if i else f'IF n < 3 THEN\n'+u2.replace('@',f'p{i}')+'ENDIF\n')+show('<<c>>')
                d+=(f'PROCEDURE L{i}(BYREF p{i} : {ty}, BYVAL n : INTEGER)\n{body}ENDPROCEDURE\n' if lv[i]=='P' else f'FUNCTION L{i}(BYREF p{i} : {ty}, BYVAL n : INTEGER) RETURNS INTEGER\n{body}RETURN n\nENDFUNCTION\n')
            top='CALL L0(<<c>>, <<n>>)\n' if lv[0]=='P' else 'OUTPUT L0(<<c>>, <<n>>)\n'
            T(out,f'byref/ty/{ty}/{lv}',pre+d+top+''.join(map(show,CELLS)),n=I(0,4,2),c=CH(*CELLS),weight=.7)
    for ty,(u1,u2,sh,ini) in UP.items():
        for f in 'PF':
            pre='TYPE Col = (Red, Green, Blue)\nTYPE PI = ^INTEGER\nTYPE In\nDECLARE z : INTEGER\nDECLARE w : ARRAY[1:2] OF STRING\nENDTYPE\nTYPE Rec\nDECLARE x : INTEGER\nDECLARE s : STRING\nDECLARE n : In\nDECLARE q : ARRAY[1:1] OF In\nENDTYPE\nDECLARE i1, i2 : INTEGER\ni1 <- 11\ni2 <- 22\nDECLARE other : Rec\nother.s <- "o"\n'+f'DECLARE n : INTEGER\nn <- <<n>>\nDECLARE v0, v1, v2 : {ty}\nDECLARE a : ARRAY[0:2] OF {ty}\n'
            pre+=''.join(ini.replace('@',c) for c in ('v0','v1','v2','a[0]','a[1]','a[2]'))+u1.replace('@','v1')+u2.replace('@','v2')+u1.replace('@','a[1]')+u1.replace('@','a[1]')
            show=lambda c:'OUTPUT '+sh.replace('@',c)+'\n'
            body=f'DECLARE t : {ty}\nt <- p0\np0 <- p1\np1 <- p2\np2 <- p3\np3 <- t\n'+u1.replace('@','p1')+u2.replace('@','t')+''.join(map(show,('p0','p1','p2','p3','t','v0','a[1]')))
            hd=', '.join(f'<<m{i}>>p{i} : {ty}' for i in range(4))
            d=f'PROCEDURE P({hd})\n{body}ENDPROCEDURE\n' if f=='P' else f'FUNCTION P({hd}) RETURNS INTEGER\n{body}RETURN 1\nENDFUNCTION\n'
            T(out,f'params/ty/{ty}/{f}',pre+d+('CALL ' if f=='P' else 'OUTPUT ')+'P(v0, <<x>>, v2, a[1])\n'+''.join(map(show,('v0','v1','v2','a[0]','a[1]'))),n=I(0,4,2),x=CH('v1','v0','a[1]','a[0]'),m0=CH('BYVAL ','BYREF '),m1=CH('BYVAL ','BYREF '),m2=CH('BYVAL ','BYREF '),m3=CH('BYVAL ','BYREF '),weight=.7)
    # parameter lists: passing mode carried over and changed at every position, names sharing one type, in procedures and functions
    M=('BYVAL ','BYREF ','')
    for f in 'PF':
        for g in range(8 if f=='P' else 1):
            ty=['INTEGER','STRING','REAL','INTEGER'] ; sep=[g>>i&1 for i in range(3)]     # 1: the next name shares the type behind it
            for i in (2,1,0):
                if sep[i]: ty[i]=ty[i+1]
            hd=', '.join(f'<<m{i}>>q{i}'+(f' : {ty[i]}' if i==3 or not sep[i] else '') for i in range(4))
            up=''.join('q%d <- %s\n'%(i,'q%d + %d'%(i,i+1) if ty[i]=='INTEGER' else 'q%d & "%d"'%(i,i) if ty[i]=='STRING' else 'q%d + 0.5'%i) for i in range(4))
            d=f'PROCEDURE P({hd})\n{up}OUTPUT q0, " ", q1, " ", q2, " ", q3\nENDPROCEDURE\n' if f=='P' else f'FUNCTION P({hd}) RETURNS INTEGER\n{up}OUTPUT q0, " ", q1, " ", q2, " ", q3\nRETURN 1\nENDFUNCTION\n'
            ini=''.join(f'DECLARE v{i} : {ty[i]}\nv{i} <- '+{'INTEGER':str(10*i),'STRING':'"s"','REAL':'1.5'}[ty[i]]+'\n' for i in range(4))
            T(out,f'params/{f}{g}',ini+d+('CALL ' if f=='P' else 'OUTPUT ')+'P(v0, v1, v2, v3)\nOUTPUT v0, " ", v1, " ", v2, " ", v3\n',**{'m%d'%i:CH(*M) for i in range(4)})
            hd=', '.join(f'<<m{i}>>q{i} : INTEGER' for i in range(6))
        if tier!='quick':
            for n in (5,6):
                hd=', '.join(f'<<m{i}>>q{i} : INTEGER' for i in range(n)); up=''.join(f'q{i} <- q{i} + {i+1}\n' for i in range(n))
                T(out,f'params{n}/{f}',''.join(f'v{i} <- {10*i}\n' for i in range(n))+(f'PROCEDURE P({hd})\n{up}ENDPROCEDURE\nCALL ' if f=='P' else f'FUNCTION P({hd}) RETURNS INTEGER\n{up}RETURN 1\nENDFUNCTION\nOUTPUT ')+'P('+', '.join(f'v{i}' for i in range(n))+')\nOUTPUT '+', " ", '.join(f'v{i}' for i in range(n))+'\n',**{'m%d'%i:CH(*M) for i in range(n)})
        else:
            for pre in ('BYREF','BYVAL'):
                n=6; hd=', '.join((f'{pre} ' if i==0 else f'<<m{i}>>' if i in(2,4,5) else '')+f'q{i} : INTEGER' for i in range(n)); up=''.join(f'q{i} <- q{i} + {i+1}\n' for i in range(n))
                T(out,f'params6/{f}{pre}',''.join(f'v{i} <- {10*i}\n' for i in range(n))+(f'PROCEDURE P({hd})\n{up}ENDPROCEDURE\nCALL ' if f=='P' else f'FUNCTION P({hd}) RETURNS INTEGER\n{up}RETURN 1\nENDFUNCTION\nOUTPUT ')+'P('+', '.join(f'v{i}' for i in range(n))+')\nOUTPUT '+', " ", '.join(f'v{i}' for i in range(n))+'\n',**{'m%d'%i:CH(*M) for i in (2,4,5)})
    # a function with an effect in every place of a statement: called exactly once, in order
    sd='TYPE I1\nDECLARE v : INTEGER\nDECLARE l : ARRAY[1:2] OF INTEGER\nENDTYPE\nTYPE R\nDECLARE f : INTEGER\nDECLARE g : ARRAY[1:4] OF INTEGER\nDECLARE i : ARRAY[1:4] OF I1\nENDTYPE\nTYPE PI = ^INTEGER\nDECLARE k, v, w : INTEGER\nDECLARE a : ARRAY[1:4] OF INTEGER\nDECLARE m : ARRAY[1:4, 1:4] OF INTEGER\nDECLARE ra : ARRAY[1:4] OF R\nDECLARE z : ARRAY[1:4] OF INTEGER\nDECLARE r : R\nDECLARE p : PI\nDECLARE pa : ARRAY[1:4] OF PI\nFUNCTION N() RETURNS INTEGER\nk <- k + 1\nOUTPUT "N", k\nRETURN k\nENDFUNCTION\nFUNCTION M(x : INTEGER) RETURNS INTEGER\nOUTPUT "M", x\nv <- v + x\nRETURN x\nENDFUNCTION\nPROCEDURE B1(BYREF x : INTEGER)\nx <- x + 100\nENDPROCEDURE\nPROCEDURE B2(BYREF x : INTEGER, BYREF y : INTEGER, BYVAL n : INTEGER)\nx <- x + 100\ny <- y + n\nENDPROCEDURE\nPROCEDURE BR(BYREF x : R)\nx.f <- x.f + 100\nx.g[2] <- 7\nENDPROCEDURE\nFUNCTION FB(BYREF x : INTEGER, BYVAL n : INTEGER) RETURNS INTEGER\nx <- x + n\nRETURN x\nENDFUNCTION\nPROCEDURE S\nDECLARE q : INTEGER\nFOR q <- 1 TO 4\nOUTPUT q, ": ", a[q], " ", z[q], " ", ra[q].f, " ", ra[q].g[q], " ", m[q, q], " ", ra[q].i[q].v\nNEXT q\nOUTPUT v, " ", w, " ", r.f, " ", k\nENDPROCEDURE\nFOR w <- 1 TO 4\na[w] <- w\nz[w] <- 10 * w\nra[w].f <- 20 * w\nra[w].g[w] <- 30 * w\nra[w].i[w].v <- 40 * w\nm[w, w] <- 50 * w\npa[w] <- ^a[w]\nNEXT w\nv <- 1\nk <- <<k>>\n'
    for q,st in enumerate(['CALL B1(a[N()])','CALL B1(ra[N()].f)','CALL B1(ra[N()].g[N()])','CALL B1(ra[N()].i[N()].v)','CALL B1(m[N(), N() - 1])','CALL BR(ra[N()])','CALL B2(a[N()], a[N()], N())','CALL B2(a[k + 1], z[N()], a[N()])','w <- FB(a[N()], N())','OUTPUT FB(a[N()], 1) + FB(a[N()], 2)','a[N()] <- N()','a[N()] <- a[N()] * 2','a[N()] <- FB(a[N()], 5)',
      'z <- ra[N()].g','ra[N()].g <- z','ra[N()].g <- ra[N()].g','ra[N()] <- ra[N()]','r <- ra[N()]','ra[N()] <- r','ra[N()].i[N()].l <- ra[N()].i[1].l','m[N(), N()] <- m[N(), 3]','INPUT a[N()]','INPUT ra[N()].g[2]','p <- ^a[N()]\np^ <- p^ + N()','pa[N()] <- ^z[N()]\npa[2]^ <- 6','OUTPUT pa[N()]^','pa[N()]^ <- N()','pa[N()] <- pa[N()]\nOUTPUT pa[2]^','CALL B1(pa[N()]^)',
      'FOR w <- N() TO N() + 1 STEP N() - k + 1\nOUTPUT w\nNEXT w','FOR w <- N() TO 3\na[w] <- a[w] + N()\nNEXT w','CASE OF k\nN() : OUTPUT "no"\nM(2) : OUTPUT "two"\nN() TO N() : OUTPUT "rng"\nM(v) : OUTPUT "v"\nOTHERWISE : OUTPUT "other"\nENDCASE','IF N() = 2 THEN\nOUTPUT "a"\nELSE IF N() = 3 THEN\nOUTPUT "b"\nELSE\nOUTPUT "c"\nENDIF\nENDIF'.replace('ELSE IF','ELSE\nIF'),'IF N() = 2 THEN\nOUTPUT "a"\nELSE IF N() = 3 THEN\nOUTPUT "b"\nELSE IF N() = 4 THEN\nOUTPUT "c"\nENDIF','WHILE N() < 4\nOUTPUT "it"\nENDWHILE','REPEAT\nOUTPUT "it"\nUNTIL N() >= 4','OUTPUT N(), a[N()], N() & "x", -N()','OUTPUT N() - N() * N() - N()','OUTPUT N() < N(), N() = N()','OUTPUT (N() & "") & N()','OUTPUT MID("abcdefgh", N(), N())','OUTPUT LENGTH(LEFT("abcdefghi", N())) + M(N())','w <- M(M(N()) + M(N()))','z[M(1)] <- M(2) + M(z[M(3)])','N()','a[N()]','DECLARE y : ARRAY[N():N() + 3] OF INTEGER\ny[k] <- 5\nOUTPUT y[k]','CALL P9(N())','w <- NOSUCH(N())','CALL B2(a[N()], 5, N())','CALL B1(a[N()], N())','CALL B2(a[N()], N())','CALL B1(N())','w <- a[N() + 9] + N()','a[N() + 9] <- N()','z <- a[N()]','a[N()] <- z','CALL B1(ra[N()].g)','CALL B1(ra[N()])','OPENFILE "f" FOR RANDOM\nPUTRECORD "f", w\nSEEK "f", N() - k + 1\nGETRECORD "f", w\nCLOSEFILE "f"\nOUTPUT w']):
        T(out,f'side/{q}',sd+'OUTPUT "s"\n'+st+'\nCALL S()\n',stdin='77\n',k=I(-1,3,1))
    # a symbolic history of operations in nested activations
    ops=['x <- x + 1','y <- y + 10','g <- g + 100','OUTPUT x, " ", y, " ", g','l <- l + x','OUTPUT l','CALL P(x, y, d + 1)','CALL P(g, x, d + 1)','CALL P(l, l, d + 1)','x <- F(y)','y <- F(g) + l','CALL P(a[2], a[1], d + 1)']
    case=''.join(f'{i} : {o}\n' for i,o in enumerate(ops))
    for n in ((3,) if tier=='quick' else (3,4)):
        for f in range(len(ops)):
            hs={'h%d'%i:I(0,11) for i in range(n-1)}
            T(out,'history%d/%d'%(n,f),'FUNCTION F(BYREF z : INTEGER) RETURNS INTEGER\nz <- z + 1000\nRETURN z - 1\nENDFUNCTION\nPROCEDURE P(BYREF x : INTEGER, BYVAL y : INTEGER, d : INTEGER)\nDECLARE l, op : INTEGER\nl <- d\nWHILE k < %d DO\nk <- k + 1\nINPUT op\nCASE OF op\n%sOTHERWISE : OUTPUT "?"\nENDCASE\nENDWHILE\nOUTPUT d, ":", x, " ", y, " ", l\nENDPROCEDURE\nDECLARE g, k, v, w : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\ng <- <<a>>\nCALL P(v, w, 1)\nOUTPUT v, " ", w, " ", g, " ", a[1], " ", a[2]\n'%(n,case),stdin='%d\n'%f+''.join('<<%s>>\n'%k for k in hs),weight=5,a=I(),**hs)
    # a parameter or result of a user-defined type takes values of exactly this type
    UT='TYPE E1 = (A, B, C)\nTYPE E2 = (X, Y, Z)\nTYPE P1 = ^INTEGER\nTYPE P2 = ^REAL\nTYPE R1\nDECLARE a : INTEGER\nENDTYPE\nTYPE R2\nDECLARE a : INTEGER\nENDTYPE\nDECLARE ve : E1\nDECLARE vf : E2\nDECLARE vp : P1\nDECLARE vq : P2\nDECLARE vr : R1\nDECLARE vs : R2\nDECLARE i : INTEGER\nDECLARE f : REAL\nve <- B\nvf <- Z\ni <- 4\nf <- 1.5\nvp <- ^i\nvq <- ^f\nvr.a <- 7\nvs.a <- 8\n'
    for ty,use in [('E1','x'),('E2','x'),('P1','x^'),('P2','x^'),('R1','x.a'),('R2','x.a'),('INTEGER','x'),('REAL','x')]:
        A=CH('ve','vf','vp','vq','vr','vs','i','f')
        for m in('BYVAL','BYREF'):
            T(out,f'usertype/{m}/{ty}',UT+f'FUNCTION F(k : INTEGER, {m} x : {ty}) RETURNS INTEGER\nOUTPUT "in", {use}\nRETURN k\nENDFUNCTION\nOUTPUT F(<<k>>, <<a>>)\n',k=I(0),a=A,weight=.5)
            T(out,f'usertype/proc/{m}/{ty}',UT+f'PROCEDURE F({m} x : {ty}, BYVAL k : INTEGER)\nOUTPUT "in", {use}, k\nENDPROCEDURE\nCALL F(<<a>>, <<k>>)\n',k=I(0),a=A,weight=.5)
        T(out,f'usertype/ret/{ty}',UT+f'FUNCTION F(k : INTEGER) RETURNS {ty}\nOUTPUT k\nRETURN <<a>>\nENDFUNCTION\nDECLARE x : {ty}\nx <- F(<<k>>)\nOUTPUT {use}\n',k=I(0),a=A,weight=.5)
    return out
