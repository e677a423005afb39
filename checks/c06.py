"""C06: arrays are bounds-checked total maps with independent elements."""
from .common import *
BOUNDS='1 to 4 dimensions; symbolic 64-bit indices (every value in and outside the bounds); symbolic declared bounds in -4..6 (extents up to 11, incl. empty/inverted ranges); element types INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE, enumeration, pointer, record (with array field); histories of up to 4 (quick) / 5 (thorough) symbolic operations out of 10; whole-array assignment over all pairs of 2-D shapes with extents 1..3.'
OPTS=dict(asan='all')
QUICK=50
DEF={'INTEGER':('<<a>>','<<b>>',I(),I()),'REAL':('<<a>>','<<b>>',R(),R()),'BOOLEAN':('<<a>>','<<b>>',B,B),'CHAR':("'<<a>>'","'<<b>>'",BY(1),BY(1)),'STRING':('"<<a>>"','"<<b>>"',BY(2),BY(2)),'DATE':('<<a>>','<<b>>',CH('1/2/2021','29/2/2020'),CH('3/4/1999','31/12/2024')),'E':('<<a>>','<<b>>',CH('A1','B1','C1'),CH('A1','B1','C1'))}
SETV={'CHAR':"'.'",'STRING':'"."'}
def templates(tier):
    out=[]; deep=tier!='quick'
    pre='TYPE E = (A1, B1, C1)\n'
    for ty,(la,lb,sa,sb) in DEF.items():
        # every element is distinct storage of the declared type, with its default value
        ini='' if ty not in('CHAR','DATE') else ''.join(f'x[{i}] <- {la}\n' for i in range(-1,4))
        show='FOR k <- -1 TO 3\nOUTPUT x[k]\nNEXT\n'
        T(out,f'map/{ty}',pre+f'DECLARE x : ARRAY[-1:3] OF {ty}\n'+ini+(show if not ini else '')+f'x[<<i>>] <- {la}\nx[<<j>>] <- {lb}\n'+show+f'OUTPUT x[<<i>>]\n',i=I(),j=I(),a=sa,b=sb,weight=2)
        T(out,f'map2/{ty}',pre+f'DECLARE x : ARRAY[0:1, 2:4] OF {ty}\n'+(''.join(f'x[{i},{j}] <- {la}\n' for i in (0,1) for j in (2,3,4)) if ini else '')+f'x[<<i>>, <<j>>] <- {la}\nx[<<j>> - 2, <<i>> + 2] <- {lb}\nFOR k <- 0 TO 1\nFOR m <- 2 TO 4\nOUTPUT x[k, m]\nNEXT\nNEXT\n',i=I(),j=I(),a=sa,b=sb,weight=2)
        if not ini: T(out,f'default/{ty}',pre+f'DECLARE x, y : ARRAY[<<l>>:<<u>>] OF {ty}\nOUTPUT "d"\nFOR k <- <<l>> TO <<u>>\nOUTPUT x[k]\nNEXT\nOUTPUT y[<<i>>]\n',l=I(-2,3),u=I(-1,3),i=I(-3,4),weight=2)
        T(out,f'copy/{ty}',pre+f'DECLARE x, y : ARRAY[1:3] OF {ty}\n'+(''.join(f'x[{i}] <- {la}\n' for i in (1,2,3)) if ini else '')+f'x[<<i>>] <- {la}\ny <- x\nx[2] <- {lb}\nOUTPUT x[1], x[2], x[3]\nOUTPUT y[1], y[2], y[3]\ny[<<j>>] <- {lb}\nOUTPUT x[1], x[2], x[3]\nOUTPUT y[1], y[2], y[3]\nx <- y\nx <- x\nOUTPUT x[1], x[2], x[3]\n',i=I(0,4),j=I(0,4),a=sa,b=sb,weight=2)
    # dimensions 3 and 4: distinct cells for distinct tuples
    T(out,'dim3','DECLARE x : ARRAY[1:2, 0:2, -1:0] OF INTEGER\nn <- 0\nFOR i <- 1 TO 2\nFOR j <- 0 TO 2\nFOR k <- -1 TO 0\nn <- n + 1\nx[i, j, k] <- n\nNEXT\nNEXT\nNEXT\nx[<<i>>, <<j>>, <<k>>] <- 77\nFOR i <- 1 TO 2\nFOR j <- 0 TO 2\nFOR k <- -1 TO 0\nOUTPUT x[i, j, k]\nNEXT\nNEXT\nNEXT\n',i=I(),j=I(),k=I(),weight=2)
    T(out,'dim4','DECLARE x : ARRAY[1:2, 0:1, -1:0, 5:6] OF INTEGER\nx[<<i>>, <<j>>, <<k>>, <<l>>] <- 77\ns <- 0\nFOR i <- 1 TO 2\nFOR j <- 0 TO 1\nFOR k <- -1 TO 0\nFOR l <- 5 TO 6\ns <- s * 2 + x[i, j, k, l] DIV 77\nNEXT\nNEXT\nNEXT\nNEXT\nOUTPUT s\n',i=I(),j=I(),k=I(),l=I(),weight=3)
    for d,(dims,n) in enumerate([('1:3',1),('1:2,1:3',2),('0:1,1:2,2:3',3)]):
        for m in range(1,5):
            T(out,f'count/{n}{m}',f'DECLARE x : ARRAY[{dims}] OF INTEGER\nOUTPUT "a"\nx[{", ".join(["<<i>>","2","2","2"][:m])}] <- 5\nOUTPUT "b"\n',i=I(-1,4))
            T(out,f'countr/{n}{m}',f'DECLARE x : ARRAY[{dims}] OF INTEGER\nOUTPUT "a"\nOUTPUT x[{", ".join(["<<i>>","2","2","2"][:m])}]\nOUTPUT "b"\n',i=I(-1,4))
    # index types
    ix=['2','2.0','TRUE',"'2'",'"2"','1/2/2020','A1','n','r','x','x[1]','x[x[1]]','n / 2','n DIV 2','ASC(\'a\') - 96','f(1)','p^','-1','(2)','1 + 1','2 * n','-n + 3','NOT b','b','n > 1','undef']
    for k,st in enumerate(['x[<<e>>] <- 9\n','OUTPUT x[<<e>>]\n','INPUT x[<<e>>]\n','CALL W(x[<<e>>])\n','q <- ^x[<<e>>]\nq^ <- 4\n','x[1] <- x[<<e>>] + 1\n']):
        T(out,f'indextype/{k}',pre+'TYPE PI = ^INTEGER\nFUNCTION f(q : INTEGER) RETURNS INTEGER\nRETURN q + 1\nENDFUNCTION\nPROCEDURE W(BYREF z : INTEGER)\nz <- 8\nENDPROCEDURE\nDECLARE x : ARRAY[1:3] OF INTEGER\nDECLARE p, q : PI\nx[1] <- <<n>>\nn <- 2\np <- ^n\nr <- 2.0\nb <- TRUE\n'+st+'OUTPUT x[1], " ", x[2], " ", x[3]\n',stdin='6\n',n=I(0,4),e=CH(*ix),weight=3)
    # erroneous accesses have no effect (REPL shows the elements afterwards)
    for k,st in enumerate(['x[<<i>>] <- 9','x[<<i>>, 1] <- 9','x[<<f>>] <- 9','x[2] <- "s"','x[<<i>>] <- 2.5','x <- y','x <- z','x <- 5','x <- w','y <- x','x <- undef','n <- x','x[<<i>>] <- x']):
        T(out,f'noeffect/{k}','DECLARE x : ARRAY[1:3] OF INTEGER\nDECLARE y : ARRAY[1:3] OF REAL\nDECLARE z : ARRAY[0:2] OF INTEGER\nDECLARE w : ARRAY[1:3,1:1] OF INTEGER\nx[1] <- 4\nx[2] <- 5\nx[3] <- 6\n'+st+'\nx[1]\nx[2]\nx[3]\ny[1]\ny[3]\nEXIT\n',repl=True,i=I(-1,4),f=CH('2.0','"2"'))
    # declared bounds
    T(out,'bounds','OUTPUT "s"\nDECLARE x : ARRAY[<<l>>:<<u>>] OF INTEGER\nOUTPUT "d"\nx[<<i>>] <- 5\nOUTPUT x[<<i>>]\n',l=I(-4,6),u=I(-4,6),i=I(),weight=3)
    for l in ((0,3) if not deep else (-1,0,1,2,3)):
        for u in ((-2,1) if not deep else (-2,-1,0,1,2)):
            T(out,f'bounds2/{l}{u}',f'OUTPUT "s"\nDECLARE x : ARRAY[{l}:2, -1:{u}] OF INTEGER\nx[<<i>>, <<j>>] <- 5\nx[<<j>>, <<i>>] <- 6\nOUTPUT x[<<i>>, <<j>>]\n',i=I(-2,3),j=I(-2,3))
    T(out,'boundsexpr','n <- <<n>>\nDECLARE x : ARRAY[n:n + 2] OF INTEGER\nn <- 100\nx[<<i>>] <- 3\nOUTPUT x[<<i>>]\n',n=I(-1000,1000),i=I())
    T(out,'boundstype','DECLARE x : ARRAY[<<l>>:<<u>>] OF INTEGER\nOUTPUT "d"\nx[1] <- 5\n',l=CH('1','1.0','TRUE',"'1'",'"1"','u','1/2/2020'),u=CH('3','3.0','TRUE',"'3'",'"3"','u'))
    T(out,'boundslarge','DECLARE x : ARRAY[<<l>>:<<l>> + 2] OF INTEGER\nx[<<l>> + <<k>>] <- 5\nOUTPUT x[<<l>> + 1]\n',l=I(-2**62,2**62),k=I(-2,4))
    T(out,'multi','DECLARE x, y, z : ARRAY[1:2] OF INTEGER\nx[1] <- <<a>>\ny[1] <- <<b>>\nz[2] <- <<a>>\nOUTPUT x[1], x[2], y[1], y[2], z[1], z[2]\n',a=I(),b=I())
    # whole-array assignment: identical element type and bounds
    TY=['INTEGER','REAL   ','BOOLEAN','CHAR   ','STRING ','DATE   ','E      ','F      ','RA     ','RB     ']
    T(out,'assigntype',pre+'TYPE F = (A2, B2)\nTYPE RA\nDECLARE q : INTEGER\nENDTYPE\nTYPE RB\nDECLARE q : INTEGER\nENDTYPE\nDECLARE x : ARRAY[1:2] OF <<t>>\nDECLARE y : ARRAY[1:2] OF <<u>>\nOUTPUT "a"\nx <- y\nOUTPUT "b"\n',t=CH(*TY),u=CH(*TY),weight=6)
    SH=['1:2 ','1:3 ','0:1 ','2:3 ','1:2,1:2','1:2,0:1','0:1,1:2','1:4 ','1:1,1:2','1:2,1:1','1:2,1:2,1:1']
    for q,sh in enumerate(SH): T(out,f'assignshape/{q}',f'DECLARE x : ARRAY[{sh}] OF INTEGER\nDECLARE y : ARRAY[<<t>>] OF INTEGER\nOUTPUT "a"\nx <- y\nOUTPUT "b"\n',t=CH(*SH),weight=2)
    T(out,'assignbounds','DECLARE x : ARRAY[<<l>>:<<u>>] OF INTEGER\nDECLARE y : ARRAY[<<k>>:3] OF INTEGER\ny[3] <- 7\nOUTPUT "a"\nx <- y\nOUTPUT x[3]\n',l=I(0,3),u=I(2,5),k=I(0,3),weight=3)
    T(out,'assignbounds2','DECLARE x : ARRAY[<<l>>:2, 1:<<u>>] OF INTEGER\nDECLARE y : ARRAY[1:<<k>>, <<m>>:3] OF INTEGER\ny[1, 2] <- 7\nOUTPUT "a"\nx <- y\nOUTPUT x[1, 2]\n',l=I(0,2),u=I(1,3),k=I(1,3),m=I(0,2),weight=6)
    T(out,'assigncopy2','DECLARE x, y : ARRAY[0:1, 1:3] OF INTEGER\nFOR i <- 0 TO 1\nFOR j <- 1 TO 3\ny[i, j] <- i * 10 + j + <<a>>\nNEXT\nNEXT\nx <- y\ny[<<i>>, <<j>>] <- 1000\nFOR i <- 0 TO 1\nFOR j <- 1 TO 3\nOUTPUT x[i, j], " ", y[i, j]\nNEXT\nNEXT\n',a=I(-99,99),i=I(-1,2),j=I(0,4),weight=2)
    for q,(dims,n) in enumerate([('0:9',1),('-3:11',1),('1:3,1:5',2),('0:4,0:1',2),('1:2,1:3,1:4',3),('1:2,1:2,1:2,0:2',4)]):
        V='ijkl'[:n]; it=', '.join(V); D=[tuple(map(int,d.split(':'))) for d in dims.split(',')]
        lo=''.join(f'FOR {v} <- {a} TO {b}\n' for v,(a,b) in zip(V,D)); en='NEXT\n'*n
        hs=', '.join(f'<<{v}{v}>>' for v in V); sp={v*2:I(a-1,b+1,a) for v,(a,b) in zip(V,D)}
        T(out,f'bigcopy/{q}',f'DECLARE x, y, z : ARRAY[{dims}] OF INTEGER\nc <- 0\n{lo}c <- c + 1\ny[{it}] <- c\n{en}x <- y\ny[{hs}] <- -5\nOUTPUT x[{hs}]\nz <- x\nx <- y\n{lo}OUTPUT x[{it}], " ", z[{it}]\n{en}',weight=2,**sp)
        T(out,f'bigmap/{q}',f'DECLARE x : ARRAY[{dims}] OF STRING\nx[{hs}] <- "q"\nd <- 0\n{lo}IF x[{it}] = "q" THEN\nOUTPUT {', ","  , '.join(V)}\nELSE\nd <- d + LENGTH(x[{it}])\nENDIF\n{en}OUTPUT d\n',weight=2,**sp)
    # records, pointers as elements
    REC='TYPE R\nDECLARE n : INTEGER\nDECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE\n'
    T(out,'recelem',REC+'DECLARE x, y : ARRAY[1:2] OF R\nx[<<i>>].n <- <<a>>\nx[<<j>>].v[<<k>>] <- <<b>>\ny <- x\nx[1].v[1] <- x[1].v[1] + 1\ny[2].n <- 50\nFOR i <- 1 TO 2\nOUTPUT x[i].n, x[i].v[1], x[i].v[2]\nOUTPUT y[i].n, y[i].v[1], y[i].v[2]\nNEXT\nx[1] <- y[2]\ny[2].n <- 60\ny[2].v[2] <- 61\nOUTPUT x[1].n, x[1].v[1], x[1].v[2]\n',i=I(0,3),j=I(0,3),k=I(0,3),a=I(),b=I(),weight=3)
    T(out,'recarr',REC+'DECLARE r, s : R\nDECLARE g : ARRAY[1:2] OF INTEGER\nr.v[1] <- <<a>>\ng <- r.v\nr.v[2] <- 4\ns.v <- g\ng[1] <- 7\nOUTPUT r.v[1], r.v[2], s.v[1], s.v[2], g[1], g[2]\nr.v <- s.v\ns.v[<<i>>] <- 9\nOUTPUT r.v[1], r.v[2], s.v[1], s.v[2]\n',a=I(),i=I(0,3))
    T(out,'ptrelem','TYPE P = ^INTEGER\nDECLARE p : ARRAY[1:3] OF P\nDECLARE x : ARRAY[1:3] OF INTEGER\nFOR i <- 1 TO 3\np[i] <- ^x[4 - i]\nNEXT\np[<<i>>]^ <- <<a>>\nOUTPUT x[1], x[2], x[3]\nx[<<i>>] <- <<b>>\nOUTPUT p[1]^, p[2]^, p[3]^\n',i=I(0,4),a=I(),b=I())
    T(out,'parrcopy','TYPE P = ^INTEGER\nDECLARE p, q : ARRAY[1:2] OF P\nx <- <<a>>\ny <- <<b>>\np[1] <- ^x\nq <- p\np[1] <- ^y\np[2] <- ^y\nOUTPUT p[1]^, q[1]^\nq[1]^ <- 5\nOUTPUT x, y\nOUTPUT q[2]^\n',a=I(),b=I())
    # element as BYREF argument, index evaluated once
    T(out,'byref','PROCEDURE S(BYREF a : INTEGER, BYREF b : INTEGER)\nt <- a\na <- b\nb <- t\nENDPROCEDURE\nDECLARE x : ARRAY[1:3] OF INTEGER\nx[1] <- <<a>>\nx[2] <- <<b>>\nx[3] <- 3\nCALL S(x[<<i>>], x[<<j>>])\nOUTPUT x[1], " ", x[2], " ", x[3]\n',a=I(),b=I(),i=I(0,4),j=I(0,4),weight=2)
    T(out,'once','FUNCTION F(n : INTEGER) RETURNS INTEGER\nc <- c + 1\nRETURN n\nENDFUNCTION\nDECLARE c : INTEGER\nDECLARE x : ARRAY[1:3] OF INTEGER\nx[F(<<i>>)] <- 5\nx[F(<<j>>)] <- x[F(<<i>>)] + 1\nOUTPUT c, x[1], x[2], x[3]\n',i=I(0,4),j=I(0,4))
    T(out,'nestix','DECLARE x : ARRAY[1:4] OF INTEGER\nFOR i <- 1 TO 4\nx[i] <- 5 - i\nNEXT\nx[x[<<i>>]] <- <<j>>\nOUTPUT x[x[x[<<k>>]]]\n',i=I(0,5),j=I(0,5),k=I(0,5),weight=3)
    T(out,'chain','TYPE E2\nDECLARE m : ARRAY[0:1, 0:1] OF INTEGER\nENDTYPE\nTYPE O\nDECLARE e : ARRAY[1:2] OF E2\nENDTYPE\nDECLARE o : ARRAY[5:6] OF O\no[<<i>>].e[<<j>>].m[<<k>>, <<l>>] <- 42\nFOR i <- 5 TO 6\nFOR j <- 1 TO 2\nOUTPUT o[i].e[j].m[0,0], o[i].e[j].m[0,1], o[i].e[j].m[1,0], o[i].e[j].m[1,1]\nNEXT\nNEXT\n',i=I(4,7),j=I(0,3),k=I(-1,2),l=I(-1,2),weight=5)
    # loops, INPUT, READFILE into elements
    T(out,'input','DECLARE x : ARRAY[1:3] OF INTEGER\nINPUT x[<<i>>]\nINPUT x[<<j>>]\nOUTPUT x[1], " ", x[2], " ", x[3]\n',stdin='<<a>>\n<<b>>\n',a=I(),b=I(),i=I(0,4),j=I(0,4))
    T(out,'scope','DECLARE x : ARRAY[1:2] OF INTEGER\nPROCEDURE P(n : INTEGER)\nDECLARE y : ARRAY[1:2] OF INTEGER\ny[1] <- y[1] + n\nx[<<i>>] <- x[<<i>>] + y[1]\nIF n > 0 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT y[1], " ", y[2]\nENDPROCEDURE\nCALL P(<<n>>)\nOUTPUT x[1], x[2]\n',i=I(0,3),n=I(0,3))
    # symbolic histories over two arrays
    OPS='x[i] <- v\n','y[i] <- v\n','x <- y\n','y <- x\n','CALL W(x[i], v)\n','p <- ^y[i]\n','p^ <- v\n','x[y[i]] <- v\n','x[i] <- x[y[i]] + 1\n','CALL S(x[i], y[j])\n'
    disp='WHILE TRUE\nINPUT o\nINPUT i\nINPUT j\nv <- v + 10\nCASE OF o\n'+''.join(f'{k}: {s}' for k,s in enumerate(OPS))+'OTHERWISE: BREAK\nENDCASE\nENDWHILE\nOUTPUT x[1], " ", x[2], " ", x[3], " ", y[1], " ", y[2], " ", y[3]\n'
    head='TYPE PI = ^INTEGER\nPROCEDURE W(BYREF z : INTEGER, w : INTEGER)\nz <- w\nENDPROCEDURE\nPROCEDURE S(BYREF a : INTEGER, BYREF b : INTEGER)\nt <- a\na <- b\nb <- t\nENDPROCEDURE\nDECLARE o, i, j, v : INTEGER\nDECLARE x, y : ARRAY[1:3] OF INTEGER\nDECLARE p : PI\nv <- 90\nFOR k <- 1 TO 3\nx[k] <- k\ny[k] <- 4 - k\nNEXT\np <- ^x[2]\n'
    for a in range(10):
        n=2 if not deep else 3
        hh={'a':I(1,3)}
        s=f'{a}\n<<a>>\n2\n'
        for q in range(n): 
            hh[f'o{q}']=I(0,9); hh[f'i{q}']=I(0,3) if q==n-1 else I(2,3); s+=f'<<o{q}>>\n<<i{q}>>\n{q+1}\n'
        T(out,f'hist/{a}',head+disp,stdin=s+'99\n0\n0\n',weight=8,**hh)
    return out
