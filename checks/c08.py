"""C08: constants."""
from .common import *
BOUNDS='constants of every literal type; every statement form that could change one (assignment, FOR, INPUT, READFILE, GETRECORD, BYREF direct/nested/conditional, pointer taken before/after/copied, array/record element of same name), at global, procedure and function scope; operation histories of 3 symbolic choices of 12; values symbolic (64-bit INTEGER, REAL, bytes); FOR with ascending, descending, repeated and single-step bounds over a constant as loop variable'
QUICK=30
LIT={'I':('<<a>>','INTEGER',I()),'R':('<<a>>','REAL',R()),'B':('<<a>>','BOOLEAN',B),'C':("'<<a>>'",'CHAR',BY(1)),'S':('"<<a>>"','STRING',BY(2))}
OTHER={'I':'5','R':'2.5','B':'TRUE','C':"'z'",'S':'"zz"'}
def templates(tier):
    out=[]
    pre='PROCEDURE W(BYREF x : %s)\nx <- %s\nENDPROCEDURE\nPROCEDURE V(BYVAL x : %s)\nx <- %s\nOUTPUT x\nENDPROCEDURE\nPROCEDURE W2(BYREF x : %s)\nCALL W(x)\nENDPROCEDURE\nPROCEDURE WI(BYREF x : %s)\nINPUT x\nENDPROCEDURE\n'
    for k,(lit,ty,sp) in LIT.items():
        o=OTHER[k]
        P=pre%(ty,o,ty,o,ty,ty)+f'TYPE PT = ^{ty}\nDECLARE p : PT\nDECLARE q : PT\nDECLARE v : {ty}\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", "line"\nCLOSEFILE "f"\nOPENFILE "r" FOR RANDOM\nv <- {o}\nPUTRECORD "r", v\nSEEK "r", 1\nOPENFILE "f" FOR READ\nCONSTANT c = {lit}\nOUTPUT c\n'
        ops={'assign':f'c <- {o}','self':'c <- c','assignexpr':f'c <- v','for':'FOR c <- 1 TO 3\nOUTPUT "b"\nNEXT','forstep':'FOR c <- 1 TO 9 STEP 4\nOUTPUT "b"\nNEXT','fordown':'FOR c <- 3 TO 1 STEP -1\nOUTPUT "b"\nNEXT','forsame':f'FOR c <- {lit} TO {lit}\nOUTPUT "b"\nNEXT' if k in 'I' else 'FOR c <- 2 TO 2 STEP 1\nNEXT','input':'INPUT c','readfile':'READFILE "f", c','getrecord':'GETRECORD "r", c','byref':'CALL W(c)','byval':'CALL V(c)','byref2':'CALL W2(c)','byrefinput':'CALL WI(c)','ptr':f'p <- ^c\np^ <- {o}','ptrcopy':f'p <- ^c\nq <- p\nq^ <- {o}','ptrinput':'p <- ^c\nINPUT p^','ptrbyref':'p <- ^c\nCALL W(p^)','redecl':f'DECLARE c : {ty}','reconst':f'CONSTANT c = {o}','readok':'v <- c\nOUTPUT v & "!"','array':f'DECLARE c : ARRAY[1:2] OF {ty}'}
        for n,s in ops.items():
            T(out,f'{k}/{n}',P+s+'\nOUTPUT c\nOUTPUT "end"\n',stdin=('5' if k in'I' else '2.5' if k=='R' else 'TRUE' if k=='B' else 'z')+'\n',a=sp)
        # the same attempts inside procedures, functions, loops, and on constants of a procedure
        head,const=P.split('CONSTANT c = ')[0],f'CONSTANT c = {lit}\nOUTPUT c\n'
        std=('5' if k in'I' else '2.5' if k=='R' else 'TRUE' if k=='B' else 'z')+'\n'
        for n,st in ops.items():
            if n in('redecl','reconst','array') and k not in'I' or k=='R' and n=='readok': continue
            T(out,f'in/proc/{k}/{n}',head+const+f'PROCEDURE TT(k : INTEGER)\nOUTPUT "in"\n{st}\nOUTPUT c\nENDPROCEDURE\nCALL TT(1)\nOUTPUT c\nCALL TT(2)\nOUTPUT c\n',stdin=std*2,a=sp,prio=1)
            T(out,f'in/func/{k}/{n}',head+const+f'FUNCTION TF(k : INTEGER) RETURNS INTEGER\nIF k > 1 THEN\nFOR j <- 1 TO 2\n{st}\nOUTPUT c\nNEXT\nENDIF\nRETURN k\nENDFUNCTION\nOUTPUT TF(1)\nOUTPUT c\nOUTPUT TF(2)\nOUTPUT c\n',stdin=std*2,a=sp,prio=1)
            T(out,f'in/local/{k}/{n}',head+f'PROCEDURE TL(k : INTEGER)\n{const}IF k > 1 THEN\n{st}\nENDIF\nOUTPUT c\nENDPROCEDURE\nCALL TL(1)\nCALL TL(2)\nOUTPUT "end"\n',stdin=std*2,a=sp,prio=1)
            T(out,f'in/loop/{k}/{n}',head+const+f'FOR j <- 1 TO 3\nCASE OF j\n1 : OUTPUT c\n2 : {st}\nOTHERWISE : OUTPUT "o"\nENDCASE\nOUTPUT c\nNEXT\n',stdin=std*2,a=sp,prio=1)
            T(out,f'in/under/{k}/{n}',head+const+f'PROCEDURE A3\nWHILE TRUE\n{st}\nOUTPUT c\nBREAK\nENDWHILE\nENDPROCEDURE\nPROCEDURE A2(c : INTEGER)\nCALL A3()\nOUTPUT c\nENDPROCEDURE\nCALL A2(77)\nOUTPUT c\n',stdin=std*2,a=sp,prio=1)
    # the REPL keeps a session alive after each refused attempt
    for k,(lit,ty,sp) in LIT.items():
        o=OTHER[k]
        def two(*xs): return '\n'.join(xs)+'\n'
        T(out,f'repl/{k}',two(f'CONSTANT c = {lit}','c',f'TYPE PT = ^{ty}','DECLARE p : PT',f'PROCEDURE W(BYREF x : {ty})',f'x <- {o}','ENDPROCEDURE','',f'c <- {o}','c','CALL W(c)','c','p <- ^c',f'p^ <- {o}','c',f'CONSTANT c = {o}','c',f'DECLARE c : {ty}','c','OPENFILE "r" FOR RANDOM',f'v <- {o}','PUTRECORD "r", v','GETRECORD "r", c','c','c','EXIT'),repl=True,a=sp)
    T(out,'repl/for','CONSTANT c = <<a>>\nFOR c <- 1 TO 2\nOUTPUT "x"\nNEXT\n\nc\nFOR i <- 1 TO 3\nIF i = 2 THEN\nc <- i\nENDIF\nNEXT\n\nc\ni\nEXIT\n',repl=True,a=I())
    # histories
    ops=['OUTPUT c','c <- v','CALL W(c)','CALL W(v)','p <- ^c','p <- ^v','q <- p','p^ <- 9','q^ <- v + 1','INPUT c','FOR c <- 1 TO 2\nNEXT','CALL S()','v <- c','OUTPUT F(c)']
    n=3
    case=''.join(f'{i} : {o}\n' for i,o in enumerate(ops))
    for f in range(len(ops)):
        T(out,'history/%d'%f,'PROCEDURE W(BYREF x : INTEGER)\nx <- x + 100\nENDPROCEDURE\nFUNCTION F(BYREF x : INTEGER) RETURNS INTEGER\nx <- 7\nRETURN x\nENDFUNCTION\nTYPE PI = ^INTEGER\nDECLARE p, q : PI\nDECLARE v : INTEGER\nDECLARE op : INTEGER\nCONSTANT c = <<a>>\nPROCEDURE S\nDECLARE c : INTEGER\nc <- 3\nOUTPUT c\nENDPROCEDURE\nv <- 1\nFOR z <- 1 TO %d\nINPUT op\nCASE OF op\n%sENDCASE\nOUTPUT c, " ", v\nNEXT\n'%(n,case),stdin='%d\n<<y>>\n<<w>>\n'%f,weight=3,a=I(),y=I(0,len(ops)-1),w=I(0,len(ops)-1))
    # scopes
    T(out,'scope/local','CONSTANT c = <<a>>\nPROCEDURE P\nCONSTANT c = 7\nOUTPUT c\nc <- 8\nENDPROCEDURE\nOUTPUT c\nCALL P()\nOUTPUT c\n',a=I())
    T(out,'scope/localvar','CONSTANT c = <<a>>\nPROCEDURE P(k : INTEGER)\nOUTPUT c\nDECLARE c : INTEGER\nc <- k\nOUTPUT c\nc <- c + 1\nOUTPUT c\nENDPROCEDURE\nCALL P(4)\nOUTPUT c\nCALL P(5)\nOUTPUT c\n',a=I())
    T(out,'scope/param','CONSTANT c = <<a>>\nPROCEDURE P(c : INTEGER)\nc <- c + 1\nOUTPUT c\nENDPROCEDURE\nCALL P(c)\nOUTPUT c\nPROCEDURE Q(BYREF c : INTEGER)\nc <- 3\nENDPROCEDURE\nDECLARE v : INTEGER\nCALL Q(v)\nOUTPUT v, c\nCALL Q(c)\nOUTPUT c\n',a=I())
    T(out,'scope/globalinproc','CONSTANT c = <<a>>\nPROCEDURE P(k : INTEGER)\nIF k > 2 THEN\nc <- k\nENDIF\nOUTPUT c\nENDPROCEDURE\nCALL P(<<b>>)\nOUTPUT c\n',a=I(),b=I(0,4))
    T(out,'ret/const','CONSTANT c = <<a>>\nFUNCTION F RETURNS INTEGER\nRETURN c\nENDFUNCTION\nv <- F()\nv <- v + 1\nOUTPUT v, " ", c, " ", F()\n',a=I())
    T(out,'value/neg','CONSTANT c = -5\nOUTPUT c\nCONSTANT d = -2.5\nOUTPUT d\nOUTPUT c * d\nc <- <<a>>\n',a=I())
    # copies of records/arrays/enumerations as constants
    T(out,'elem/array','DECLARE a : ARRAY[1:3] OF INTEGER\nCONSTANT c = <<x>>\na[c] <- 5\nOUTPUT a[c], c\na[1] <- c\na[1] <- a[1] + 1\nOUTPUT c\nCALL W(a[c])\nPROCEDURE W(BYREF x : INTEGER)\nx <- 0\nENDPROCEDURE\nOUTPUT c\n',x=I(0,4))
    T(out,'elem/bounds','CONSTANT lo = <<x>>\nCONSTANT hi = 3\nDECLARE a : ARRAY[lo:hi] OF INTEGER\nFOR i <- lo TO hi\na[i] <- i\nNEXT\nOUTPUT a[hi], lo, hi\nFOR lo <- 1 TO 3\nNEXT\nOUTPUT lo\n',x=I(-1,4))
    T(out,'scope/recursive','PROCEDURE P(k : INTEGER)\nCONSTANT c = <<a>>\nOUTPUT c\nIF k > 1 THEN\nCALL P(k - 1)\nENDIF\nOUTPUT c\nIF k = <<b>> THEN\nc <- 1\nENDIF\nENDPROCEDURE\nCALL P(3)\nOUTPUT "end"\n',a=I(),b=I(-1,4))
    T(out,'value/minus','CONSTANT k <- -<<a>>\nCONSTANT m = -<<b>>\nOUTPUT k, " ", m\nv <- k\nv <- v + 1\nOUTPUT k, " ", v\nm <- 2.5\nOUTPUT m\n',a=I(0),b=R(0))
    T(out,'value/loop','FOR i <- 1 TO 2\nOUTPUT i\nCONSTANT k = <<a>>\nOUTPUT k\nNEXT\n',a=I())
    # assignment inside an expression
    T(out,'expr/assign','CONSTANT c = <<a>>\nv <- 2\nOUTPUT c\nx <- c\nIF <<b>> THEN\nOUTPUT (c <- 5)\nENDIF\nOUTPUT c\n',a=I(),b=B)
    return out
