"""C05: type preservation of stores."""
from .common import *
BOUNDS='every (target type x source type) pair of INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE, two enumerated types, two pointer types, two record types and arrays, for each kind of store (assignment to variable / implicit variable / array element / record field / through a pointer, BYVAL and BYREF parameter, RETURN, INPUT) with symbolic values (64-bit INTEGER, REAL, strings of up to 4 symbolic bytes, typed lines of up to 5 symbolic bytes); target value printed after the attempt in a REPL session; function parameters like procedure parameters'
QUICK=50
PRE='''TYPE E1 = (A, B, C)
TYPE E2 = (X, Y, Z, W)
TYPE PI = ^INTEGER
TYPE PR = ^REAL
TYPE R1
DECLARE a : INTEGER
ENDTYPE
TYPE R2
DECLARE a : INTEGER
DECLARE b : REAL
ENDTYPE
DECLARE vi : INTEGER
DECLARE vr : REAL
DECLARE vb : BOOLEAN
DECLARE vc : CHAR
DECLARE vs : STRING
DECLARE vd : DATE
DECLARE e1 : E1
DECLARE e2 : E2
DECLARE p1 : PI
DECLARE p2 : PR
DECLARE r1 : R1
DECLARE r2 : R2
DECLARE ai : ARRAY[1:2] OF INTEGER
DECLARE as : ARRAY[1:2] OF STRING
DECLARE ai3 : ARRAY[1:3] OF INTEGER
vi <- 11
vr <- 2.5
vb <- TRUE
vc <- 'c'
vs <- "str"
vd <- 4/5/2020
e1 <- B
e2 <- Y
r1.a <- 5
r2.a <- 6
p1 <- ^vi
p2 <- ^vr
ai[1] <- 1
as[1] <- "el"
ai3[3] <- 3
'''
SHOW='OUTPUT vi, "|", vr, "|", vb, "|", vc, "|", vs, "|", vd, "|", e1, "|", e2, "|", p1^, "|", p2^, "|", r1.a, "|", r2.a, "|", ai[1], "|", as[1], "|", ai3[3]\n'
TGT=['vi','vr','vb','vc','vs','vd','e1','e2','p1','p2','r1','r2','ai','as','ai3']
SRC=['7','2.0','2.5','TRUE','\'x\'','"y"','"yz"','""','1/2/2021','vi','vr','vb','vc','vs','vd','e1','e2','C','Z','p1','p2','r1','r2','ai','as','ai3','ai[1]','as[1]','r1.a','r2.b','vi + 1','vi / 2','vs & "q"','vi > 3','LEFT(vs, 1)','NOT vb','e1 + 1','-vr','INTEGER(vr)','STRING(vi)','ASC(vc)','p1^','p2^']
def ch(xs): return CH(*xs)
def templates(tier):
    out=[]
    # every pair, forked over the source by a symbolic choice (concrete target)
    for t in TGT:
        T(out,f'assign/{t}',PRE+f'{t} <- <<s>>\n'+SHOW,weight=3,s=ch(SRC))
        if t in TGT[:12]:
            ty={'vi':'INTEGER','vr':'REAL','vb':'BOOLEAN','vc':'CHAR','vs':'STRING','vd':'DATE','e1':'E1','e2':'E2','p1':'PI','p2':'PR','r1':'R1','r2':'R2'}[t]
            T(out,f'byval/{t}',PRE+f'PROCEDURE P(x : {ty})\nOUTPUT "in"\n{t} <- x\nENDPROCEDURE\nCALL P(<<s>>)\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'byref/{t}',PRE+f'PROCEDURE P(BYREF x : {ty})\nOUTPUT "in"\nx <- {t}\nENDPROCEDURE\nCALL P(<<s>>)\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'fbyval/{t}',PRE+f'FUNCTION F(k : INTEGER, x : {ty}) RETURNS INTEGER\nOUTPUT "in"\n{t} <- x\nRETURN k\nENDFUNCTION\nOUTPUT F(3, <<s>>)\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'fbyref/{t}',PRE+f'FUNCTION F(k : INTEGER, BYREF x : {ty}) RETURNS INTEGER\nOUTPUT "in"\nx <- {t}\nRETURN k\nENDFUNCTION\nOUTPUT F(3, <<s>>)\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'ret/{t}',PRE+f'FUNCTION F RETURNS {ty}\nOUTPUT "in"\nRETURN <<s>>\nENDFUNCTION\n{t} <- F()\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'elem/{t}',PRE+f'DECLARE z : ARRAY[1:2] OF {ty}\nz[1] <- {t}\nz[2] <- <<s>>\n{t} <- z[1]\n'+SHOW+f'{t} <- z[2]\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'field/{t}',PRE+f'TYPE RX\nDECLARE z : {ty}\nENDTYPE\nDECLARE rx : RX\nrx.z <- {t}\nrx.z <- <<s>>\n{t} <- rx.z\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'implicit/{t}',PRE+f'n <- {t}\nn <- <<s>>\n{t} <- n\n'+SHOW,weight=3,s=ch(SRC))
            T(out,f'inputto/{t}',PRE+f'INPUT {t}\n'+SHOW,stdin='<<l>>\nrest\n',l=BY(1,b'0123456789TR.-x'))
            if ty in('INTEGER','REAL','BOOLEAN','CHAR','STRING'):
                T(out,f'ptr/{t}',PRE+f'TYPE PX = ^{ty}\nDECLARE px : PX\npx <- ^{t}\npx^ <- <<s>>\n'+SHOW,weight=3,s=ch(SRC))
    # after a refused store the REPL shows the old value
    T(out,'repl/assign',PRE.replace('ENDTYPE\n','ENDTYPE\n\n')+'<<t>> <- <<s>>\n'+SHOW+'<<t>> <- <<s>>\n'+SHOW+'EXIT\n',repl=True,weight=10,t=ch(TGT),s=ch(SRC)) if tier!='quick' else None
    for t in TGT:
        src=SRC if tier!='quick' else ['7','2.5','TRUE','\'x\'','"y"','"yz"','1/2/2021','C','Z','p1','p2','r1','r2','ai','ai3','vi / 2']
        T(out,f'repl/{t}',PRE.replace('ENDTYPE\n','ENDTYPE\n\n')+f'{t} <- <<s>>\n'+SHOW+'EXIT\n',repl=True,weight=3,s=ch(src))
    # every store channel in one session: after each refused store the REPL shows the old values
    rp=PRE.replace('ENDTYPE\n','ENDTYPE\n\n'); TY={'vi':'INTEGER','vr':'REAL','vb':'BOOLEAN','vc':'CHAR','vs':'STRING','vd':'DATE','e1':'E1','e2':'E2','p1':'PI','p2':'PR','r1':'R1','r2':'R2'}
    for t,ty in TY.items():
        src=SRC if tier!='quick' else ['7','2.5','TRUE',"'x'",'"y"','"yz"','1/2/2021','C','Z','p1','p2','r1','r2','ai','vi / 2','vs']
        defs=f'PROCEDURE PV(x : {ty})\n{t} <- x\nENDPROCEDURE\n\nPROCEDURE PB(BYREF x : {ty})\nx <- {t}\nx <- <<s>>\nENDPROCEDURE\n\nFUNCTION F(k : INTEGER) RETURNS {ty}\nIF k = 0 THEN\nRETURN {t}\nENDIF\nRETURN <<s>>\nENDFUNCTION\n\nTYPE RX\nDECLARE z : {ty}\nDECLARE w : ARRAY[1:2] OF {ty}\nENDTYPE\n\nDECLARE rx, ry : RX\nDECLARE z : ARRAY[1:2] OF {ty}\nrx.z <- {t}\nrx.w[2] <- {t}\nz[1] <- {t}\nz[2] <- {t}\n'
        acts=['CALL PV(<<s>>)',f'CALL PB({t})',f'{t} <- F(1)','z[1] <- <<s>>','rx.z <- <<s>>','rx.w[2] <- <<s>>','CALL PB(z[2])','CALL PB(rx.w[2])','z <- <<s>>','rx <- <<s>>','rx.w <- <<s>>',f'IF TRUE THEN\n{t} <- <<s>>\n{t} <- z[1]\nENDIF\n']
        T(out,f'session/{t}',rp+defs+''.join(a+'\n'+SHOW+f'{t} <- z[1]\n{t} <- rx.z\n'+SHOW+f'{t} <- rx.w[2]\n{t} <- z[2]\n'+SHOW for a in acts),repl=True,weight=3,s=ch(src))
        T(out,f'sessinput/{t}',rp+f'INPUT {t}\n{{}}\n'.format('5' if ty in('INTEGER','REAL') else 'TRUE' if ty=='BOOLEAN' else '<<b>>' if ty in('CHAR','STRING') else '')+SHOW+'CONSTANT k = 4\nINPUT k\n\nOUTPUT k\nINPUT ai\n\n'+SHOW+'INPUT ai[1]\n8\nINPUT as[1]\nTRUE\nINPUT r1.a\n9\nINPUT r1\n\nINPUT p1^\n77\nINPUT ai[9]\n\n'+SHOW,repl=True,**(dict(b=BY(1)) if ty in('CHAR','STRING') else {}))
    for k,z in enumerate(('0'*19,'0'*22,'0000000000.5','345678901234567890123.25','9999999999999999')):
        T(out,f'input/bigreal{k}','DECLARE x, y : REAL\nINPUT x\nINPUT y\nOUTPUT x > y, " ", x > 1.5, " ", x / 2 > 4.5\ny <- x * 2\nOUTPUT y / 2 = x\nOUTPUT x\n',stdin=f'<<b>>{z}\n<<c>>{z}\n',b=BY(1,b'123456789'),c=BY(1,b'123456789'))
    # exactness of the three conversions
    T(out,'int2real','DECLARE x : REAL\nx <- <<a>>\nOUTPUT x\nOUTPUT x = <<b>>, x < <<b>>\ny <- <<a>>\nx <- y\nOUTPUT x * 2\n',a=I(),b=I())
    T(out,'int2real2','DECLARE x : REAL\nx <- <<a>>\nOUTPUT INT(x)\nOUTPUT x = <<a>>\n',a=I(-2**52,2**52))
    T(out,'real2int','DECLARE x : INTEGER\nx <- <<a>>\nOUTPUT x\nx <- <<r>>\nOUTPUT x\n',a=I(),r=R())
    T(out,'str2char','DECLARE x : CHAR\nx <- "<<a>>"\nOUTPUT x\nx <- "<<b>>"\nOUTPUT x\nOUTPUT "e"\n',a=BY(1),b=BY(2))
    T(out,'char2str','DECLARE x : STRING\nx <- \'<<a>>\'\nOUTPUT x, LENGTH(x)\nx <- x & \'<<b>>\'\nOUTPUT x, LENGTH(x)\n',a=BY(1),b=BY(1))
    T(out,'dyn/strlen','DECLARE c : CHAR\nc <- \'k\'\ns <- "<<a>>"\ns <- LEFT(s, <<n>>)\nOUTPUT s\nc <- s\nOUTPUT c\n',a=BY(3),n=I(0,3))
    T(out,'dyn/int','x <- <<a>>\nIF x > 10 THEN\nx <- 2.5\nENDIF\nIF x < -10 THEN\nx <- "s"\nENDIF\nx <- x + 1\nOUTPUT x\n',a=I())
    T(out,'dyn/real','x <- <<r>>\nx <- <<a>>\nOUTPUT x\nx <- x / 4\nOUTPUT x\n',a=I(-2**50,2**50),r=R())
    T(out,'dyn/first','IF <<b>> THEN\nx <- 5\nELSE\nx <- 5.5\nENDIF\nx <- 7\nOUTPUT x\nx <- 7.5\nOUTPUT x\n',b=B)
    T(out,'dyn/firstchar','IF <<b>> THEN\nx <- \'a\'\nELSE\nx <- "a"\nENDIF\nOUTPUT x\nx <- "<<c>>"\nOUTPUT x\nx <- "<<c>>!"\nOUTPUT x\n',b=B,c=BY(1))
    T(out,'dyn/for','DECLARE x : <<t>>\nFOR x <- 1 TO 2\nOUTPUT x\nNEXT\nOUTPUT x\n',t=CH('INTEGER','REAL   ','STRING ','CHAR   ','BOOLEAN'))
    T(out,'dyn/forbounds','FOR x <- <<a>> TO <<b>> STEP <<c>>\nOUTPUT x\nNEXT\nOUTPUT x\n',a=CH('1  ','1.0',"'a'",'"1"'),b=CH('2  ','2.5','"2"'),c=CH('1  ','0.5','TRUE'))
    # INPUT conversion of the typed line
    num=b'0123456789'
    T(out,'input/int','DECLARE x : INTEGER\nx <- 5\nINPUT x\nOUTPUT x\nx <- x + 1\nOUTPUT x\n',stdin='<<a>>\n',a=I())
    T(out,'input/digits','DECLARE x : INTEGER\nINPUT x\nOUTPUT x\n',stdin='<<a>>\n',a=BY(4,num,'1'))
    T(out,'input/text','DECLARE x : INTEGER\nx <- 5\nINPUT x\nOUTPUT x\n',stdin='<<a>>\n',a=BY(3,b'019 -.xaZ'),weight=3)
    T(out,'input/rtext','DECLARE y : REAL\ny <- 5\nINPUT y\nOUTPUT y\n',stdin='<<b>>\n',b=BY(3 if tier!='quick' else 2,b'019 -.xaZ'),weight=3)
    T(out,'input/real','DECLARE y : REAL\nINPUT y\nOUTPUT y\nOUTPUT y * 2\n',stdin='<<b>>\n',b=R())
    T(out,'input/realdig','DECLARE y : REAL\nINPUT y\nOUTPUT y\n',stdin='<<a>>.<<b>>\n',a=BY(1,num,'1'),b=BY(1,b'0257','5'))
    T(out,'input/realint','DECLARE y : REAL\nINPUT y\nOUTPUT y\n',stdin='<<a>>\n',a=I())
    T(out,'input/bool','DECLARE x : BOOLEAN\nINPUT x\nOUTPUT x\n',stdin='<<a>>\n',a=BY(4,b'TRUEtruFALSx'),weight=2)
    T(out,'input/boolb','DECLARE x : BOOLEAN\nx <- TRUE\nINPUT x\nOUTPUT x\n',stdin='<<a>>\n',a=CH('TRUE ','FALSE','true ',' TRUE','1    ','TRUEE'))
    T(out,'input/bool2','DECLARE x : BOOLEAN\nx <- <<b>>\nINPUT x\nOUTPUT x\n',stdin='<<c>>RUE\n',b=B,c=B1())
    T(out,'input/char','DECLARE x : CHAR\nINPUT x\nOUTPUT x\nOUTPUT ASC(x)\n',stdin='<<a>>\n',a=BY(1,bytes(c for c in range(1,256) if c!=10)))
    T(out,'input/string','DECLARE x : STRING\nx <- "old"\nINPUT x\nOUTPUT x, LENGTH(x)\nINPUT x\nOUTPUT x, LENGTH(x)\n',stdin='<<a>>\n<<b>>\n',a=BY(3,bytes(range(1,256))),b=BY(1),weight=2)
    T(out,'input/undeclared','INPUT x\nOUTPUT x\nx <- x & "!"\nOUTPUT x\nx <- 5\nOUTPUT x\n',stdin='<<a>>\n',a=BY(3))
    T(out,'input/undeclnum','INPUT x\nOUTPUT x & "1"\nOUTPUT x + 1\n',stdin='<<a>>\n',a=I())
    T(out,'input/targets','TYPE R\nDECLARE f : INTEGER\nDECLARE s : ARRAY[1:2] OF STRING\nENDTYPE\nTYPE PI = ^INTEGER\nDECLARE r : R\nDECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE p : PI\np <- ^a[3]\nINPUT r.f\nINPUT r.s[2]\nINPUT a[<<i>>]\nINPUT p^\nOUTPUT r.f, "|", r.s[1], "|", r.s[2], "|", a[1], "|", a[2], "|", a[3]\n',stdin='<<a>>\n<<b>>\n<<c>>\n44\n',a=I(),b=BY(2),c=I(),i=I(0,3))
    T(out,'input/array','DECLARE a : ARRAY[1:3] OF INTEGER\na[1] <- 7\nOUTPUT a[1]\nINPUT a\nOUTPUT a[1]\n',stdin='<<a>>\n',a=I())
    T(out,'input/eof','DECLARE x : INTEGER\nDECLARE s : STRING\nx <- 4\ns <- "q"\nINPUT x\nOUTPUT x\nINPUT s\nOUTPUT s\nINPUT x\nOUTPUT x\n',stdin='<<a>>\n',a=I())
    T(out,'input/nonl','DECLARE x : INTEGER\nDECLARE s : STRING\nINPUT s\nINPUT x\nOUTPUT x, s\n',stdin='<<b>>\n<<a>>',a=I(),b=BY(1))
    # declared names keep their type in every scope
    T(out,'scope/param','PROCEDURE P(x : INTEGER)\nx <- <<s>>\nOUTPUT x\nENDPROCEDURE\nv <- 2.5\nc <- \'q\'\nCALL P(4)\n',s=CH('7','v','c','"a"','TRUE','2.0'))
    T(out,'scope/global','DECLARE g : INTEGER\nPROCEDURE P\ng <- <<s>>\nOUTPUT g\nENDPROCEDURE\nv <- 2.5\nc <- \'q\'\nCALL P()\nOUTPUT g\n',s=CH('7','v','c','"a"','TRUE','2.0'))
    T(out,'scope/redeclare','DECLARE g : INTEGER\ng <- <<a>>\nOUTPUT g\nIF g > 3 THEN\nDECLARE g : STRING\nENDIF\ng <- 4\nOUTPUT g\n',a=I())
    T(out,'scope/multi','DECLARE a, b, c : <<t>>\na <- 5\nb <- 6\nc <- <<s>>\nOUTPUT a, b, c\n',t=CH('INTEGER','REAL   ','STRING '),s=CH('7','2.5','"a"'))
    T(out,'types/undef','OUTPUT "a"\nDECLARE x : <<t>>\nOUTPUT "b"\n',t=CH('INT  ','Foo  ','STRNG'))
    T(out,'types/local','TYPE E = (A, B, C)\nDECLARE g : E\nPROCEDURE P(k : INTEGER)\nTYPE E = (X, Y, Z, W)\nDECLARE l : E\nl <- W\nIF k > 0 THEN\ng <- l\nENDIF\nIF k < 0 THEN\nl <- g\nENDIF\nOUTPUT l, g\nENDPROCEDURE\nCALL P(<<a>>)\nOUTPUT g\n',a=I(-2,2))
    T(out,'types/localrec','TYPE E\nDECLARE x : INTEGER\nENDTYPE\nDECLARE g : E\ng.x <- 9\nPROCEDURE P(k : INTEGER)\nTYPE E\nDECLARE x : STRING\nDECLARE y : STRING\nENDTYPE\nDECLARE l : E\nl.x <- "a"\nl.y <- "b"\nIF k > 0 THEN\ng <- l\nENDIF\nIF k < 0 THEN\nl <- g\nENDIF\nOUTPUT l.x, l.y, g.x\nENDPROCEDURE\nCALL P(<<a>>)\nOUTPUT g.x\n',a=I(-2,2))
    T(out,'types/localptr','TYPE E = ^INTEGER\nDECLARE g : E\nv <- 3\nw <- "st"\ng <- ^v\nPROCEDURE P(k : INTEGER)\nTYPE E = ^STRING\nDECLARE l : E\nl <- ^w\nIF k > 0 THEN\ng <- l\nENDIF\nIF k < 0 THEN\nl <- g\nENDIF\nOUTPUT l^, g^\nENDPROCEDURE\nCALL P(<<a>>)\nOUTPUT g^\n',a=I(-2,2))
    T(out,'none/assign','y <- 1\nx <- (y <- <<a>>)\nOUTPUT y\n',a=I())
    T(out,'file/getrec','DECLARE i : INTEGER\nDECLARE r : REAL\nDECLARE s : STRING\nDECLARE c : CHAR\ni <- <<a>>\nr <- 2.5\ns <- "z"\nc <- \'c\'\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", <<u>>\nSEEK "f", 1\nOUTPUT "x"\nGETRECORD "f", <<w>>\nOUTPUT i, r, s, c\n',weight=2,a=I(),u=CH('i','r','s','c'),w=CH('i','r','s','c'))
    T(out,'file/readfile','DECLARE i : INTEGER\nDECLARE c : CHAR\nDECLARE s : STRING\nc <- \'c\'\nOPENFILE "f" FOR READ\nREADFILE "f", <<w>>\nOUTPUT i, s, c\n',files={'f':'<<a>>\n7\n'},a=BY(1),w=CH('i','s','c'))
    return [t for t in out if t is not None]
def B1(): return BY(1,b'TtFx')
