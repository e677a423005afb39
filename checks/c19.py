"""C19: enumerated values."""
from .common import *
BOUNDS='enumerations of 1 to 7 names; every pair of position and 64-bit offset symbolic (adding, subtracting, INTEGER on the left); two and three enumerated types side by side, also with equal names of types in different scopes; every storing construct (assignment, BYVAL, BYREF, RETURN, array element, field, pointer target, GETRECORD, implicit declaration); histories of 3 symbolic operations.'
OPTS=dict(asan='some')
QUICK=35
def names(n,p='N'): return [f'{p}{i}' for i in range(1,n+1)]
def templates(tier):
    out=[]; deep=tier!='quick'
    for n in range(1,8):
        ns=names(n); ty=f'TYPE E = ({", ".join(ns)})\nDECLARE e, f : E\n'; ch=CH(*ns)
        T(out,f'order/{n}',ty+'OUTPUT e\n'+''.join(f'OUTPUT {x}\ne <- {x}\nOUTPUT e\nOUTPUT e = {ns[0]}, e <> {ns[-1]}\n' for x in ns))
        T(out,f'add/{n}',ty+'e <- <<x>>\nOUTPUT e + <<k>>\nf <- e + <<k>>\nOUTPUT f\nOUTPUT e\n',x=ch,k=I())
        T(out,f'sub/{n}',ty+'e <- <<x>>\nk <- <<k>>\nOUTPUT e - k\nf <- e - k\nOUTPUT f, f = e\n',x=ch,k=I())
        T(out,f'radd/{n}',ty+'e <- <<x>>\nk <- <<k>>\nOUTPUT k + e\nf <- k + e\nOUTPUT f\n',x=ch,k=I())
        T(out,f'addlit/{n}',ty+'e <- <<x>>\nOUTPUT <<x>> + <<k>>, <<x>> - <<k>>\nOUTPUT (e + <<k>>) - <<k>>\nOUTPUT (e - <<k>>) + <<k>> = e\n',x=ch,k=I(0,2**40))
        T(out,f'two/{n}',ty+'e <- <<x>>\ne <- e + <<j>>\nOUTPUT e\ne <- e - <<k>>\nOUTPUT e\ne <- e + <<j>> + 1\nOUTPUT e\n',x=ch,j=I(-50,50),k=I(-50,50),weight=2)
        T(out,f'cmp/{n}',ty+'e <- <<x>>\nf <- <<y>>\nOUTPUT e = f, e <> f, e = <<y>>, <<x>> <> f, <<x>> = <<y>>\n',x=ch,y=CH(*ns))
        if n>1: T(out,f'loop/{n}',ty+'e <- <<x>>\nFOR i <- 1 TO <<k>>\ne <- e + 1\nf <- f - 1\nOUTPUT e, " ", f\nNEXT\n',x=ch,k=I(-1,9))
    two='TYPE E = (A, B, C)\nTYPE F = (X, Y, Z)\nTYPE G = (P, Q)\nDECLARE e : E\nDECLARE f : F\nDECLARE g : G\ne <- <<x>>\nf <- Y\ng <- Q\n'
    SRC=['A','C','X','Z','P','Q','e','f','g','e + 1','f - 1','1','"A"',"'A'",'TRUE','ae[1]','af[1]','re.v','pf^','FE(A)','FF(X)']
    DCL='DECLARE ae : ARRAY[1:2] OF E\nDECLARE af : ARRAY[1:2] OF F\nTYPE RE\nDECLARE v : E\nENDTYPE\nTYPE RF\nDECLARE v : F\nENDTYPE\nDECLARE re : RE\nDECLARE rf : RF\nTYPE PE = ^E\nTYPE PF = ^F\nDECLARE pe : PE\nDECLARE pf : PF\npe <- ^ae[2]\npf <- ^af[2]\nFUNCTION FE(a : E) RETURNS E\nRETURN a + 1\nENDFUNCTION\nFUNCTION FF(a : F) RETURNS F\nRETURN a\nENDFUNCTION\nPROCEDURE VE(a : E)\nOUTPUT a\nENDPROCEDURE\nPROCEDURE WE(BYREF a : E)\na <- B\nENDPROCEDURE\n'
    SH='OUTPUT e, f, g, ae[1], ae[2], af[1], re.v, rf.v\n'
    for k,st in enumerate(['e <- <<s>>','f <- <<s>>','g <- <<s>>','ae[1] <- <<s>>','re.v <- <<s>>','pe^ <- <<s>>','CALL VE(<<s>>)','CALL WE(<<s>>)','n <- <<s>>\nn <- A','n <- <<s>>\nn <- Z','OUTPUT FE(<<s>>)','pe <- ^<<s>>','e <- FE(<<s>>)']):
        T(out,f'store/{k}',two+DCL+'OUTPUT "s"\n'+st+'\n'+SH,x=CH('A','B','C'),s=CH(*SRC),weight=3)
    T(out,'store/ret','TYPE E = (A, B, C)\nTYPE F = (X, Y, Z)\nDECLARE e : E\nDECLARE f : F\nFUNCTION H(n : INTEGER) RETURNS E\nRETURN <<s>>\nENDFUNCTION\nOUTPUT H(<<k>>)\n',s=CH('A','X','e','f','n','A + n','X + n','"A"'),k=I(0,9))
    T(out,'store/repl','TYPE E = (A, B, C)\nTYPE F = (X, Y, Z)\nDECLARE e : E\nDECLARE f : F\ne <- B\nf <- <<s>>\ne <- <<s>>\ne\nf\ne = f\ne = B\nf = Z\nEXIT\n',repl=True,s=CH('A','X','C','Z','e','f','1'))
    T(out,'mixcmp',two+DCL+'OUTPUT "s"\nOUTPUT e <<o>> <<s>>\nOUTPUT "t"\n',x=CH('A','B','C'),o=CH('= ','<>'),s=CH('A','B','C','e','ae[1]','re.v','pe^','FE(A)','X','Y','f','g','af[1]','pf^','FF(X)','rf.v','Q','1','TRUE','"A"'),weight=3)
    T(out,'crosscmp',two+DCL+'ae[2] <- <<y>>\nIF e = <<s>> THEN\nOUTPUT "same"\nELSE\nOUTPUT "other"\nENDIF\nWHILE <<s>> <> e\nOUTPUT "loop"\ne <- e + 1\nk <- k + 1\nIF k > 3 THEN\nBREAK\nENDIF\nENDWHILE\nOUTPUT k\n'.replace('WHILE','k <- 0\nWHILE',1),x=CH('A','B','C'),y=CH('A','B','C'),s=CH('A','f','g','af[1]','pf^','FF(Y)','rf.v','pe^','X'),weight=2)
    for k,e in enumerate(['e < f','e < B','e >= e','e * 2','e / 2','e DIV 2','e MOD 2','e + 1.5','e - 0.5','e + e','e + f','e & "x"','-e','NOT e','e AND TRUE','1.5 + e','"x" & e','e + "1"','e + TRUE','e - e','LENGTH(e)','ASC(e)','e + B']):
        T(out,f'op/{k}',two+'OUTPUT "s"\nOUTPUT '+e+'\nOUTPUT "t"\n',x=CH('A','B','C'))
    # scopes
    T(out,'scope/shadow','TYPE E = (A, B, C)\nDECLARE e : E\nPROCEDURE P(k : INTEGER)\nTYPE E = (U, V)\nDECLARE l : E\nl <- l + k\nOUTPUT l, e\ne <- e + k\nOUTPUT e\nENDPROCEDURE\nCALL P(<<k>>)\ne <- e + <<k>>\nOUTPUT e\n',k=I())
    T(out,'scope/shadow2','TYPE E = (A, B, C)\nDECLARE e : E\nPROCEDURE P(k : INTEGER)\nTYPE E = (U, V)\nDECLARE l : E\nl <- V\nIF k > 0 THEN\ne <- l\nELSE\nl <- e\nENDIF\nENDPROCEDURE\nCALL P(<<k>>)\nOUTPUT e\n',k=I())
    T(out,'scope/shadow3','TYPE E = (A, B, C)\nFUNCTION F(e : E) RETURNS E\nTYPE E = (U, V)\nDECLARE l : E\nl <- V\nOUTPUT l, e\nIF <<k>> > 0 THEN\nRETURN l\nENDIF\nRETURN e + <<k>>\nENDFUNCTION\nOUTPUT F(B)\n',k=I())
    T(out,'scope/local','PROCEDURE P(k : INTEGER)\nTYPE E = (A, B, C)\nDECLARE e : E\nOUTPUT e\ne <- C\nIF k > 0 THEN\nCALL P(k - 1)\nENDIF\ne <- e + k\nOUTPUT e\nENDPROCEDURE\nCALL P(<<k>>)\nOUTPUT "z"\nOUTPUT A\n',k=I(-1,4))
    T(out,'scope/localtwo','TYPE G = (L, M)\nDECLARE g : G\nPROCEDURE P(k : INTEGER)\nTYPE E = (A, B, C)\nTYPE F = (X, Y)\nTYPE H = (U, V, W)\nDECLARE e : E\nDECLARE f : F\nDECLARE h : H\ne <- <<x>>\nf <- <<y>>\nh <- <<z>>\ne <- e + k\nf <- f - k\nOUTPUT e, f, h, g\ng <- M\nOUTPUT g, f = X, h = U, e = A\nENDPROCEDURE\nCALL P(<<k>>)\nOUTPUT g\n',x=CH('A','B','C','X'),y=CH('X','Y','U'),z=CH('U','V','W','L'),k=I())
    T(out,'scope/varname','TYPE E = (A, B, C)\nDECLARE e : E\nPROCEDURE P(k : INTEGER)\nB <- k\nOUTPUT B\nENDPROCEDURE\nCALL P(<<k>>)\ne <- B\nOUTPUT e\n',k=I())
    T(out,'scope/global','TYPE E = (A, B, C)\nDECLARE e : E\nPROCEDURE P(BYREF x : E, k : INTEGER)\nDECLARE l : E\nl <- x\nx <- x + k\ne <- l + 1\nOUTPUT l, x, e\nENDPROCEDURE\nDECLARE d : E\nd <- B\nCALL P(d, <<k>>)\nOUTPUT d, e\nCALL P(e, <<k>>)\nOUTPUT d, e\n',k=I())
    for k,s in enumerate(['TYPE E = (A, A)','TYPE E = (A, B)\nTYPE E = (C, D)','TYPE E = (A, B)\nTYPE F = (B, C)','TYPE E = (A)\nA <- 3','DECLARE A : INTEGER\nTYPE E = (A, B)','TYPE E = (A, B)\nDECLARE A : INTEGER','TYPE E = (A, B)\nA <- B','TYPE E = (A, B)\nE <- A','TYPE E = (A, B)\nOUTPUT E','TYPE E = (A, B)\nCONSTANT B = 4','TYPE E = (A, B)\nINPUT A','TYPE E = (A, B)\nFOR A <- 1 TO 2\nNEXT','TYPE E = (A, B)\nDECLARE e : E\nINPUT e','TYPE E = (A, B)\nOUTPUT A.x','TYPE E = (A, B)\nOUTPUT A[1]','TYPE E = ()','TYPE E = (A,)','TYPE E = (A B)','TYPE E = A','TYPE E = (1)']):
        T(out,f'def/{k}','OUTPUT "s"\n'+s+'\nOUTPUT <<a>>\n',stdin='B\n',a=I())
    # CASE, arrays and records of enumerated values, files
    T(out,'case','TYPE E = (A, B, C, D)\nDECLARE e : E\ne <- <<x>>\ne <- e + <<k>>\nCASE OF e\nB: OUTPUT "b"\nC: OUTPUT "c"\nA: OUTPUT "a"\nOTHERWISE: OUTPUT "o"\nENDCASE\nIF e = C THEN\nOUTPUT "C"\nENDIF\n',x=CH('A','B','C','D'),k=I())
    T(out,'case2','TYPE E = (A, B, C)\nTYPE F = (X, Y)\nDECLARE e : E\ne <- <<x>>\nOUTPUT "q"\nCASE OF e\n<<y>>: OUTPUT "y"\n<<z>>: OUTPUT "z"\nENDCASE\nOUTPUT "r"\n',x=CH('A','B','C'),y=CH('A','B','C'),z=CH('A','B','C'))
    T(out,'arr','TYPE E = (A, B, C)\nDECLARE a, b : ARRAY[1:3] OF E\nFOR i <- 1 TO 3\na[i] <- A + i * <<k>>\nNEXT\na[<<i>>] <- a[<<i>>] - 1\nb <- a\na[1] <- b[2]\nOUTPUT a[1], a[2], a[3], b[1], b[2], b[3]\n',k=I(-2**40,2**40),i=I(0,4),weight=2)
    T(out,'file','TYPE E = (A, B, C)\nDECLARE e, f : E\nOPENFILE "f" FOR RANDOM\ne <- B + <<k>>\nPUTRECORD "f", e\nGETRECORD "f", f\nOUTPUT f, f = e\nf <- f + 1\nSEEK "f", 2\nPUTRECORD "f", f\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", e\nOUTPUT e\nSEEK "f", 2\nGETRECORD "f", e\nOUTPUT e\nCLOSEFILE "f"\n',k=I())
    T(out,'filemix','TYPE E = (A, B, C)\nTYPE F = (X, Y, Z)\nDECLARE e, e2 : E\nDECLARE f : F\nDECLARE n : INTEGER\nOPENFILE "f" FOR RANDOM\ne <- C\nPUTRECORD "f", <<s>>\nOUTPUT "g"\nGETRECORD "f", <<t>>\nOUTPUT e, f, n\nCLOSEFILE "f"\n',s=CH('e','f','n'),t=CH('e','f','n'))
    for n,v in (('3','TRUE'),('2','FALSE')): pass
    # corrupted stored positions are never turned into a value outside the type
    T(out,'filepos','TYPE E = (A, B, C)\nDECLARE e : E\nOPENFILE "f" FOR RANDOM\nOUTPUT "o"\nGETRECORD "f", e\nOUTPUT "g"\nOUTPUT e\n',files={'f':'ENUM E <<n>>\n'},n=I(-3,9),crash_only=True)
    # histories
    OPS='e <- e + k\n','e <- e - k\n','f <- f + k\n','e <- a[1]\n','a[1] <- e\n','e <- B\n','r.v <- e\n','e <- r.v + k\n','CALL W(e, k)\n','e <- H(e)\n','f <- e\n','a[2] <- a[1] - k\n'
    head='TYPE E = (A, B, C)\nTYPE F = (X, Y)\nTYPE R\nDECLARE v : E\nENDTYPE\nPROCEDURE W(BYREF x : E, k : INTEGER)\nx <- x - k\nENDPROCEDURE\nFUNCTION H(x : E) RETURNS E\nx <- x + 2\nRETURN x\nENDFUNCTION\nDECLARE e : E\nDECLARE f : F\nDECLARE r : R\nDECLARE a : ARRAY[1:2] OF E\nDECLARE o, k : INTEGER\n'
    disp='WHILE TRUE\nINPUT o\nINPUT k\nCASE OF o\n'+''.join(f'{k}: {s}' for k,s in enumerate(OPS))+'OTHERWISE: BREAK\nENDCASE\nENDWHILE\nOUTPUT e, f, a[1], a[2], r.v\n'
    for a in range(12):
        s=f'{a}\n<<a>>\n'; hh={'a':I(-10**9,10**9)}
        for q in range(1 if not deep else 2): hh[f'o{q}']=I(0,11); hh[f'k{q}']=I(-10**9,10**9); s+=f'<<o{q}>>\n<<k{q}>>\n'
        T(out,f'hist/{a}',head+disp,stdin=s+'99\n0\n',weight=4,**hh)
    return out
