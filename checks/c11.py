"""C11: syntax is checked before anything runs; diagnostics point at the fault."""
import re
from .common import *
from .c10 import toks, need
BOUNDS='one token of every statement form replaced by (or preceded by, in the thorough tier) every token of the complete vocabulary (symbolic choice of 90; 50 in the quick tier), adjacent tokens swapped, doubled or dropped, whole lines dropped, doubled or swapped, one source byte symbolic over the non-alphanumeric bytes and samples of the others, all behind sentinel side effects; runtime faults of 24 kinds (symbolic choice) in every pair of nested constructs and behind call chains of depth 0..4 (recursion depth symbolic), with symbolic blank and comment lines in between. Columns are only checked to lie within the named line; faults behind tabs, in programs and in the REPL'
QUICK=60
OPTS=dict(asan='some',asan_n=1,pos=True,alarm=1)
KWS='DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION ENDFUNCTION RETURNS RETURN OUTPUT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD INTEGER STRING'.split()
SYM=['+','-','*','/','(',')','[',']',':',',','=','==','<','<=','<>','>','<-','&','^','.','//','@',"'",'"','\n','']
LITS=['1','1.5','"s"',"'c'",'1/1/2000','x','zq','"\\q"']
V=KWS+SYM+LITS
V1=['','\n',',',')','(',']',':','=','<-','^','-','+','.','/','&','<','==','x','1','1.5','"s"',"'c'",'1/1/2000','TRUE','NOT','THEN','ELSE','ENDIF','OF','TO','STEP','OTHERWISE','NEXT','OUTPUT','DECLARE','PROCEDURE','ENDPROCEDURE','RETURN','BYREF','INTEGER','ARRAY','IF','READ','DO','BREAK','//','@','"',"'"]
V2=['\n',',',')','(','x','1','"s"','THEN','ELSE','ENDIF','NEXT','OF','=','<-',':','^','[','-','OUTPUT','DECLARE','PROCEDURE','ENDPROCEDURE','RETURN','@']
SENT='OUTPUT "s"\nINPUT zz\nOPENFILE "keep" FOR WRITE\nWRITEFILE "keep", "x"\nCLOSEFILE "keep"\n'
U={
'decl':'DECLARE a, b : INTEGER\nDECLARE q : ARRAY[1:2, 0:3] OF CHAR\nCONSTANT c = -5\n',
'asg':'x <- 1 + 2 * -3\nm <- x DIV 2 & "s"\nOUTPUT (x - 1) / 2, NOT x = 3\n',
'idx':'DECLARE q : ARRAY[1:2] OF INTEGER\nq[1] <- 2\nq[q[1]] <- q[1] MOD 2\nOUTPUT q[2]\n',
'if':'x <- 1\nIF x > 1 AND TRUE THEN\nOUTPUT 1\nELSE IF x = 1 THEN\nOUTPUT 2\nELSE\nOUTPUT 3\nENDIF\n',
'case':'x <- 3\nCASE OF x\n1 : OUTPUT 1\n2 TO 4 : OUTPUT 2\nx <- 9\nOTHERWISE : OUTPUT 3\nENDCASE\n',
'while':'x <- 0\nWHILE x < 2 DO\nx <- x + 1\nENDWHILE\nREPEAT\nx <- x - 1\nUNTIL x < 1\n',
'for':'FOR i <- 1 TO 5 STEP 2\nIF i = 3 THEN\nCONTINUE\nENDIF\nOUTPUT i\nNEXT i\n',
'proc':'PROCEDURE P(a, b : INTEGER, BYREF c : STRING)\nc <- c & a\nENDPROCEDURE\ns <- "x"\nCALL P(1, 2, s)\n',
'func':'FUNCTION F(a : INTEGER) RETURNS REAL\nRETURN a / 2\nENDFUNCTION\nOUTPUT F(3) + LENGTH("ab")\n',
'type':'TYPE R\nDECLARE v : INTEGER\nENDTYPE\nDECLARE r : R\nr.v <- 3\nTYPE E = (Re, Gr)\nTYPE T = ^INTEGER\nDECLARE p : T\nx <- 4\np <- ^x\np^ <- 5\n',
'file':'OPENFILE "f" FOR WRITE\nWRITEFILE "f", 3\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", l\n',
'rand':'DECLARE v : INTEGER\nOPENFILE "g" FOR RANDOM\nPUTRECORD "g", v\nSEEK "g", 1\nGETRECORD "g", v\nINPUT v\n',
'cast':'DECLARE d : DATE\nd <- 1/2/2020\nOUTPUT INTEGER(2.5), MOD(7, 4), d\n',
}
# faults that make a one-line statement fail at run time (nothing else in the program is needed)
FAULTS=['OUTPUT nope','x <- nope + 1','OUTPUT 1 DIV zero','OUTPUT 5 MOD zero','OUTPUT 1 / zero','x <- "str"','OUTPUT 1 + "a"','arr[5] <- 1','OUTPUT arr[0]','CALL nopr','OUTPUT nof(1)','kk <- 3','DECLARE x : REAL','DECLARE y : NOTYPE','WRITEFILE "zz", 1','CLOSEFILE "zz"','SEEK "zz", 1','READFILE "zz", x','IF x THEN','CALL one(1)','OUTPUT x.f','OUTPUT x[1]','x^ <- 1','x <- 30/2/2021','OUTPUT "fine"']
PRE='CONSTANT kk = 1\nDECLARE zero, x, one : INTEGER\nDECLARE arr : ARRAY[1:3] OF INTEGER\nx <- 5\none <- 1\n'
NF=[f for f in FAULTS if not f.startswith('IF')]
WR={'if':'IF one = 1 THEN\n@ENDIF\n','else':'IF one = 2 THEN\nOUTPUT 1\nELSE\n@ENDIF\n','elif':'IF one = 2 THEN\nOUTPUT 1\nELSE IF one = 1 THEN\n@ENDIF\n','case':'CASE OF one\n2 : OUTPUT "two"\n0 TO 1 : OUTPUT "c"\n@ENDCASE\n','other':'CASE OF one\n2 : OUTPUT "two"\nOTHERWISE :\n@ENDCASE\n','while':'WHILE TRUE DO\n@BREAK\nENDWHILE\n','repeat':'REPEAT\nOUTPUT "r"\n@UNTIL TRUE\n','for':'FOR @i <- 1 TO 2\n@NEXT\n','plain':'OUTPUT "p"\n@'}
BL=('\n       ','//  c   \n','        ',' \t \n    ')
def wrap(k,body,n):
    w=WR[k]
    if k=='for': return f'FOR i{n} <- 1 TO 2\n{body}NEXT\n'
    return w.replace('@',body)
def templates(tier):
    out=[]; deep=tier!='quick'; VV=V if deep else V1
    def add(name,src,w=1.0,ped=False,pre=SENT,**h): T(out,name,pre+src+'OUTPUT "end"\n',stdin='in\n7\n',files={'keep':'old\n'},ped=ped,weight=w,**h)
    for n,src in U.items():
        L=[toks(l) for l in src.rstrip('\n').split('\n')]
        ls=[' '.join(t) for t in L]
        def line(i,t): return '\n'.join(ls[:i]+[' '.join(t)]+ls[i+1:])+'\n'
        add(f'{n}/base',src); add(f'{n}/ped',src,ped=True)
        for i,t in enumerate(L):
            for j,tok in enumerate(t):
                add(f'{n}/rep/{i}.{j}',line(i,t[:j]+['<<v>>']+t[j+1:]),v=CH(tok,*[v for v in VV if v!=tok]),w=1.0)
                if deep: add(f'{n}/ins/{i}.{j}',line(i,t[:j]+['<<v>>']+t[j:]),v=CH('',*[v for v in V if v]),w=1.0)
                elif (i+j)%2==0: add(f'{n}/ins/{i}.{j}',line(i,t[:j]+['<<v>>']+t[j:]),v=CH('',*V2),w=1.0)
                if j+1<len(t):
                    b=t[j+1]; add(f'{n}/swap/{i}.{j}',line(i,t[:j]+['<<v>>']+t[j+2:]),v=CH(f'{tok} {b}',f'{b} {tok}',f'{tok} {tok}',f'{b} {b}',f'{tok} {b} {tok} {b}',f'{tok} \n {b}'))
                    if deep: add(f'{n}/two/{i}.{j}',line(i,t[:j]+['<<v>>','<<w>>']+t[j+2:]),v=CH(tok,*V2),w=CH(b,*V2)) if 0 else None
            add(f'{n}/app/{i}',line(i,t+['<<v>>']),v=CH('',*[v for v in VV if v]))
            add(f'{n}/line/{i}','\n'.join(ls[:i]+['<<v>>']+ls[i+2:])+'\n',v=CH(*(['%s\n%s'%(ls[i],ls[i+1] if i+1<len(ls) else ''),ls[i],ls[i+1] if i+1<len(ls) else '','','%s\n%s'%(ls[i],ls[i]),'%s\n%s'%(ls[i+1] if i+1<len(ls) else '',ls[i])])))
    # a fault before, between and after the side effects; no trailing line break; pedantic
    BAD=['x <- ','OUTPUT (1','ENDIF','@','"abc',"'ab'",'x <- 1 2','IF TRUE','DECLARE x','IF TRUE THEN','PROCEDURE P','WHILE x DO','CASE OF x','REPEAT','FOR i <- 1 TO 2','x == 1','OUTPUT(1)','"\\q"','NEXT','BREAK 1','TYPE R','x <- 99999999999999999999','OUTPUT 1']
    side=SENT.rstrip('\n').split('\n')+['x <- 1','OUTPUT x']
    for i in range(len(side)+1):
        T(out,f'place/{i}','\n'.join(side[:i]+['<<b>>']+side[i:])+'\n',stdin='in\n',files={'keep':'old\n'},b=CH(*BAD)); T(out,f'placep/{i}','\n'.join(side[:i]+['<<b>>']+side[i:]),stdin='in\n',files={'keep':'old\n'},ped=True,b=CH(*BAD))
    T(out,'place/defs','PROCEDURE Q\nOUTPUT 1\n<<b>>\nENDPROCEDURE\n'+SENT+'CALL Q\n',stdin='in\n',files={'keep':'old\n'},b=CH(*BAD)); T(out,'place/late',SENT+'x <- 1\nx = 1\nIF x = 2 THEN\nOUTPUT 5\nELSE\nCASE OF x\n1 : FOR i <- 1 TO 2\n<<b>>\nNEXT\nENDCASE\nENDIF\n',stdin='in\n',files={'keep':'old\n'},b=CH(*BAD))
    T(out,'place/file',SENT+'IF FALSE THEN\nOPENFILE "new" FOR WRITE\n<<b>>\nENDIF\nOPENFILE "keep" FOR APPEND\nWRITEFILE "keep", 2\n',stdin='in\n',files={'keep':'old\n'},b=CH(*BAD))
    # one byte
    AB=bytes(c for c in range(256) if not chr(c).isalnum() or c>127)+b'aEN059_'
    SFX={2:'ENDIF\n',3:'ENDCASE\n',5:'',7:'NEXT\n'}; PFX={3:'CASE OF x\n'}
    BY1=['x <- x <= 3','OUTPUT "a\\n", \'c\'','IF x = 1 THEN','2 TO 4 : x','q[1] <- r.v^','DECLARE a : REAL','x <- 1/2/2020 // c','FOR i <- 1 TO 5','OUTPUT F(1, 2.5)']
    for k,l in enumerate(BY1):
        for j in range(len(l)+1):
            if deep or k in(1,4,6) or (j+k)%2==0: T(out,f'byte/{k}.{j}','OUTPUT "s"\nOPENFILE "keep" FOR WRITE\nx <- 3\n'+PFX.get(k,'')+l[:j]+'<<b>>'+l[j+1:]+'\n'+SFX.get(k,'')+'OUTPUT 2\n',files={'keep':'old\n'},b=BY(1,AB,l[j] if j<len(l) and ord(l[j]) in AB else ' '),weight=2)
    # ---------------------------------------------------------------- runtime faults
    def rt(name,src,w=1.0,**h): T(out,'rt/'+name,PRE+src+'OUTPUT "end"\n',stdin='in\n7\n',weight=w,**h)
    rt('top','<<f>>\n',f=CH(*NF)); rt('topline','OUTPUT "a"\n<<g>>\n<<f>>\n',f=CH(*NF),g=CH(*BL))
    for k in WR: rt(f'one/{k}','OUTPUT "a"\n'+wrap(k,'<<g>>\n<<f>>\nOUTPUT "after"\n',1),f=CH(*NF),g=CH(*BL))
    for a in WR:
        for b in WR: rt(f'two/{a}.{b}',wrap(a,wrap(b,'<<f>>\n',2),1),f=CH(*(NF if deep else NF[(len(a)+len(b))%2::2])))
    # call chains
    def chain(kinds,fault,gap='',extra=''):
        """procedures/functions Q1..Qn calling each other; the innermost body is the fault"""
        body=fault+'\n'; s=''
        for n in range(len(kinds),0,-1):
            k=kinds[n-1]
            if k[0]=='p': s+=f'PROCEDURE Q{n}\n{gap}OUTPUT "q{n}"\n{wrap(k[1],body,n)}ENDPROCEDURE\n'; body=f'CALL Q{n}\n'
            elif k[0]=='a': s+=f'PROCEDURE Q{n}(a : INTEGER, BYREF b : INTEGER)\n{gap}OUTPUT "q{n}", a\n{wrap(k[1],body,n)}ENDPROCEDURE\n'; body=f'CALL Q{n}({n}, x)\n'
            else: s+=f'FUNCTION Q{n}(a : INTEGER) RETURNS INTEGER\n{gap}OUTPUT "q{n}"\n{wrap(k[1],body,n)}RETURN 3\nENDFUNCTION\n'; body=f'x <- 2 + Q{n}({n}) * 2\n'
        return s+'OUTPUT "m"\n'+extra+body
    ks=list(WR)
    for d in range(1,5):
        for r in range(6 if not deep else 18):
            kinds=[('paf'[(r+i)%3],ks[(r*5+i*2+d)%len(ks)]) for i in range(d)]
            rt(f'chain/{d}.{r}',chain(kinds,'<<f>>'),f=CH(*NF[(r+d)%2::2]),w=1.2)
        kinds=[('paf'[(d+i)%3],'plain') for i in range(d)]
        rt(f'chaingap/{d}',chain(kinds,'<<f>>',gap='<<g>>\n',extra='<<g>>\n'),f=CH(*NF[::4]),g=CH(*BL))
    # calls that have returned do not show; calls in every kind of place do
    DEF='PROCEDURE ok\nOUTPUT "ok"\nENDPROCEDURE\nPROCEDURE mid\nCALL ok\nOUTPUT "mid"\nCALL ok\nENDPROCEDURE\nFUNCTION g(n : INTEGER) RETURNS INTEGER\nOUTPUT "g"\nCALL ok\nRETURN 10 DIV (n - 3)\nENDFUNCTION\nPROCEDURE pr(n : INTEGER)\nOUTPUT 10 DIV (n - 1)\nENDPROCEDURE\n'
    for k,s in enumerate(['CALL mid\nCALL mid\n<<f>>\n','CALL mid\nFOR i <- 1 TO 2\nCALL mid\n<<f>>\nNEXT\n','OUTPUT g(1)\nx <- g(2) + g(5)\n<<f>>\n']): rt(f'returned/{k}',DEF+s,f=CH(*NF))
    for k,s in enumerate(['x <- g(n)\n','OUTPUT 1, g(n), 2\n','IF g(n) > 0 THEN\nOUTPUT 1\nELSE\nOUTPUT 2\nENDIF\n','IF FALSE THEN\nOUTPUT 1\nELSE IF g(n) > 0 THEN\nOUTPUT 2\nENDIF\n','WHILE g(n) > 0 DO\nn <- n + 7\nENDWHILE\n','REPEAT\nn <- n - 1\nUNTIL g(n) > -4\n','FOR i <- g(n) TO 1\nOUTPUT i\nNEXT\n','FOR i <- -2 TO g(n)\nOUTPUT i\nNEXT\n','FOR i <- 1 TO 2 STEP 9 + 0 * g(n)\nOUTPUT i\nNEXT\n','CASE OF n\ng(n) : OUTPUT 1\nOTHERWISE : OUTPUT 2\nENDCASE\n','CASE OF n\n-9 TO g(n) : OUTPUT 1\nOTHERWISE : OUTPUT 2\nENDCASE\n','arr[1] <- g(n)\n','arr[g(n) MOD 3 + 2] <- 1\n','OUTPUT arr[g(n)]\n','CALL pr(g(n))\n','CALL pr(n)\nx <- g(n)\nCALL pr(n)\n','OUTPUT g(g(n))\n','OUTPUT g(n) + g(n + 1)\n','OUTPUT LENGTH("a" & g(n))\n','OUTPUT LEFT("abc", g(n))\n','OPENFILE "f" FOR WRITE\nWRITEFILE "f", g(n)\nCLOSEFILE "f"\n','DECLARE dd : ARRAY[0:g(n)] OF INTEGER\n','OPENFILE "f" & g(n) FOR WRITE\n','n < g(n)\n','FUNCTION h(n : INTEGER) RETURNS INTEGER\nRETURN g(n)\nENDFUNCTION\nOUTPUT h(n)\n','FUNCTION h(n : INTEGER) RETURNS INTEGER\n\nOUTPUT "h"\nCALL pr(g(n))\nRETURN 1\nENDFUNCTION\n\nOUTPUT h(n) + h(n - 1)\n']):
        rt(f'where/{k}','n <- <<n>>\n'+DEF+s+'OUTPUT "done"\nCALL pr(n - 2)\n',n=I(-3,6,4)); rt(f'whereproc/{k}',DEF+('PROCEDURE body(n : INTEGER)\n'+s+'OUTPUT "done"\nENDPROCEDURE\n' if 'FUNCTION' not in s else '')+('CALL body(<<n>>)\n' if 'FUNCTION' not in s else 'n <- <<n>>\n'+s),n=I(-3,6,4))
    # recursion
    rt('rec','PROCEDURE r(n : INTEGER)\nOUTPUT n\nIF n > 0 THEN\nCALL r(n - 1)\nELSE\n<<f>>\nENDIF\nOUTPUT "b", n\nENDPROCEDURE\nCALL r(<<n>>)\n',n=I(-1,4,2),f=CH(*NF[::2]))
    rt('rec2','FUNCTION od(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN 1 DIV zero\nENDIF\n\nRETURN ev(n - 1)\nENDFUNCTION\n\nFUNCTION ev(n : INTEGER) RETURNS INTEGER\n// c\nIF n = 0 THEN\nRETURN 1\nENDIF\nRETURN od(n - 1) + 1\nENDFUNCTION\nOUTPUT ev(<<n>>)\n',n=I(0,6,3))
    rt('recfact','FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n <= <<m>> THEN\nRETURN 1 DIV (n - 1)\nENDIF\nRETURN n * f(n - 1)\nENDFUNCTION\nOUTPUT f(<<n>>)\nOUTPUT f(1)\n',n=I(0,5,4),m=I(0,2,0))
    rt('noreturn','FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n > 1 THEN\nRETURN n\nENDIF\nOUTPUT "x"\nENDFUNCTION\nOUTPUT f(3)\nOUTPUT f(<<n>>)\n',n=I(0,3,1)); rt('rettype','FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n > 1 THEN\nRETURN <<v>>\nENDIF\nRETURN 1\nENDFUNCTION\nOUTPUT f(0)\nOUTPUT f(<<n>>)\n',n=I(0,3,2),v=CH('"s"','1.5',"'c'",'TRUE','n','1/1/2020'))
    rt('argtype','PROCEDURE p(a : INTEGER, BYREF b : INTEGER)\nOUTPUT a\nENDPROCEDURE\n\nCALL p(1, x)\n<<c>>\n',c=CH('CALL p(1)','CALL p(1, 2)','CALL p("a", x)','CALL p(x, "a")','CALL p()','CALL p(1, kk)','CALL p(1, x, x)','CALL p(1, arr)','CALL p(1, x)'))
    # the failing iteration / element is symbolic
    rt('iter/for','FOR i <- 1 TO 4\n\nOUTPUT i\nOUTPUT 10 DIV (i - <<k>>)\nNEXT\n',k=I(0,6,2)); rt('iter/while','i <- 0\nWHILE 10 DIV (i - <<k>>) <> 77 DO\ni <- i + 1\n\nIF i > 4 THEN\nBREAK\nENDIF\nENDWHILE\n',k=I(-1,5,2)); rt('iter/until','i <- 0\nREPEAT\ni <- i + 1\n\nUNTIL 10 DIV (i - <<k>>) = 77 OR i > 4\n',k=I(0,6,2))
    rt('iter/index','FOR i <- <<a>> TO <<b>>\narr[i] <- i\nOUTPUT arr[i]\nNEXT\n',a=I(-1,3,1),b=I(0,5,4)); rt('iter/mixed','FOR i <- 1 TO 3\nCASE OF i\n1 : x <- 10 DIV (<<k>> - 1)\n2 : x <- 10 DIV (<<k>> - 2)\nOTHERWISE : IF i = 3 THEN\nx <- 10 DIV (<<k>> - 3)\nENDIF\nENDCASE\nNEXT\n',k=I(0,5,4))
    # one of many statements fails
    body=''.join(f'OUTPUT 10 DIV (k - {i})\n' for i in range(1,9))
    rt('which/flat','k <- <<k>>\n'+body,k=I(0,9,0)); rt('which/gaps','k <- <<k>>\n'+body.replace('OUTPUT','<<g>>\nOUTPUT'),k=I(0,9,0),g=CH(*BL)); rt('which/proc','PROCEDURE w(k : INTEGER)\n'+body+'ENDPROCEDURE\nOUTPUT "x"\nCALL w(<<k>>)\nCALL w(<<k>> - 2)\n',k=I(0,11,0))
    rt('which/input','DECLARE k : INTEGER\nINPUT s\nINPUT k\nOUTPUT 10 DIV (k - 7)\n')
    # faults in a multi-line string's neighbourhood, stray statements, several statements per kind of condition
    rt('longstr','s <- "a\n b\nc"\nOUTPUT s\n<<f>>\n',f=CH(*NF[::3])); T(out,'longstr2','OUTPUT "a"\ns <- "<<b>>\nq" <<f>>\nOUTPUT "b"\n',b=BY(2,b'ab \n','a'),f=CH('','+','1','&','"x"'))
    for k,c in enumerate(['BREAK','CONTINUE','RETURN 1']):
        rt(f'stray/{k}','OUTPUT 1\n\n'+c+'\n'); rt(f'strayif/{k}','OUTPUT 1\nIF one = 1 THEN\n\n'+c+'\nENDIF\n'); rt(f'strayproc/{k}','PROCEDURE p\nOUTPUT 1\n'+c+'\nENDPROCEDURE\n\nFOR i <- 1 TO 2\nCALL p\nNEXT\n')
    for k,c in enumerate(['IF <<v>> THEN\nOUTPUT 1\nENDIF\n','WHILE <<v>> DO\nBREAK\nENDWHILE\n','IF NOT <<v>> THEN\nOUTPUT 1\nENDIF\n','IF TRUE AND <<v>> THEN\nOUTPUT 1\nENDIF\n','FOR i <- <<v>> TO 3\nOUTPUT i\nNEXT\n','FOR i <- 1 TO <<v>>\nOUTPUT i\nNEXT\n','OUTPUT arr[<<v>>]\n','x <- <<v>>\n','OUTPUT -<<v>>\n','OUTPUT <<v>> * 2\n','OUTPUT <<v>> DIV 2\n','OUTPUT <<v>> < 2\n','OUTPUT LENGTH(<<v>>)\n','OUTPUT MID(<<v>>, 1, 1)\n','OUTPUT LEFT("abc", <<v>>)\n','SEEK "zz", <<v>>\n','OPENFILE <<v>> FOR READ\n','DECLARE zzz : ARRAY[1:<<v>>] OF REAL\n']):
        for q,w in enumerate(('@','PROCEDURE p\n@ENDPROCEDURE\nOUTPUT 2\nCALL p\n')): rt(f'operand/{k}.{q}','OUTPUT "s"\n\n'+w.replace('@',c),v=CH('1','"s"','TRUE','2.5','nope','1/1/2020','arr',"'c'"))
    # REPL: lines count within the entry
    for k,s in enumerate(['x <- nope\n','IF TRUE THEN\nOUTPUT 1\n<<f>>\nENDIF\n\nOUTPUT 2\n<<f>>\n','PROCEDURE p\nOUTPUT 1\n<<f>>\nENDPROCEDURE\n\nx <- 1\nCALL p\nFOR i <- 1 TO 2\nOUTPUT i\nCALL p\nNEXT\n\n','FUNCTION f(n : INTEGER) RETURNS INTEGER\nRETURN 1 DIV n\nENDFUNCTION\n\nf(1)\nf(0)\nOUTPUT f(0)\n','OUTPUT (\nIF x THEN\nENDWHILE\n\nx <- 3\nx\n']): T(out,f'repl/{k}','CONSTANT kk = 1\nx <- 5\n'+s+'OUTPUT "end"\n',repl=True,**(dict(f=CH(*[f for f in NF if 'arr' not in f and 'zero' not in f and f!='CALL one(1)'])) if '<<f>>' in s else {}))
    # the same program with pedantic diagnostics
    for k,c in enumerate(['DECLARE q : INTEGER\n','IF x = 1 THEN\nOUTPUT 1\nELSE IF x = 2 THEN\nOUTPUT 2\nENDIF\n','y <- 3\n','FOR i <- 1 TO 2\nBREAK\nNEXT\n','OUTPUT INTEGER(2.5)\n','CASE OF x\n1 : CONTINUE\nENDCASE\n']):
        for q,p in enumerate(('','\n\n','// c\nOUTPUT 2\n')): T(out,f'ped/{k}.{q}','DECLARE x : INTEGER\nOUTPUT "s"\nx <- <<x>>\n'+p+c+'OUTPUT "e"\n',ped=True,x=I(0,3,1))
    # indented with tabs and blanks: the column still lies within the named line
    for k,l in enumerate(['x <- 3<<g>>@','OUTPUT<<g>>1,<<g>>nope','x<<g>><-<<g>>one<<g>>DIV<<g>>zero','IF<<g>>x<<g>>THEN','OUTPUT "ab<<g>>c','CALL<<g>>nope','OUTPUT "a<<g>>b",<<g>>arr[<<g>>99<<g>>]','x<<g>><-','y <- \'\\q\'','OUTPUT<<g>>x<<g>>)','RETURN<<g>>1','NEXT<<g>>i','OUTPUT<<g>>"a<<g>>\\q"','x <- x =<<g>>= 1']):
        e='\nOUTPUT 1\nENDIF\n' if l.startswith('IF') else '\n'
        T(out,f'tab/{k}','DECLARE arr : ARRAY[1:3] OF INTEGER\none <- 1\nzero <- 0\nx <- 5\nOUTPUT "s"\n<<g>>\t<<g>>\t\t'+l+e+'OUTPUT "e"\n',g=BY(2,b' \t','\t'))
        T(out,f'tabrepl/{k}','DECLARE arr : ARRAY[1:3] OF INTEGER\none <- 1\nzero <- 0\nx <- 5\nOUTPUT "s"\n<<g>>\t\t\t'+l+e+'\nOUTPUT "e"\n',repl=True,g=BY(2,b' \t','\t'))
    return out
