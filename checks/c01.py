"""C01: every input is executed or diagnosed; the interpreter never crashes (every explored path also runs on the sanitizer build)."""
import re, importlib, random
from .common import *
from . import c10, c11
BOUNDS='every token sequence up to length 2 (3 in the thorough tier) over the vocabulary of 115 tokens, as a program and as REPL entries; symbolic bytes (all 256 values) of up to 3 (4) as whole programs, behind every lexical context, and in place of bytes of valid programs; symbolic tokens in place of tokens of valid programs; every statement context x every operand; symbolic stdin lines; symbolic data-file bytes and records; nesting and call depth up to 1000; dangling references; REPL histories; a sample of the templates of all other checks'
OPTS=dict(asan='all',alarm=2)
QUICK=150; THOROUGH=780
ALL=bytes(range(256)); MIX=b'\0\n\r\t "\'()*+-./0:<=>A[\\]^_d@\x80\xff'
FN='LENGTH LEFT MID TO_UPPER NUM_TO_STR STR_TO_NUM IS_NUM EOF LCASE ASC CHR DAY SETDATE TODAY POW SQRT RAND INT'.split()
V=c11.V+['REAL','CHAR','BOOLEAN','DATE','EOF','RAND','LENGTH','PRINT']
V=list(dict.fromkeys(v for v in V if v!=''))
W=['x','1','"s"','(',')','[',']','<-','=','-','^','.',',',':','IF','THEN','ELSE','ENDIF','CASE','OF','TO','ENDCASE','FOR','NEXT','PROCEDURE','ENDPROCEDURE','FUNCTION','RETURNS','RETURN','CALL','TYPE','ENDTYPE','DECLARE','ARRAY','INTEGER','CONSTANT','OUTPUT','INPUT','OPENFILE','READ','BREAK','REPEAT','UNTIL','WHILE','DO','\n','NOT','DIV','==','1/1/2000']
ENV='''TYPE E = (Red, Green)
TYPE R
DECLARE v : INTEGER
DECLARE s : STRING
DECLARE a : ARRAY[1:2] OF INTEGER
DECLARE e : E
ENDTYPE
TYPE P = ^INTEGER
TYPE PR = ^R
DECLARE x, zero : INTEGER
DECLARE re : REAL
DECLARE st : STRING
DECLARE ch : CHAR
DECLARE bo : BOOLEAN
DECLARE dt : DATE
DECLARE en : E
DECLARE rec, rec2 : R
DECLARE p, pu : P
DECLARE pr, pru : PR
DECLARE arr, arr2 : ARRAY[1:3] OF INTEGER
DECLARE mat : ARRAY[0:1, 1:2] OF STRING
DECLARE recs : ARRAY[1:2] OF R
DECLARE ens : ARRAY[1:2] OF E
CONSTANT k = 4
x <- 2
p <- ^x
pr <- ^rec
st <- "abc"
dt <- 1/2/2020
PROCEDURE prc
OUTPUT "p"
ENDPROCEDURE
PROCEDURE pi(n : INTEGER)
OUTPUT n
ENDPROCEDURE
PROCEDURE pref(BYREF n : INTEGER)
n <- n + 1
ENDPROCEDURE
PROCEDURE prec(BYVAL a : R, BYREF b : R)
b.v <- a.v + 1
ENDPROCEDURE
FUNCTION f(n : INTEGER) RETURNS INTEGER
RETURN n
ENDFUNCTION
FUNCTION fs() RETURNS STRING
RETURN "fs"
ENDFUNCTION
FUNCTION fr() RETURNS R
RETURN rec
ENDFUNCTION
FUNCTION fe() RETURNS E
RETURN Green
ENDFUNCTION
FUNCTION fp() RETURNS P
RETURN p
ENDFUNCTION
FUNCTION noret(n : INTEGER) RETURNS INTEGER
IF n > 5 THEN
RETURN n
ENDIF
ENDFUNCTION
FUNCTION fd() RETURNS DATE
RETURN dt
ENDFUNCTION
'''
FOPEN='OPENFILE "w" FOR WRITE\nOPENFILE "r" FOR READ\nOPENFILE "g" FOR RANDOM\n'
OPS=['1','0','-1','2.5','"s"','""',"'c'",'TRUE','1/2/2020','x','undef','re','st','ch','bo','dt','en','Red','Nope','arr','arr[1]','arr[4]','arr[1, 1]','mat','mat[0, 1]','mat[1]','rec','rec.v','rec.s','rec.a','rec.a[1]','rec.a[3]','rec.e','rec.zz','recs[1]','recs[2].v','recs','ens[1]','p','p^','pu','pu^','pr','pr^','pr^.v','pr^.a[2]','pru^','pru^.v','p^^','^x','^arr','^arr[1]','^rec','^rec.v','^undef','^p','^Red','^k','prc','prc()','pi','f(1)','f','f()','f("s")','f(x, x)','fs()','fr()','fr().v','fe()','fp()','fp()^','fd()','noret(1)','noret(9)','E','R','P','INTEGER','INTEGER("12")','CHAR("")','STRING(rec)','LENGTH("x")','LENGTH','LENGTH()','SETDATE(1, 2, 2020)','SETDATE(40, 2, 2020)','k','9223372036854775807','99999999999999999999','x + 1','x = 2','x / zero','NOT bo','(x)','x.y','x[1]','"a" & "b"','MID("abc", 2, 9)','EOF("r")','EOF("zz")','CHR(0)','-st','x = rec','"\\n"']
OPX=['1','0','2.5','"s"','""',"'c'",'TRUE','dt','undef','x','en','arr','mat[0, 1]','rec','rec.a','p','pu','pu^','pru^','pru^.v','^x','prc','f','noret(1)','fr()','fe()','E','R','LENGTH','k','Red','recs[1]','st','CHR(0)']
CTX=['OUTPUT @','PRINT @, @','x <- @','re <- @','st <- @','ch <- @','bo <- @','dt <- @','en <- @','rec <- @','rec.v <- @','rec.a[1] <- @','rec.e <- @','p <- @','p^ <- @','pr <- @','pr^ <- @','pru^ <- @','pr^.v <- @','pu^ <- @','arr <- @','arr[1] <- @','arr[@] <- 1','mat[@, 1] <- "m"','mat[1, @] <- "m"','recs[1] <- @','recs[@].v <- 1','ens[2] <- @','newv <- @','@ <- 1','@ <- @','k <- @','Red <- @','OUTPUT arr[@]','OUTPUT mat[0, @]','OUTPUT recs[@].a[@]','OUTPUT @ + 1','OUTPUT 1 - @','OUTPUT @ * @','OUTPUT @ DIV 2','OUTPUT 5 DIV @','OUTPUT 5 MOD @','OUTPUT @ MOD 3','OUTPUT 2 / @','OUTPUT @ / 0.0','OUTPUT -@','OUTPUT +@','OUTPUT NOT @','OUTPUT @ AND TRUE','OUTPUT TRUE AND @','OUTPUT FALSE OR @','OUTPUT @ & "t"','OUTPUT "t" & @','OUTPUT @ = @','OUTPUT @ <> 1','OUTPUT @ < "s"','OUTPUT 2.5 >= @','OUTPUT en = @','OUTPUT dt < @','OUTPUT p = @','OUTPUT rec = @','IF @ THEN\nOUTPUT 1\nENDIF','IF FALSE THEN\nELSE IF @ THEN\nENDIF','WHILE @ DO\nBREAK\nENDWHILE','REPEAT\nIF x > 4 THEN\nBREAK\nENDIF\nx <- x + 1\nUNTIL @','CASE OF x\n@ : OUTPUT 1\nOTHERWISE : OUTPUT 2\nENDCASE','CASE OF st\n@ TO "z" : OUTPUT 1\n"a" TO @ : OUTPUT 3\nENDCASE','CASE OF @\n1 : OUTPUT 1\n2 TO 3 : OUTPUT 2\nENDCASE','CASE OF en\n@ : OUTPUT 1\n@ TO Green : OUTPUT 1\nENDCASE','CASE OF rec\n@ : OUTPUT 1\nENDCASE','FOR i <- @ TO 3\nNEXT','FOR i <- 1 TO @\nBREAK\nNEXT','FOR i <- 1 TO 2 STEP @\nBREAK\nNEXT','FOR @ <- 1 TO 2\nNEXT','CALL pi(@)','CALL pref(@)','CALL prec(@, rec2)','CALL prec(rec, @)','CALL @','CALL prc(@)','OUTPUT f(@)','OUTPUT f(f(@))','OUTPUT noret(@)','OUTPUT @.v','OUTPUT @[1]','OUTPUT @[1, 1]','OUTPUT @^','OUTPUT @^.v','p <- ^@','pr <- ^@','@','@ == 1','(@)','OUTPUT (@)','@(1)','CALL @(1)','RETURN @','DECLARE q : @','DECLARE q : ARRAY[1:@] OF INTEGER','DECLARE q : ARRAY[@:2, 0:1] OF R','DECLARE q : ARRAY[0:1] OF @','CONSTANT q = @','TYPE Q = ^@','TYPE Q = (@)','DECLARE @ : INTEGER','INPUT @','READ @','OUTPUT INTEGER(@)','OUTPUT REAL(@)','OUTPUT STRING(@)','OUTPUT CHAR(@)','OUTPUT BOOLEAN(@)','OUTPUT DATE(@)','OUTPUT DIV(@, 2)','OUTPUT MOD(7, @)','FUNCTION g() RETURNS INTEGER\nRETURN @\nENDFUNCTION\nOUTPUT g()','FUNCTION g() RETURNS R\nRETURN @\nENDFUNCTION\nrec2 <- g()\nOUTPUT rec2.v','FUNCTION g(q : @) RETURNS STRING\nRETURN q\nENDFUNCTION\nOUTPUT g("s")','FUNCTION g() RETURNS P\nDECLARE loc : INTEGER\nRETURN ^loc\nENDFUNCTION\np <- g()\np^ <- @\nOUTPUT p^']
FCTX=['OPENFILE @ FOR READ','OPENFILE @ FOR WRITE','OPENFILE "@" FOR RANDOM','CLOSEFILE @','READFILE "r", @','READFILE @, st','WRITEFILE "w", @','WRITEFILE @, 1','WRITEFILE "r", @','SEEK "g", @','SEEK @, 1','GETRECORD "g", @','GETRECORD @, rec','PUTRECORD "g", @','PUTRECORD @, rec','READFILE "g", @','PUTRECORD "w", @','GETRECORD "r", @','SEEK "r", @','OUTPUT EOF(@)','OUTPUT EOF("g")\nGETRECORD "g", @','PUTRECORD "g", @\nSEEK "g", 1\nGETRECORD "g", @\nCLOSEFILE "g"\nOPENFILE "g" FOR RANDOM\nGETRECORD "g", @']
BARG=[('LENGTH',1),('LEFT',2),('RIGHT',2),('MID',3),('TO_UPPER',1),('TO_LOWER',1),('NUM_TO_STR',1),('STR_TO_NUM',1),('IS_NUM',1),('EOF',1),('LCASE',1),('UCASE',1),('ASC',1),('CHR',1),('DAY',1),('MONTH',1),('YEAR',1),('DAYINDEX',1),('SETDATE',3),('TODAY',0),('TIME',0),('HOURS',0),('MINUTES',0),('SECONDS',0),('POW',2),('EXP',1),('SIN',1),('COS',1),('TAN',1),('ASIN',1),('ACOS',1),('ATAN',1),('ATAN2',2),('SQRT',1),('LOG',1),('LN',1),('RAND',1),('INT',1)]
GOOD={'LENGTH':['"ab"'],'LEFT':['"abc"','2'],'RIGHT':['"abc"','2'],'MID':['"abc"','1','2'],'SETDATE':['1','2','2020'],'EOF':['"r"'],'LCASE':["'c'"],'UCASE':["'c'"],'ASC':["'c'"],'CHR':['65'],'DAY':['dt'],'MONTH':['dt'],'YEAR':['dt'],'DAYINDEX':['dt'],'TO_UPPER':['"a"'],'TO_LOWER':['"a"'],'STR_TO_NUM':['"1"'],'IS_NUM':['"1"'],'POW':['2','3'],'ATAN2':['1','2']}
RECF={'i':('INTEGER 5\n','INTEGER'),'r':('REAL -1.5e3\n','REAL'),'s':('STRING 3 abc\n','STRING'),'s2':('STRING 4 a\n#b\n','STRING'),'c':('CHAR a\n','CHAR'),'c2':('CHAR \n#\n','CHAR'),'b':('BOOLEAN TRUE\n','BOOLEAN'),'d':('DATE 1 2 2020\n','DATE'),'e':('ENUM E 1\n','E'),'R':('COMPOSITE R INTEGER 1 STRING 2 ab ENUM E 0 ARRAY 2 INTEGER 1 INTEGER 2\n','R'),'p':('POINTER x\n','P')}
def nest(n):
    z={'paren':'OUTPUT '+'('*n+'<<o>>'+')'*n+'\n','minus':'OUTPUT '+'-'*n+'<<o>>\n','not':'OUTPUT '+'NOT '*n+'<<o>>\n','idx':'OUTPUT '+'arr['*n+'<<o>>'+']'*n+'\n','call':'OUTPUT '+'f('*n+'<<o>>'+')'*n+'\n','cast':'OUTPUT '+'STRING('*n+'<<o>>'+')'*n+'\n','cat':'OUTPUT "a"'+' & <<o>>'*n+'\n','sum':'OUTPUT 1'+' + <<o>>'*n+'\n','and':'OUTPUT TRUE'+' AND <<o>>'*n+'\n','deref':'OUTPUT p'+'^'*n+'\nOUTPUT <<o>>\n','member':'OUTPUT rec'+'.v'*n+'\nOUTPUT <<o>>\n','len':'OUTPUT '+'LENGTH(STRING('*(n//2)+'<<o>>'+'))'*(n//2)+'\n',
     'if':'IF TRUE THEN\n'*n+'OUTPUT <<o>>\n'+'ENDIF\n'*n,'else':'IF FALSE THEN\nELSE\n'*n+'OUTPUT <<o>>\n'+'ENDIF\n'*n,'elif':'IF FALSE THEN\n'+'ELSE IF FALSE THEN\nOUTPUT 1\n'*n+'ELSE\nOUTPUT <<o>>\nENDIF\n','while':'WHILE TRUE DO\n'*n+'OUTPUT <<o>>\n'+'BREAK\nENDWHILE\n'*n,'repeat':'REPEAT\n'*n+'OUTPUT <<o>>\n'+'UNTIL TRUE\n'*n,'for':'FOR i <- 1 TO 1\n'*n+'OUTPUT <<o>>\nBREAK\n'+'NEXT\n'*n,'case':'CASE OF x\n2 : OUTPUT 2\n'*n+'OUTPUT <<o>>\n'+'ENDCASE\n'*n,'clauses':'CASE OF x\n'+''.join('%d : OUTPUT 2\n'%(i+5) for i in range(n))+'OTHERWISE : OUTPUT <<o>>\nENDCASE\n','procs':'PROCEDURE q0\nOUTPUT <<o>>\nENDPROCEDURE\n'+''.join(f'PROCEDURE q{i}\nCALL q{i-1}\nENDPROCEDURE\n' for i in range(1,n))+f'CALL q{n-1}\n','args':'OUTPUT '+', '.join(['<<o>>']*n)+'\n','params':'PROCEDURE m('+', '.join(f'a{i} : INTEGER' for i in range(n))+')\nOUTPUT a0\nENDPROCEDURE\nCALL m('+', '.join(['<<o>>']*n)+')\n','stmts':'x <- x + <<o>>\n'*n,'names':'DECLARE '+', '.join(f'n{i}' for i in range(n))+' : INTEGER\nOUTPUT <<o>>\n','enum':'TYPE Z = ('+', '.join(f'z{i}' for i in range(n))+')\nDECLARE z : Z\nz <- z5\nOUTPUT z\nOUTPUT <<o>>\n','rtype':'TYPE T0\nDECLARE v : INTEGER\nENDTYPE\n'+''.join(f'TYPE T{i}\nDECLARE v : T{i-1}\nENDTYPE\n' for i in range(1,min(n,300)))+f'DECLARE t : T{min(n,300)-1}\nOUTPUT t'+'.v'*min(n,300)+'\nOUTPUT <<o>>\n','unclosed':'OUTPUT '+'('*n+'<<o>>\n','open':'IF TRUE THEN\n'*n+'OUTPUT <<o>>\n','ident':'x'*n+' <- <<o>>\nOUTPUT '+'x'*n+'\n','strlit':'OUTPUT "'+'s'*n+'" & <<o>>\n','digits':'OUTPUT 0.'+'1'*n+' + <<o>>\nOUTPUT '+'0'*n+'1\n','big':'OUTPUT <<o>>\nOUTPUT '+'9'*n+'\n','bigreal':'OUTPUT '+'9'*n+'.5\nOUTPUT <<o>>\n','spaces':'OUTPUT'+' '*n+'<<o>>'+'\t'*n+'\n'+'\n'*n+'OUTPUT 2\n','comment':'//'+'c'*n+'\nOUTPUT <<o>> //'+'/'*n+'\n'}
    return z
DEEP={
 'proc':'PROCEDURE d(n : INTEGER)\nIF n = 0 THEN\n<<o>>\nELSE\nCALL d(n - 1)\nENDIF\nENDPROCEDURE\nCALL d(@)\n',
 'func':'FUNCTION d(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\n<<o>>\nRETURN 1\nENDIF\nRETURN 1 + d(n - 1)\nENDFUNCTION\nOUTPUT d(@)\n',
 'byref':'PROCEDURE d(n : INTEGER, BYREF q : INTEGER)\nq <- q + 1\nIF n = 0 THEN\n<<o>>\nELSE\nCALL d(n - 1, q)\nENDIF\nENDPROCEDURE\nCALL d(@, x)\nOUTPUT x\n',
 'rec':'PROCEDURE d(n : INTEGER, q : R)\nDECLARE loc : R\nloc <- q\nloc.v <- n\nIF n = 0 THEN\n<<o>>\nELSE\nCALL d(n - 1, loc)\nENDIF\nENDPROCEDURE\nCALL d(@, rec)\n',
 'mutual':'PROCEDURE d(n : INTEGER)\nIF n = 0 THEN\n<<o>>\nELSE\nFOR i <- 1 TO 1\nCASE OF n\n0 : OUTPUT 0\nOTHERWISE : CALL g(n - 1)\nENDCASE\nNEXT\nENDIF\nENDPROCEDURE\nPROCEDURE g(n : INTEGER)\nIF n = 0 THEN\n<<o>>\nELSE\nWHILE TRUE DO\nCALL d(n - 1)\nBREAK\nENDWHILE\nENDIF\nENDPROCEDURE\nCALL d(@)\n',
 'expr':'FUNCTION d(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\n<<o>>\nRETURN 1\nENDIF\nRETURN (((1 + INTEGER(REAL(d(n - 1))))))\nENDFUNCTION\nOUTPUT d(@)\n'}
def line_toks(src): return [c11.toks(l) for l in src.rstrip('\n').split('\n')]
def templates(tier):
    out=[]; deep=tier!='quick'
    def C(name,src,**k): k.setdefault('crash_only',True); return T(out,name,src,**k)
    # ---- token sequences
    for i,a in enumerate(V):
        A=a
        C(f'tok2/{i}',A+' <<b>>',b=CH('',*V),asan=4 if not deep else 2,repl=(i%4==1),ped=(i%4==2),weight=2)
        if deep:
            C(f'tok2r/{i}',A+' <<b>>\nx <- 1\nx\n',b=CH('',*V),repl=True)
            C(f'tok3/{i}',A+' <<b>> <<c>>',b=CH(*V),c=CH(*V),asan=10,prio=-2,weight=6)
        else: C(f'tok3/{i}',A+' <<b>> <<c>>\n',b=CH(*W[i%7::7]),c=CH(*W[i%6::6]),asan=3,repl=(i%4==0),weight=2)
    for i,a in enumerate(W):
        C(f'toks/{i}',f'x <- {a} <<b>> <<c>>\n',b=CH(*(V if deep else W[(i+3)%9::9])),c=CH(*(W if deep else W[i%8::8])),asan=3,weight=2,prio=-1 if deep else 0)
    # ---- raw bytes
    for n in (1,2,3)+((4,) if deep else ()): C(f'bytes/{n}','<<b>>',b=BY(n,ALL,'x'),weight=4,asan=True if n<3 else 4); C(f'bytesr/{n}','<<b>>\nx <- 1\nx\n',b=BY(n,ALL,'x'),repl=True,weight=3,asan=True if n<3 else 4)
    LEX=['"ab','"',"'","'a","'\\",'"\\','"\\n','1','1.','1.5','-','<','1/','1/2','1/2/','1/2/2','31/12/','x','IF','INTEGE','INTEGER','//','/','(','x[','x^','x.','OUTPUT','OUTPUT ','x <','x <-','CASE OF x\n1 ','CASE OF x\n1:','FOR i <- 1 TO 2\n','PROCEDURE p\n','TYPE a','DECLARE x : ','^','=','==',')','x(','f(1,','\n','\t','9223372036854775807','99999999999999999999','0.0','1e','1.e']
    for i,l in enumerate(LEX):
        C(f'lex/{i}',l+'<<b>>',b=BY(2,MIX,'1') if not deep else BY(3,ALL,'1'),asan=2 if not deep else 6,weight=2)
        C(f'lexn/{i}',l+'<<b>>\nOUTPUT 1\n',b=BY(1,ALL,'1'))
        if i%3==0 or deep: C(f'lexr/{i}',l+'<<b>>\n\nOUTPUT 1\n',b=BY(1,ALL,'1'),repl=True)
    # ---- byte mutations of valid programs
    POOL={**c11.U,**{'c10'+k:v for k,v in c10.P.items()},'env':ENV}
    step=3 if deep else 23; off=0
    for n,src in POOL.items():
        for i in range(off%step,len(src),step):
            C(f'mut/{n}/{i}',src[:i]+'<<b>>'+src[i+1:],b=BY(1,ALL,src[i]),stdin='in\n7\n',ped=(i%5==2),asan=3,prio=-1)
        off+=7
        if not deep: continue
        for i in range(1,len(src),11): C(f'mut2/{n}/{i}',src[:i]+'<<b>>'+src[i+1:],b=BY(2,ALL,'x'),stdin='in\n7\n',asan=5,prio=-1)
        for i in range(1,len(src),5): C(f'cut/{n}/{i}',src[:i]+'<<b>>',b=CH('','\n','"',"'",'(','<',')','/','\\','1','x','//'),stdin='in\n7\n',prio=-1)
    # ---- token mutations
    for n,src in POOL.items():
        L=line_toks(src); ls=src.rstrip('\n').split('\n')
        for i,t in enumerate(L):
            for j in range(len(t)):
                if not deep and (i*3+j+off)%9: continue
                g=lambda r:'\n'.join(ls[:i]+[' '.join(r)]+ls[i+1:])+'\n'
                C(f'tmut/{n}/{i}.{j}',g(t[:j]+['<<v>>']+t[j+1:]),v=CH(*(V if deep else W[(i+j)%4::4])),stdin='in\n7\n',asan=2,prio=-1)
    # ---- every context x every operand
    files={'r':'line 1\n2\n','g':'INTEGER 5\n'}
    for c,ct in enumerate(CTX+FCTX):
        src=ENV+(FOPEN if ct in FCTX else '')+ct.replace('@','<<o>>')+'\nOUTPUT x\n'
        ops=OPS if deep else OPX+[o for o in OPS[c%4::4] if o not in OPX]
        C(f'ctx/{c}',src,o=CH(*ops),stdin='5\nab\n',files=files if ct in FCTX else None,weight=2,prio=1,asan=2)
        if deep or c%4==0: C(f'ctxr/{c}',ENV.replace('END','END').replace('\nENDTYPE\n','\nENDTYPE\n\n').replace('ENDPROCEDURE\n','ENDPROCEDURE\n\n').replace('ENDFUNCTION\n','ENDFUNCTION\n\n')+(FOPEN if ct in FCTX else '')+ct.replace('@','<<o>>')+'\n\nOUTPUT x\n<<o>>\n',o=CH(*ops),repl=True,files=files if ct in FCTX else None,weight=2)
        if deep: C(f'ctxp/{c}',src,o=CH(*ops),stdin='5\nab\n',files=files if ct in FCTX else None,ped=True,weight=2)
        if ct.count('@')==2 and deep: C(f'ctx2/{c}',ENV+(FOPEN if ct in FCTX else '')+ct.replace('@','<<o>>',1).replace('@','<<q>>')+'\n',o=CH(*OPX),q=CH(*OPX),stdin='5\nab\n',weight=3)
    for n,k in BARG:
        for j in range(k):
            args=GOOD.get(n,['1']*k)
            C(f'bi/{n}/{j}',ENV+'OPENFILE "r" FOR READ\n'+f'OUTPUT {n}('+', '.join(args[:j]+['<<o>>']+args[j+1:])+')\nOUTPUT x\n',o=CH(*(OPS if deep else OPX)),files=files)
        C(f'bin/{n}',ENV+f'OUTPUT <<o>>\nx <- 1\nOUTPUT {n}(<<o>>)\n',o=CH(f'{n}()',n,f'{n}(1)',f'{n}(1, 2)',f'{n}(1, 2, 3)',f'{n}("a", 1)',f'{n}({n})',f'CALL {n}',f'{n} <- 1',f'{n}(1, 2, 3, 4)'))
    # numbers at their limits
    EXTR=['9223372036854775807','(-9223372036854775807)','(-9223372036854775807 - 1)','4294967296','2147483648','(-1)','0','255','256','65536']
    NUM=['OUTPUT CHR(@)','OUTPUT LEFT("abc", @)','OUTPUT RIGHT("abc", @)','OUTPUT MID("abc", @, 2)','OUTPUT MID("abc", 2, @)','OUTPUT MID("abc", @, @)','OUTPUT arr[@]','arr[@] <- 1','OUTPUT mat[@, 1]','OUTPUT mat[0, @]','OUTPUT CHAR(@)','OUTPUT STRING(@)','OUTPUT SETDATE(@, 1, 2000)','OUTPUT SETDATE(1, @, 2000)','OUTPUT SETDATE(1, 1, @)','OUTPUT SETDATE(@, @, @)','SEEK "g", @','OUTPUT RAND(@)','OUTPUT 5 DIV @','OUTPUT @ DIV -1','OUTPUT @ MOD -1','OUTPUT @ MOD 5','OUTPUT DIV(@, -1)','OUTPUT MOD(@, -1)','OUTPUT -@','OUTPUT @ / @','OUTPUT REAL(@)','FOR i <- @ TO @\nOUTPUT i\nBREAK\nNEXT','FOR i <- 1 TO 3 STEP @\nOUTPUT i\nNEXT','OUTPUT BOOLEAN(@)','OUTPUT NUM_TO_STR(@)','OUTPUT INT(@)','OUTPUT SQRT(@)','OUTPUT LN(@)','OUTPUT POW(@, @)','OUTPUT POW(2, @)','OUTPUT ASC(CHR(@))','CASE OF x\n@ : OUTPUT 1\n@ TO 5 : OUTPUT 2\nENDCASE','recs[@].v <- 1','OUTPUT DAYINDEX(SETDATE(1, 1, @))','OUTPUT INTEGER(@)','OUTPUT DAY(SETDATE(31, 12, @))','OUTPUT ATAN2(@, @)']
    for c,ct in enumerate(NUM):
        h=lambda: dict(files={'g':'INTEGER 5\n'},prio=1)
        C(f'num/{c}',ENV+FOPEN.replace('OPENFILE "r" FOR READ\n','')+ct.replace('@','(<<i>>)')+'\n',i=I(),nz=(),**h())
        C(f'numx/{c}',ENV+FOPEN.replace('OPENFILE "r" FOR READ\n','')+ct.replace('@','<<i>>')+'\n',i=CH(*EXTR),**h())
        C(f'numr/{c}',ENV+FOPEN.replace('OPENFILE "r" FOR READ\n','')+ct.replace('@','(<<r>>)')+'\n',r=R(-1e300,1e300),**h())
    for lo,hi in ((1,-1),(5,3),(0,0),(-3,-1),(2,9)): C(f'bounds/{lo}.{hi}',f'DECLARE q : ARRAY[<<a>>:{hi}, 1:<<b>>] OF STRING\nq[1, 1] <- "z"\nOUTPUT q[1, 1]\nOUTPUT q[<<c>>, 1]\n',a=I(-4,9,lo),b=I(-4,9,2),c=I(-12,12,1))
    # ---- stdin
    for ty in ('INTEGER','REAL','STRING','CHAR','BOOLEAN','DATE','E','P','R'):
        for n in (0,1,2,3)+((4,5) if deep else ()):
            C(f'in/{ty}/{n}',ENV+f'DECLARE q, z : {ty}\nINPUT q\nOUTPUT q\nINPUT z\nOUTPUT z\n',stdin='<<b>>' if n else '',asan=True if n<3 else 3,**(dict(b=BY(n,ALL,'1')) if n else {}))
        C(f'innum/{ty}',ENV+f'DECLARE q, z : {ty}\nINPUT q\nOUTPUT q\nINPUT z\nOUTPUT z\n',stdin='<<b>>',b=CH('99999999999999999999\n5','-9223372036854775808\n','1e999\n','-1e-999\n','1.7976931348623157e308\n','nan\n','inf\n','0x10\n','1'*400+'\n','1/2/3/4\n','31/12/99999999999\n','0/0/0\n','99999999999/1/1\n','//\n','1//\n',' \n','\t\n','\r\n','\0\n','\x001\n','TRUE\nFALSE','TRUE \n','-','+\n','.','-.\n','1.\n','.5\n','--1\n','1-1\n','9223372036854775807\n','9223372036854775808\n','x'*3000))
    C('in/idx',ENV+'INPUT arr[1]\nOUTPUT arr[1]\nINPUT rec.v\nINPUT rec.s\nINPUT p^\nINPUT mat[1, 1]\nINPUT newv\nOUTPUT rec.v, rec.s, p^, mat[1, 1], newv\n',stdin='1\n<<b>>\n3\n4\n',b=BY(2,ALL,'1'))
    # ---- data files
    for n in (0,1,2,3)+((4,) if deep else ()):
        h=dict(b=BY(n,ALL,'a')) if n else {}; b='<<b>>' if n else ''
        C(f'data/read/{n}','OPENFILE "r" FOR READ\nWHILE NOT EOF("r") DO\nREADFILE "r", l\nOUTPUT LENGTH(l), l\nENDWHILE\nREADFILE "r", l\n',files={'r':b},asan=True if n<3 else 3,**h)
        C(f'data/app/{n}','OPENFILE "r" FOR APPEND\nWRITEFILE "r", "z"\nCLOSEFILE "r"\nOPENFILE "r" FOR READ\nREADFILE "r", l\nOUTPUT l\nREADFILE "r", l\nOUTPUT l\nCLOSEFILE "r"\n',files={'r':b},asan=True if n<3 else 3,**h)
        for ty in ('INTEGER','STRING','R') if not deep else ('INTEGER','REAL','STRING','CHAR','BOOLEAN','DATE','E','R'):
            C(f'data/rand/{ty}/{n}',ENV+f'DECLARE q : {ty}\nOPENFILE "g" FOR RANDOM\nGETRECORD "g", q\nOUTPUT "got"\nSEEK "g", 2\nPUTRECORD "g", q\nGETRECORD "g", q\nCLOSEFILE "g"\n',files={'g':b},asan=True if n<3 else 3,**h)
    G='OPENFILE "g" FOR RANDOM\nGETRECORD "g", q\nOUTPUT "got"\nPUTRECORD "g", q\nSEEK "g", 2\nGETRECORD "g", q\nCLOSEFILE "g"\nOUTPUT q\n'
    for n,(rec,ty) in RECF.items():
        src=ENV+f'DECLARE q : {ty}\n'+G
        for i in range(0,len(rec),1 if deep or len(rec)<20 else 3):
            C(f'recb/{n}/{i}',src,files={'g':rec[:i]+'<<b>>'+rec[i+1:]+rec},b=BY(1,ALL,rec[i]))
            C(f'recc/{n}/{i}',src,files={'g':rec[:i]+'<<b>>'},b=CH('','\n','\n#','#','\0',' ','-',' 9','\n\n',' \n'))
        for j,ty2 in enumerate(('INTEGER','REAL','STRING','CHAR','BOOLEAN','DATE','E','R','P')):
            C(f'rect/{n}/{ty2}',ENV+f'DECLARE q : {ty2}\n'+G,files={'g':rec+'<<c>>'},c=CH('','\n','x','#\n','\n\n\n',rec))
    for j,(rec,ty) in enumerate((('INTEGER <<n>>\n','INTEGER'),('STRING <<n>> abc\n','STRING'),('STRING 3<<n>> abc\n','STRING'),('ENUM E <<n>>\n','E'),('DATE <<n>> 1 2000\n','DATE'),('DATE 1 <<n>> 2000\n','DATE'),('DATE 1 1 <<n>>\n','DATE'),('COMPOSITE R INTEGER <<n>> STRING <<m>> ab ENUM E 0 ARRAY 2 INTEGER 1 INTEGER 2\n','R'),('COMPOSITE R INTEGER 1 STRING 2 ab ENUM E <<n>> ARRAY <<m>> INTEGER 1 INTEGER 2\n','R'),('REAL <<n>>\n','REAL'))):
        C(f'recn/{j}',ENV+f'DECLARE q : {ty}\n'+G,files={'g':rec},n=I(),**(dict(m=I(-5,40,2)) if '<<m>>' in rec else {}))
        C(f'recx/{j}',ENV+f'DECLARE q : {ty}\n'+G,files={'g':rec.replace('<<m>>','2')},n=CH('18446744073709551615','18446744073709551616','-1','99999999999999999999999','4294967297','2147483648','-2147483649','0','','x','1e400','nan','inf','9223372036854775808','-0','+1','0x1',' 1',"1 "))
    C('enumidx',ENV+'OPENFILE "g" FOR RANDOM\nGETRECORD "g", en\nOUTPUT en\nOUTPUT en = Red\nen <- Green\nPUTRECORD "g", en\nDECLARE z : ARRAY[0:1] OF E\nz[0] <- en\nOUTPUT z[0]\n',files={'g':'ENUM E <<n>>\n'},n=I())
    # ---- nesting and depth
    for d in (60,1000) if not deep else (60,300,1000):
        for n,src in nest(d).items():
            C(f'nest/{n}/{d}',ENV+src,o=CH('1','"s"','TRUE','undef','rec','1 DIV zero','') if d<1000 else CH('1','undef',''),prio=2,asan=True)
            if d<1000: C(f'nestr/{n}/{d}',ENV.replace('\nENDTYPE\n','\nENDTYPE\n\n').replace('ENDPROCEDURE\n','ENDPROCEDURE\n\n').replace('ENDFUNCTION\n','ENDFUNCTION\n\n')+src+'\nOUTPUT x\n',repl=True,o=CH('1','undef',''),prio=1)
    for d in (30,995):
        for n,src in DEEP.items():
            C(f'deep/{n}/{d}',ENV+src.replace('@',str(d)),o=CH('OUTPUT "b"','OUTPUT undef','OUTPUT 1 DIV zero','BREAK','RETURN 7','CALL prc','x <- "s"','OUTPUT arr[9]','OUTPUT LENGTH()') if d<100 or deep else CH('OUTPUT "b"','OUTPUT undef','OUTPUT noret(1)'),prio=2)
    # ---- lifetimes: locals, temporaries, redefinitions, failing entries
    LIFE=['PROCEDURE mk(BYREF q : P)\nDECLARE loc : INTEGER\nloc <- 7\nq <- ^loc\nENDPROCEDURE\nCALL mk(p)\n<<o>>\n','FUNCTION mk() RETURNS P\nDECLARE loc : ARRAY[1:3] OF INTEGER\nloc[2] <- 7\nRETURN ^loc[2]\nENDFUNCTION\np <- mk()\n<<o>>\n','PROCEDURE mk(BYREF q : PR)\nDECLARE loc : R\nloc.v <- 7\nq <- ^loc\nENDPROCEDURE\nCALL mk(pr)\n<<o>>\n','PROCEDURE mk(BYREF q : P)\nDECLARE loc : R\nq <- ^loc.v\nENDPROCEDURE\nCALL mk(p)\n<<o>>\n','PROCEDURE mk(par : INTEGER, BYREF q : P)\nq <- ^par\nENDPROCEDURE\nCALL mk(5, p)\n<<o>>\n','PROCEDURE mk(BYREF par : INTEGER, BYREF q : P)\nq <- ^par\nENDPROCEDURE\nCALL mk(arr[2], p)\nCALL mk(x, pu)\n<<o>>\n','p <- ^rec.v\nrec <- rec2\n<<o>>\n','p <- ^rec.a[2]\nrec <- rec2\n<<o>>\n','p <- ^arr[2]\narr <- arr2\n<<o>>\n','p <- ^recs[2].v\nrecs[2] <- recs[1]\n<<o>>\n','p <- ^x\nx <- 5\nFOR x <- 1 TO 2\n<<o>>\nNEXT\n','pr <- ^recs[1]\npr^ <- pr^\npr^.a[1] <- pr^.v\n<<o>>\n','rec.s <- rec.s & rec.s\nrec <- rec\narr <- arr\nrecs[1] <- recs[1]\n<<o>>\n','TYPE N\nDECLARE v : INTEGER\nDECLARE next : PN\nENDTYPE\nTYPE PN = ^N\n<<o>>\n','TYPE PN = ^PN\nDECLARE q : PN\nq <- ^q\nOUTPUT q^^^\n<<o>>\n','PROCEDURE d(n : INTEGER, BYREF q : P)\nDECLARE loc : INTEGER\nloc <- n\nIF n > 0 THEN\nCALL d(n - 1, q)\n<<o>>\nELSE\nq <- ^loc\nENDIF\nENDPROCEDURE\nCALL d(3, p)\n<<o>>\n','DECLARE q : ARRAY[1:2] OF P\nPROCEDURE mk(BYREF z : P)\nDECLARE l1 : INTEGER\nz <- ^l1\nENDPROCEDURE\nCALL mk(q[2])\np <- q[2]\npu <- p\n<<o>>\n','FUNCTION g(n : INTEGER) RETURNS R\nDECLARE loc : R\nloc.v <- n\nRETURN loc\nENDFUNCTION\nrec <- g(4)\npr <- ^rec\nrec <- g(5)\n<<o>>\n','TYPE LT\nDECLARE z : INTEGER\nENDTYPE\nFUNCTION lt() RETURNS INTEGER\nTYPE LT2\nDECLARE z : INTEGER\nENDTYPE\nDECLARE l : LT2\nl.z <- 3\nRETURN l.z\nENDFUNCTION\nOUTPUT lt(), lt()\n<<o>>\n','PROCEDURE t\nTYPE C = (c1, c2)\nDECLARE e : C\ne <- c2\nOUTPUT e\nENDPROCEDURE\nCALL t\nCALL t\nOUTPUT c1\n<<o>>\n','PROCEDURE q\nPROCEDURE r\nOUTPUT 1\nENDPROCEDURE\nCALL r\nENDPROCEDURE\nCALL q\nCALL q\nCALL r\n<<o>>\n']
    USE=['OUTPUT p^','p^ <- 3','OUTPUT p','pu <- p\nOUTPUT pu^','CALL pref(p^)\nOUTPUT p^','OUTPUT pr^.v, pr^.s','pr^.v <- 4','OUTPUT pr^.a[1]','pr^ <- rec2','rec2 <- pr^\nOUTPUT rec2.v','OUTPUT p^ + f(p^)','INPUT p^','FOR i <- 1 TO p^\nOUTPUT i\nBREAK\nNEXT','IF p = pu THEN\nOUTPUT "eq"\nENDIF','CASE OF x\n1 TO 9 : OUTPUT p^\nENDCASE','OUTPUT x, arr[2], rec.v, rec2.v','p <- ^p^\nOUTPUT p^','CALL prec(pr^, rec2)\nOUTPUT rec2.v','CALL prec(rec2, pr^)']
    for i,l in enumerate(LIFE):
        C(f'life/{i}',ENV+l+'<<q>>\nOUTPUT "end"\n',o=CH(*(USE if deep else USE[i%2::2])),q=CH('',*(USE if deep else USE[i%5::5])),stdin='4\n5\n',prio=1,weight=2)
    # ---- REPL histories: every entry may fail; old tokens, nodes and caches stay in use
    RE=['x <- 1','x <- nope','PROCEDURE p\nOUTPUT x\nENDPROCEDURE\n','PROCEDURE p(\n','CALL p','FUNCTION f(n : INTEGER) RETURNS INTEGER\nRETURN n + x\nENDFUNCTION\n','f(2)','TYPE T\nDECLARE v : INTEGER\nENDTYPE\n','DECLARE t : T','t.v <- 3','t.v','TYPE T = ^INTEGER','IF TRUE THEN\nOUTPUT x\n','FOR i <- 1 TO 2\nOUTPUT f(i)\nNEXT\n','@','"abc','OUTPUT (','x','CASE OF x\n1 : OUTPUT 1 DIV 0\nENDCASE\n','CONSTANT c = 5','q <- ^x','EXIT','RUNFILE q.ps','?','IF','\n']
    for i,a in enumerate(RE):
        f=lambda z:z+('\n' if '\n' in z else '')
        C(f'repl/{i}',f(a)+'\n<<a>>\n<<b>>\n'+a+'\n\nCALL p\nf(3)\nx\nt.v\n',repl=True,a=CH(*map(f,RE)),b=CH(*map(f,RE if deep else RE[i%3::3])),files={'q.ps':'x <- 5\nOUTPUT x\nPROCEDURE p\nOUTPUT nope\nENDPROCEDURE\nCALL p\n'},weight=3,asan=2)
    # ---- command line and odd files
    for n,src in {'empty':'','nl':'\n','crlf':'OUTPUT 1\r\nOUTPUT 2\r\n<<o>>','nul':'OUTPUT "a\0b"\n<<o>>','hi':'OUTPUT "\xff\xfe\x80"\n<<o>>','noeol':'<<o>>'}.items():
        C(f'odd/{n}',src,ped=False,**(dict(o=CH('OUTPUT 1','x','"','\r','\0','OUTPUT nope','IF','1 DIV 0')) if '<<o>>' in src else {}))
    # ---- a sample of every other check's templates (thorough: all of them)
    others=[]
    for k in range(2,21):
        m=importlib.import_module('checks.c%02d'%k)
        ts=[t for t in m.templates('quick')]
        st=1 if deep else max(1,len(ts)//14)
        for t in ts[k%st::st]:
            t.name='C%02d/%s'%(k,t.name); t.crash_only=True; t.same=[]; t.prio=-3; t.weight=1.0; t.maxstep=None
            t.asan=2 if not deep else 3; others.append(t)
    out+=others
    return out
