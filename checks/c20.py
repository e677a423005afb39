"""C20: --pedantic only rejects."""
import importlib, re
from .common import *
from sym.template import Tpl
BOUNDS='every template is executed twice from the same initial state, without and with the option; both runs are compared with the reference and with each other (identical stdout, stderr, status and files unless the second run is rejected, otherwise its output is a prefix). Own templates: each banned construct at each kind of position (first, last, in dead code, nested in every block kind, in procedures, after syntax errors), undeclared targets whose execution depends on symbolic values, near misses (names containing the keywords, comments, strings, nested IF in ELSE on the next line, CASE/FOR/parameter/array/field/pointer targets), the interactive mode with the option, both option spellings; plus a sample of the templates of all other properties, as they are and with their variables declared first.'
OPTS=dict(asan_n=1)
QUICK=50
def decl(src,t):
    """the same source with every simple assignment target declared in front (types from the first value assigned)"""
    names=[]; seen=set()
    ty={}
    for l in src.split('\n'):
        m=re.match(r'\s*([A-Za-z]\w*) <- (.*)$',l)
        f=re.match(r'\s*FOR ([A-Za-z]\w*) <- ',l)
        i=re.match(r'\s*INPUT ([A-Za-z]\w*)$',l)
        if f: n,T_=f.group(1),'INTEGER'
        elif i: n,T_=i.group(1),'STRING'
        elif m:
            n,v=m.group(1),m.group(2); c=v.lstrip('(')[:1]; w=t.mk.get(c)
            if w and w[0]=='num': T_='INTEGER' if w[1].kind=='int' else 'REAL'
            elif c=='"': T_='STRING'
            elif c=="'": T_='CHAR'
            elif v.startswith(('TRUE','FALSE','NOT')): T_='BOOLEAN'
            elif re.match(r'\(?-?\d+/',v): T_='DATE'
            elif re.match(r'\(?-?\d+\.',v): T_='REAL'
            elif re.match(r'\(?-?\d',v): T_='INTEGER'
            else: continue
        else: continue
        if n in seen: continue
        seen.add(n)
        if re.search(r'\b(DECLARE|CONSTANT)[^\n]*\b%s\b[^\n]*[:=]'%n,src) or re.search(r'\b%s *:'%n,src): continue
        ty[n]=T_
    return ''.join('DECLARE %s : %s\n'%x for x in ty.items()),ty
def reuse(out,tier):
    mods=['c02','c03','c04','c05','c06','c07','c08','c09','c17','c18','c19','c13','c14','c15','c16','c11','c10']
    for mn in mods:
        try: m=importlib.import_module('checks.'+mn)
        except ImportError: continue
        ts=[t for t in m.templates('quick') if len(t.runs)==1 and not t.runs[0].repl and not t.runs[0].ped and not t.crash_only and t.runs[0].args[-1:]==['p.pseudo'] and len(t.runs[0].args)==1]
        step=1 if tier!='quick' else max(1,len(ts)//14)
        for k,t in enumerate(ts[(len(ts)//2)%step::step]):
            t.name='%s/%s'%(mn,t.name); t.weight=0.6; t.prio=-1
            d,ty=decl(t.runs[0].src,t)
            if d and k%2==0 or tier!='quick' and d: t.runs[0].src=d+t.runs[0].src; t.name+='+decl'
            both(t); out.append(t)
def templates(tier):
    out=[]
    def Q(name,src,opt='-p',**k):
        t=T(out,name,src,**k); both(t,opt); return t
    DEC='DECLARE a, b, i : INTEGER\nDECLARE s : STRING\nDECLARE c : BOOLEAN\n'
    # each construct: where it stands decides nothing (lexer and parser), what executes decides (undeclared targets)
    CON={'break':'WHILE TRUE\nOUTPUT "w"\nBREAK\nENDWHILE\n','continue':'FOR i <- 1 TO 2\nOUTPUT i\nCONTINUE\nNEXT\n','elseif':'IF a > 5 THEN\nOUTPUT 1\nELSE IF a > 2 THEN\nOUTPUT 2\nELSE\nOUTPUT 3\nENDIF\n',
     'straybreak':'BREAK\n','straycont':'CONTINUE\n'}
    for ty,v in (('INTEGER','2.5'),('REAL','2'),('STRING','2'),('CHAR','"c"'),('BOOLEAN','1'),('DATE','"1/2/2020"')):
        CON['cast'+ty]='OUTPUT %s(%s)\n'%(ty,v); CON['castin'+ty]='a <- 1\nIF a = 2 THEN\nc <- %s(%s) = %s(%s)\nENDIF\n'%(ty,v,ty,v)
        CON['castarg'+ty]='IF FALSE THEN\nOUTPUT LENGTH("a" & %s ( %s ))\nENDIF\n'%(ty,v)
    for k,c in CON.items():
        Q('con/first/'+k,'OUTPUT "s"\n'+c.replace('DECLARE','DECLARE')+'OUTPUT "e"\n' if 'a ' not in c and 'i ' not in c else DEC+'OUTPUT "s"\n'+c+'OUTPUT "e"\n','--pedantic')
        if k.startswith('castin'): continue
        for p,w in (('dead','IF FALSE THEN\n%sENDIF\n'),('while','WHILE c\n%sENDWHILE\n'),('proc','PROCEDURE P()\n%sENDPROCEDURE\n'),('case','CASE OF a\n1: OUTPUT 1\n%sOTHERWISE: OUTPUT 2\nENDCASE\n'),('last','%s')):
            Q('con/%s/%s'%(p,k),DEC+'a <- <<a>>\nOUTPUT "s", a\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", "x"\nCLOSEFILE "f"\nOUTPUT "t"\n'+w%c,a=I())
    Q('con/syntaxfirst',DEC+'OUTPUT )\nBREAK\n'); Q('con/syntaxafter',DEC+'BREAK\nOUTPUT )\n'); Q('con/lexafter',DEC+'WHILE c\nBREAK\nENDWHILE\nOUTPUT "abc\n')
    Q('con/syntaxelse',DEC+'IF a = 1 THEN\nELSE IF )\nENDIF\n'); Q('con/castbad','OUTPUT INTEGER\n'); Q('con/castbad2','OUTPUT INTEGER()\n')
    Q('con/two',DEC+'WHILE c\nCONTINUE\nBREAK\nENDWHILE\n'); Q('con/elsecast',DEC+'IF c THEN\nELSE IF REAL(1) = 1 THEN\nENDIF\n'); Q('con/castbreak',DEC+'OUTPUT REAL(1)\nBREAK\n')
    # undeclared targets
    for k,st in enumerate(['x <- <<v>>','INPUT x','x <- y','x[1] <- 2','x.f <- 2','x^ <- 2','y <- x','OUTPUT x','x <- P','CALL Q(x)','a <- x','IF x THEN\nENDIF','PUTRECORD "f", x','x <- a\nOUTPUT x','READFILE "f", x','GETRECORD "f", x','OPENFILE x FOR READ','FOR x <- 1 TO 2\nOUTPUT x\nNEXT','T <- 3','Red <- 3','INPUT Red','INPUT T','INPUT P','P <- 3','ar <- 5','INPUT ar','p <- ^x','r <- x','r.z <- 1','K <- 4','INPUT K','INPUT x[1]','INPUT r.z']):
        pre=DEC+'TYPE T = ^INTEGER\nTYPE R\nDECLARE f : INTEGER\nENDTYPE\nTYPE En = (Red, Green)\nDECLARE p : T\nDECLARE r : R\nDECLARE ar : ARRAY[1:2] OF INTEGER\nCONSTANT K = 3\nPROCEDURE P()\nOUTPUT "P"\nENDPROCEDURE\nPROCEDURE Q(v : INTEGER)\nOUTPUT v\nENDPROCEDURE\n'
        Q('und/%d'%k,pre+'OUTPUT "s"\n'+st+'\nOUTPUT "e", a\n',stdin='<<v>>\n5\n',v=I())
        Q('und/proc/%d'%k,pre+'PROCEDURE Z(k : INTEGER)\nIF k > 3 THEN\n'+st+'\nENDIF\nOUTPUT "e", a\nENDPROCEDURE\nOUTPUT "s"\nCALL Z(<<v>>)\nOUTPUT "t"\n',stdin='<<v>>\n5\n',v=I())
    Q('und/when',DEC+'a <- <<a>>\nOUTPUT a\nIF a > 7 THEN\nx <- a\nOUTPUT x\nELSE\nIF a = -7 THEN\nINPUT y\nOUTPUT y\nENDIF\nENDIF\nOUTPUT "e"\n',stdin='q\n',a=I())
    Q('und/iter',DEC+'FOR i <- 1 TO 4\nOUTPUT i\nIF i = <<k>> THEN\nz <- i\nENDIF\nNEXT\nOUTPUT "e"\n',k=I())
    Q('und/local',DEC+'PROCEDURE P(x : INTEGER)\nx <- x + 1\nDECLARE l : INTEGER\nl <- x\na <- l\nOUTPUT l\nIF x > <<k>> THEN\ng <- 2\nENDIF\nENDPROCEDURE\nCALL P(<<a>>)\nOUTPUT a\n',a=I(-9,9),k=I())
    Q('und/scope',DEC+'PROCEDURE P()\nDECLARE l : INTEGER\nl <- 1\nCALL W()\nENDPROCEDURE\nPROCEDURE W()\nl <- 2\nOUTPUT l\nENDPROCEDURE\nCALL P()\n')
    Q('und/later','PROCEDURE P()\ng <- g + 1\nOUTPUT g\nENDPROCEDURE\nDECLARE g : INTEGER\nCALL P()\nCALL P()\nOUTPUT g\n')
    Q('und/file','OPENFILE "f" FOR WRITE\nWRITEFILE "f", "one"\nx <- 1\nWRITEFILE "f", "two"\n'); Q('und/file2','DECLARE x : INTEGER\nOPENFILE "f" FOR RANDOM\nx <- <<x>>\nPUTRECORD "f", x\ny <- 2\nSEEK "f", 2\n',x=I())
    Q('und/diag','PROCEDURE P(a : INTEGER)\n\nu <- 10 DIV a\nOUTPUT u\nENDPROCEDURE\nOUTPUT "s"\nCALL P(<<a>>)\n',a=I())
    Q('und/inputfirst','INPUT x\nOUTPUT x\nDECLARE y : INTEGER\nINPUT y\nOUTPUT y\n',stdin='q\n<<y>>\n',y=I())
    # near misses: none of these is a banned construct
    Q('ok/names','DECLARE BREAKER, CONTINUED, Break1, ELSEIF, CAST, x_BREAK : INTEGER\nBREAKER <- <<a>>\nCONTINUED <- BREAKER\nBreak1 <- 1\nELSEIF <- 2\nCAST <- 3\nx_BREAK <- 4\nOUTPUT BREAKER, CONTINUED, Break1, ELSEIF, CAST, x_BREAK\n',a=I())
    Q('ok/text','// BREAK CONTINUE ELSE IF INTEGER(2) x <- 3\nDECLARE s : STRING\ns <- "BREAK CONTINUE ELSE IF x <- 3 INTEGER(2)"\nOUTPUT s, \'B\' // BREAK\n// y <- 1\nOUTPUT "<<b>>"\n',b=BY(3))
    Q('ok/nestedif',DEC+'a <- <<a>>\nIF a > 5 THEN\nOUTPUT 1\nELSE\nIF a > 2 THEN\nOUTPUT 2\nELSE\nOUTPUT 3\nENDIF\nENDIF\nOUTPUT "e"\n',a=I())
    Q('ok/nestedif2',DEC+'a <- <<a>>\nIF a > 5 THEN\nOUTPUT 1\nELSE // c\n\n  IF a > 2 THEN\nOUTPUT 2\nENDIF\nENDIF\n',a=I())
    Q('ok/loops',DEC+'FOR i <- <<a>> TO <<b>> STEP <<c>>\nb <- b + i\nOUTPUT b\nNEXT i\nWHILE b > 0 DO\nb <- b - 5\nENDWHILE\nREPEAT\nb <- b + 1\nUNTIL b >= 3\nOUTPUT i, b\n',a=I(-3,3),b=I(-3,3),c=CH('1 ','2 ','-1'))
    Q('ok/calls','DECLARE a : INTEGER\nFUNCTION F(x : INTEGER) RETURNS INTEGER\nIF x <= 1 THEN\nRETURN 1\nENDIF\nRETURN x * F(x - 1)\nENDFUNCTION\nPROCEDURE P(BYREF x : INTEGER, BYVAL y : INTEGER)\nx <- x + y\ny <- 0\nENDPROCEDURE\na <- <<a>>\nCALL P(a, F(3))\nOUTPUT a, F(4)\n',a=I())
    Q('ok/decls','TYPE R\nDECLARE f : INTEGER\nDECLARE g : ARRAY[1:2] OF STRING\nENDTYPE\nTYPE P = ^R\nTYPE E = (A, B, C)\nDECLARE r, q : R\nDECLARE p : P\nDECLARE e : E\nCONSTANT K = 5\nr.f <- <<a>>\nr.g[<<i>>] <- "x"\nq <- r\np <- ^q\n(p^).f <- K\nOUTPUT r.f, q.f, r.g[1], r.g[2]\ne <- B + <<a>>\nOUTPUT e\n'.replace('(p^).f <- K\n',''),a=I(),i=I())
    Q('ok/input',DEC+'INPUT a\nINPUT s\nINPUT c\nOUTPUT a, s, c\n',stdin='<<a>>\n<<s>>\n<<c>>\n',a=I(),s=BY(2),c=B)
    Q('ok/builtins','DECLARE s : STRING\ns <- "<<s>>"\nOUTPUT LENGTH(s), LEFT(s, 1), RIGHT(s, 1), MID(s, 1, 1), TO_UPPER(s), TO_LOWER(s), NUM_TO_STR(3), STR_TO_NUM("4"), IS_NUM(s), INT(2.5), ASC(\'a\'), CHR(66)\nOUTPUT DAY(1/2/2020), MONTH(1/2/2020), YEAR(1/2/2020), DAYINDEX(1/2/2020), SETDATE(1, 2, 2020)\n',s=BY(2))
    Q('ok/files',DEC+'OPENFILE "f" FOR WRITE\nWRITEFILE "f", <<a>>\nWRITEFILE "f", "<<s>>"\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", s\nOUTPUT s, EOF("f")\nREADFILE "f", s\nOUTPUT s, EOF("f")\nCLOSEFILE "f"\nOPENFILE "g" FOR RANDOM\na <- <<a>>\nPUTRECORD "g", a\nGETRECORD "g", b\nOUTPUT b\nSEEK "g", 2\nCLOSEFILE "g"\n',a=I(),s=BY(3))
    Q('ok/datedecl','DECLARE d : DATE\nd <- 3/4/2020\nOUTPUT d, 10 / 5, <<a>> / 2\nDECLARE INTEGER1 : INTEGER\nINTEGER1 <- (3)\nOUTPUT INTEGER1\n',a=I(0,50))
    Q('ok/logic',DEC+'a <- <<a>>\nb <- <<b>>\nc <- a < b AND NOT (a = b) OR b >= 7\nOUTPUT c, a & b, a MOD 7, b DIV 3, a = b, a <> b\n',a=I(),b=I())
    for k,e in enumerate(['10 DIV a','LEFT("abc", a)','ar[a]','r.nope','p^','1/0/2020 = 1/1/2020','CHR(a)','F(1)','"x" + 1','NOT a','-s','Green2']):
        Q('ok/err/%d'%k,DEC+'TYPE T = ^INTEGER\nTYPE R\nDECLARE f : INTEGER\nENDTYPE\nDECLARE p : T\nDECLARE r : R\nDECLARE ar : ARRAY[1:2] OF INTEGER\na <- <<a>>\nOUTPUT "s"\nOUTPUT '+e+'\nOUTPUT "e"\n',a=I())
    # interactive mode
    E=['x <- 1','DECLARE x : INTEGER','x <- <<v>>','x','x + 1','INPUT y\n7','y','OUTPUT INTEGER(2.5)','WHILE TRUE\nBREAK\nENDWHILE\n','FOR x <- 1 TO 3\nCONTINUE\nNEXT\n','IF x = 1 THEN\nOUTPUT 1\nELSE IF x = 2 THEN\nOUTPUT 2\nENDIF\n','FOR x <- 1 TO 3\nOUTPUT x\nNEXT\n','z <- x','OUTPUT "BREAK"','DECLARE z : REAL\nz <- x','OUTPUT z']
    for k in range(len(E)): Q('repl/%d'%k,'\n'.join(E[(k+j)%len(E)] for j in range(4))+'\nDECLARE q : INTEGER\nq <- <<v>>\nx\ny\nq\nEXIT\n',repl=True,v=I())
    Q('repl/all','\n'.join(E)+'\nEXIT\n',repl=True,v=I(),opt='--pedantic'); Q('repl/rev','\n'.join(E[::-1])+'\nEXIT\n',repl=True,v=I())
    # histories of symbolic operations
    OPS='a <- b + k','u <- k','INPUT w','OUTPUT a, b','b <- a * 2','IF k > 3 THEN\nv <- k\nENDIF','ar[k] <- a','r.f <- a','a <- ar[1] + r.f','CALL P(a, k)','CALL P(k, b)','c <- F(k) > 2'
    head='DECLARE a, b, o, k : INTEGER\nDECLARE c : BOOLEAN\nTYPE R\nDECLARE f : INTEGER\nENDTYPE\nDECLARE r : R\nDECLARE ar : ARRAY[1:2] OF INTEGER\nDECLARE go : BOOLEAN\ngo <- TRUE\nPROCEDURE P(BYREF x : INTEGER, y : INTEGER)\nx <- x + y\nIF x = 77 THEN\ny2 <- x\nENDIF\nENDPROCEDURE\nFUNCTION F(x : INTEGER) RETURNS INTEGER\nIF x = 78 THEN\ny3 <- x\nENDIF\nRETURN x + 1\nENDFUNCTION\n'
    disp='WHILE go\nINPUT o\nINPUT k\nCASE OF o\n'+''.join(f'{k}: {s}\n' for k,s in enumerate(OPS))+'OTHERWISE: go <- FALSE\nENDCASE\nENDWHILE\nOUTPUT a, b, c, r.f, ar[1], ar[2]\n'
    for a in range(12): Q(f'hist/{a}',head+disp,stdin=f'{a}\n<<a>>\n<<o1>>\n<<b>>\n99\n99\n99\n99\n',a=I(-100,100),b=I(-100,100),o1=I(0,11),weight=2)
    reuse(out,tier)
    return out
