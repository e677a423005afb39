"""C12: the REPL runs programs like file mode and survives failing entries unharmed."""
import re
from .common import *
from . import c10
BOUNDS='the base programs of C10 entered statement by statement (and run from a file); sessions of 30 entries with one symbolic failing entry (choice of 60) at every position, or two at once; every history of 3 (quick) or 4 (thorough) entries from seven alphabets of 11 to 16 symbolic choices, followed by probes of the whole state; echo of every type with symbolic values; RUNFILE of symbolic programs between entries; every rejected file statement between two entries that use the same handle'
OPTS=dict(asan='some',asan_n=2)
QUICK=60
END={'IF':'ENDIF','CASE':'ENDCASE','WHILE':'ENDWHILE','REPEAT':'UNTIL','FOR':'NEXT','PROCEDURE':'ENDPROCEDURE','FUNCTION':'ENDFUNCTION','TYPE':'ENDTYPE'}
def entries(src):
    """a program as REPL entries: every multi-line construct is closed by a blank line"""
    out=[]; d=0
    for l in src.rstrip('\n').split('\n'):
        w=re.findall(r'[A-Za-z][A-Za-z0-9_]*',re.sub(r'"[^"]*"','',l))
        f=w[0] if w else ''
        was=d
        if f in END and not(f=='TYPE' and '=' in l): d+=1
        elif ':' in l and not f in('DECLARE','CONSTANT'):    # CASE clause: the statement behind the colon may open a block
            m=[x for x in w if x in('IF','CASE','WHILE','FOR')]
            if m and re.search(r':\s*(IF|CASE|WHILE|FOR|REPEAT)\b',l): d+=1
        elif f in END.values(): d-=1
        out.append(l+'\n'+('\n' if was and not d else ''))
    return ''.join(out)
SES=['DECLARE x : INTEGER','x <- <<a>>','CONSTANT c = 7','DECLARE arr : ARRAY[1:3] OF INTEGER','arr[2] <- x','TYPE E = (Red, Green)','TYPE P = ^INTEGER','DECLARE p : P','p <- ^x','TYPE R\nDECLARE v : INTEGER\nENDTYPE\n','DECLARE r : R','r.v <- 4','DECLARE e : E','e <- Green','PROCEDURE inc(n : INTEGER)\nx <- x + n\nENDPROCEDURE\n','FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n = 77 THEN\nRETURN arr[n]\nENDIF\nRETURN n * x\nENDFUNCTION\n','OPENFILE "f" FOR WRITE','WRITEFILE "f", x','CALL inc(2)','OUTPUT f(2)','CLOSEFILE "f"','OPENFILE "f" FOR READ','READFILE "f", s','OPENFILE "g" FOR RANDOM','PUTRECORD "g", x']
PROBE=['x','c','arr[1]','arr[2]','p^','p','r.v','r','e','s','newv','f(3)','CALL inc(1)','x','EOF("f")','SEEK "g", 1','GETRECORD "g", x','x','CLOSEFILE "g"','CLOSEFILE "f"','OPENFILE "f" FOR APPEND','WRITEFILE "f", "end"','CLOSEFILE "f"','OUTPUT "done"']
FE=['','x <- nope','x <- "s"','x <- 1 DIV 0','newv <- 1 DIV 0','newv <- nope','newv <- f(77)','DECLARE x : REAL','DECLARE q : NOTYPE','DECLARE c : INTEGER','DECLARE q : ARRAY[1:nope] OF REAL','DECLARE q : ARRAY[3:1] OF REAL','CONSTANT c = 8','CONSTANT x = 1','c <- 3','arr[0] <- 1','arr[4] <- 1','arr[2] <- "s"','arr <- 5','p <- ^nope','p <- ^arr','p^ <- "s"','r.w <- 1','r.v <- "s"','e <- Blue','e <- "s"','OPENFILE "f" FOR READ','OPENFILE "missing" FOR READ','OPENFILE "nodir/x" FOR WRITE','CLOSEFILE "zz"','WRITEFILE "zz", 1','WRITEFILE "f", nope','READFILE "f", s','READFILE "zz", newv','SEEK "f", 1','SEEK "g", 0','GETRECORD "g", nope','PUTRECORD "g", nope','x <-','OUTPUT (1','ENDIF','@','"abc',"'ab'",'DECLARE','CALL nope','CALL inc("s")','CALL inc()','OUTPUT f("s")','RETURN 1','BREAK','CONTINUE','OUTPUT nope','x == 1','x <- 99999999999999999999','IF x THEN\nOUTPUT 1\nENDIF\n','IF TRUE THEN\nnope\n','PROCEDURE inc(n : REAL)\nENDPROCEDURE\n','TYPE E = (Green, Red)','TYPE R = ^REAL','FUNCTION f() RETURNS REAL\nRETURN 1.5\nENDFUNCTION\n','IF TRUE THEN\nOUTPUT 1 DIV 0\nENDIF\n','FOR i <- 1 TO 3\nOUTPUT arr[i + 2]\nNEXT\n','f(77)','CALL inc(f(77))','INPUT c','x <- x + f(77)','READ','nope','x.y','x[1]','x^']
NOEFF=[f for f in FE if '\n' not in f and 'f(77)' not in f and 'CALL' not in f]
def templates(tier):
    out=[]; deep=tier!='quick'
    # the same programs in both modes
    for n,src in c10.P.items():
        T(out,f'file/{n}',src,stdin=c10.STDIN)
        ent=entries(src)
        if n!='input': T(out,f'repl/{n}',ent,repl=True); T(out,f'replped/{n}',ent,repl=True,ped=True)
    T(out,'repl/input','INPUT s\n<<b>>\nDECLARE n : INTEGER\nINPUT n\n42\nOUTPUT s, n\ns\nn\nINPUT q\n\nq\nFOR i <- 1 TO 2\nINPUT n\nOUTPUT n\nNEXT\n\n5\n6\nn\n',repl=True,b=BY(3,PRN,'x'))
    prog=''.join(l+('\n\n' if '\n' in l else '\n') for l in SES)
    T(out,'session',prog+'\n'.join(PROBE)+'\n',repl=True,a=I(-10**6,10**6,5),weight=3)
    # one failing entry at every position
    full=SES+PROBE
    join=lambda ls:''.join(l+('\n\n' if '\n' in l and not l.endswith('\n\n') else '\n') for l in ls).replace('\n\n\n','\n\n')
    for i in range(1,len(full)):
        T(out,f'fail/{i}',join(full[:i]+['<<f>>']+full[i:]),repl=True,a=I(-50,50,5),f=CH(*[x+'\n' if '\n' in x else x for x in (FE if deep else FE[i%5::5])]),weight=3)
    # several at once: a run of failing entries is as harmless as one
    for i in range(2,len(full),7 if not deep else 2):
        T(out,f'fail2/{i}',join(full[:i]+['<<f>>','<<g>>']+full[i:i+6]+['<<f>>']+full[i+6:]),repl=True,a=I(-50,50,5),f=CH(*(NOEFF[i%3::3] if deep else NOEFF[i%7::7])),g=CH(*(NOEFF[(i+1)%5::5] if deep else NOEFF[(i+1)%9::9])),weight=4)
    for i in range(1,len(NOEFF),6 if not deep else 1): T(out,f'allfail/{i}',join(SES+NOEFF[:i]+PROBE),repl=True,a=I(-50,50,5),weight=3)
    T(out,'everywhere',join([y for x in SES+PROBE for y in (x,'<<f>>')]),repl=True,a=I(-50,50,5),f=CH(*NOEFF),weight=4)
    T(out,'everywhereped',join([y for x in SES+PROBE for y in (x,'<<f>>')]),repl=True,ped=True,a=I(-50,50,5),f=CH(*NOEFF[::3]),weight=3)
    # bounded histories
    AL={'var':(['x <- <<a>>','x <- x + 1','DECLARE x : INTEGER','DECLARE x : STRING','CONSTANT x = 5','x <- "s"','x <- y','y <- x','DECLARE y : REAL','x <- 1 DIV 0','x','y <- 1.5','FOR x <- 1 TO 2\nNEXT\n'],['x','y','OUTPUT x','y <- x','y']),
     'file':(['OPENFILE "f" FOR WRITE','OPENFILE "f" FOR READ','OPENFILE "f" FOR APPEND','CLOSEFILE "f"','WRITEFILE "f", "<<b>>"','READFILE "f", s','EOF("f")','WRITEFILE "f", nope','OPENFILE "g" FOR READ','CLOSEFILE "g"','OPENFILE "f" FOR RANDOM'],['s','EOF("f")','READFILE "f", s','s','CLOSEFILE "f"','OPENFILE "f" FOR READ','READFILE "f", s','s']),
     'proc':(['PROCEDURE P\nx <- x + 1\nOUTPUT x\nENDPROCEDURE\n','PROCEDURE P(n : INTEGER)\nOUTPUT n DIV x\nENDPROCEDURE\n','PROCEDURE P\nCALL Q\nENDPROCEDURE\n','PROCEDURE Q\nOUTPUT "q"\nCALL nope\nENDPROCEDURE\n','CALL P','CALL P(<<a>>)','CALL Q','x <- <<a>>','x','FUNCTION P(n : INTEGER) RETURNS INTEGER\nRETURN n\nENDFUNCTION\n','P(1)','PROCEDURE P(\n','PROCEDURE W\nOUTPUT y\nENDPROCEDURE\n'],['CALL P','CALL Q','x','P(2)']),
     'type':(['TYPE E = (Red, Green)','TYPE E = ^INTEGER','TYPE E\nDECLARE v : INTEGER\nENDTYPE\n','TYPE E\nDECLARE v : NOPE\nENDTYPE\n','TYPE E = (Red,','DECLARE e : E','e <- Red','e <- Green','e <- ^x','x <- <<a>>','e.v <- x','Red <- 1','TYPE G = (Red, Blue)'],['e','e.v','e^','x','Red','DECLARE e2 : E','e2']),
     'cons':(['CONSTANT c = 1','CONSTANT c = "s"','c <- 2','DECLARE c : INTEGER','c','x <- c','INPUT c','FOR c <- 1 TO 2\nOUTPUT c\nNEXT\n','CONSTANT d = -2.5','READFILE "f", c','CONSTANT c = nope','c[1] <- 1','PROCEDURE P(BYREF n : INTEGER)\nn <- 9\nENDPROCEDURE\n','CALL P(c)'],['c','x','d']),
     'arr':(['DECLARE q : ARRAY[1:2] OF INTEGER','DECLARE q : ARRAY[2:1] OF INTEGER','DECLARE q : ARRAY[0:n] OF CHAR','n <- <<a>>','q[1] <- n','q[n] <- 3','q[0] <- \'a\'','q <- w','DECLARE w : ARRAY[1:2] OF INTEGER','q','w[2] <- q[1]','q[1] <- "s"','q[1, 2] <- 1'],['q[1]','q[2]','w[2]','q[0]']),
     'flow':(['IF x > 0 THEN\nOUTPUT "p"\nELSE\nOUTPUT 1 DIV x\nENDIF\n','x <- <<a>>','WHILE x > 0 DO\nx <- x - 1\nENDWHILE\n','REPEAT\nx <- x + 1\nUNTIL x > 2\n','FOR i <- 1 TO 3\nx <- x + i\nIF x > 4 THEN\nBREAK\nENDIF\nNEXT\n','BREAK','CASE OF x\n0 : OUTPUT "z"\nx <- 9\n1 TO 5 : OUTPUT nope\nENDCASE\n','i','x','IF y THEN\nENDIF\n','IF TRUE THEN\ny <- TRUE\n','FOR i <- 1 TO 2\nRETURN 1\nNEXT\n'],['x','i','y'])}
    for nm,(al,pr) in AL.items():
        alts=[a+'\n' if '\n' in a else a for a in al]; h=dict(a=I(-3,4,1)) if any('<<a>>' in a for a in alts) else {}
        if any('<<b>>' in a for a in alts): h['b']=BY(1,PRN,'k')
        # a hole inside a choice is not possible: the symbolic values come from extra variables
        pre=('va <- <<a>>\n' if 'a' in h else '')+('vb <- "<<b>>"\n' if 'b' in h else '')
        alts=[a.replace('<<a>>','va').replace('"<<b>>"','vb') for a in alts]
        K=4 if deep else 3
        for k,first in enumerate(alts):
            hh=dict(h); src=pre+(first if first.endswith('\n') else first+'\n')
            for j in range(1,K): hh[f'e{j}']=CH(*(alts if deep or j==1 else alts[k%3::3])); src+=f'<<e{j}>>\n'
            T(out,f'hist/{nm}/{k}',src+'\n'.join(pr)+'\n',repl=True,weight=4 if not deep else 8,**hh)
    # echo of every type
    Z=dict(i=I(),r=R(),b=BY(2,PRN,'q'))
    for k,s in enumerate(['<<i>>\n','x <- <<i>>\nx\n-x\n(x)\nx + 1\nx > 3\nNOT x = 2\n','<<r>>\n','x <- <<r>>\nx\n','"<<b>>"\n"<<b>>" & "x"\n\'<<c>>\'\nLENGTH("<<b>>")\nLEFT("<<b>>", 1)\n','TRUE\nFALSE\n1 = 1\n','d <- SETDATE(<<d>>, 2, 2020)\nd\nDAY(d)\nd > 3/2/2020\n','TYPE E = (Red, Green)\nDECLARE e : E\ne\ne <- Green\ne\nRed\ne = Red\n','TYPE P = ^INTEGER\nDECLARE p : P\np\nx <- <<i>>\np <- ^x\np\np^\np^ <- 3\nx\n','TYPE R\nDECLARE v : INTEGER\nENDTYPE\n\nDECLARE r : R\nr\nr.v\n','1\n2.0\n0.5\n1.0 / 3\n1e\n','5 / 2\n4 / 2\n5 DIV 2\n5 MOD 2\nDIV(5, 2)\n','INTEGER("12")\nREAL("1.5")\nSTRING(<<i>>)\nCHAR(65)\nBOOLEAN(1)\n','FUNCTION f(n : INTEGER) RETURNS STRING\nRETURN "<" & n & ">"\nENDFUNCTION\n\nf(<<i>>)\nf(f(1))\n','FUNCTION f(n : INTEGER) RETURNS INTEGER\nn\nn + 1\nRETURN n\nENDFUNCTION\n\nf(<<i>>)\nx <- f(2)\nOUTPUT f(3)\n','IF TRUE THEN\n5\n"a"\nENDIF\n\nFOR i <- 1 TO 2\ni\nNEXT\n\n','DECLARE a : ARRAY[1:2] OF STRING\na[1]\na[1] <- "<<b>>"\na[1]\na[2] & a[1]\n','DECLARE s : STRING\nDECLARE i : INTEGER\nDECLARE r : REAL\nDECLARE b : BOOLEAN\ns\ni\nr\nb\n','x <- 5\nx <- x\nOUTPUT x\nDECLARE q : INTEGER\nCONSTANT z = 4\nz\nq\n','"a\\n\\t\\"b"\n\'\\\'\'\n"\\\\"\n','ASC(\'<<c>>\')\nCHR(66)\nUCASE(\'<<c>>\')\nMID("hello", 2, 3)\nTO_UPPER("<<b>>")\n','1 + 2 // comment\n// only a comment\n  7\n\t8\n9   \n','IS_NUM("1")\nNUM_TO_STR(5)\nSTR_TO_NUM("5")\nSTR_TO_NUM("5.5")\n']):
        hh=dict(i=Z['i'] if '<<i>>' in s else None,r=Z['r'] if '<<r>>' in s else None,b=Z['b'] if '<<b>>' in s else None,c=BY(1,PRN,'c') if '<<c>>' in s else None,d=I(1,29,7) if '<<d>>' in s else None); T(out,f'echo/{k}',s+'OUTPUT "end"\n',repl=True,**{q:v for q,v in hh.items() if v})
    # what an entry is
    for k,s in enumerate(['FORTY <- <<i>>\nFORTY\nOUTPUT FORTY\n','IFX <- <<i>>\nIFX\n','CASEY <- 1\nTYPES <- 2\nWHILES <- 3\nREPEATED <- 4\nPROCEDURES <- 5\nFUNCTIONAL <- 6\nCASEY\nTYPES\nWHILES\nREPEATED\nPROCEDURES\nFUNCTIONAL\n','  IF <<i>> > 2 THEN\n  OUTPUT 1\n  ELSE\n  OUTPUT 2\n  ENDIF\n\nOUTPUT "x"\n','\tFOR i <- 1 TO 2\n\tOUTPUT i\n\tNEXT\n\nOUTPUT i\n','RUNFILES <- <<i>>\nRUNFILES\n','RUNFILE_X <- 1\nRUNFILE_X\n','EXITX <- 1\nEXITX\n','x <- 1\nEXIT\nx\n','?\nx <- <<i>>\n?\nx\n','\n\n\nx <- <<i>>\n\n\nx\n\n','// c\nx <- <<i>> // d\n//\nx\n','TYPE E = (A, B)\nDECLARE e : E\ne\n','IF TRUE THEN\nOUTPUT "a"\nENDIF\nOUTPUT "b"\nOUTPUT <<i>>\n\nOUTPUT "c"\n','PROCEDURE P\nOUTPUT 1\nENDPROCEDURE\nCALL P\n\nCALL P\n','CASE OF x\n\nx <- <<i>>\nCASE OF x\n1 : OUTPUT "one"\nOTHERWISE : OUTPUT "o"\nENDCASE\n\nx\n','IF TRUE THEN\n\nOUTPUT "a"\nENDIF\nx <- <<i>>\nx\n','WHILE FALSE\nENDWHILE\n\nREPEAT\nx <- <<i>>\nUNTIL TRUE\n\nx\n','x <- <<i>>\nx','IF(<<i>> > 0) THEN\nOUTPUT 1\nENDIF\n\nOUTPUT 2\n','EXIT\n','']):
        T(out,f'entry/{k}',s,repl=True,**(dict(i=I()) if '<<i>>' in s else {}))
        T(out,f'entryped/{k}',s,repl=True,ped=True,**(dict(i=I()) if '<<i>>' in s else {}))
    # errors deep in calls, then the session goes on
    DEEP='x <- <<i>>\nFUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN 10 DIV x\nENDIF\nRETURN f(n - 1)\nENDFUNCTION\n\nPROCEDURE p(n : INTEGER, BYREF b : INTEGER)\nDECLARE loc : INTEGER\nb <- b + 1\nloc <- f(n)\nb <- loc\nENDPROCEDURE\n\n'
    for k,s in enumerate(['f(3)\nx\nf(2)\nx <- 5\nf(2)\n','y <- 1\nCALL p(2, y)\ny\nCALL p(1, y)\ny\nx <- 2\nCALL p(1, y)\ny\nloc\n','FOR i <- 1 TO 3\ny <- i\nx <- x - 1\nz <- f(i)\nNEXT\n\ni\ny\nz\nx <- 1\nFOR i <- 1 TO 2\nOUTPUT f(i)\nNEXT\n\ni\n','y <- f(1) + f(2)\ny\nDECLARE y : INTEGER\ny\n','OPENFILE "f" FOR WRITE\nWRITEFILE "f", f(1)\nWRITEFILE "f", "ok"\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", s\ns\nEOF("f")\n','DECLARE a : ARRAY[1:3] OF INTEGER\na[f(0)] <- 4\na[1]\na[2]\na[3]\na[2] <- f(1)\na[2]\n','IF f(1) > 2 THEN\nq <- 1\nELSE\nq <- 2\nENDIF\n\nq\n','FUNCTION f(n : INTEGER) RETURNS INTEGER\nRETURN 1\nENDFUNCTION\n\nf(0)\n']):
        T(out,f'deep/{k}',DEEP+s+'OUTPUT "end"\n',repl=True,i=I(-2,6,1))
    for dd in (30,): T(out,f'depth/{dd}',f'x <- 0\nFUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN 1 DIV x\nENDIF\nRETURN f(n - 1)\nENDFUNCTION\n\n'+f'f({dd})\n'*6+'x <- 1\n'+f'f({dd})\n',repl=True)
    # the session recovers every time: the same failing entry over and over
    for k,f in enumerate(FE[1:]):
        if k%4==0 or deep: T(out,f'again/{k}',join(SES+([f+'\n'] if '\n' in f else [f])*5+PROBE[:8]),repl=True,a=I(-5,5,1))
    # RUNFILE
    F1='OUTPUT "in", <<i>>\nx <- 99\nPROCEDURE fp\nOUTPUT "fp"\nENDPROCEDURE\nCALL fp\n'
    for k,(prog,ses) in enumerate([(F1,'x <- 1\nRUNFILE q.ps\nx\nCALL fp\nRUNFILE q.ps  \nx\n'),('OUTPUT 1 DIV (<<i>> - 3)\nOUTPUT "z"\n','x <- 5\nRUNFILE q.ps\nx\nOUTPUT 1 DIV 0\nRUNFILE q.ps\nx\n'),('OUTPUT "a"\nIF <<i>> THEN\n','RUNFILE q.ps\nx <- 2\nx\n'),('INPUT v\nOUTPUT "[", v, "]"\n"echo"\n5 + <<i>>\n','RUNFILE q.ps\nline one\nx <- 3\nRUNFILE q.ps\n7\nx\nINPUT w\nv\nw\n'),('OPENFILE "f" FOR WRITE\nWRITEFILE "f", <<i>>\n','OPENFILE "g" FOR WRITE\nRUNFILE q.ps\nWRITEFILE "g", 1\nCLOSEFILE "g"\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", l\nl\n'),('CONSTANT c = 5\nTYPE E = (Red, Green)\nDECLARE e : E\nOUTPUT e, c, <<i>>\n','CONSTANT c = 7\nTYPE E\nDECLARE v : INTEGER\nENDTYPE\n\nDECLARE e : E\nRUNFILE q.ps\nc\ne\ne.v\nRed\n'),('FOR i <- 1 TO 2\nBREAK\nNEXT\nOUTPUT i, <<i>>\nBREAK\n','i <- 8\nRUNFILE q.ps\ni\n'),('OUTPUT <<i>>','RUNFILE q.ps\nRUNFILE nope.ps\nRUNFILE\nRUNFILE \nOUTPUT "k"\n'),('','RUNFILE q.ps\nOUTPUT "k"\n'),('OUTPUT x\n','x <- <<i>>\nRUNFILE q.ps\nx\n'),('PROCEDURE P\nOUTPUT "inner", <<i>>\nENDPROCEDURE\nCALL P\n','PROCEDURE P\nOUTPUT "outer"\nENDPROCEDURE\n\nCALL P\nRUNFILE q.ps\nCALL P\n')]):
        for q,ped in enumerate((False,True)): T(out,f'runfile/{k}.{q}',ses+'OUTPUT "end"\n',repl=True,ped=ped,files={'q.ps':prog},**(dict(i=I(-9,9,3)) if '<<i>>' in prog+ses else {}))
    for i in range(1,len(SES),4 if not deep else 1): T(out,f'runfile/at/{i}',join(SES[:i]+['RUNFILE q.ps']+SES[i:]+PROBE),repl=True,a=I(-9,9,1),b=I(-2,2,0),files={'q.ps':'x <- <<b>>\nOUTPUT "in", 10 DIV x\nPROCEDURE inc(n : INTEGER)\nOUTPUT "other"\nENDPROCEDURE\nTYPE E = (Red, Blue)\nCONSTANT c = 1\nOPENFILE "h" FOR WRITE\nWRITEFILE "h", 1\n'},weight=2)
    T(out,'runfile/name','<<n>>\nOUTPUT "k"\n',repl=True,files={'q.ps':'OUTPUT "q"\n','q':'OUTPUT "plain q"\n'},n=CH('RUNFILE q.ps','RUNFILE q','RUNFILE q.','RUNFILE qq','RUNFILE  q.ps','RUNFILE\tq.ps','RUNFILE','RUNFILEq.ps','RUNFILE_q','RUNFILE q ps'))
    # failing file statements have no effect
    from . import c16
    out+=[t for t in c16.templates(tier) if t.name.startswith('rejrepl/')]
    return out
