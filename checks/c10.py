"""C10: layout, comments and line endings never change what a program does."""
import re
from .common import *
BOUNDS='30 base programs covering every statement kind, expression form and error kind; every gap between tokens (white space symbolic over blank and tab, or absent), every line end (symbolic: nothing, blank, tab, CR, comment with symbolic bytes), every line start (symbolic indentation) and every position between lines (symbolic blank or comment line), in windows of 4 simultaneously symbolic places and all at once; source bytes inside quotes symbolic over white space, comment and quote characters'
OPTS=dict(asan='some',asan_n=1)
P={
'arith':'x <- 1 + 2 * 3 - 4 / 2\ny <- (x + 5) * -2\nOUTPUT x, " ", y\nOUTPUT 7 DIV 2, 7 MOD 2\nOUTPUT "a" & "b" & \'c\'\nOUTPUT 3 <= 4 AND NOT 2 <> 2 OR FALSE\nOUTPUT -x\nPRINT 3 > 2, 3 >= 2, 1 < 2, 1 = 2\n',
'if':'n <- 5\nIF n > 3 THEN\nOUTPUT "big"\nELSE\nOUTPUT "small"\nENDIF\nIF n = 1 THEN\nOUTPUT 1\nELSE IF n = 5 THEN\nOUTPUT 5\nELSE\nOUTPUT 0\nENDIF\n',
'case':'n <- 4\nCASE OF n\n1: OUTPUT "one"\n2 TO 5: OUTPUT "mid"\nn <- n + 10\n-3: OUTPUT "neg"\nOTHERWISE: OUTPUT "other"\nENDCASE\nOUTPUT n\nCASE OF n\n14: n <- 1\nENDCASE\nOUTPUT n\n',
'loops':'FOR i <- 1 TO 6 STEP 2\nOUTPUT i\nNEXT i\nFOR j <- 3 TO 1 STEP -1\nIF j = 2 THEN\nCONTINUE\nENDIF\nOUTPUT j\nNEXT\nk <- 0\nWHILE k < 3 DO\nk <- k + 1\nENDWHILE\nREPEAT\nk <- k - 1\nIF k = 1 THEN\nBREAK\nENDIF\nUNTIL k < 0\nOUTPUT k\n',
'proc':'PROCEDURE P(a : INTEGER, BYREF b : STRING)\na <- a + 1\nb <- b & a\nENDPROCEDURE\nPROCEDURE Q\nOUTPUT "q"\nENDPROCEDURE\ns <- "x"\nCALL P(3, s)\nOUTPUT s\nCALL Q\nCALL Q()\n',
'func':'FUNCTION F(n : INTEGER) RETURNS INTEGER\nIF n <= 1 THEN\nRETURN 1\nENDIF\nRETURN n * F(n - 1)\nENDFUNCTION\nFUNCTION G() RETURNS STRING\nRETURN "g"\nENDFUNCTION\nOUTPUT F(5), G()\nOUTPUT LENGTH("abc") + F(2)\nOUTPUT MID("hello", 2, 3)\n',
'array':'DECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE m : ARRAY[0:1, -1:1] OF CHAR\na[1] <- 4\na[a[1] - 2] <- 5\nm[1, -1] <- \'z\'\nOUTPUT a[1], a[2], a[3]\nOUTPUT m[1, -1]\nDECLARE b : ARRAY[1:3] OF INTEGER\nb <- a\nOUTPUT b[2]\n',
'record':'TYPE R\nDECLARE x : INTEGER\nDECLARE n, m : STRING\nDECLARE q : ARRAY[1:2] OF REAL\nENDTYPE\nDECLARE r, s : R\nr.x <- 1\nr.n <- "n"\nr.q[2] <- 1.5\ns <- r\nOUTPUT s.x, s.n, s.q[2]\n',
'enum':'TYPE E = (Red, Green, Blue)\nTYPE T = ^INTEGER\nDECLARE e : E\nDECLARE p : T\nDECLARE v : INTEGER\ne <- Green\ne <- e + 1\nOUTPUT e\nv <- 3\np <- ^v\np^ <- p^ + 1\nOUTPUT v\n',
'const':'CONSTANT c = 5\nCONSTANT d = -2.5\nCONSTANT s = "str"\nDECLARE t : DATE\nt <- 1/2/2020\nOUTPUT c, d, s, t\nOUTPUT t > 31/12/2019\nOUTPUT 8 / 4 / 2\nDECLARE r : REAL\nr <- c\nOUTPUT r, INTEGER(2.5), STRING(7)\n',
'files':'OPENFILE "f" FOR WRITE\nWRITEFILE "f", "line"\nWRITEFILE "f", 5\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", l\nOUTPUT l, EOF("f")\nCLOSEFILE "f"\nOPENFILE "f" FOR APPEND\nCLOSEFILE "f"\n',
'random':'DECLARE v : INTEGER\nv <- 7\nOPENFILE "r" FOR RANDOM\nPUTRECORD "r", v\nSEEK "r", 1\nv <- 0\nGETRECORD "r", v\nOUTPUT v\nCLOSEFILE "r"\n',
'input':'INPUT s\nDECLARE n : INTEGER\nINPUT n\nOUTPUT s, n\nOUTPUT "http://x", "a // b", \'/\'\n',
'str':'s <- "tab\\tq\\"e\\\\"\nOUTPUT s\nc <- \'\\\'\'\nOUTPUT c, \'"\', "\'"\nOUTPUT "  spaced  "\nOUTPUT ""\n',
'expr':'1 + 2\nx <- 3\nx\n"abc"\nOUTPUT (x)\nOUTPUT (1 + 2) * (3)\nOUTPUT NOT (TRUE AND FALSE)\n',
'scope':'x <- 1\nPROCEDURE A()\nDECLARE x : INTEGER\nx <- 2\nOUTPUT x\nENDPROCEDURE\nCALL A()\nOUTPUT x\n',
# faults of every kind
'rt/div':'OUTPUT "a"\nx <- 0\nOUTPUT 1 DIV x\nOUTPUT "b"\n',
'rt/nested':'PROCEDURE P(n : INTEGER)\nIF n > 0 THEN\nCALL P(n - 1)\nELSE\nOUTPUT 1 MOD n\nENDIF\nENDPROCEDURE\nOUTPUT "s"\nCALL P(2)\n',
'rt/undef':'OUTPUT "a"\nFOR i <- 1 TO 2\nOUTPUT i\nOUTPUT nope\nNEXT\n',
'rt/builtin':'FUNCTION F(s : STRING) RETURNS STRING\nRETURN LEFT(s, 5)\nENDFUNCTION\nOUTPUT F("abcdef")\nOUTPUT F("ab")\n',
'rt/type':'DECLARE x : INTEGER\nx <- 5\nWHILE x > 3\nx <- x - 1\nENDWHILE\nx <- "no"\nOUTPUT x\n',
'rt/index':'DECLARE a : ARRAY[1:2] OF INTEGER\nFOR i <- 1 TO 3\na[i] <- i\nOUTPUT a[i]\nNEXT\n',
'syn/mid':'OUTPUT "a"\nx <- 3 +\nOUTPUT "b"\n',
'syn/endif':'OUTPUT "a"\nIF TRUE THEN\nOUTPUT "b"\nENDWHILE\n',
'syn/char':'OUTPUT "a"\nOUTPUT 1\nx <- 5 @ 2\nOUTPUT 2\n',
'syn/kw':'OUTPUT 1\nDECLARE x INTEGER\nOUTPUT 2\n',
'syn/eqeq':'x <- 1\nIF x == 1 THEN\nOUTPUT 1\nENDIF\n',
'syn/paren':'OUTPUT 1\nOUTPUT (1 + (2\nOUTPUT 2\n',
'syn/escape':'OUTPUT 1\nOUTPUT "a\\qb"\n',
'syn/call':'OUTPUT 1\nCALL P(1,\nOUTPUT 2\n',
}
STDIN='hello\n42\n'
TOK=re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|\d+/\d+/\d+|\d+\.\d+|\d+|[A-Za-z][A-Za-z0-9_]*|<-|<=|>=|<>|==|.')
IOK={'INPUT','OUTPUT','PRINT','OPENFILE','READFILE','WRITEFILE','CLOSEFILE'}
ANC=bytes(c for c in range(0,256) if c!=10)
def toks(l): return [t for t in TOK.findall(l) if t not in ' \t']
def need(a,b):
    """must white space stay between tokens a and b?"""
    w=lambda c:c.isalnum() or c in '_.'
    if w(a[-1]) and w(b[0]): return True
    if a+b[0] in('//','<-','<=','<>','>=','==') or a=='<' and b[0] in '-=>' : return True
    if b=='(' and a in IOK: return True
    if a[0].isdigit() and b=='/' or a=='/' and b[0].isdigit(): return True
    if a in('<','>','=') and b[0] in '=>-<': return True
    return False
def templates(tier):
    out=[]; deep=tier!='quick'
    def add(name,src,w=1.0,**h):
        ped=False
        T(out,name,src,stdin=STDIN,weight=w,**h)
    for name,src in P.items():
        L=[toks(l) for l in src.rstrip('\n').split('\n')]
        base=lambda ls:'\n'.join(ls)+'\n'
        pl=[' '.join(t) for t in L]
        sq=[''.join(x+(' ' if i+1<len(t) and need(x,t[i+1]) else '') for i,x in enumerate(t)) for t in L]
        add(f'{name}/base',src); add(f'{name}/spaced',base(pl)); add(f'{name}/squeezed',base(sq))
        if name.startswith(('arith','rt','syn','loops')): T(out,f'{name}/pedantic',base(sq),stdin=STDIN,ped=True); T(out,f'{name}/pedantic2',base(pl),stdin=STDIN,ped=True)
        add(f'{name}/nonl',base(sq)[:-1]); add(f'{name}/nonlc',base(sq)[:-1]+'//<<c>>',c=BY(2,ANC,'x')); add(f'{name}/nonlcr',base(sq)[:-1]+'<<c>>',c=BY(2,b' \t\r',' '))
        # white space between tokens
        gaps=[(i,j) for i,t in enumerate(L) for j in range(len(t)-1)]
        def withgaps(sel,g):
            ls=[]
            for i,t in enumerate(L):
                s=''
                for j,x in enumerate(t):
                    s+=x
                    if j+1<len(t): s+=(sel[i,j] if (i,j) in sel else (' ' if need(x,t[j+1]) else ''))
                ls.append(s)
            return base(ls)
        add(f'{name}/gapall',withgaps({g:'<<a>>' for g in gaps},0),a=CH(' ','\t')); add(f'{name}/gapall2',withgaps({g:('<<a>>' if k%2 else '<<b>>') for k,g in enumerate(gaps)},0),a=BY(2,b' \t',' '),b=BY(1,b' \t','\t'))
        W=4
        for k in range(0,len(gaps),W):
            win=gaps[k:k+W]
            add(f'{name}/gap{k}',withgaps({g:f'<<g{q}>>' for q,g in enumerate(win)},0),**{f'g{q}':BY(1,b' \t',' ') for q in range(len(win))})
        # line ends
        def ends(e,every=True,at=()): return '\n'.join(s+(e if every or i in at else '') for i,s in enumerate(sq))+'\n'
        add(f'{name}/crlf',ends('\r')); add(f'{name}/endall',ends('<<e>>'),e=BY(1,b' \t\r',' '))
        add(f'{name}/comments',ends(' //<<c>>'),c=BY(3,ANC,'x')); add(f'{name}/comments2',ends('//<<c>>'),c=CH(' end','//  ','"\'" ','(*  ','ENDI','\r\r\r\r',' \\n "'))
        add(f'{name}/crlfcomment',ends(' // c<<c>>\r'),c=BY(1,ANC,'x'))
        for k in range(0,len(sq),3):
            at=range(k,min(k+3,len(sq)))
            add(f'{name}/end{k}','\n'.join(s+(f'<<e{i-k}>>' if i in at else '') for i,s in enumerate(sq))+'\n',**{f'e{i-k}':CH('    ','   \r',' // ','//x\r',' //"','\t \t ') for i in at})
        # indentation
        add(f'{name}/indall','\n'.join('<<a>>'+s for s in sq)+'\n',a=BY(2,b' \t',' '))
        add(f'{name}/indprog','\n'.join(' '*(i%5)+'\t'*(i%3)+s for i,s in enumerate(sq))+'\n')
        for k in range(0,len(sq),4):
            at=range(k,min(k+4,len(sq))); add(f'{name}/ind{k}','\n'.join((f'<<e{i-k}>>' if i in at else '')+s for i,s in enumerate(sq))+'\n',**{f'e{i-k}':BY(1,b' \t','\t') for i in at})
        # blank and comment lines between the lines
        BL=('    ','\t   ','//  ','// x','   \r','//"\r')
        add(f'{name}/blankall','\n'.join('<<a>>\n'+s for s in sq)+'\n<<a>>\n',a=CH(*BL)); add(f'{name}/blankbytes','\n'.join('//<<a>>\n'+s for s in sq)+'\n//<<a>>',a=BY(2,ANC,'x'))
        add(f'{name}/empties','\n'.join('\n'*(i%3)+s for i,s in enumerate(sq))+'\n\n\n'); add(f'{name}/lead','\n\r\n  \n// c\n'+'\n'.join(sq)+'\n')
        for i in range(len(sq)+1):
            add(f'{name}/blank{i}',base(sq[:i]+['<<a>>']+sq[i:]),a=CH(*BL),w=.7)
            if deep or i%2==0: add(f'{name}/blanks{i}',base(sq[:i]+['<<a>>','<<b>>']+sq[i:]),a=CH(*BL),b=CH(*BL),w=.7)
    # the documented exception
    for k in ('OUTPUT','PRINT','INPUT','OPENFILE','READFILE','WRITEFILE','CLOSEFILE'):
        for q,rest in enumerate(['(x)','("f")','("f"), x','("f") FOR READ','(1) + 2']):
            T(out,f'io/{k}/{q}/tight',f'OUTPUT "s"\nx <- 1\n{k}{rest}\n'); T(out,f'io/{k}/{q}/gap',f'OUTPUT "s"\nx <- 1\n{k}<<g>>{rest}\n',g=CH(' ','\t'))
    for k in ('IF(x > 0) THEN\nOUTPUT 1\nENDIF','WHILE(x > 0)\nx <- x - 1\nENDWHILE','RETURN(1)','CASE OF(x)\n1: OUTPUT 1\nENDCASE','FOR i<-(1)TO(3)STEP(1)\nOUTPUT i\nNEXT i','SEEK("f"),(1)','x<-(x)DIV(1)','OUTPUT NOT(TRUE)AND(FALSE)','OUTPUT-1','OUTPUT"a"&"b"','OUTPUT\'a\'','INPUT(x)','CALL P(1)','CALL P (1)','OUTPUT LENGTH ("ab")','OUTPUT INTEGER (2.5)','OUTPUT 7MOD 2','OUTPUT 1/2','OUTPUT 6/2/2020','OUTPUT 6 /2/ 2020','OUTPUT 1 / 2/2020','x<-x','x <-1','x < -1','OUTPUT x<-1','OUTPUT x< -1','OUTPUT 1.5','OUTPUT 1 . 5','OUTPUT 5 // 2','OUTPUT 5 / / 2','y <- x // + 1','OUTPUT 1 < = 2','OUTPUT 1 < > 2','x < - 1','OUTPUT a [1]','OUTPUT a[ 1 ]','OUTPUT r . f','OUTPUT r .f','p ^ <- 2','OUTPUT p ^','OUTPUT TRUE AND\tFALSE'):
        T(out,'tok/'+re.sub(r'\W+','_',k)[:30]+str(len(out)),'TYPE R\nDECLARE f : INTEGER\nENDTYPE\nTYPE PT = ^INTEGER\nDECLARE r : R\nDECLARE p : PT\nDECLARE a : ARRAY[1:2] OF INTEGER\nx <- 1\np <- ^x\nPROCEDURE P(n : INTEGER)\nOUTPUT n\nENDPROCEDURE\nOUTPUT "s"\n'+k+'\nOUTPUT "t"\n',stdin='9\n')
    # text inside quotes is not layout: comment markers, blanks, tabs, other quotes and operators stay what they are
    TXT=b"/ \t',(=*<-:&"
    for k,(pre,post) in enumerate([('OUTPUT "','"'),('OUTPUT "a','b", 1 // c'),('x <- "/','/" & "z"\nOUTPUT x'),('OUTPUT 1, "','", "q" //"'),('OUTPUT LENGTH("','"), "//"'),('s <- "<-','//"\nOUTPUT s, "//", s')]):
        T(out,f'lit/str{k}','OUTPUT "s"\n'+pre+'<<b>>'+post+'\nOUTPUT "t"\n',b=BY(3+(k<2)+deep,TXT,'/'))
    for k,(pre,post) in enumerate([("OUTPUT '","'"),("OUTPUT 'a', '","' // c"),("x <- '","' & 'z'\nOUTPUT x"),("OUTPUT ASC('","'), '/' // '"),("OUTPUT '/', '","','/'//'/'")]):
        T(out,f'lit/chr{k}','OUTPUT "s"\n'+pre+'<<b>>'+post+'\nOUTPUT "t"\n',b=BY(1,bytes(c for c in range(1,128) if c not in (10,13,92)),'/'))
    for k,(pre,post) in enumerate([('OUTPUT "a','b" // c'),('x <- "','"\nOUTPUT x, LENGTH(x) // d'),('OUTPUT "a\n','\nb", "c"')]):
        T(out,f'lit/ml{k}','OUTPUT "s"\n'+pre+'<<b>>'+post+'\nOUTPUT "t"\nOUTPUT 1 / 0\n',b=BY(3+deep,b" \t\n/'a",'\n'))
    for k,(pre,post) in enumerate([('OUTPUT "a','b"'),('OUTPUT LENGTH("','"), "t"'),('OUTPUT 1 // ',''),('//','"\nOUTPUT 2')]):
        T(out,f'lit/nul{k}','OUTPUT "s"\n'+pre+'<<b>>'+post+'\nOUTPUT "t"\n',b=BY(2+deep,b"\0a /",'a'))
    # names: letters, digits and underscores in any position, keywords inside names
    N=['n','n1','n_1','n_','nn_a','n__b','x9y8','N','TOTAL','IFx','xIF','OUTPUT1','ENDIF_','FORi','TO_','ORDER','ANDy','NOTE','DIVx','MODE','if','Then','output','aLongerNameWithManyCharacters_0123456789','TRUE_','FALSEx','integer','STRINGS','READING','INPUTS','NEXTi','STEPS','OFF','DOT','BYREFx','RETURNED','CALLS']
    N=N if deep else N[::2]+N[3:20:4]
    for k,src in enumerate(['DECLARE <<n>> : INTEGER\n<<n>> <- 4\nOUTPUT <<n>>, "q", <<n>>*2\nFOR <<n>> <- 1 TO 2\nOUTPUT <<n>>\nNEXT <<n>>\n','PROCEDURE <<n>>(<<n>> : INTEGER)\nOUTPUT <<n>>+1\nENDPROCEDURE\nCALL <<n>>(3)\n','TYPE <<n>>\nDECLARE <<n>>, b : INTEGER\nENDTYPE\nDECLARE r : <<n>>\nr.<<n>> <- 2\nOUTPUT r.<<n>>\n','TYPE E = (A0, <<n>>, B0)\nDECLARE e : E\ne <- <<n>>\nOUTPUT e\nOUTPUT e = <<n>>\n','CONSTANT <<n>> = 7\nIF <<n>> = 7 THEN\nOUTPUT <<n>> MOD 4\nENDIF\n','DECLARE <<n>> : ARRAY[1:2] OF STRING\n<<n>>[1] <- "z"\nOUTPUT <<n>>[1] & "!"\nINPUT <<n>>[2]\nOUTPUT <<n>>[2]\n']):
        T(out,f'name/{k}','OUTPUT "s"\n'+src+'OUTPUT "t"\n',stdin='in\n',n=CH(*N))
    T(out,'lit/file','OPENFILE "f<<b>>" FOR WRITE\nWRITEFILE "f<<b>>", "//<<b>>//"\nCLOSEFILE "f<<b>>"\nOPENFILE "f<<b>>" FOR READ\nREADFILE "f<<b>>", l\nOUTPUT l // "<<b>>"\n',b=BY(2,b" \t'(=",' '))
    T(out,'lit/cmt','OUTPUT 1 //<<b>>\nOUTPUT 2 ///<<b>>/\n//<<b>>"\nOUTPUT "//" ////\n',b=BY(4+deep,b'/ "\'\\\t(\r','/'))
    return out
