"""C17: string, character, conversion and numeric built-ins."""
from .common import *
BOUNDS='strings of 0..8 symbolic bytes (every byte value a literal or an input line can hold) with full-range symbolic 64-bit positions and lengths; numeral strings up to 8 symbolic characters over digits, point, sign, blanks, exponent and letters; all 128 codes of CHR/ASC; NUM_TO_STR of every INTEGER and of reals k/10^d; RAND over both generator outputs (symbolic 31-bit) for every bound.'
QUICK=45
ANY=bytes(c for c in range(1,256) if c not in b'\r\n')     # an input line
NUMA=b'0123456789.'; MIX=b'019.-+ eEx'; ODD=b'0129.-+ eExXnNaAiIfF_'
def templates(tier):
    out=[]; deep=tier!='quick'
    SL=range(0,5) if not deep else range(0,9)
    src={'lit':lambda n:('"<<s>>"','',PRN),'inp':lambda n:('s','<<s>>\n',ANY)}
    def st(n,kind='lit'): return {'s':BY(n,PRN if kind=='lit' else ANY)} if n else {}
    def S(n): return '<<s>>' if n else ''
    def ts(name,body,n,kind,**h):
        pre='DECLARE s : STRING\n'
        if kind=='lit': T(out,name+f'/{n}{kind}',pre+'s <- "'+S(n)+'"\n'+body,**st(n),**h)
        else: T(out,name+f'/{n}{kind}',pre+'INPUT s\n'+body,stdin=S(n)+'\n',**st(n,kind),**h)
    for n in SL:
        for kd in ('lit','inp'):
            ts('len','OUTPUT LENGTH(s)\nOUTPUT LENGTH(s & s) = 2 * LENGTH(s)\n',n,kd)
            ts('left','OUTPUT "s"\nOUTPUT "<" & LEFT(s, <<i>>) & ">"\n',n,kd,i=I(init=1))
            ts('right','OUTPUT "s"\nOUTPUT "<" & RIGHT(s, <<i>>) & ">"\n',n,kd,i=I(init=1))
            ts('mid','OUTPUT "s"\nOUTPUT "<" & MID(s, <<i>>, <<j>>) & ">"\n',n,kd,i=I(init=1),j=I(init=1),weight=2)
            ts('upper','OUTPUT "<" & TO_UPPER(s) & ">"\nOUTPUT s\n',n,kd)
            ts('lower','OUTPUT "<" & TO_LOWER(s) & ">"\nOUTPUT s\n',n,kd)
        ts('split','IF LEFT(s, <<i>>) & RIGHT(s, LENGTH(s) - <<i>>) = s THEN\nOUTPUT "same"\nENDIF\n',n,'lit',i=I(0,n,0))
        ts('midall','FOR i <- 1 TO LENGTH(s)\nOUTPUT MID(s, i, 1), MID(s, i, LENGTH(s) - i + 1), MID(s, i, 0)\nNEXT\n',n,'lit')
        ts('nochange','r <- MID(s, <<i>>, <<j>>)\nOUTPUT LENGTH(r), r = LEFT(RIGHT(s, LENGTH(s) - <<i>> + 1), <<j>>)\nr <- r & "x"\nOUTPUT s\n',n,'lit',i=I(1,n+1,1),j=I(0,n+1,0))
        ts('updown','OUTPUT TO_LOWER(TO_UPPER(s)) = TO_LOWER(s), TO_UPPER(TO_LOWER(s)) = TO_UPPER(s), LENGTH(TO_UPPER(s))\n',n,'lit')
    # values computed by the program as positions
    for k,f in enumerate(('LEFT(s, @)','RIGHT(s, @)','MID(s, @, 1)','MID(s, 1, @)','MID(s, @, 2)','MID(s, 2, @)','MID(s, @, @)')):
        T(out,f'pos/{k}','s <- "h<<a>>l<<b>>o"\ni <- <<i>>\nOUTPUT "s"\nOUTPUT "<" & '+f.replace('@','i')+' & ">"\nOUTPUT s\n',a=BY(),b=BY(),i=I(init=2))
        T(out,f'posr/{k}','s <- "hello"\nx <- <<i>>\nOUTPUT "s"\nOUTPUT "<" & '+f.replace('@','x')+' & ">"\n',i=R(-10,10))
        T(out,f'posb/{k}','s <- "hello"\nOUTPUT "s"\nOUTPUT "<" & '+f.replace('@','<<v>>')+' & ">"\n',v=CH('9223372036854775807','-9223372036854775807','4294967297','-1','0','1','5','6','2','4','18446744073709551615 '))
        T(out,f'post/{k}','s <- "hello"\ni <- 2\nOUTPUT "s"\nOUTPUT '+f.replace('@','<<v>>')+'\n',v=CH('i','2.5','2.0','"2"',"'2'",'TRUE','s','1/1/2000','(i)','i / 2','i DIV 2'))
        T(out,f'poss/{k}','s <- "hello"\nd <- 1/2/2003\nc <- \'c\'\nOUTPUT "s"\nOUTPUT '+f.replace('@','2').replace('s,','<<v>>,')+'\nOUTPUT "t"\n',v=CH('s','"ab"',"'a'",'c','12','1.5','TRUE','d','s & s','(s)','"" & 12','"" & d'))
    # character functions
    T(out,'asc/in','DECLARE c : CHAR\nINPUT c\nOUTPUT ASC(c), " ", LCASE(c), " ", UCASE(c)\n',stdin='<<c>>\n',c=BY(1,ANY))
    T(out,'asc/lit',"OUTPUT ASC('<<c>>'), LCASE('<<c>>'), UCASE('<<c>>')\n",c=BY())
    T(out,'asc/str','s <- "<<c>><<d>>"\nOUTPUT "s"\nOUTPUT ASC(MID(s, 1, 1)), ASC(RIGHT(s, 1))\n',c=BY(),d=BY())
    T(out,'asc/strn','OUTPUT "s"\nOUTPUT ASC(LEFT("ab", <<i>>))\n',i=I(0,2,1))
    T(out,'chr','OUTPUT "s"\nDECLARE c : CHAR\nc <- CHR(<<n>>)\nOUTPUT "c", ASC(c)\nOUTPUT c\n',n=I(init=65))
    T(out,'chr/rt','n <- <<n>>\nOUTPUT ASC(CHR(n)) = n\n',n=I(0,127,65))
    T(out,'chr/out','OUTPUT CHR(<<n>>), "x"\nOUTPUT "" & CHR(<<n>>)\n',n=I(0,127,65))
    T(out,'chr/all','FOR i <- <<n>> TO <<n>> + 3\nOUTPUT ASC(CHR(i))\nNEXT\n',n=I(0,124,65))
    T(out,'chr/real','OUTPUT "s"\nOUTPUT ASC(CHR(<<x>>))\n',x=R(-300,300))
    T(out,'case/chr','c <- CHR(<<n>>)\nOUTPUT ASC(UCASE(c)), " ", ASC(LCASE(c)), " ", UCASE(LCASE(c)) = UCASE(c)\nOUTPUT TO_UPPER("" & c), TO_LOWER("" & c)\n',n=I(0,127,65))
    for f in ('ASC','LCASE','UCASE','CHR','LENGTH','TO_UPPER','TO_LOWER','IS_NUM','STR_TO_NUM','NUM_TO_STR','INT','RAND','LEFT','RIGHT','MID'):
        ex={'LEFT':', 1','RIGHT':', 1','MID':', 1, 1'}.get(f,'')
        if f!='RAND': T(out,f'type/{f}','d <- 1/2/2003\nc <- \'c\'\nn <- 65\nx <- 66.5\nu <- "ab"\nOUTPUT "s"\nOUTPUT '+f+'(<<v>>'+ex+')\nOUTPUT "t"\n',v=CH('"a"','"ab"','""',"'a'",'c','65','n','1.5','x','TRUE','d','u','"12"','-3','"" & n'))
        for k,a in enumerate(('()','("12", "3")','("a", 1, 1, 1)','(1, 2)','(1)','("a", 1)','("a", 1, 1)')): T(out,f'argc/{f}/{k}','OUTPUT "s"\nIF <<c>> > 0 THEN\nx <- '+f+a+'\nOUTPUT "u"\nENDIF\nOUTPUT "t"\n',c=I(init=1))
    # conversions
    CONV='OUTPUT IS_NUM(s)\nOUTPUT STR_TO_NUM(s)\nx <- REAL(s)\nOUTPUT x\n'
    for n in (1,2,3,4)+((5,6,7) if deep else (5,)):
        T(out,f'num/dig/{n}','s <- "<<s>>"\n'+CONV+'OUTPUT INTEGER(s)\n',s=BY(n,b'0123456789','1'),weight=.5)
        for p in range(0,n+1): T(out,f'num/pt/{n}.{p}','s <- "'+'<<a>>'*(p>0)+'.'+'<<b>>'*(n>p)+'"\nOUTPUT IS_NUM(s)\nx <- STR_TO_NUM(s)\ny <- REAL(s)\nOUTPUT x, " ", y, " ", x = y\n',weight=.5,**({'a':BY(p,b'0123456789','1')} if p else {}),**({'b':BY(n-p,b'0123456789','1')} if n>p else {}))
    for n in range(1,4 if not deep else 6):
        T(out,f'num/mix/{n}','s <- "<<s>>"\n'+CONV,s=BY(n,NUMA,'1'),weight=2)
        T(out,f'num/odd/{n}','s <- "<<s>>"\n'+CONV+'OUTPUT INTEGER(s)\n',s=BY(n,ODD,'1'),weight=2)
        T(out,f'num/alpha/{n}','s <- "<<s>>"\n'+CONV+'OUTPUT INTEGER(s)\n',s=BY(n,b'ghjkmoqrstuvwyzGHJKQRSTW@#$%&*(),:;<>=?[]^`|~_','g'))
        T(out,f'num/any/{n}','DECLARE s : STRING\nINPUT s\n'+CONV+'OUTPUT INTEGER(s)\n',stdin='<<s>>\n',s=BY(n,ANY,'1'),weight=2)
        T(out,f'num/tail/{n}','s <- "12<<s>>"\n'+CONV+'OUTPUT INTEGER(s)\n',s=BY(n,PRN,'x'))
        T(out,f'num/head/{n}','s <- "<<s>>12"\n'+CONV+'OUTPUT INTEGER(s)\n',s=BY(n,PRN,'x'))
    for k,s in enumerate(('','0','00','007','.5','5.','0.1','12.50','9223372036854775807','9223372036854775808','123456789012345678901','0.000001','123456.654321','-5','+5','-0.5','1.2.3','..','.','1e3','0x1F','inf','nan','12x','x12',' 12','12 ','1 2','abc','1,000','--1','1-','TRUE','99999999999999999999.5','infinity','0b1','1_000','00000000000000000000000000000001','3.','0.0','-','+')):
        T(out,f'conv/{k}','DECLARE s : STRING\ns <- "'+s+'"\nIF <<c>> > 0 THEN\nOUTPUT IS_NUM(s)\nOUTPUT STR_TO_NUM(s)\nOUTPUT REAL(s)\nOUTPUT INTEGER(s)\nENDIF\nOUTPUT "t"\n',c=I(init=1))
        T(out,f'convin/{k}','DECLARE n : INTEGER\nDECLARE x : REAL\nDECLARE s : STRING\nINPUT n\nINPUT x\nINPUT s\nIF n = STR_TO_NUM(s) THEN\nOUTPUT "eq"\nENDIF\nIF <<c>> > 0 THEN\nOUTPUT n, " ", x, " ", s\nENDIF\n',stdin=(s+'\n')*3,c=I(init=1))
    T(out,'nts/int','n <- <<n>>\ns <- NUM_TO_STR(n)\nOUTPUT s\nOUTPUT STR_TO_NUM(s) = n\n',n=I(-999999999,999999999))
    T(out,'nts/intfull','n <- <<n>>\ns <- NUM_TO_STR(n)\nOUTPUT s\nOUTPUT LENGTH(s) > 0\n',n=I())
    for d in (10,100,1000,100000,1000000,2,4,8,64):
        T(out,f'nts/real/{d}',f'x <- <<n>> / {d}\ns <- NUM_TO_STR(x)\nOUTPUT STR_TO_NUM(s) = x, REAL(s) = x\n',n=I(-99,99,12) if not deep else I(-999,999,12))
        T(out,f'nts/realbig/{d}',f'x <- (<<n>> + 123456000) / {d}\ns <- NUM_TO_STR(x)\nOUTPUT STR_TO_NUM(s) = x, LENGTH(s) > 0\n',n=I(0,20))
    for k,x in enumerate(('0.1','0.5','3.14','123456.789','0.000001','1.0','100000.0','1000000.0','12345678.5','99999.999999','0.333333','2.5','1e5','-7.25','-0.000001','123456789.123456','0.1 + 0.2','1000000000000.0','999999.999999','1234567890.5')):
        T(out,f'nts/c/{k}','IF <<c>> > 0 THEN\nx <- '+x+'\nOUTPUT NUM_TO_STR(x)\nOUTPUT STR_TO_NUM(NUM_TO_STR(x)) = x\nENDIF\nOUTPUT "t"\n',c=I(init=1))
    # numeric
    T(out,'int/real','OUTPUT INT(<<x>>)\n',x=R(-1e6,1e6))
    T(out,'int/law','x <- <<x>>\nOUTPUT INT(x) <= x, INT(x) + 1 > x\n',x=R(-1e6,1e6))
    T(out,'int/big','x <- <<x>>\ni <- INT(x)\nOUTPUT i <= x\n',x=R(-9e15,9e15))
    T(out,'int/int','OUTPUT INT(<<n>>) = <<n>>\n',n=I(-(1<<53),1<<53))
    T(out,'int/div','OUTPUT INT(<<n>> / 2), INT(<<n>> / 4)\n',n=I(-1000,1000))
    for k,x in enumerate(('2.7','-2.7','-2.0','2.0','0.5','-0.5','-1e-9','0.999999999999','1e15','-1e15','3','-3')): T(out,f'int/c/{k}','IF <<c>> > 0 THEN\nOUTPUT INT('+x+')\nENDIF\nOUTPUT "t"\n',c=I(init=1))
    T(out,'rand/bound','x <- <<x>>\nr <- RAND(x)\nOUTPUT r >= 0, r <= x\n',x=I(0,1000000,10),weight=2)
    T(out,'rand/loop','FOR i <- 1 TO 3\nr <- RAND(<<x>>)\nIF r < 0 OR r > <<x>> THEN\nOUTPUT "bad"\nENDIF\nNEXT\nOUTPUT "t"\n',x=I(0,100,10),weight=2)
    for b in (0,1,2,3,10,100,1000,2147483647,2147483648,4294967296,9000000000): T(out,f'rand/c/{b}',f'r <- RAND({b})\nOUTPUT r >= 0, r <= {b}\nIF <<c>> > 0 THEN\nr <- RAND({b})\nOUTPUT r >= 0, r <= {b}\nENDIF\n',c=I(init=1))
    T(out,'rand/neg','OUTPUT "s"\nr <- RAND(<<x>>)\nOUTPUT "t"\n',x=I(-5,5,1))
    T(out,'rand/real','OUTPUT "s"\nx <- <<x>>\nr <- RAND(x)\nOUTPUT "t"\n',x=R(-10,10))
    for k,f in enumerate(('"1" & CHR(<<n>>)','CHR(<<n>>) & "1"','"1" & CHR(<<n>>) & "2"','"2.5" & CHR(<<n>>) & "x"','"" & CHR(<<n>>)')):
        T(out,f'ctl/conv/{k}','s <- "" & '+f+'\nOUTPUT LENGTH(s), " ", IS_NUM(s)\nOUTPUT STR_TO_NUM(s)\nx <- REAL(s)\nOUTPUT x\nOUTPUT INTEGER(s)\n',n=I(0,127,0))
    # strings containing characters no literal or input line can hold
    for k,f in enumerate(('LEFT(s, <<i>>)','RIGHT(s, <<i>>)','MID(s, <<i>>, 2)','MID(s, 1, <<i>>)','TO_UPPER(s)','TO_LOWER(s)','s & s')):
        h={'i':I(1,6,3)} if '<<i>>' in f else {}
        T(out,f'ctl/{k}','s <- "a" & CHR(<<n>>) & "Bc" & CHR(0) & "d"\nr <- '+f+'\nOUTPUT LENGTH(s), " ", LENGTH(r)\nOUTPUT r\nOUTPUT LEFT(s, 2) = "a" & CHR(<<n>>), RIGHT(s, 2) = "" & CHR(0) & "d", r = s\n',n=I(0,127,0),**h)
    T(out,'ctl/num','s <- "" & CHR(<<n>>)\nOUTPUT IS_NUM("1" & s), IS_NUM(s & "1"), IS_NUM(s)\nOUTPUT ASC(MID(s, 1, 1))\n',n=I(0,127,0))
    # composition and places of use
    T(out,'use/rev','s <- "<<s>>"\nr <- ""\nFOR i <- LENGTH(s) TO 1 STEP -1\nr <- r & MID(s, i, 1)\nNEXT\nOUTPUT r\n',s=BY(4))
    T(out,'use/pal','s <- "<<s>>"\np <- TRUE\nFOR i <- 1 TO LENGTH(s) DIV 2\nIF MID(s, i, 1) <> MID(s, LENGTH(s) - i + 1, 1) THEN\np <- FALSE\nENDIF\nNEXT\nOUTPUT p\n',s=BY(4))
    T(out,'use/caesar','s <- "<<s>>"\nr <- ""\nFOR i <- 1 TO LENGTH(s)\nc <- CHR((ASC(MID(s, i, 1)) - 97 + <<k>>) MOD 26 + 97)\nr <- r & c\nNEXT\nOUTPUT r\n',s=BY(2,bytes(range(97,123))),k=I(0,25,3))
    T(out,'use/count','s <- "<<s>>"\nn <- 0\nFOR i <- 1 TO LENGTH(s)\nIF IS_NUM(MID(s, i, 1)) THEN\nn <- n + STR_TO_NUM(MID(s, i, 1))\nENDIF\nNEXT\nOUTPUT n\n',s=BY(3))
    T(out,'use/args','PROCEDURE P(BYREF s : STRING, n : INTEGER)\ns <- LEFT(s, n) & UCASE(\'x\') & RIGHT(s, LENGTH(s) - n)\nENDPROCEDURE\nDECLARE a : ARRAY[1:2] OF STRING\na[1] <- "<<s>>"\nCALL P(a[1], <<n>>)\nOUTPUT a[1]\n',s=BY(3),n=I(init=1))
    T(out,'use/rec','TYPE R\nDECLARE s : STRING\nENDTYPE\nDECLARE r : R\nr.s <- "<<s>>"\nOUTPUT TO_UPPER(MID(r.s, <<i>>, 2)), LENGTH(r.s)\n',s=BY(4),i=I(init=2))
    T(out,'use/cmp','a <- "<<a>>"\nb <- "<<b>>"\nOUTPUT a = b, a <> b, TO_UPPER(a) = TO_UPPER(b)\n',a=BY(2),b=BY(2))
    T(out,'use/esc','s <- "a<<e>>b"\nOUTPUT LENGTH(s), ASC(MID(s, 2, 1))\nOUTPUT "<" & s & ">"\n',e=CH('\\n','\\t','\\\\','\\"',"\\'",'x','\\0','\\a'))
    T(out,'use/repl','s <- "<<s>>"\nLENGTH(s)\nLEFT(s, <<i>>)\nMID(s, 2, <<i>>)\nASC(LEFT(s, 1))\nTO_UPPER(s)\n',repl=True,s=BY(3),i=I(init=1))
    T(out,'use/ped','DECLARE s : STRING\ns <- "<<s>>"\nOUTPUT MID(s, <<i>>, 1), LENGTH(s), IS_NUM(s)\n',ped=True,s=BY(2,MIX),i=I(init=1))
    return out
