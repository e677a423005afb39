"""C18: dates."""
from .common import *
BOUNDS='SETDATE and every accessor with three symbolic 64-bit components; literals with 1 to 3 digits of day and month and 1 to 6 digits of year, every digit symbolic; DAYINDEX for every day of the years 1..32767 (one case per month and leap kind, the year symbolic); comparisons of two dates with all six components symbolic; years outside 1..32767 are only checked for crashes.'
OPTS=dict(asan='some')
QUICK=45
def D(n): return BY(n,b'0123456789','1')
def templates(tier):
    out=[]; deep=tier!='quick'; OPS=('=','<>','<','<=','>','>=')
    T(out,'set/all','DECLARE d : DATE\nd <- SETDATE(<<d>>, <<m>>, <<y>>)\nOUTPUT d\nOUTPUT DAY(d), " ", MONTH(d), " ", YEAR(d)\n',d=I(init=28),m=I(init=2),y=I(init=2000))
    T(out,'set/direct','OUTPUT SETDATE(<<d>>, <<m>>, <<y>>)\nOUTPUT "z"\n',d=I(init=28),m=I(init=2),y=I(init=2000),weight=2)
    for m in range(0,14):
        T(out,f'set/month/{m}',f'OUTPUT SETDATE(<<d>>, {m}, <<y>>)\n',d=I(),y=I(init=2000))
        T(out,f'set/valid/{m}',f'd <- SETDATE(<<d>>, {m}, <<y>>)\nOUTPUT DAY(d), "/", MONTH(d), "/", YEAR(d)\nOUTPUT d = SETDATE(DAY(d), MONTH(d), YEAR(d))\nOUTPUT "" & d\n',d=I(1,33),y=I(1,32767,2000))
    for d in (0,1,28,29,30,31,32): T(out,f'set/day/{d}',f'OUTPUT SETDATE({d}, <<m>>, <<y>>)\n',m=I(),y=I(init=2001))
    for y in (1,4,100,400,1582,1600,1700,1752,1900,1999,2000,2023,2024,2100,2400,9999,32767): T(out,f'set/year/{y}',f'd <- SETDATE(<<d>>, <<m>>, {y})\nOUTPUT d, DAYINDEX(d)\n',d=I(init=29),m=I(init=2))
    T(out,'set/real','OUTPUT SETDATE(<<d>>, <<m>>, 2000)\n',d=R(-1e6,1e6),m=R(-1e6,1e6))
    # day of the week
    for m in range(1,13): T(out,f'wday/{m}',f'd <- SETDATE(<<d>>, {m}, <<y>>)\nOUTPUT DAYINDEX(d)\n',d=I(1,31),y=I(1,32767,2000),weight=3)
    for y in (1,1600,1899,1900,1970,1999,2000,2024,2099,2100,32767): T(out,f'wday/year{y}',f'd <- SETDATE(<<d>>, <<m>>, {y})\nOUTPUT DAYINDEX(d)\n',d=I(1,31),m=I(1,12))
    T(out,'wday/seven','a <- SETDATE(1, 1, <<y>>)\nb <- SETDATE(<<d>>, 1, <<y>>)\nOUTPUT (DAYINDEX(b) - DAYINDEX(a) + 7 - DAY(b) + 1) MOD 7\n',d=I(1,31),y=I(1970,2400),weight=2)
    # comparisons
    for k,o in enumerate(OPS):
        for mm,nn in ((2,2),(1,12),(12,11)) if not deep else [(i,j) for i in range(1,13) for j in range(1,13)]: T(out,f'cmp/{k}/{mm}/{nn}',f'a <- SETDATE(<<a>>, {mm}, <<c>>)\nb <- SETDATE(<<d>>, {nn}, <<f>>)\nIF a {o} b THEN\nOUTPUT "T"\nELSE\nOUTPUT "F"\nENDIF\n',a=I(1,28),d=I(1,28),c=I(1,32767,2000),f=I(1,32767,2000))
        T(out,f'cmpy/{k}',f'a <- SETDATE(<<a>>, <<b>>, 2001)\nb <- SETDATE(15, 6, <<f>>)\nIF a {o} b THEN\nOUTPUT "T"\nELSE\nOUTPUT "F"\nENDIF\n',a=I(1,28),b=I(1,12),f=I(1,32767,2000))
        T(out,f'cmpm/{k}',f'a <- SETDATE(<<a>>, 12, <<c>>)\nb <- SETDATE(<<d>>, 1, <<f>>)\nOUTPUT a {o} b\n',a=I(1,31),c=I(1,32767,2000),d=I(1,31),f=I(1,32767,2000))
        T(out,f'cmpadj/{k}',f'a <- SETDATE(<<a>>, <<b>>, 2023)\nc <- SETDATE(<<d>>, <<e>>, 2023)\nIF a {o} c THEN\nOUTPUT "T"\nELSE\nOUTPUT "F"\nENDIF\n',a=I(1,31,31),b=I(1,12,1),d=I(1,31,1),e=I(1,12,2),weight=2)
        T(out,f'cmpend/{k}',f'a <- SETDATE(<<a>>, 12, <<y>>)\nc <- SETDATE(<<d>>, 1, <<z>>)\nIF a {o} c THEN\nOUTPUT "T"\nELSE\nOUTPUT "F"\nENDIF\n',a=I(1,31,31),y=I(1,32767,2000),d=I(1,31,1),z=I(1,32767,2001))
        for i in range(1,12): T(out,f'cmpnext/{k}/{i}',f'a <- SETDATE(<<a>>, {i}, <<y>>)\nc <- SETDATE(<<d>>, {i+1}, <<z>>)\nIF a {o} c THEN\nOUTPUT "T"\nELSE\nOUTPUT "F"\nENDIF\n',a=I(1,31,28),y=I(1,32767,2000),d=I(1,31,1),z=I(1,32767,2000))
        T(out,f'cmpd/{k}',f'a <- SETDATE(<<a>>, <<m>>, 2023)\nb <- SETDATE(<<d>>, <<m>>, 2023)\nOUTPUT a {o} b, b {o} a, a {o} a\n',a=I(1,31),m=I(1,12),d=I(1,31))
        T(out,f'cmplit/{k}',f'OUTPUT <<d>>/<<m>>/20<<y>> {o} 15/6/2012\n',d=D(2),m=D(2),y=D(2),weight=2)
        T(out,f'cmpty/{k}',f'OUTPUT "s"\nOUTPUT 1/1/2000 {o} <<x>>\n',x=CH('1','1.5','"1/1/2000"',"'a'",'TRUE','1/1/2000','2/1/2000'))
        T(out,f'cmpty2/{k}',f'OUTPUT "s"\nOUTPUT <<x>> {o} 1/1/2000\n',x=CH('1','1.5','"1/1/2000"',"'a'",'TRUE','1/1/2000','31/12/1999'))
    # literals
    for nd in (1,2,3):
        for nm in (1,2,3):
            for ny in (1,2,3,4,5,6) if (nd<3 and nm<3) else (4,):
                T(out,f'lit/{nd}{nm}{ny}','OUTPUT "s"\nd <- <<d>>/<<m>>/<<y>>\nOUTPUT DAY(d), "-", MONTH(d), "-", YEAR(d)\nOUTPUT d\n',d=D(nd),m=D(nm),y=D(ny))
    for k,(a,b,c) in enumerate(((20,2,4),(1,20,4),(1,1,20),(30,30,30),(3,2,4),(9,1,1),(1,11,1),(2,2,12))): T(out,f'litbig/{k}','OUTPUT "s"\nOUTPUT <<d>>/<<m>>/<<y>>\n',d=D(a),m=D(b),y=D(c),maxstep=None)
    for k,s in enumerate(['31/4/2021','30/2/2020','29/2/2021','29/2/2100','29/2/2000','29/2/1900','0/1/2020','1/0/2020','1/13/2020','32/1/2020','31/12/9999','1/1/1','257/1/2020','1/257/2020','1/1/65537','1/1/32767','1/1/32768','1/1/65536','256/256/65536','287/1/2020','1/268/2020','01/02/0003','001/002/2000','4294967297/1/2000','1/4294967297/2000','1/1/4294967297','18446744073709551617/1/2000','99999999999999999999/1/2000','1/1/99999999999999999999999']):
        T(out,f'litc/{k}','OUTPUT "s"\nIF <<c>> > 0 THEN\nOUTPUT '+s+'\nd <- '+s+'\nOUTPUT DAYINDEX(d)\nENDIF\nOUTPUT "t"\n',c=I())
    # division, dates and comments that look alike
    for k,s in enumerate(['6/2','6/2/','6/2/3','6/ 2/3','6 /2/3','6/2 /3','6/2/ 3','(6)/2/3','6/(2)/3','6/2/3/4','6.0/2/3','6/2.0/3','6/2/3.0','6//2/3','6/2//3','1/1/2000 + 1','-1/1/2000','1/1/2000/1','60/20/30','1/1/2000a','1/1/2000(1)']):
        T(out,f'lex/{k}','OUTPUT "s"\nk <- <<c>>\nOUTPUT k\nOUTPUT '+s+'\nOUTPUT "t"\n',c=I())
    # storage in every kind of place
    dd=dict(d=I(1,31,29),m=I(1,12,2),y=I(1,32767,2000))
    for k,s in enumerate(['DECLARE d : DATE\nd <- @\nOUTPUT d\n','d <- @\ne <- d\nd <- 1/1/2000\nOUTPUT e, d\n','DECLARE a : ARRAY[1:2] OF DATE\na[2] <- @\na[1] <- a[2]\na[2] <- 3/4/2005\nOUTPUT a[1], a[2], a[1] < a[2]\n','TYPE R\nDECLARE v : DATE\nENDTYPE\nDECLARE r, q : R\nr.v <- @\nq <- r\nr.v <- 3/4/2005\nOUTPUT q.v, r.v\n','PROCEDURE P(x : DATE)\nOUTPUT x\nx <- 1/2/2003\nOUTPUT x\nENDPROCEDURE\nd <- @\nCALL P(d)\nOUTPUT d\n','PROCEDURE P(BYREF x : DATE)\nOUTPUT x\nx <- 1/2/2003\nENDPROCEDURE\nd <- @\nCALL P(d)\nOUTPUT d\n','FUNCTION F(x : DATE) RETURNS DATE\nRETURN x\nENDFUNCTION\nOUTPUT F(@), F(@) = @\n','TYPE P = ^DATE\nDECLARE p : P\nDECLARE d : DATE\np <- ^d\np^ <- @\nOUTPUT d, DAY(p^), MONTH(d), YEAR(p^)\n','FUNCTION F(x : DATE) RETURNS INTEGER\nRETURN YEAR(x) * 10000 + MONTH(x) * 100 + DAY(x)\nENDFUNCTION\nOUTPUT F(@)\n','OUTPUT "<" & @ & ">"\nOUTPUT LENGTH("" & @)\n','s <- STRING(@)\nOUTPUT s\n','OPENFILE "f" FOR WRITE\nWRITEFILE "f", @\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", s\nOUTPUT s\n','OUTPUT DAY(@) + 1, MONTH(@) * 2, YEAR(@) - 1\n','d <- @\nd <- SETDATE(DAY(d), 13 - MONTH(d), YEAR(d))\nOUTPUT d\n','d <- 1/1/2000\nd <- @\nOUTPUT d > 1/1/2000\n']):
        T(out,f'use/{k}',s.replace('@','SETDATE(<<d>>, <<m>>, <<y>>)'),**dd)
    for k,s in enumerate(['OUTPUT DAY(@)\n','OUTPUT MONTH(@)\n','OUTPUT YEAR(@)\n','OUTPUT DAYINDEX(@)\n','OUTPUT SETDATE(@, 1, 2000)\n','OUTPUT SETDATE(1, @, 2000)\n','OUTPUT SETDATE(1, 1, @)\n']):
        T(out,f'args/{k}','d <- 29/2/2004\ni <- <<i>>\nOUTPUT "s"\n'+s.replace('@','<<x>>'),i=I(1,12),x=CH('d','1/2/2003','i','"1/1/2000"',"'a'",'1.5','TRUE','SETDATE(1,2,3)','(d)'))
    for k,s in enumerate(['SETDATE()','SETDATE(1)','SETDATE(1,2)','SETDATE(1,2,3,4)','DAY()','DAY(1/1/2000, 1)','DAYINDEX()','MONTH()','YEAR()','TODAY(1)']): T(out,f'argn/{k}','OUTPUT "s"\nIF <<c>> > 0 THEN\nOUTPUT '+s+'\nENDIF\nOUTPUT "t"\n',c=I())
    for k,s in enumerate(['d + 1','d - d','d * 2','d / 2','d DIV 2','d MOD 2','-d','NOT d','d AND TRUE','INTEGER("3") + d','d & 1','REAL(d)','BOOLEAN(d)','CHAR(d)','DATE(d)','DATE("1/1/2000")','DATE(1)','ASC(d)','LENGTH(d)']): T(out,f'op/{k}','d <- SETDATE(1, <<m>>, 2000)\nOUTPUT "s"\nOUTPUT '+s+'\nOUTPUT "t"\n',m=I(1,12))
    for k,tm in enumerate((0,86399,951782399,951782400,1700000000,4107542399,1709164800)): T(out,f'today/{k}','d <- TODAY()\nOUTPUT d, DAY(d), MONTH(d), YEAR(d), DAYINDEX(d)\nOUTPUT d = TODAY(), d < TODAY(), d >= SETDATE(<<a>>, <<b>>, <<c>>)\n',time=tm,a=I(1,31),b=I(1,12),c=I(1,9999))
    for k,s in enumerate(['1/1/2000','"x"','5']): T(out,f'store/{k}','DECLARE d : DATE\nDECLARE s : STRING\nDECLARE n : INTEGER\nd <- 2/2/2002\nOUTPUT "s"\n<<v>> <- '+s+'\nOUTPUT d, s, n\n',v=CH('d','s','n','f'))
    T(out,'input','DECLARE d : DATE\nOUTPUT "s"\nINPUT d\nOUTPUT d\n',stdin='<<a>>/<<b>>/2000\n',a=D(2),b=D(2))
    T(out,'case','d <- SETDATE(<<d>>, 1, 2000)\nCASE OF d\n1/1/2000: OUTPUT "a"\n2/1/2000: OUTPUT "b"\n31/1/2000: OUTPUT "c"\nOTHERWISE: OUTPUT "o"\nENDCASE\n',d=I(1,31))
    T(out,'repl','d <- SETDATE(<<a>>, <<b>>, 2001)\nd\nDAYINDEX(d)\nd <- 30/2/2001\nd\nd <- 28/2/2001\nd > SETDATE(<<a>>, <<b>>, 2001)\n',repl=True,a=I(),b=I())
    T(out,'loop','FOR i <- 27 TO 32\nd <- SETDATE(i, <<m>>, <<y>>)\nOUTPUT d, " ", DAYINDEX(d)\nNEXT\n',m=I(1,12),y=I(1,32767,2000),weight=2)
    return out
