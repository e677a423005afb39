"""Programs at larger sizes than the templates of the properties themselves: many parameters, deep nesting and recursion,
long texts, many entries.  One to six per property; the symbolic inputs select positions, values and lengths."""
from .common import *
BOUNDS=' Larger programs (scale/*): calls up to 140 deep, 20 parameters, 40 locals, 150 nested parentheses, 60 clauses, 900 iterations, 1600 array cells, 6 dimensions, 30 fields, strings up to 5000 characters, 300 lines, 120 REPL entries, 20 open files, 40 records, 60 enumeration names, with symbolic positions and values.'
def alnum(k): return ''.join(chr(97+(k*7+i*i+i*5)%26) for i in range(12))
def rep(n,f,sep='\n',a=0): return sep.join(f(i) for i in range(a,a+n))+('\n' if sep=='\n' else '')
def extend(prop,tier,out):
    f=globals().get(prop.lower())
    if f is None: return out
    new=[]; f(new,tier!='quick')
    for t in new:
        t.name='scale/'+t.name; t.weight=1.5; t.maxev=max(t.maxev,60000)
        if t.maxstep is None: t.maxstep=30000
    out.extend(new); return out
def c01(o,deep):
    T(o,'parens','OUTPUT '+'('*150+'<<a>>'+')'*150+'\nx <- '+'('*90+'<<a>> '+rep(90,lambda i:'+ %d)'%i,' ')+'\nOUTPUT x\nOUTPUT '+'NOT '*101+'(x > 3)\n',a=I(-10**12,10**12))
    T(o,'unbalanced','OUTPUT 1\nOUTPUT '+'('*60+'5'+')'*59+'<<a>>\nOUTPUT 2\n',a=CH(')',' ','(',']','+'))
    T(o,'blocks','x <- <<a>>\n'+rep(40,lambda i:'IF x > %d THEN'%i)+'OUTPUT "deep"\n'+rep(40,lambda i:'<<e>>' if i==20 else 'ENDIF')+'OUTPUT "end"\n',a=I(),e=CH('ENDIF','ENDWH','ELSE ','NEXT '))
    T(o,'names','DECLARE '+'a'*3000+' : INTEGER\n'+'a'*3000+' <- <<a>>\nOUTPUT '+'a'*2999+'<<e>>\nOUTPUT '+'a'*3000+'\n',a=I(),e=CH('a','b',' '))
    T(o,'number','OUTPUT 1\nx <- '+'9'*18+'<<e>>\nOUTPUT x\ny <- '+'1'*30+'.<<e>>\nOUTPUT y > 1\n',e=CH('  ','9 ','99','.5','a '))
    T(o,'infinite','DECLARE n : INTEGER\nn <- 0\nPROCEDURE P(k : INTEGER)\nn <- n + 1\nIF k > 0 THEN\nCALL P(k - 1)\nENDIF\nENDPROCEDURE\nCALL P(<<k>>)\nOUTPUT n\n',k=I(0,120))
def c02(o,deep):
    T(o,'chain','x <- <<a>>\nOUTPUT '+rep(60,lambda i:['+ %d','- %d','+ x * %d','- x * %d'][i%4]%(i+1),' ').replace('+ 1 ','1 ',1)+'\n',a=I(-10**6,10**6))
    T(o,'bool','x <- <<a>>\nOUTPUT '+rep(40,lambda i:'(x > %d)'%(i*3),' AND ')+', '+rep(40,lambda i:'(x < %d)'%(i*3),' OR ')+', NOT (x = 5)\n',a=I())
    T(o,'cat','s <- "'+'q'*290+'<<a>>'+'"\nt <- '+rep(30,lambda i:'"%s" & s'%alnum(i)[:3],' & ')+'\nOUTPUT LENGTH(t), MID(t, <<k>>, 4), s = t, s <> t\n',a=BY(1),k=I(270,300))
    T(o,'mixed','x <- <<a>>\ny <- 2.5\nOUTPUT '+rep(20,lambda i:'(x %s %d)'%(['+','-','*','DIV','MOD'][i%5],i+2),' + ')+' + y\n',a=I(0,10**9))
    T(o,'cmpstr','s <- "'+'k'*300+'<<a>>"\nt <- "'+'k'*300+'<<b>>"\nOUTPUT s = t, s <> t, s & "x" = t & "x", LENGTH(s)\n',a=BY(1),b=BY(1))
def c03(o,deep):
    n=60
    T(o,'case','k <- <<k>>\nCASE OF k\n'+rep(n,lambda i:('%d : OUTPUT "c%d"'%(i*4,i) if i%2 else '%d TO %d : OUTPUT "r%d"'%(i*4,i*4+2,i)))+'OTHERWISE : OUTPUT "other"\nENDCASE\nOUTPUT "end"\n',k=I())
    T(o,'casestr','s <- "'+alnum(3)+'<<b>>"\nCASE OF s\n'+rep(26,lambda i:'"%s%s" : OUTPUT %d'%(alnum(3),chr(97+i),i))+'OTHERWISE : OUTPUT "other"\nENDCASE\n',b=BY(1))
    T(o,'elseif','k <- <<k>>\nIF k = 1000 THEN\nOUTPUT "first"\n'+rep(40,lambda i:'ELSE IF k %s %d THEN\nOUTPUT %d'%('>' if i%3 else '=',4000-i*90,i))+'ELSE\nOUTPUT "none"\nENDIF\n',k=I())
    T(o,'for','c <- 0\nFOR i <- 1 TO 900\nIF i = <<k>> THEN\nc <- c + 1000000\nENDIF\nc <- c + i MOD 7\nNEXT\nOUTPUT c, i\n',k=I(895,902))
    T(o,'forstop','c <- 0\nFOR i <- <<a>> TO <<b>> STEP <<c>>\nc <- c + i\nNEXT i\nOUTPUT c\n',a=I(-3,-1),b=I(290,293),c=I(7,8))
    T(o,'nest','c <- 0\n'+rep(8,lambda i:'FOR i%d <- 1 TO 2'%i)+'c <- c + 1\nIF c = <<k>> THEN\nBREAK\nENDIF\n'+rep(8,lambda i:'NEXT i%d'%(7-i))+'OUTPUT c, i7\n',k=I(200,260))
    T(o,'kinds','n <- 0\nw <- 0\nWHILE w < 3\nw <- w + 1\nr <- 0\nREPEAT\nr <- r + 1\nFOR f <- 1 TO 3\nIF f = <<k>> THEN\nCONTINUE\nENDIF\nv <- 0\nWHILE TRUE\nv <- v + 1\nIF v > <<j>> THEN\nBREAK\nENDIF\nFOR g <- 3 TO 1 STEP -1\nn <- n + 1\nIF n MOD 11 = <<j>> THEN\nBREAK\nENDIF\nNEXT g\nENDWHILE\nn <- n + 100\nNEXT f\nUNTIL r > 2\nENDWHILE\nOUTPUT n\n',k=I(0,4),j=I(0,3))
    T(o,'body','FOR i <- 1 TO 3\n'+rep(60,lambda j:'IF i * 60 + %d = <<k>> THEN\n%s\nENDIF'%(j,'BREAK' if j%2 else 'CONTINUE') if j in(7,30,44,59) else 'x%d <- i + %d'%(j,j))+'OUTPUT i, x3, x58\nNEXT\nOUTPUT "end", i\n',k=I())
    T(o,'while','n <- <<a>>\nc <- 0\nWHILE n <> 1\nIF n MOD 2 = 0 THEN\nn <- n DIV 2\nELSE\nn <- 3 * n + 1\nENDIF\nc <- c + 1\nENDWHILE\nOUTPUT c\n',a=CH('27','97','25','1 '))
def c04(o,deep):
    P=20
    def par(i): return ('BYREF ' if i%3==0 else 'BYVAL ')+'p%d : %s'%(i,['INTEGER','STRING','REAL'][i%3] if i%3 else 'INTEGER')
    dec=rep(P,lambda i:'DECLARE v%d : %s\nv%d <- %s'%(i,['INTEGER','STRING','REAL'][i%3],i,['%d'%(i*3),'"s%d"'%i,'%d.5'%i][i%3]))
    ch=rep(P,lambda i:'p%d <- %s'%(i,['p%d + <<a>>'%i,'p%d & "x"'%i,'p%d * 2'%i][i%3]))
    sh='OUTPUT '+rep(P,lambda i:'v%d, " "'%i,', ')+'\n'
    T(o,'params',dec+'PROCEDURE P('+rep(P,par,', ')+')\n'+ch+'OUTPUT p0, p1, p2, p18, p19\nENDPROCEDURE\nCALL P('+rep(P,lambda i:'v%d'%i,', ')+')\n'+sh+'CALL P('+rep(P,lambda i:'v%d'%(17-i if i%3==2 and i<18 else i) if i%3 != 0 else 'v%d'%((i+9)%21 if (i+9)%21<P else 0),', ')+')\n'+sh,a=I(-10**6,10**6))
    T(o,'fparams',dec+'FUNCTION F('+rep(P,par,', ')+') RETURNS INTEGER\n'+ch+'RETURN p0 + p9 * 2 + p18 * 3\nENDFUNCTION\nOUTPUT F('+rep(P,lambda i:'v%d'%i,', ')+')\n'+sh,a=I(-10**6,10**6))
    T(o,'recur','DECLARE t : INTEGER\nt <- 0\nPROCEDURE P(n : INTEGER, BYREF r : INTEGER)\nDECLARE l : INTEGER\nl <- n * n\nIF n > 0 THEN\nCALL P(n - 1, l)\nENDIF\nr <- r + l + n\nt <- t + 1\nENDPROCEDURE\nv <- <<a>>\nCALL P(<<n>>, v)\nOUTPUT v, t\n',a=I(-10**9,10**9),n=I(40,140) if deep else I(60,75))
    T(o,'fact','FUNCTION S(n : INTEGER, s : STRING) RETURNS STRING\nDECLARE l : STRING\nIF n = 0 THEN\nRETURN s\nENDIF\nl <- s & "<<c>>"\nl <- S(n - 1, l) & "."\nRETURN l\nENDFUNCTION\nr <- S(50, "a")\nOUTPUT LENGTH(r), r\n',c=BY(1))
    T(o,'fib','FUNCTION F(n : INTEGER) RETURNS INTEGER\nDECLARE a : INTEGER\nDECLARE b : INTEGER\nIF n < 2 THEN\nRETURN n + <<a>>\nENDIF\na <- F(n - 1)\nb <- F(n - 2)\nRETURN a + b\nENDFUNCTION\nOUTPUT F(10)\n',a=I(-10**9,10**9))
    T(o,'nestcall','FUNCTION F(x : INTEGER) RETURNS INTEGER\nRETURN x * 2 - <<a>>\nENDFUNCTION\nFUNCTION G(x : INTEGER, y : INTEGER) RETURNS INTEGER\nRETURN x - y\nENDFUNCTION\nOUTPUT '+'F('*20+'<<a>>'+')'*20+'\nOUTPUT '+'G('*12+'1'+rep(12,lambda i:', %d)'%i,'')+'\nOUTPUT '+rep(12,lambda i:'G(%d, '%i,'')+'<<a>>'+')'*12+'\n',a=I(-10**6,10**6))
    T(o,'procs',rep(40,lambda i:'PROCEDURE P%d(x : INTEGER)\nDECLARE l%d : INTEGER\nl%d <- x + %d\n%sOUTPUT "P%d ", l%d\nENDPROCEDURE'%(i,i,i,i,'CALL P%d(l%d)\n'%(i-1,i) if i else '',i,i))+'CALL P39(<<a>>)\nCALL P<<k>>(1)\n',a=I(-10**9,10**9),k=CH('3 ','17','38','40'))
    T(o,'locals','PROCEDURE P(n : INTEGER)\n'+rep(40,lambda i:'DECLARE l%d : INTEGER\nl%d <- l%d + n + %d'%(i,i,i,i))+'IF n > 0 THEN\nCALL P(n - 1)\nENDIF\nOUTPUT '+rep(40,lambda i:'l%d, " "'%i,', ')+'\nENDPROCEDURE\nCALL P(<<n>>)\nCALL P(0)\n',n=I(0,4))
    T(o,'calls','DECLARE g : INTEGER\nPROCEDURE P(x : INTEGER, BYREF y : INTEGER)\nDECLARE l : INTEGER\nl <- l + x\ny <- y + l\nENDPROCEDURE\ng <- <<a>>\nFOR i <- 1 TO 150\nCALL P(i, g)\nNEXT\nOUTPUT g\n',a=I(-10**9,10**9))
def c05(o,deep):
    names=['v%d'%i for i in range(30)]; ty=['INTEGER','REAL','STRING','CHAR','BOOLEAN']; va=['%d','%d.5','"s%d"','','']
    dec=rep(30,lambda i:'DECLARE v%d : %s\nv%d <- %s'%(i,ty[i%5],i,['%d'%i,'%d.5'%i,'"s%d"'%i,"'%c'"%(97+i%26),'TRUE'][i%5]))
    sh='OUTPUT '+rep(30,lambda i:'v%d, " "'%i,', ')+'\n'
    T(o,'many',dec+'<<t>> <- <<s>>\n'+sh,t=CH('v0 ','v4 ','v7 ','v13','v26','v29'),s=CH('7   ','2.5 ','"q" ',"'x' ",'TRUE','v15 ','v29 '))
    T(o,'loop','DECLARE i : INTEGER\nDECLARE r : REAL\nr <- <<a>>\ni <- 0\nFOR k <- 1 TO 200\nr <- r + k\ni <- k\nIF k = <<k>> THEN\ni <- "x"\nENDIF\nNEXT\nOUTPUT i, r\n',a=I(-10**6,10**6),k=I(198,201))
    T(o,'longline','DECLARE s : STRING\nDECLARE c : CHAR\nINPUT s\nOUTPUT LENGTH(s), MID(s, <<k>>, 3), RIGHT(s, 2)\nINPUT c\nOUTPUT c\n',stdin='z'*700+'<<a>>'+'y'*700+'\n<<a>>\n',a=BY(1),k=I(695,705))
    T(o,'elems','DECLARE a : ARRAY[1:200] OF INTEGER\nFOR i <- 1 TO 200\na[i] <- i\nNEXT\na[<<k>>] <- <<s>>\nOUTPUT a[1], a[100], a[101], a[200]\n',k=CH('100','101','200'),s=CH('2.5','"q"','TRUE','7  '))
def c06(o,deep):
    D=6; dims=', '.join('%d:%d'%(-i,-i+1+(i%2)) for i in range(D))
    loops=rep(D,lambda i:'FOR i%d <- %d TO %d'%(i,-i,-i+1+(i%2))); nx=rep(D,lambda i:'NEXT i%d'%(D-1-i)); ix='['+', '.join('i%d'%i for i in range(D))+']'
    T(o,'dims6','DECLARE a : ARRAY['+dims+'] OF INTEGER\nc <- 0\n'+loops+'c <- c + 1\na'+ix+' <- c\n'+nx+'a[<<k>>, -1, -2, -2, -4, -3] <- -5\ns <- 0\n'+loops+'s <- s * 3 MOD 1000003 + a'+ix+'\n'+nx+'OUTPUT s, c\nOUTPUT a[0, -1, -2, -2, -4, <<j>>]\n',k=I(-1,2),j=I(-6,-2))
    T(o,'big','DECLARE a : ARRAY[-700:700] OF INTEGER\na[<<k>>] <- <<v>>\na[-700] <- 1\na[700] <- 2\nOUTPUT a[-700], a[0], a[699], a[700], a[<<k>>]\n',k=I(680,710),v=I())
    T(o,'bigneg','DECLARE a : ARRAY[-700:700] OF STRING\na[<<k>>] <- "v"\na[-700] <- "lo"\nOUTPUT a[-700], a[-699], a[0], a[700], "|", a[<<k>>]\n',k=I(-705,-690))
    T(o,'big2','DECLARE a : ARRAY[1:40, 0:39] OF INTEGER\nFOR i <- 1 TO 40\nFOR j <- 0 TO 39\na[i, j] <- i * 100 + j\nNEXT j\nNEXT i\nOUTPUT a[<<k>>, <<j>>], a[40, 39], a[1, 0]\n',k=I(38,42),j=I(37,41))
    T(o,'many',rep(25,lambda i:'DECLARE a%d : ARRAY[%d:%d] OF %s'%(i,i,i+3,['INTEGER','STRING'][i%2]))+rep(25,lambda i:'a%d[%d] <- %s'%(i,i+1,['%d','"s%d"'][i%2]%i))+'<<t>>[12] <- <<v>>\nOUTPUT '+rep(25,lambda i:'a%d[%d], " "'%(i,i+1),', ')+'\n',t=CH('a10','a11','a12','a8 '),v=CH('7  ','"q"'))
    T(o,'copy','DECLARE a, b : ARRAY[1:300] OF INTEGER\nFOR i <- 1 TO 300\na[i] <- i * i\nNEXT\nb <- a\na[<<k>>] <- 0\ns <- 0\nFOR i <- 1 TO 300\ns <- s + b[i] - a[i]\nNEXT\nOUTPUT s, b[1], b[300], a[300]\n',k=I(1,300) if deep else I(297,301))
    T(o,'sum','DECLARE a : ARRAY[1:64] OF INTEGER\nFOR i <- 1 TO 64\na[i] <- (i * 37) MOD 65\nNEXT\na[64] <- <<v>>\nFOR p <- 1 TO 8\nFOR i <- 1 TO 63\nIF a[i] < a[i + 1] THEN\nt <- a[i]\na[i] <- a[i + 1]\na[i + 1] <- t\nENDIF\nNEXT i\nNEXT p\nOUTPUT '+rep(64,lambda i:'a[%d], " "'%(i+1),', ')+'\n',v=I(30,40))
    T(o,'expr','DECLARE a : ARRAY[1:9] OF INTEGER\nFOR i <- 1 TO 9\na[i] <- (i * 4) MOD 9 + 1\nNEXT\nOUTPUT '+'a['*15+'<<k>>'+']'*15+'\n',k=I())
def c07(o,deep):
    ty=['INTEGER','STRING','REAL','BOOLEAN','CHAR']; val=['%d','"f%d"','%d.25','TRUE',"'%c'"]
    def v(i,k): return {'INTEGER':'%d'%(i+k),'STRING':'"f%d"'%(i+k),'REAL':'%d.25'%(i+k),'BOOLEAN':'TRUE','CHAR':"'%c'"%(97+(i+k)%26)}[ty[i%5]]
    R='TYPE R\n'+rep(30,lambda i:'DECLARE f%d : %s'%(i,ty[i%5]))+rep(10,lambda i:'DECLARE a%d : ARRAY[%d:%d] OF %s'%(i,i,i+2,ty[i%3]))+'ENDTYPE\n'
    sh=lambda r:'OUTPUT '+rep(30,lambda i:r+'.f%d, " "'%i,', ')+'\nOUTPUT '+rep(10,lambda i:r+'.a%d[%d], " "'%(i,i+2),', ')+'\n'
    fill=lambda r,k:rep(30,lambda i:r+'.f%d <- %s'%(i,v(i,k)))+rep(10,lambda i:r+'.a%d[%d] <- %s'%(i,i+2,{'INTEGER':'%d'%(i+k),'STRING':'"a%d"'%(i+k),'REAL':'%d.75'%(i+k)}[ty[i%3]]))
    T(o,'fields',R+'DECLARE r, s : R\n'+fill('r',1)+'s <- r\nr.f0 <- <<a>>\nr.f25 <- -3\nr.a9[11] <- -4\nr.a0[2] <- <<a>>\n'+sh('s')+sh('r')+'s <- r\nr.f25 <- 0\n'+sh('s'),a=I())
    N='TYPE T0\nDECLARE x : INTEGER\nDECLARE s : STRING\nENDTYPE\n'+rep(6,lambda i:'TYPE T%d\nDECLARE m : T%d\nDECLARE k : ARRAY[1:2] OF T%d\nENDTYPE'%(i+1,i,i))
    d='.m'*6; e='.k[2]'*6; z='.m.k[1].m.k[2].k[1].m'
    T(o,'nest',N+'DECLARE r, q : T6\nr%s.x <- <<a>>\nr%s.x <- 2\nr%s.x <- 3\nq <- r\nr%s.x <- 7\nr%s.x <- 8\nr%s.s <- "z"\nr.m <- q.k[<<k>>]\nOUTPUT q%s.x, q%s.x, q%s.x, q%s.s, "|", r%s.x, r%s.x, r%s.x\n'%(d,e,z,d,e,z,d,e,z,z,d,e,z) if deep else N.replace('T6','T6')+'DECLARE r, q : T4\nr.m.m.m.m.x <- <<a>>\nr.k[2].k[2].k[2].k[2].x <- 2\nr.m.k[1].m.k[2].x <- 3\nq <- r\nr.m.m.m.m.x <- 7\nr.k[2].k[2].k[2].k[2].x <- 8\nr.m <- q.k[<<k>>]\nOUTPUT q.m.m.m.m.x, q.k[2].k[2].k[2].k[2].x, q.m.k[1].m.k[2].x, "|", r.m.m.m.m.x, r.k[2].k[2].k[2].k[2].x, r.m.k[1].m.k[2].x, r.m.k[2].k[2].k[2].x\n',a=I(),k=I(0,3))
    A='TYPE P\nDECLARE x : INTEGER\nDECLARE s : STRING\nDECLARE l : ARRAY[1:3] OF INTEGER\nENDTYPE\n'
    T(o,'array',A+'DECLARE a, b : ARRAY[1:50] OF P\nFOR i <- 1 TO 50\na[i].x <- i\na[i].l[2] <- i * 2\na[i].s <- "s"\nNEXT\nb <- a\na[<<k>>] <- b[<<j>>]\na[<<j>>].x <- <<v>>\nb[<<k>>].l[2] <- 0\nt <- 0\nu <- 0\nFOR i <- 1 TO 50\nt <- t + a[i].x * i + a[i].l[2]\nu <- u + b[i].x * i + b[i].l[2]\nNEXT\nOUTPUT t, " ", u\n',k=I(46,49),j=I(48,50),v=I(-1000,1000))
    T(o,'pass',A+'PROCEDURE D(n : INTEGER, r : P)\nr.x <- r.x + 1\nr.l[2] <- n\nIF n > 0 THEN\nCALL D(n - 1, r)\nENDIF\nIF n MOD 20 = 3 THEN\nOUTPUT n, " ", r.x, " ", r.l[2]\nENDIF\nENDPROCEDURE\nPROCEDURE E(n : INTEGER, BYREF r : P)\nr.x <- r.x + 1\nr.l[3] <- r.l[3] + n\nIF n > 0 THEN\nCALL E(n - 1, r)\nENDIF\nENDPROCEDURE\nDECLARE v : P\nv.x <- <<a>>\nCALL D(45, v)\nOUTPUT v.x, v.l[2]\nCALL E(45, v)\nOUTPUT v.x, v.l[3]\n',a=I(-10**9,10**9))
    T(o,'ret',A+'FUNCTION F(n : INTEGER) RETURNS P\nDECLARE r : P\nIF n > 0 THEN\nr <- F(n - 1)\nENDIF\nr.x <- r.x + n\nr.l[n MOD 3 + 1] <- r.l[n MOD 3 + 1] + <<a>>\nRETURN r\nENDFUNCTION\nDECLARE v, w : P\nv <- F(40)\nw <- F(3)\nOUTPUT v.x, v.l[1], v.l[2], v.l[3], "|", w.x, w.l[1]\n',a=I(-10**9,10**9))
def c08(o,deep):
    T(o,'many',rep(40,lambda i:'CONSTANT K%d = %s'%(i,['%d'%i,'"k%d"'%i,'%d.5'%i,"'%c'"%(97+i%26)][i%4]))+'K<<k>> <- <<v>>\n'+'OUTPUT '+rep(40,lambda i:'K%d, " "'%i,', ')+'\n',k=CH('0 ','13','38','39','40'),v=CH('7  ','"q"','2.5'))
    T(o,'loop','CONSTANT K = <<a>>\nPROCEDURE P(x : INTEGER, BYREF y : INTEGER)\nx <- x + 1\ny <- y + K + x\nENDPROCEDURE\nt <- 0\nFOR i <- 1 TO 150\nCALL P(K, t)\nIF i = <<k>> THEN\nK <- 5\nENDIF\nNEXT\nOUTPUT t, K\n',a=I(0,10**6),k=I(148,151))
    T(o,'depth','CONSTANT K = <<a>>\nPROCEDURE P(n : INTEGER, BYREF y : INTEGER)\nIF n = 0 THEN\ny <- 4\nELSE\nCALL P(n - 1, y)\nENDIF\nENDPROCEDURE\nv <- 1\nCALL P(40, v)\nOUTPUT v\nCALL P(40, <<s>>)\nOUTPUT v, K\n',a=I(0,10**6),s=CH('v','K'))
    T(o,'repl',rep(30,lambda i:'CONSTANT K%d = %d'%(i,i))+rep(60,lambda i:'K%d <- %d'%(i%30,i))+'K7 <- <<a>>\n'+rep(30,lambda i:'K%d'%i),repl=True,a=I(0))
def c09(o,deep):
    T(o,'chain','DECLARE v : INTEGER\nTYPE P0 = ^INTEGER\nDECLARE p0 : P0\nv <- <<a>>\np0 <- ^v\n'+rep(10,lambda i:'TYPE P%d = ^P%d\nDECLARE p%d : P%d\np%d <- ^p%d'%(i+1,i,i+1,i+1,i+1,i))+'OUTPUT p10'+'^'*11+'\np10'+'^'*11+' <- <<b>>\nOUTPUT v, p0^, p5^^^^^^\n',a=I(),b=I())
    T(o,'table','TYPE P = ^INTEGER\nDECLARE a : ARRAY[1:30] OF INTEGER\nDECLARE p : ARRAY[1:30] OF P\nFOR i <- 1 TO 30\na[i] <- i\np[i] <- ^a[31 - i]\nNEXT\nDECLARE q : P\nq <- p[<<k>>]\nq^ <- <<v>>\nq <- p[<<j>>]\nOUTPUT q^\ns <- 0\nFOR i <- 1 TO 30\ns <- s + a[i] * i\nNEXT\nOUTPUT s\n',k=I(28,31),j=I(26,29),v=I(-1000,1000))
    T(o,'live','TYPE P = ^INTEGER\nDECLARE g : P\nPROCEDURE D(n : INTEGER, q : P)\nDECLARE l : INTEGER\nl <- n * 10\nIF n = <<k>> THEN\ng <- ^l\nENDIF\nIF n > 0 THEN\nCALL D(n - 1, ^l)\nENDIF\nq^ <- q^ + l\nENDPROCEDURE\nv <- <<a>>\nCALL D(40, ^v)\nOUTPUT v\nOUTPUT g^\n'.replace('CALL D(n - 1, ^l)','DECLARE m : P\nm <- ^l\nCALL D(n - 1, m)').replace('CALL D(40, ^v)','DECLARE w : P\nw <- ^v\nCALL D(40, w)'),a=I(-10**9,10**9),k=I(37,42))
    T(o,'reuse','TYPE P = ^INTEGER\nDECLARE g : P\nPROCEDURE D(n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nIF n = <<k>> THEN\ng <- ^l\nENDIF\nENDPROCEDURE\nFOR i <- 1 TO 120\nCALL D(i)\nNEXT\nv <- 5\nIF <<b>> THEN\ng <- ^v\nENDIF\nOUTPUT "r"\nOUTPUT g^\n',k=I(1,2),b=B)
    T(o,'list','TYPE P = ^INTEGER\nTYPE N\nDECLARE v : INTEGER\nDECLARE n : INTEGER\nENDTYPE\nTYPE Q = ^N\nDECLARE a : ARRAY[1:25] OF N\nDECLARE q : Q\nFOR i <- 1 TO 25\na[i].v <- i * i\na[i].n <- (i * 7) MOD 25 + 1\nNEXT\nk <- <<k>>\ns <- 0\nFOR i <- 1 TO 60\nq <- ^a[k]\ns <- s * 2 MOD 100003 + q^.v\nq^.v <- q^.v + 1\nk <- q^.n\nNEXT\nOUTPUT s, k\n',k=I(0,3))
def c10(o,deep):
    P='x <- <<a>>\nIF x > 3 THEN\nOUTPUT "big"\nELSE\nOUTPUT "small"\nENDIF\nFOR i <- 1 TO 3\nOUTPUT i + x\nNEXT i\nx <- "s"\nOUTPUT y\n'
    L=P.split('\n')[:-1]
    for nm,j in [('blank',lambda l:l+'\n'*60),('comments',lambda l:l+' //'+' long comment "( \' '*80+'\n'),('tabs',lambda l:'\t'*200+l.replace(' ',' \t  '*30)+'  \t'*100+'\n'),('crlf',lambda l:l+'  \r\n'*20),('cmtlines',lambda l:('  // IF x THEN\n'*40)+l+'\n')]:
        T(o,nm,''.join(j(l) for l in L),a=I(-10**9,10**9))
    T(o,'line','OUTPUT '+rep(250,lambda i:'<<a>> + %d, " "'%i,', ')+'\n'+'y <- 1'+' '*3000+'+ z\n',a=I(-10**6,10**6))
def c11(o,deep):
    body=rep(150,lambda i:'x%d <- %d'%(i%9,i)+('\n' if i%4 else ' // c'))
    T(o,'late','OUTPUT "start"\n'+body+'<<f>>\n'+body+'OUTPUT "end"\n',f=CH('OUTPUT (   ','x <- nope  ','ENDIF      ','y <- 1 + ""','OUTPUT 5   ','CALL Z()   '))
    T(o,'column','OUTPUT "start"\nIF TRUE THEN\n'+' '*500+'<<f>>'+' '*500+'\nENDIF\n',f=CH('OUTPUT )   ','x <- nope  ','ELSE IF    ','y <- 1 + ""','OUTPUT 5   '))
    T(o,'trace','PROCEDURE P(n : INTEGER)\nIF n = 0 THEN\nOUTPUT 1 / (<<a>> - 3)\nELSE\nCALL P(n - 1)\nENDIF\nENDPROCEDURE\nOUTPUT "s"\n\nCALL P(35)\nOUTPUT "e"\n',a=I(2,4))
    T(o,'trace2',rep(20,lambda i:'FUNCTION F%d(n : INTEGER) RETURNS INTEGER\n%s\nENDFUNCTION\n'%(i,'RETURN 10 DIV n' if i==0 else 'DECLARE l : INTEGER\nl <- n + 0\n\nRETURN F%d(l) + 1'%(i-1)))+'OUTPUT "s"\nOUTPUT F19(<<a>>)\n',a=I(-1,1))
    T(o,'unclosed','OUTPUT "s"\n'+rep(30,lambda i:['IF TRUE THEN','WHILE TRUE','REPEAT','FOR i <- 1 TO 2'][i%4])+'BREAK\n'+rep(30,lambda i:('<<e>>' if i==11 else ['NEXT i','UNTIL TRUE','ENDWHILE','ENDIF'][(i+2)%4])),e=CH('NEXT i  ','UNTIL   ','ENDWHILE','ENDIF   ','        '))
def c12(o,deep):
    T(o,'entries',rep(120,lambda i:['x%d <- %d'%(i%7,i),'x%d'%(i%7) if i>9 else '1','nope%d'%i,'OUTPUT %d +'%i,'IF TRUE THEN\nOUTPUT %d\nENDIF\n'%i][i%5])+'y <- <<a>>\ny + 1\nx3\n',repl=True,a=I(-10**9,10**9))
    T(o,'long','PROCEDURE P(x : INTEGER)\n'+rep(80,lambda i:'OUTPUT x + %d'%i)+'ENDPROCEDURE\n\nCALL P(<<a>>)\nCALL P("q")\nCALL P(1 <<e>> 0)\n',repl=True,a=I(-10**9,10**9),e=CH('+','/','DIV','&'))
    T(o,'fails','x <- <<a>>\n'+rep(80,lambda i:['x <- "s"','x <- x / 0','DECLARE x : REAL','CALL Q()','x[1]','x.y <- 3','x^','x <- TRUE','RETURN 4','BREAK'][i%10])+'x\nx <- x + 1\nx\n',repl=True,a=I(-10**9,10**9))
    T(o,'deeperr','PROCEDURE P(n : INTEGER)\nDECLARE l : INTEGER\nl <- n\nIF n = 0 THEN\nOUTPUT 1 DIV <<a>>\nELSE\nCALL P(n - 1)\nENDIF\nOUTPUT l\nENDPROCEDURE\n\n'+'CALL P(25)\n'*4+'y <- <<a>>\ny\nl\n',repl=True,a=I(0,1))
def c13(o,deep):
    T(o,'string','DECLARE s, t : STRING\ns <- "'+'q'*200+'<<a>>'+' '*100+'<<b>>'+'\\n#'*20+'"\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", s\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", t\nOUTPUT s = t, LENGTH(t)\nOUTPUT t\n',a=BY(1,bytes(c for c in range(32,127) if c not in b'"\'\\')),b=BY(1))
    T(o,'bigstring','DECLARE s, t : STRING\ns <- "ab<<a>>cd"\nFOR i <- 1 TO 9\ns <- s & s\nNEXT\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", s\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", t\nOUTPUT s = t, LENGTH(t), RIGHT(t, 3)\n',a=BY(1))
    T(o,'array','DECLARE a, b : ARRAY[1:400] OF INTEGER\nFOR i <- 1 TO 400\na[i] <- i * i * i * 1000003 - 7\nNEXT\na[<<k>>] <- 77\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", a\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", b\nOUTPUT b[1], b[<<k>>], b[399], b[400]\n',k=I(398,401))
    F=[('INTEGER','-9223372036854775807 + %d'),('REAL','%d.1'),('STRING','"s %d"'),('CHAR',"' '"),('BOOLEAN','TRUE'),('DATE','29/2/2020'),('STRING','""'),('CHAR',"'\\n'")]
    T(o,'fields','TYPE R\n'+rep(32,lambda i:'DECLARE f%d : %s'%(i,F[i%8][0]))+rep(6,lambda i:'DECLARE a%d : ARRAY[1:2] OF %s'%(i,F[i][0]))+'ENDTYPE\nDECLARE r, s : R\n'+rep(32,lambda i:'r.f%d <- %s'%(i,F[i%8][1]%i if '%' in F[i%8][1] else F[i%8][1]))+''.join('r.f%d <- 29/2/2020\n'%i for i in range(5,32,8))+'r.f10 <- "<<a>>"\nr.a5[1] <- 1/1/2001\nr.a5[2] <- 1/1/2001\nr.a2[1] <- "<<a>>#"\nr.f31 <- \'<<a>>\'\nOPENFILE "f" FOR RANDOM\nSEEK "f", 1\nPUTRECORD "f", r\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", s\nOUTPUT '+rep(32,lambda i:'s.f%d, "|"'%i,', ')+'\nOUTPUT s.a5[2], s.a2[1], s.a2[2], "|"\n',a=BY(1))
    T(o,'arrrec','TYPE P\nDECLARE x : INTEGER\nDECLARE s : STRING\nENDTYPE\nDECLARE a, b : ARRAY[0:29] OF P\nFOR i <- 0 TO 29\na[i].x <- i * 3\na[i].s <- "s\\n"\nNEXT\na[17].s <- "<<a>>"\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", a\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", b\nOUTPUT b[0].x, b[17].s, b[29].x, b[29].s, LENGTH(b[3].s)\n',a=BY(2))
def c14(o,deep):
    T(o,'seek','DECLARE i : INTEGER\nOPENFILE "f" FOR RANDOM\nFOR k <- 1 TO 40\nSEEK "f", k\ni <- k * 11\nPUTRECORD "f", i\nNEXT\nSEEK "f", <<k>>\ni <- -5\nPUTRECORD "f", i\nSEEK "f", <<j>>\nGETRECORD "f", i\nOUTPUT i\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\ns <- 0\nFOR k <- 1 TO 40\nSEEK "f", k\nGETRECORD "f", i\ns <- s + i * k\nNEXT\nOUTPUT s\nSEEK "f", 41\nOUTPUT EOF("f")\n'.replace('OUTPUT EOF("f")\n','OUTPUT "e"\nGETRECORD "f", i\nOUTPUT i\n'),k=I(37,42),j=I(38,41))
    T(o,'cycles','DECLARE i : INTEGER\nFOR k <- 1 TO 20\nOPENFILE "f" FOR RANDOM\nSEEK "f", k\ni <- k\nPUTRECORD "f", i\nIF k > 3 THEN\nSEEK "f", k - 2\nGETRECORD "f", i\ni <- i + <<a>>\nPUTRECORD "f", i\nENDIF\nCLOSEFILE "f"\nNEXT\nOPENFILE "f" FOR RANDOM\nFOR k <- 1 TO 20\nSEEK "f", k\nGETRECORD "f", i\nOUTPUT i\nNEXT\n',a=I(5,7))
    T(o,'sizes','DECLARE s : STRING\nOPENFILE "f" FOR RANDOM\ns <- "<<a>>"\nFOR k <- 1 TO 12\nSEEK "f", k\nPUTRECORD "f", s\ns <- s & s\nIF LENGTH(s) > 500 THEN\ns <- "z"\nENDIF\nNEXT\nSEEK "f", <<k>>\ns <- "mid"\nPUTRECORD "f", s\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nFOR k <- 1 TO 12\nSEEK "f", k\nGETRECORD "f", s\nOUTPUT k, " ", LENGTH(s), LEFT(s, 1), RIGHT(s, 1)\nNEXT\n',a=BY(1),k=I(8,11))
    T(o,'files','DECLARE i : INTEGER\nFOR k <- 1 TO 9\nn <- "f" & STRING(k)\nOPENFILE n FOR RANDOM\ni <- k * 7\nPUTRECORD n, i\nSEEK n, 2\ni <- i + <<a>>\nPUTRECORD n, i\nNEXT\nFOR k <- 1 TO 9\nn <- "f" & STRING(k)\nSEEK n, <<p>>\nGETRECORD n, i\nOUTPUT i\nCLOSEFILE n\nNEXT\n'.replace('STRING(k)','NUM_TO_STR(k)'),a=I(1,3),p=I(0,3))
def c15(o,deep):
    RD='OPENFILE "f" FOR READ\nDECLARE s : STRING\nc <- 0\nWHILE NOT EOF("f")\nREADFILE "f", s\nc <- c + 1\nOUTPUT LENGTH(s), "|", s, "|"\nENDWHILE\nOUTPUT c\n'
    T(o,'lines','OPENFILE "f" FOR WRITE\nFOR i <- 1 TO 60\nIF i MOD 4 = <<k>> THEN\nWRITEFILE "f", ""\nELSE\nWRITEFILE "f", i * 11\nENDIF\nNEXT\nCLOSEFILE "f"\n'+RD,k=I(0,4))
    T(o,'long','OPENFILE "f" FOR WRITE\ns <- "ab<<a>>"\nFOR i <- 1 TO 11\nWRITEFILE "f", s\ns <- s & s\nNEXT\nWRITEFILE "f", "<<a>>" & s & "<<b>>"\nCLOSEFILE "f"\n'+RD.replace('DECLARE s : STRING\n',''),a=BY(1),b=BY(1))
    T(o,'file',RD,files={'f':'k'*1023+'<<a>>\n'+'m'*1024+'<<a>>\n'+'n'*4095+'<<b>>\n\n'+'p'*5000+'<<b>>'},a=BY(1,bytes([97,98,10,32,0,255])),b=BY(1,bytes([97,10,32])))
    T(o,'append','OPENFILE "f" FOR WRITE\nCLOSEFILE "f"\nFOR i <- 1 TO 30\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", NUM_TO_STR(i) & "<<a>>"\nCLOSEFILE "f"\nNEXT\n'+RD,a=BY(1))
    T(o,'many','FOR k <- 1 TO 9\nn <- "f" & NUM_TO_STR(k)\nOPENFILE n FOR WRITE\nFOR i <- 1 TO k\nWRITEFILE n, "<<a>>" & NUM_TO_STR(i + k)\nNEXT i\nNEXT k\nFOR k <- 1 TO 9\nCLOSEFILE "f" & NUM_TO_STR(k)\nNEXT\nDECLARE s : STRING\nOPENFILE "f<<k>>" FOR READ\nWHILE NOT EOF("f<<k>>")\nREADFILE "f<<k>>", s\nOUTPUT s\nENDWHILE\n',a=BY(1),k=CH('1','5','9','0'))
def c16(o,deep):
    T(o,'handles',rep(20,lambda i:'OPENFILE "h%02d" FOR %s'%(i,['WRITE','RANDOM'][i%2]))+'WRITEFILE "h<<k>>", "x"\n'+rep(20,lambda i:'CLOSEFILE "h%02d"'%i)+'OPENFILE "h<<k>>" FOR READ\nOUTPUT EOF("h<<k>>")\nWRITEFILE "h03", 4\n',k=CH('00','01','02','13','15','20'))
    T(o,'exit',rep(20,lambda i:'OPENFILE "h%d" FOR WRITE\nWRITEFILE "h%d", "d%d" & NUM_TO_STR(<<a>>)'%(i,i,i))+rep(10,lambda i:'CLOSEFILE "h%d"'%(i*2))+'OUTPUT 1 / <<a>>\n',a=I(0,2))
    T(o,'cycle','OPENFILE "f" FOR WRITE\nCLOSEFILE "f"\nc <- 0\nFOR i <- 1 TO 40\nIF i MOD 3 = 0 THEN\nOPENFILE "f" FOR WRITE\nELSE\nOPENFILE "f" FOR APPEND\nENDIF\nWRITEFILE "f", i\nIF i <> <<k>> THEN\nCLOSEFILE "f"\nENDIF\nNEXT\nOUTPUT "ok"\n',k=I(39,41))
    T(o,'buffer','OPENFILE "f" FOR WRITE\nFOR i <- 1 TO 120\nWRITEFILE "f", "'+'b'*70+'" & NUM_TO_STR(i)\nNEXT\nOUTPUT 5 DIV <<a>>\n',a=I(0,1))
    T(o,'repl',rep(12,lambda i:'OPENFILE "h%d" FOR WRITE\nWRITEFILE "h%d", %d\nREADFILE "h%d", s\nOPENFILE "h%d" FOR READ\nCLOSEFILE "x%d"'%(i,i,i,i,i,i))+rep(12,lambda i:'CLOSEFILE "h%d"\nWRITEFILE "h%d", 7'%(i,i) if i%2 else 'nope')+'x <- <<a>>\nx\nWRITEFILE "h4", "more"\n',repl=True,a=I())
def c17(o,deep):
    S='s <- "'+''.join(chr(97+i%26) if i%3 else chr(65+i%26) for i in range(150))+'<<a>>'+''.join(chr(65+i%26) for i in range(150))+'"\n'
    T(o,'mid',S+'OUTPUT MID(s, <<k>>, <<n>>)\nOUTPUT LENGTH(s)\n',a=BY(1),k=I(140,160) if deep else I(148,152),n=I(0,300) if deep else I(149,154))
    T(o,'left',S+'OUTPUT LEFT(s, <<k>>)\nOUTPUT RIGHT(s, <<n>>)\n',a=BY(1),k=I(290,305),n=I(298,302))
    T(o,'case',S+'OUTPUT TO_UPPER(s)\nOUTPUT TO_LOWER(s)\nOUTPUT LENGTH(TO_UPPER(s)), TO_UPPER(s) = s\n',a=BY(1))
    T(o,'loop','s <- "<<a>>"\nt <- ""\nFOR i <- 1 TO 120\nt <- t & MID(s & t, 1, 1) & CHR(ASC(\'a\') + i MOD 26)\nNEXT\nOUTPUT LENGTH(t), LEFT(t, 7), RIGHT(t, 5)\n',a=BY(1))
    T(o,'num','s <- "'+'0'*30+'<<a>>"\nOUTPUT STR_TO_NUM(s)\nOUTPUT IS_NUM(s)\nOUTPUT NUM_TO_STR(STR_TO_NUM("<<a>>00000000"))\n',a=BY(1,b'0123456789'))
def c18(o,deep):
    T(o,'days','c <- 0\ny <- <<y>>\nDECLARE d, e : DATE\ne <- SETDATE(1, 1, 1900)\nFOR m <- 1 TO 12\nFOR k <- 1 TO 28 STEP 9\nd <- SETDATE(k, m, y)\nIF e < d THEN\nc <- c * 7 MOD 1000003 + DAYINDEX(d)\nENDIF\ne <- d\nNEXT k\nNEXT m\nOUTPUT c, DAY(d), MONTH(d), YEAR(d)\n',y=I(1999,2004))
    T(o,'array','DECLARE a : ARRAY[1:40] OF DATE\nFOR i <- 1 TO 40\na[i] <- SETDATE(i MOD 28 + 1, i MOD 12 + 1, 1990 + i)\nNEXT\nOUTPUT a[<<k>>], a[<<k>>] < a[<<j>>], a[40] > a[39], YEAR(a[<<j>>])\n',k=I(38,41),j=I(38,40))
    T(o,'check','c <- 0\nFOR y <- 1896 TO 1908\nIF y MOD 4 = 0 AND y <> <<s>> THEN\nDECLARE d : DATE\nENDIF\nd <- SETDATE(28, 2, y)\nc <- c + DAYINDEX(d)\nNEXT\nOUTPUT c\nd <- SETDATE(29, 2, <<s>>)\nOUTPUT d\n'.replace('IF y MOD 4 = 0 AND y <> <<s>> THEN\nDECLARE d : DATE\nENDIF\n','').replace('c <- 0\n','c <- 0\nDECLARE d : DATE\n',1),s=I(1896,1908))
def c19(o,deep):
    n=60; E='TYPE E = ('+rep(n,lambda i:'V%d'%i,', ')+')\n'
    T(o,'names',E+'DECLARE e, f : E\ne <- V<<k>>\nOUTPUT e, e + 1, e - 1, e + <<n>>\nf <- e + <<n>>\nOUTPUT f, e = f, V59 + 1, V0 - 1\n'.replace('V<<k>>','V0 + <<k>>'),k=I(57,62),n=I(0,3))
    T(o,'cycle',E+'DECLARE e : E\ne <- V0\nFOR i <- 1 TO 150\ne <- e + <<n>>\nNEXT\nOUTPUT e\nFOR i <- 1 TO 150\ne <- e - 7\nNEXT\nOUTPUT e, e = V59\n',n=I(-1,3))
    T(o,'types',rep(20,lambda i:'TYPE E%d = (A%d, B%d, C%d)\nDECLARE e%d : E%d\ne%d <- B%d'%(i,i,i,i,i,i,i,i))+'e<<k>> <- <<v>>\nOUTPUT '+rep(20,lambda i:'e%d, " "'%i,', ')+'\n',k=CH('0 ','11','19'),v=CH('A0 ','C11','C19','e19 + 1','e11'))
    T(o,'array',E+'DECLARE a : ARRAY[1:60] OF E\nFOR i <- 1 TO 60\na[i] <- V0 + i * 7\nNEXT\nc <- 0\nFOR i <- 1 TO 60\nIF a[i] = V7 + <<k>> THEN\nc <- c * 100 + i\nENDIF\nNEXT\nOUTPUT c, a[60], a[<<j>>]\n',k=I(0,3),j=I(58,61))
def c20(o,deep):
    D='DECLARE x, i, c : INTEGER\nDECLARE s : STRING\nx <- <<a>>\n'
    both(T(o,'chain',D+rep(30,lambda i:'IF x > %d THEN\nc <- c + %d\nENDIF'%(i*2,i))+'OUTPUT c\n',a=I()))
    both(T(o,'proc','DECLARE g : INTEGER\n'+rep(15,lambda i:'PROCEDURE P%d(x : INTEGER, BYREF y : INTEGER)\nDECLARE l : INTEGER\nl <- x + y\ny <- l\n%sENDPROCEDURE'%(i,'CALL P%d(l, y)\n'%(i-1) if i else ''))+'g <- <<a>>\nCALL P14(3, g)\nOUTPUT g\n',a=I(-1000,1000)))
    both(T(o,'loop',D+'FOR i <- 1 TO 200\nc <- c + i MOD 9\nIF i = x THEN\n<<e>>\nENDIF\nNEXT\nOUTPUT c\n',a=I(198,201),e=CH('c <- 5','BREAK ','y <- 1','s <- 1')))
    both(T(o,'late','OUTPUT "s"\n'+'DECLARE q : INTEGER\n'+rep(150,lambda i:'q <- %d'%i)+'<<e>>\nOUTPUT q\n',e=CH('q <- 2 ','z <- 1 ','INPUT z','BREAK  ')),True)
