"""C13: random files reproduce every value exactly."""
from .common import *
BOUNDS='every type with its whole value range symbolic (INTEGER 64 bit, REAL finite doubles of magnitude 1e-200..1e200, zero and chosen extreme constants, all 256 CHAR codes, STRINGs of 0 to 4 arbitrary bytes, dates, enumerations), written and read in the same session, after closing and reopening, and by a later process; 1 and 2-dimensional arrays, records with 0-3 scalar and 0-3 array fields, nested 3 deep, arrays of records; files of up to 4 records of mixed types; every pair of different written and read types; types of the same name whose definition differs between runs or scopes'
OPTS=dict(asan='some',asan_n=2)
QUICK=45
ANY=bytes(c for c in range(1,256) if c not in b'"\\\r')      # everything a STRING literal can hold directly
ANC=bytes(c for c in range(1,256) if c not in b"'\\\r\n")
ESC=r"\n",r"\t",r"\\",r"\'",r'\"','#'
TYPES='TYPE E = (Red, Green, Blue)\nTYPE P\nDECLARE x : INTEGER\nDECLARE y : STRING\nENDTYPE\n'
def modes(out,name,decl,put,show,names,ty,hole,w=1.0,cross=True):
    """decl: declarations; put: assignments; names: variables put into records 1..n; show: output statements; ty: their types"""
    n=len(names)
    P=''.join('SEEK "f", %d\nPUTRECORD "f", %s\n'%(k+1,v) for k,v in enumerate(names))
    # reading happens into fresh variables g1.. of the same types
    D2=''.join('DECLARE g%d : %s\n'%(k+1,t) for k,t in enumerate(ty))
    G=''.join('SEEK "f", %d\nGETRECORD "f", g%d\n'%(k+1,k+1) for k in reversed(range(n)))
    T(out,name+'/same',decl+D2+put+'OPENFILE "f" FOR RANDOM\n'+P+G+show,weight=w,**hole)
    T(out,name+'/reopen',decl+D2+put+'OPENFILE "f" FOR RANDOM\n'+P+'CLOSEFILE "f"\nOUTPUT "c"\nOPENFILE "f" FOR RANDOM\n'+G+show,weight=w,**hole)
    if cross:
        T(out,name+'/next',decl+put+'OPENFILE "f" FOR RANDOM\n'+P,weight=w,more=[(decl+D2+'OPENFILE "f" FOR RANDOM\n'+G+show,'')],**hole)
def templates(tier):
    out=[]; deep=tier!='quick'
    def one(name,ty,val,hole,sh='OUTPUT g1\n',pre='',**k): modes(out,name,pre+'DECLARE v : %s\n'%ty,'v <- %s\n'%val,sh,['v'],[ty],hole,**k)
    one('int','INTEGER','<<v>>',dict(v=I()))
    one('real','REAL','<<v>>',dict(v=R()),sh='OUTPUT g1 = <<v>>\nOUTPUT g1\n')
    for k,x in enumerate(['0.0','-0.5','0.1','1.0/3.0','123456789.123456789','1'+'0'*300+'.0','1.0/(1'+'0'*300+'.0)','179769313486231570'+'0'*291+'.0','2.0/9'+'0'*307+'.0','1'+'0'*22+'.0','0.0000000001','-1'+'0'*17+'.0','12345678901234567.0','0.30000000000000004','4.9406564584124654 / 1'+'0'*4]):
        one('realc/%d'%k,'REAL',x,{},sh='OUTPUT g1 = v, g1 - v = 0.0\nOUTPUT g1\n',cross=False)
        T(out,'realc/%d/next'%k,'DECLARE v : REAL\nv <- %s\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\n'%x,more=[('DECLARE v, w : REAL\nv <- %s\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", w\nOUTPUT w = v, w - v = 0.0\n'%x,)])
    one('bool','BOOLEAN','<<v>>',dict(v=B))
    one('char/code','CHAR','CHR(<<v>>)',dict(v=I(0,255)),cross=False,sh='OUTPUT ASC(g1), "|"\nOUTPUT g1, "|"\n')
    one('char/lit','CHAR',"'<<v>>'",dict(v=BY(1,ANC)),sh='OUTPUT ASC(g1), "|"\n')
    one('char/esc','CHAR',"'<<v>>'",dict(v=CH(*ESC[:-1])),sh='OUTPUT ASC(g1), "|"\n')
    for n in range(0,5 if deep else 4): one('str/%d'%n,'STRING','"<<v>>"',dict(v=BY(n,ANY,'#')),sh='OUTPUT LENGTH(g1), g1, "|"\n',w=1+n)
    one('str/code','STRING','"a" & CHR(<<v>>) & CHR(<<w>>)',dict(v=I(0,255,10),w=I(0,255,35)),sh='OUTPUT LENGTH(g1), g1 = v\nOUTPUT g1, "|"\n',cross=False,w=2)
    one('str/esc','STRING','"<<a>><<b>>"',dict(a=CH(r'\n',r'\t',r'\"',r'\\'),b=CH('#', ' ', r'\n','0')),sh='OUTPUT LENGTH(g1), g1, "|"\n')
    for k,s in enumerate(['','\\n','#','\\n#','\\n\\n','#\\n','\\n\\n\\n','a\\n#b','##','\\n#\\n#',' ',' a ','  ','5 abc','STRING 3 abc','a\\nINTEGER 4\\n','\\n##','0 ','\\t','-1','x'*300,'x\\n'*100,'a\\n\\n\\nb','#\\n#\\n#','\\n ']):
        one('strc/%d'%k,'STRING','"%s"'%s,{},sh='OUTPUT LENGTH(g1), g1 = "%s"\nOUTPUT g1\n'%s)
    one('date','DATE','SETDATE(<<d>>, <<m>>, <<y>>)',dict(d=I(1,31,28),m=I(1,12,2),y=I(1,32767,2020)))
    T(out,'datedef','DECLARE d, e : DATE\ne <- 1/1/2000\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", e\nGETRECORD "f", d\nOUTPUT d = e\n')
    one('enum','E','<<v>>',dict(v=CH('Red','Green','Blue')),pre=TYPES)
    one('enum1','E','Red + <<v>>',dict(v=I(0,2)),pre=TYPES,sh='OUTPUT g1\n',cross=False)
    # arrays
    for k,(ty,v,h,s) in enumerate([('INTEGER','<<v>>',dict(v=I()),''),('REAL','<<v>>',dict(v=R()),''),('BOOLEAN','<<v>>',dict(v=B),''),('CHAR','CHR(<<v>>)',dict(v=I(0,255,10)),''),('STRING','"<<v>>"',dict(v=BY(2,ANY,'\n')),''),('DATE','29/2/<<v>>',dict(v=CH('2020','2024','1600')),''),('E','<<v>>',dict(v=CH('Red','Green','Blue')),'')]):
        for q,(b,ix) in enumerate((('1:3',['1','2','3']),('-1:1',['-1','0','1']),('0:1, 5:6',['0, 5','1, 5','0, 6','1, 6']),('4:4',['4']))):
            if q and not deep and k%2==q%2: continue
            other={'INTEGER':'7','REAL':'0.25','BOOLEAN':'TRUE','CHAR':"'\\n'",'STRING':'"p q"','DATE':'1/2/2003','E':'Blue'}[ty]
            ch=ty=='CHAR'
            put=''.join('v[%s] <- %s\n'%(i,v if z!=1 else other) for z,i in enumerate(ix))
            # read back in place after clobbering
            sh='OUTPUT '+', "|", '.join(('ASC(v[%s])' if ch else 'v[%s]')%i for i in ix)+'\n'
            dc=TYPES+'DECLARE v : ARRAY[%s] OF %s\nDECLARE c : ARRAY[%s] OF %s\n'%(b,ty,b,ty)
            T(out,'arr/%s/%d/same'%(ty,q),dc+put+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\nv <- c\nGETRECORD "f", v\n'+sh+'CLOSEFILE "f"\nv <- c\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", v\n'+sh,**h)
            if not ch: T(out,'arr/%s/%d/next'%(ty,q),dc+put+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\n',more=[(dc+'OPENFILE "f" FOR RANDOM\nGETRECORD "f", v\n'+sh,)],**h)
    T(out,'arr/big','DECLARE v, w : ARRAY[1:40] OF INTEGER\nFOR i <- 1 TO 40\nv[i] <- i * <<k>>\nNEXT\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", w\nFOR i <- 1 TO 40\nIF w[i] <> v[i] THEN\nOUTPUT "bad", i\nENDIF\nNEXT\nOUTPUT w[<<i>>]\n',k=I(-3,12),i=I(1,40),weight=2)
    # records: every combination of numbers of scalar and array fields
    F=[('INTEGER','<<a>>'),('STRING','"<<s>>"'),('BOOLEAN','<<b>>')]
    A=[('BOOLEAN',['TRUE','<<b>>']),('INTEGER',['<<a>>','5']),('CHAR',["'#'","'\\n'"])]
    H=dict(a=I(),s=BY(1,ANY,'\n'),b=B)
    import itertools
    for ns in range(4):
        for na in range(4):
            if ns+na==0: continue
            for od in ([0,1] if ns and na else [0]):
                flds=[('f%d'%i,)+F[i]+(0,) for i in range(ns)]; arrs=[('a%d'%i,)+A[i]+(1,) for i in range(na)]
                allf=flds+arrs if od==0 else [x for z in itertools.zip_longest(arrs,flds) for x in z if x]
                dc='TYPE R\n'+''.join('DECLARE %s : %s\n'%(n,t if not ar else 'ARRAY[1:2] OF '+t) for n,t,v,ar in allf)+'ENDTYPE\n'
                put=''.join('v.%s <- %s\n'%(n,v) if not ar else ''.join('v.%s[%d] <- %s\n'%(n,j+1,v[j]) for j in(0,1)) for n,t,v,ar in allf)
                sh='OUTPUT '+', "|", '.join(y for n,t,v,ar in allf for y in (['g1.%s'%n] if not ar else ['g1.%s[1]'%n,'g1.%s[2]'%n]))+'\n'
                use={k:H[k] for k in H if '<<%s>>'%k in put}
                modes(out,'rec/%d.%d.%d'%(ns,na,od),dc+'DECLARE v : R\n',put,sh,['v'],['R'],use,cross=(ns+na)%2==0 or deep)
    nest='TYPE A\nDECLARE i : INTEGER\nDECLARE s : STRING\nENDTYPE\nTYPE BB\nDECLARE a : A\nDECLARE c : CHAR\nDECLARE l : ARRAY[0:1] OF A\nENDTYPE\nTYPE C\nDECLARE b : BB\nDECLARE r : REAL\nDECLARE m : ARRAY[1:2] OF BB\nDECLARE d : DATE\nENDTYPE\nDECLARE v : C\n'
    modes(out,'nest',nest,'v.b.a.i <- <<i>>\nv.b.a.s <- "<<s>>"\nv.b.c <- \'<<c>>\'\nv.b.l[1].i <- 5\nv.b.l[0].s <- "x\\n"\nv.r <- <<r>>\nv.m[2].l[1].i <- <<j>>\nv.m[1].c <- \'\\n\'\nv.m[1].a.s <- "#"\nv.d <- 29/2/2020\nv.m[2].a.i <- 9\nv.m[2].c <- \' \'\nv.m[1].l[0].s <- "<<s>>"\n',
      'OUTPUT g1.b.a.i, g1.b.a.s, "|", g1.b.c, "|", g1.b.l[1].i, g1.b.l[0].s, g1.b.l[0].i\nOUTPUT g1.r = <<r>>, g1.m[2].l[1].i, g1.m[1].c, g1.m[1].a.s, "|", g1.d, g1.m[2].a.i, g1.m[2].c, "|", g1.m[1].l[0].s, "|"\n',['v'],['C'],dict(i=I(),j=I(),s=BY(1,ANY,'\n'),c=BY(1,ANC,' '),r=R()),w=3)
    modes(out,'defaults','TYPE R\nDECLARE i : INTEGER\nDECLARE r : REAL\nDECLARE b : BOOLEAN\nDECLARE c : CHAR\nDECLARE s : STRING\nDECLARE a : ARRAY[1:2] OF STRING\nENDTYPE\nDECLARE v : R\n','v.i <- <<i>>\n','OUTPUT g1.i, g1.r, g1.b, ASC(g1.c), g1.s, "|", g1.a[1], g1.a[2], "|"\n',['v'],['R'],dict(i=I()))
    # arrays of records
    T(out,'arrrec',TYPES+'DECLARE v, w : ARRAY[1:2] OF P\nv[1].x <- <<a>>\nv[2].y <- "<<s>>"\nv[2].x <- 4\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", w\nOUTPUT w[1].x, w[1].y, "|", w[2].x, w[2].y, "|"\n',a=I(),s=BY(2,ANY,'\n'))
    # files holding several records
    for k,(n1,n2,n3) in enumerate([('s','i','s'),('s','s','s'),('i','s','c'),('c','s','i'),('s','c','c'),('r','s','i'),('b','r','s')]):
        ty={'s':'STRING','i':'INTEGER','c':'CHAR','r':'REAL','b':'BOOLEAN'}; va={'s':'"<<%s>>"','i':'<<%s>>','c':"'<<%s>>'",'r':'<<%s>>','b':'<<%s>>'}
        sp={'s':BY(2 if deep else 1,ANY,'\n'),'i':I(),'c':CH(*ESC),'r':R(),'b':B}
        nm=['x1','x2','x3']; t3=[n1,n2,n3]
        modes(out,'multi/%d'%k,''.join('DECLARE %s : %s\n'%(n,ty[t]) for n,t in zip(nm,t3)),''.join('%s <- %s\n'%(n,va[t]%n) for n,t in zip(nm,t3)),'OUTPUT '+', "|", '.join('g%d%s'%(i+1,' = x%d'%(i+1) if 0 else '') for i in range(3))+', "|"\n',nm,[ty[t] for t in t3],{n:sp[t] for n,t in zip(nm,t3)},w=2)
    # other types are refused, the variable keeps its value
    MT='TYPE E = (Red, Green, Blue)\nTYPE F = (One, Two, Three)\nTYPE P\nDECLARE x : INTEGER\nENDTYPE\nTYPE Q\nDECLARE x : INTEGER\nENDTYPE\nTYPE P2\nDECLARE x : INTEGER\nDECLARE z : INTEGER\nENDTYPE\n'
    V=[('INTEGER','5','vi'),('REAL','2.5','vr'),('BOOLEAN','TRUE','vb'),('CHAR',"'c'",'vc'),('STRING','"s"','vs'),('DATE','1/2/2020','vd'),('E','Green','ve'),('F','Two','vf'),('P',None,'vp'),('Q',None,'vq'),('P2',None,'v2'),('ARRAY[1:2] OF INTEGER',None,'ai'),('ARRAY[1:2] OF REAL',None,'ar'),('ARRAY[1:3] OF INTEGER',None,'a3'),('ARRAY[1:2] OF STRING',None,'as_x'),('ARRAY[1:2] OF P',None,'ap')]
    def dec(p): return MT+''.join('DECLARE %s%s : %s\n'%(p,n,t) for t,v,n in V)
    def setv(p,k): return ''.join('%s%s <- %s\n'%(p,n,v) for t,v,n in V if v)+'%svp.x <- %d\n%svq.x <- %d\n%sv2.x <- 2\n%sv2.z <- %d\n%sai[1] <- %d\n%sai[2] <- 3\n%sar[1] <- 1.5\n%sa3[2] <- 6\n%sas_x[2] <- "t"\n%sap[1].x <- 8\n'%(p,k,p,k,p,p,k,p,k,p,p,p,p,p)
    def show(p): return 'OUTPUT '+', " ", '.join(p+x for x in ['vi','vr','vb','vc','vs','vd','ve','vf','vp.x','vq.x','v2.x','v2.z','ai[1]','ai[2]','ar[1]','a3[2]','as_x[2]','ap[1].x'])+'\n'
    names=[n for t,v,n in V]
    for w in names:
        T(out,'type/'+w,dec('')+setv('',7)+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", %s\nOUTPUT "s"\n'%w+show('')+'GETRECORD "f", <<r>>\nOUTPUT "g"\n'+show(''),r=CH(*names))
        T(out,'typerepl/'+w,dec('').replace('ENDTYPE\n','ENDTYPE\n\n')+setv('',7)+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", %s\nGETRECORD "f", <<r>>\n'%w+show('')+'EXIT\n',repl=True,r=CH(*names),weight=2)
    T(out,'type/reopen',dec('')+setv('',7)+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", <<w>>\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nGETRECORD "f", <<r>>\nOUTPUT "g"\n'+show(''),w=CH(*names[:11]),r=CH(*names[:11]),weight=4)
    # a type of the same name whose definition differs (in a later run, or in another scope) is a different type
    LAY=[['a : INTEGER'],['a : INTEGER','b : INTEGER'],['a : INTEGER','b : INTEGER','c : STRING'],['a : REAL'],['c : STRING'],['a : ARRAY[1:2] OF INTEGER'],['a : ARRAY[1:3] OF INTEGER'],['a : INTEGER','l : ARRAY[1:2] OF INTEGER'],['a : INTEGER','l : ARRAY[1:2] OF INTEGER','m : ARRAY[1:2] OF INTEGER'],['a : INTEGER','n : N'],['a : INTEGER','n : N','o : N']]
    NT='TYPE N\nDECLARE q : INTEGER\nENDTYPE\n'
    def lay(f): return NT+'TYPE T\n'+''.join('DECLARE %s\n'%x for x in f)+'ENDTYPE\nDECLARE v : T\nDECLARE k : INTEGER\n'
    def fill(f,h): 
        x=f[0]
        return 'v.%s <- %s\n'%('a[2]' if 'ARRAY' in x else x[0],'"%s"'%h if 'STRING' in x else '(%s)'%h)
    def shw(f): return 'OUTPUT '+', " ", '.join('v.'+(x[0]+'[2]' if 'ARRAY' in x else x[0]+'.q' if x[-1]=='N' else x[0]) for x in f)+'\n'
    for i,f in enumerate(LAY):
        for j,g in enumerate(LAY):
            if i!=j and not deep and (i*3+j)%2 and abs(i-j)>2: continue
            T(out,'relayout/%d.%d'%(i,j),lay(f)+fill(f,'<<a>>')+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\nSEEK "f", 2\nk <- 5\nPUTRECORD "f", k\nCLOSEFILE "f"\n',
              more=[(lay(g)+'OPENFILE "f" FOR RANDOM\nSEEK "f", 2\nGETRECORD "f", k\nOUTPUT k\nSEEK "f", 1\nGETRECORD "f", v\n'+shw(g),'')],a=BY(1,'0123456789','5'))
        for j,g in enumerate(LAY):
            if i==j or abs(i-j)>2 and not deep: continue
            T(out,'relocal/%d.%d'%(i,j),lay(f)+'PROCEDURE P()\n'+lay(g)+'GETRECORD "f", v\n'+shw(g)+'ENDPROCEDURE\n'+fill(f,'<<a>>')+'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", v\nCALL P()\n',a=BY(1,'0123456789','5'))
    for k,(s,g) in enumerate([('PUTRECORD "f", p','GETRECORD "f", p'),('PUTRECORD "f", nope','GETRECORD "f", nope'),('PUTRECORD "f", K','GETRECORD "f", i'),('PUTRECORD "f", i','GETRECORD "f", K'),('PUTRECORD "f", pa','GETRECORD "f", pa')]):
        T(out,'odd/%d'%k,'TYPE PI = ^INTEGER\nDECLARE p : PI\nDECLARE pa : ARRAY[1:2] OF PI\nDECLARE i : INTEGER\nCONSTANT K = 5\ni <- <<i>>\nOPENFILE "f" FOR RANDOM\nOUTPUT "s"\n'+s+'\nOUTPUT "p"\n'+g+'\nOUTPUT i, K\n',i=I())
    # parameters, locals and references as record variables
    T(out,'byref','DECLARE g, h : INTEGER\nPROCEDURE P(BYREF x : INTEGER, y : INTEGER)\nDECLARE l : INTEGER\nl <- y * 2\nSEEK "f", 1\nPUTRECORD "f", x\nSEEK "f", 2\nPUTRECORD "f", l\nSEEK "f", 3\nPUTRECORD "f", y\nSEEK "f", 2\nGETRECORD "f", x\nSEEK "f", 1\nGETRECORD "f", y\nOUTPUT x, y, l\nENDPROCEDURE\nOPENFILE "f" FOR RANDOM\ng <- <<a>>\nCALL P(g, <<b>>)\nOUTPUT g\nSEEK "f", 3\nGETRECORD "f", h\nOUTPUT h\nCLOSEFILE "f"\n',a=I(),b=I(-2**60,2**60))
    T(out,'global','DECLARE g : INTEGER\nDECLARE a : ARRAY[1:2] OF INTEGER\nPROCEDURE P()\nGETRECORD "f", g\nSEEK "f", 2\nGETRECORD "f", a\nENDPROCEDURE\nOPENFILE "f" FOR RANDOM\ng <- <<a>>\na[2] <- <<b>>\nPUTRECORD "f", g\nSEEK "f", 2\nPUTRECORD "f", a\ng <- 0\na[2] <- 0\nSEEK "f", 1\nCALL P()\nOUTPUT g, a[1], a[2]\n',a=I(),b=I())
    return out
