"""C15: text files return exactly the lines that were written, and EOF is exact."""
from .common import *
BOUNDS='existing files of 0 to 7 symbolic bytes (every byte value, so every number of lines, empty lines, missing final line break, CR, NUL); up to 4 written lines of 0 to 4 symbolic bytes or symbolic INTEGER (64 bit), BOOLEAN, CHAR (all codes but the line break), DATE and sampled REAL values; histories of 4 (quick) or 5 (thorough) symbolic operations; up to 3 runs of the interpreter on the same file'
OPTS=dict(asan='some',asan_n=2)
ANY=bytes(c for c in range(1,256) if c not in b'"\\\r\n')     # what a STRING literal can hold directly, without line breaks
FB=bytes(range(0,256))
LOOP='WHILE NOT EOF("f")\nREADFILE "f", l\nOUTPUT "[", l, "]"\nn <- n + 1\nENDWHILE\nOUTPUT n\n'
SHOW='DECLARE l : STRING\nDECLARE n : INTEGER\nOPENFILE "f" FOR READ\n'+LOOP
def templates(tier):
    out=[]; deep=tier!='quick'
    # any existing file: the loop reads every line once, EOF is exact, nothing is changed
    for k in range(8 if deep else 7):
        w=1.0 if k<4 else 2.5
        T(out,f'read/{k}',SHOW,files={'f':'<<s>>'} if k else {'f':''},weight=w,**(dict(s=BY(k,FB,'\n')) if k else {}))
        if k: T(out,f'read2/{k}','DECLARE l : STRING\nDECLARE n : INTEGER\nOPENFILE "f" FOR READ\nOUTPUT EOF("f")\nREADFILE "f", l\nOUTPUT l, LENGTH(l), EOF("f"), EOF("f")\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nOUTPUT EOF("f")\n'+LOOP+'OUTPUT EOF("f")\nCLOSEFILE "f"\n',files={'f':'<<s>>'},weight=w,s=BY(min(k,5),FB,'\n'))
        if k and k<6:
            al=b'\nab \r\0\xff'
            T(out,f'shape/{k}',SHOW,files={'f':'<<s>>\n<<t>>'},s=BY(k,al,'\n'),t=BY(2,al,'a'),weight=w)
            # APPEND keeps the existing contents
            T(out,f'append/{k}','OPENFILE "f" FOR APPEND\nWRITEFILE "f", "<<t>>"\nWRITEFILE "f", "z"\nCLOSEFILE "f"\n'+SHOW,files={'f':'<<s>>'},s=BY(min(k,4),FB,'a'),t=BY(1,ANY,'q'),weight=w)
            T(out,f'appendnone/{k}','OPENFILE "f" FOR APPEND\nCLOSEFILE "f"\n'+SHOW,files={'f':'<<s>>'},s=BY(min(k,4),FB,'a'),weight=w)
            T(out,f'appendrun/{k}','OPENFILE "f" FOR APPEND\nWRITEFILE "f", "<<t>>"\n',more=[(SHOW,)],files={'f':'<<s>>'},s=BY(min(k,3),FB,'a'),t=BY(1,ANY,'q'),weight=w)
            # WRITE starts empty
            T(out,f'write/{k}','OPENFILE "f" FOR WRITE\nWRITEFILE "f", "<<t>>"\nCLOSEFILE "f"\n'+SHOW,files={'f':'<<s>>'},s=BY(min(k,3),FB,'a'),t=BY(2,ANY,'q'),weight=w)
            T(out,f'writenone/{k}','OPENFILE "f" FOR WRITE\nCLOSEFILE "f"\n'+SHOW,files={'f':'<<s>>'},s=BY(min(k,3),FB,'a'))
    T(out,'write/new','OPENFILE "f" FOR WRITE\nCLOSEFILE "f"\n'+SHOW)
    # every type
    def ty(name,e,hole,pre='',w=1.0):
        W=pre+'OPENFILE "f" FOR WRITE\nWRITEFILE "f", '+e+'\nWRITEFILE "f", "|"\n'
        T(out,f'{name}/same',W+'CLOSEFILE "f"\n'+SHOW,weight=w,**hole)
        T(out,f'{name}/next',W,more=[(SHOW,)],weight=w,**hole)
        T(out,f'{name}/app',pre+'OPENFILE "f" FOR APPEND\nWRITEFILE "f", '+e+'\nCLOSEFILE "f"\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", '+e+'\nCLOSEFILE "f"\n'+SHOW,files={'f':'old\n'},weight=w,**hole)
    ty('int','<<v>>',dict(v=I()))
    ty('intexpr','(<<v>>) - 1',dict(v=I(-10**6,10**6)))
    ty('bool','<<v>>',dict(v=B)); ty('boolexpr','<<v>> > 3',dict(v=I()))
    ty('char','c',dict(v=I(0,255,65)),pre='DECLARE c : CHAR\nc <- CHR(<<v>>)\n')
    ty('charlit',"'<<v>>'",dict(v=BY(1,bytes(c for c in range(1,256) if c not in b"'\\\r\n"),'a')))
    ty('date','SETDATE(<<d>>, <<m>>, <<y>>)',dict(d=I(1,31,1),m=I(1,12,1),y=I(1,9999,2000)),w=1.5)
    ty('datelit','7/11/2023',{})
    for k in range(5): ty(f'str/{k}','"<<v>>"' if k else '""',dict(v=BY(k,ANY,'b')) if k else {})
    ty('strq',"\"<<a>>\"",dict(a=CH('a\\tb',"\\'x\\\"",'\\\\','  ','  x  ','// no','#','')))
    ty('concat','s & <<v>> & "."',dict(v=I(-999,999)),pre='s <- "n="\n')
    ty('fn','F("<<v>>")',dict(v=BY(2,ANY)),pre='FUNCTION F(s : STRING) RETURNS STRING\nRETURN s & "!" & s\nENDFUNCTION\n')
    ty('elem','a[<<i>>]',dict(i=I(0,4)),pre='DECLARE a : ARRAY[1:3] OF INTEGER\na[1] <- 5\na[3] <- -7\n')
    ty('nul','s & CHR(0) & s',{},pre='s <- "x"\n')
    ty('default','v',dict(t=CH('INTEGER','STRING ','BOOLEAN')),pre='DECLARE v : <<t>>\n')
    for k,e in enumerate(['e','p','r','1 DIV 0','nope','a','"x" + 1']):
        T(out,f'badtype/{k}','TYPE E = (Red, Green)\nTYPE P = ^INTEGER\nTYPE R\nDECLARE x : INTEGER\nENDTYPE\nDECLARE e : E\nDECLARE p : P\nDECLARE r : R\nDECLARE a : ARRAY[1:2] OF INTEGER\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", <<x>>\nOUTPUT "w"\nWRITEFILE "f", '+e+'\nOUTPUT "no"\n',x=I(),more=[(SHOW,)])
    # REAL: accurate to six decimals, read back through STR_TO_NUM
    for k,x in enumerate(['0.0','0.5','-0.5','0.1','-3.75','123456.654321','0.000001','-0.000001','0.0000004','99999.999999','1.0/3.0','2.0/3.0','1234567890.25','12345678901234.5','0.1+0.2','1.0','100.0','-20.0','0.9999999','1000000.0','3.0e2' if 0 else '300.0']):
        chk='IF STR_TO_NUM(l) - x > 0.0000011 OR x - STR_TO_NUM(l) > 0.0000011 THEN\nOUTPUT "inaccurate"\nELSE\nOUTPUT "ok", IS_NUM(l), LENGTH(l) > 0\nENDIF\n'
        T(out,f'realc/{k}',f'x <- {x}\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", x\nWRITEFILE "f", "|"\nCLOSEFILE "f"\nDECLARE l : STRING\nOPENFILE "f" FOR READ\nREADFILE "f", l\n'+chk+'OUTPUT EOF("f")\nREADFILE "f", l\nOUTPUT l, EOF("f")\n')
    for d in ('8','4.0','1000','1000000','7'):
        T(out,f'real/{d}',f'x <- <<n>> / {d}\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", x\nCLOSEFILE "f"\nDECLARE l : STRING\nOPENFILE "f" FOR READ\nREADFILE "f", l\n'+chk+'OUTPUT EOF("f")\n',n=I(-60,60,7))
    T(out,'realhole','OPENFILE "f" FOR WRITE\nWRITEFILE "f", <<x>>\nCLOSEFILE "f"\nDECLARE l : STRING\nOPENFILE "f" FOR READ\nREADFILE "f", l\nOUTPUT EOF("f")\n',x=R(-1e6,1e6))
    # several lines, in order; line count symbolic
    for k in range(1,5):
        W='OPENFILE "f" FOR WRITE\n'+''.join(f'WRITEFILE "f", "<<s{j}>>"\n' for j in range(k))
        hh={f's{j}':BY([2,0,1,3][j] or 1,ANY,'b') for j in range(k)}
        T(out,f'lines/{k}',W+'CLOSEFILE "f"\n'+SHOW,**hh)
        T(out,f'lines3/{k}',W,more=[('OPENFILE "f" FOR APPEND\nWRITEFILE "f", "<<s0>>"\nWRITEFILE "f", ""\n',),(SHOW,)],**hh)
    T(out,'loop','OPENFILE "f" FOR WRITE\nFOR i <- 1 TO <<n>>\nWRITEFILE "f", i * 3\nNEXT\nCLOSEFILE "f"\n'+SHOW,n=I(-2,6))
    T(out,'loop/app','OPENFILE "f" FOR WRITE\nCLOSEFILE "f"\nFOR i <- 1 TO <<n>>\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", i\nCLOSEFILE "f"\nNEXT\n'+SHOW,n=I(-1,5))
    T(out,'loop/next','OPENFILE "f" FOR WRITE\nFOR i <- 1 TO <<n>>\nWRITEFILE "f", ""\nNEXT\n',more=[(SHOW,)],n=I(0,5))
    T(out,'long','OPENFILE "f" FOR WRITE\ns <- "<<c>>"\nFOR i <- 1 TO <<n>>\ns <- s & s\nNEXT\nWRITEFILE "f", s\nWRITEFILE "f", "e"\nCLOSEFILE "f"\nDECLARE l : STRING\nOPENFILE "f" FOR READ\nREADFILE "f", l\nOUTPUT LENGTH(l), l = s, EOF("f")\nREADFILE "f", l\nOUTPUT l, EOF("f")\n',c=BY(1,ANY),n=I(0,9,4))
    # reading in other shapes
    F={'f':'<<s>>'}
    T(out,'into/undeclared','OPENFILE "f" FOR READ\nWHILE NOT EOF("f")\nREADFILE "f", q\nOUTPUT "[", q, "]"\nENDWHILE\n',files=F,s=BY(4,FB,'\n'))
    for k,(d,i) in enumerate([('DECLARE v : INTEGER\n','v'),('DECLARE v : CHAR\n','v'),('DECLARE v : ARRAY[1:2] OF STRING\n','v'),('CONSTANT v = "k"\n','v'),('DECLARE v : REAL\n','v'),('TYPE v\nDECLARE x : INTEGER\nENDTYPE\nDECLARE w : v\n','w')]):
        T(out,f'into/bad{k}',d+'OPENFILE "f" FOR READ\nOUTPUT "s"\nREADFILE "f", '+i+'\nOUTPUT "t"\n',files=F,s=BY(2,FB,'\n'))
    T(out,'into/byref','PROCEDURE P(BYREF x : STRING)\nREADFILE "f", x\nENDPROCEDURE\nDECLARE l : STRING\nOPENFILE "f" FOR READ\nWHILE NOT EOF("f")\nCALL P(l)\nOUTPUT "[", l, "]"\nENDWHILE\n',files=F,s=BY(4,FB,'\n'))
    T(out,'into/fn','FUNCTION NXT() RETURNS STRING\nDECLARE t : STRING\nREADFILE "f", t\nRETURN t\nENDFUNCTION\nFUNCTION MORE() RETURNS BOOLEAN\nRETURN NOT EOF("f")\nENDFUNCTION\nOPENFILE "f" FOR READ\nWHILE MORE()\nOUTPUT NXT() & "|"\nENDWHILE\nCLOSEFILE "f"\n',files=F,s=BY(4,FB,'\n'))
    T(out,'repeat','DECLARE l : STRING\nOPENFILE "f" FOR READ\nREPEAT\nREADFILE "f", l\nOUTPUT "[", l, "]"\nUNTIL EOF("f")\nOUTPUT "end"\n',files={'f':'a<<s>>'},s=BY(4,FB,'\n'))
    T(out,'if','DECLARE l : STRING\nOPENFILE "f" FOR READ\nIF EOF("f") = FALSE THEN\nREADFILE "f", l\nOUTPUT l\nENDIF\nOUTPUT EOF("f"), NOT EOF("f"), EOF("f") OR TRUE\n',files=F,s=BY(3,FB,'\n'))
    T(out,'partial','DECLARE l : STRING\nOPENFILE "f" FOR READ\nFOR i <- 1 TO <<n>>\nIF NOT EOF("f") THEN\nREADFILE "f", l\nOUTPUT i, l\nENDIF\nNEXT\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nOUTPUT EOF("f")\nIF NOT EOF("f") THEN\nREADFILE "f", l\nOUTPUT l\nENDIF\n',files=F,s=BY(4,b'\nab','\n'),n=I(0,4))
    T(out,'copy','DECLARE l : STRING\nOPENFILE "f" FOR READ\nOPENFILE "g" FOR WRITE\nWHILE NOT EOF("f")\nREADFILE "f", l\nWRITEFILE "g", l\nENDWHILE\nCLOSEFILE "f"\nCLOSEFILE "g"\nOPENFILE "g" FOR READ\nWHILE NOT EOF("g")\nREADFILE "g", l\nOUTPUT "[", l, "]"\nENDWHILE\n',files=F,s=BY(5,FB,'\n'),weight=2)
    T(out,'merge','DECLARE a, b : STRING\nOPENFILE "f" FOR READ\nOPENFILE "g" FOR READ\nWHILE NOT EOF("f") AND NOT EOF("g")\nREADFILE "f", a\nREADFILE "g", b\nOUTPUT a, "+", b\nENDWHILE\nOUTPUT EOF("f"), EOF("g")\n',files={'f':'<<s>>','g':'<<t>>'},s=BY(3,FB,'\n'),t=BY(3,b'\nab','\n'),weight=2)
    T(out,'two','OPENFILE "f" FOR WRITE\nOPENFILE "g" FOR APPEND\nFOR i <- 1 TO 4\nIF i <= <<k>> THEN\nWRITEFILE "f", i\nELSE\nWRITEFILE "g", "<<s>>" & i\nENDIF\nNEXT\nCLOSEFILE "f"\nCLOSEFILE "g"\n'+SHOW+SHOW.replace('DECLARE l : STRING\nDECLARE n : INTEGER\n','n <- 0\n').replace('"f"','"g"'),files={'g':'x<<t>>'},k=I(),s=BY(1,ANY),t=BY(2,FB,'\n'))
    T(out,'names','DECLARE l : STRING\nOPENFILE "<<a>>" FOR WRITE\nWRITEFILE "<<a>>", 1\nCLOSEFILE "<<a>>"\nOPENFILE "<<b>>" FOR WRITE\nWRITEFILE "<<b>>", 2\nCLOSEFILE "<<b>>"\nOPENFILE "<<a>>" FOR READ\nREADFILE "<<a>>", l\nOUTPUT l, EOF("<<a>>")\n',a=CH('a.txt','A.TXT','f 1.x','q'),b=CH('A.txt','a.txt','f 1','Q'))
    T(out,'name/expr','DECLARE l : STRING\nFOR i <- 1 TO 3\nOPENFILE "f" & i & ".t" FOR WRITE\nWRITEFILE "f" & i & ".t", "<<s>>" & i\nCLOSEFILE "f" & i & ".t"\nNEXT\nn <- "f" & <<k>> & ".t"\nOPENFILE n FOR READ\nREADFILE n, l\nOUTPUT l, EOF(n)\n',s=BY(1,ANY),k=I(1,3))
    T(out,'proc','PROCEDURE W(s : STRING)\nOPENFILE "f" FOR APPEND\nWRITEFILE "f", s\nCLOSEFILE "f"\nENDPROCEDURE\nCALL W("<<a>>")\nCALL W("")\nCALL W("<<b>>")\n'+SHOW,files={'f':''},a=BY(2,ANY),b=BY(1,ANY))
    T(out,'rec','PROCEDURE R()\nDECLARE t : STRING\nIF NOT EOF("f") THEN\nREADFILE "f", t\nCALL R()\nOUTPUT "[", t, "]"\nENDIF\nENDPROCEDURE\nOPENFILE "f" FOR READ\nCALL R()\n',files=F,s=BY(4,FB,'\n'))
    T(out,'noclose','OPENFILE "f" FOR WRITE\nWRITEFILE "f", "<<s>>"\n<<e>>\nWRITEFILE "f", "b"\n',more=[(SHOW,)],s=BY(2,ANY),e=CH('OUTPUT 1 DIV 0','OUTPUT 1      '))
    T(out,'repl','OPENFILE "f" FOR WRITE\nWRITEFILE "f", "<<s>>"\nWRITEFILE "f", <<n>>\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nEOF("f")\nREADFILE "f", l\nl\nREADFILE "f", m\nm\nEOF("f")\nEXIT\n',repl=True,s=BY(2,ANY),n=I())
    # histories
    OPS=['OPENFILE "f" FOR WRITE\nWRITEFILE "f", k\nCLOSEFILE "f"','OPENFILE "f" FOR APPEND\nWRITEFILE "f", k\nWRITEFILE "f", ""\nCLOSEFILE "f"','OPENFILE "f" FOR READ\nIF NOT EOF("f") THEN\nREADFILE "f", l\nOUTPUT l\nENDIF\nCLOSEFILE "f"',
         'OPENFILE "f" FOR APPEND\nCLOSEFILE "f"','OPENFILE "f" FOR READ\nWHILE NOT EOF("f")\nREADFILE "f", l\nOUTPUT "[", l, "]"\nENDWHILE\nCLOSEFILE "f"','OPENFILE "f" FOR WRITE\nCLOSEFILE "f"','OPENFILE "f" FOR APPEND\nWRITEFILE "f", k > 0\nCLOSEFILE "f"']
    D='DECLARE l : STRING\nDECLARE o, k, n : INTEGER\nDECLARE go : BOOLEAN\n'
    disp='go <- TRUE\nWHILE go\nINPUT o\nINPUT k\nCASE OF o\n'+''.join(f'{j}: {x}\n' for j,x in enumerate(OPS))+'OTHERWISE: go <- FALSE\nENDCASE\nENDWHILE\n'
    for a in range(len(OPS)):
        hh={}; st=f'{a}\n<<k0>>\n'; hh['k0']=I()
        for q in range(1,4 if deep else 3): hh[f'o{q}']=I(0,len(OPS)-1); hh[f'k{q}']=I(-1,12); st+=f'<<o{q}>>\n<<k{q}>>\n'
        T(out,f'hist/{a}',D+disp+'OPENFILE "f" FOR READ\n'+LOOP,stdin=st+'99\n0\n',files={'f':'<<s>>'},s=BY(2,b'\nx','x'),weight=3,**hh)
        if a%2==0 or deep: T(out,f'histnext/{a}',D+disp,stdin=st+'99\n0\n',files={'f':'<<s>>'},more=[(SHOW,)],s=BY(2,b'\nx','x'),weight=3,**hh)
    return out
