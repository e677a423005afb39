"""C14: a random file is a stable 1-based sequence of independent records."""
from .common import *
BOUNDS='files of 0 to 5 records; SEEK addresses symbolic over all 64-bit integers; every history of 3 (quick) or 4 (thorough) symbolic operations out of SEEK k, PUTRECORD of two types, GETRECORD, close+reopen, reading everything, over every starting size 0..3, with symbolic addresses and values; the same histories continued by a later process; two files interleaved; records with line breaks and growing or shrinking lengths.'
OPTS=dict(asan='some',asan_n=2)
QUICK=45
ANY=bytes(c for c in range(1,256) if c not in b'"\\\r')
def fill(n,ty='INTEGER'):
    return ''.join('v <- %d\nSEEK "f", %d\nPUTRECORD "f", v\n'%(11*(k+1),k+1) if ty=='INTEGER' else 'v <- "%s"\nSEEK "f", %d\nPUTRECORD "f", v\n'%(['aa','b\\n#b','','#','\\n'][k],k+1) for k in range(n))
# reads every record until the end: SEEK fails one past n+1, so the size is probed by the caller
def dump(n,ty='INTEGER'): return ''.join('SEEK "f", %d\nGETRECORD "f", v\nOUTPUT %d, ":", v, "|"\n'%(k+1,k+1) for k in range(n))
def templates(tier):
    out=[]; deep=tier!='quick'
    for n in range(5):
        # SEEK accepts exactly 1..n+1
        H='DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(n)
        T(out,f'seek/{n}',H+'OUTPUT "s"\nSEEK "f", <<k>>\nOUTPUT "t"\n',k=I())
        T(out,f'seekget/{n}',H+'OUTPUT "s"\nSEEK "f", <<k>>\nOUTPUT "t"\nGETRECORD "f", v\nOUTPUT v\n',k=I())
        T(out,f'seekput/{n}',H+'OUTPUT "s"\nSEEK "f", <<k>>\nv <- <<x>>\nPUTRECORD "f", v\n'+dump(n)+'SEEK "f", <<j>>\nGETRECORD "f", v\nOUTPUT v\n',k=I(),j=I(1,7),x=I())
        T(out,f'seekreopen/{n}',H+'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nOUTPUT "s"\nSEEK "f", <<k>>\nOUTPUT "t"\nGETRECORD "f", v\nOUTPUT v\n',k=I())
        T(out,f'seeknext/{n}',H,more=[('DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\nOUTPUT "s"\nSEEK "f", <<k>>\nOUTPUT "t"\nGETRECORD "f", v\nOUTPUT v\n',)],k=I())
        T(out,f'seekputnext/{n}',H+'SEEK "f", <<k>>\nv <- <<x>>\nPUTRECORD "f", v\n',more=[('DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+dump(n)+'SEEK "f", <<j>>\nGETRECORD "f", v\nOUTPUT v\n',)],k=I(),j=I(1,7),x=I())
        T(out,f'initial/{n}',H+'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nOUTPUT "o"\nGETRECORD "f", v\nOUTPUT v\nGETRECORD "f", v\nOUTPUT v\n')
        T(out,f'initialput/{n}',H+'CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nv <- <<x>>\nPUTRECORD "f", v\n'+dump(max(n,1))+'SEEK "f", <<k>>\n',k=I(),x=I())
        T(out,f'putput/{n}',H+'v <- <<x>>\nSEEK "f", <<k>>\nPUTRECORD "f", v\nv <- <<y>>\nPUTRECORD "f", v\nGETRECORD "f", v\nOUTPUT v\n'+dump(n)+'SEEK "f", <<j>>\nOUTPUT "ok"\n',k=I(-1,7),x=I(),y=I(),j=I())
        S='DECLARE v : STRING\nOPENFILE "f" FOR RANDOM\n'+fill(n,'S')
        T(out,f'str/{n}',S+'OUTPUT "s"\nv <- "<<s>>"\nSEEK "f", <<k>>\nPUTRECORD "f", v\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n'+dump(n)+'SEEK "f", <<j>>\nGETRECORD "f", v\nOUTPUT v, "|"\n',s=BY(2,ANY,'\n'),k=I(1,n+1),j=I(1,7),weight=2)
        T(out,f'strnext/{n}',S+'v <- "<<s>>"\nSEEK "f", <<k>>\nPUTRECORD "f", v\n',more=[('DECLARE v : STRING\nOPENFILE "f" FOR RANDOM\n'+dump(n)+'SEEK "f", <<j>>\nGETRECORD "f", v\nOUTPUT v, "|"\n',)],s=BY(1,ANY,'\n'),k=I(1,n+1),j=I(1,7),weight=2)
    for k,e in enumerate(['2.0','"1"',"'1'",'TRUE','1/1/2020','1 DIV 0','n','1 + 1.0','x']):
        T(out,f'addr/{k}','DECLARE v : INTEGER\nDECLARE n : REAL\nn <- 1\nOPENFILE "f" FOR RANDOM\n'+fill(2)+'SEEK "f", 1\nOUTPUT "s"\nSEEK "f", '+e+'\nOUTPUT "t"\nGETRECORD "f", v\nOUTPUT v\n')
    T(out,'addr/repl','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(2)+'SEEK "f", 1\nSEEK "f", <<k>>\nGETRECORD "f", v\nv\nSEEK "f", 2.0\nGETRECORD "f", v\nv\nEXIT\n',repl=True,k=I())
    T(out,'addr/expr','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(3)+'k <- <<k>>\nSEEK "f", k * 2 - 1\nGETRECORD "f", v\nOUTPUT v\nSEEK "f", LENGTH("ab")\nGETRECORD "f", v\nOUTPUT v\n',k=I(-3,4))
    # the position: set by OPENFILE (1) and SEEK only
    T(out,'pos/stay','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(3)+'SEEK "f", <<k>>\nGETRECORD "f", v\nOUTPUT v\nGETRECORD "f", v\nOUTPUT v\nv <- <<x>>\nPUTRECORD "f", v\nGETRECORD "f", v\nOUTPUT v\nPUTRECORD "f", v\n'+dump(3),k=I(1,4),x=I())
    T(out,'pos/fail','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(3)+'SEEK "f", 2\nSEEK "f", <<k>>\nGETRECORD "f", v\nv\nv <- 5\nPUTRECORD "f", v\n'+dump(3)+'EXIT\n',repl=True,k=I())
    # overwriting with longer, shorter, other-typed records
    for a in ('1','-1234567890123','0'):
        for b in ('9223372036854775807','7','-5'):
            T(out,f'len/{a}/{b}','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(3)+f'v <- {a}\nSEEK "f", <<k>>\nPUTRECORD "f", v\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nv <- {b}\nSEEK "f", <<j>>\nPUTRECORD "f", v\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\n'+dump(3),k=I(1,4),j=I(1,4))
    T(out,'pos/arr2','TYPE R\nDECLARE n : INTEGER\nDECLARE b : ARRAY[0:1] OF INTEGER\nENDTYPE\nDECLARE r : R\nDECLARE i, j : INTEGER\nDECLARE a, c : ARRAY[1:2, 1:2] OF INTEGER\nFOR i <- 1 TO 2\nFOR j <- 1 TO 2\na[i, j] <- 10 * i + j\nNEXT\nNEXT\nr.n <- 4\nr.b[1] <- <<v>>\nOPENFILE "f" FOR RANDOM\nSEEK "f", 1\nPUTRECORD "f", i\nSEEK "f", 2\nPUTRECORD "f", a\nSEEK "f", 3\nPUTRECORD "f", r\nSEEK "f", <<p>>\nOUTPUT "s"\nGETRECORD "f", <<w>>\nOUTPUT c[1, 2], c[2, 1], i, r.b[1]\nPUTRECORD "f", <<x>>\nGETRECORD "f", <<w>>\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nSEEK "f", 2\nGETRECORD "f", c\nOUTPUT c[1, 2], c[2, 2]\nSEEK "f", 1\nGETRECORD "f", i\nOUTPUT i\nSEEK "f", 3\nGETRECORD "f", r\nOUTPUT r.n, r.b[1]\n',p=I(1,3,2),w=CH('c','i','r'),x=CH('c','i','r','j','a'),v=I(1,9))
    T(out,'mixed','DECLARE i : INTEGER\nDECLARE s : STRING\nDECLARE r : REAL\nDECLARE a : ARRAY[1:2] OF STRING\ni <- <<i>>\ns <- "<<s>>"\nr <- 2.5\na[1] <- "\\n"\na[2] <- s\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", i\nSEEK "f", 2\nPUTRECORD "f", a\nSEEK "f", 3\nPUTRECORD "f", s\nSEEK "f", 4\nPUTRECORD "f", r\nSEEK "f", <<k>>\nPUTRECORD "f", s\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nSEEK "f", <<j>>\n<<g>>\nOUTPUT i, s, "|", a[1], a[2], "|", r\n',i=I(),s=BY(1,ANY,'\n'),k=I(1,5),j=I(1,6),g=CH('GETRECORD "f", i','GETRECORD "f", s','GETRECORD "f", a','GETRECORD "f", r'),weight=4)
    # two files and two handles
    T(out,'two','DECLARE v, w : INTEGER\nOPENFILE "f" FOR RANDOM\nOPENFILE "g" FOR RANDOM\n'+fill(2)+fill(3).replace('"f"','"g"')+'v <- <<x>>\nSEEK <<h>>, <<k>>\nPUTRECORD <<h>>, v\nGETRECORD "f", v\nOUTPUT v\n'+dump(2)+dump(3).replace('"f"','"g"')+'CLOSEFILE "g"\n'+dump(2)+'OPENFILE "g" FOR RANDOM\n'+dump(3).replace('"f"','"g"'),x=I(),k=I(0,5),h=CH('"f"','"g"'),weight=2)
    T(out,'copy','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(3)+'OPENFILE "g" FOR RANDOM\nFOR i <- 1 TO 3\nSEEK "f", 4 - i\nGETRECORD "f", v\nSEEK "g", i\nPUTRECORD "g", v\nNEXT\nCLOSEFILE "f"\nSEEK "g", <<k>>\nGETRECORD "g", v\nOUTPUT v\n',k=I())
    # written by a run that ends with an error, or without CLOSEFILE
    for k,e in enumerate(['','OUTPUT 1 DIV 0\n','CLOSEFILE "f"\n','CLOSEFILE "f"\nOUTPUT nope\n','CALL P()\n']):
        T(out,f'end/{k}','PROCEDURE P()\nSEEK "f", 1\nv <- 77\nPUTRECORD "f", v\nOUTPUT 1 DIV 0\nENDPROCEDURE\nDECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+fill(2)+'v <- <<x>>\nSEEK "f", <<k>>\nPUTRECORD "f", v\n'+e,more=[('DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\n'+dump(2)+'SEEK "f", <<j>>\nGETRECORD "f", v\nOUTPUT v\n',)],x=I(),k=I(0,4),j=I(1,5))
    # histories
    OPS=['SEEK "f", k','v <- k\nPUTRECORD "f", v','GETRECORD "f", v\nOUTPUT v','CLOSEFILE "f"\nOPENFILE "f" FOR RANDOM','SEEK "f", k\nv <- k * 10\nPUTRECORD "f", v','SEEK "f", k\nGETRECORD "f", v\nOUTPUT v','s <- "x\\n#" & k\nPUTRECORD "f", s','GETRECORD "f", s\nOUTPUT s','SEEK "f", k\ns <- "\\n"\nPUTRECORD "f", s']
    disp='go <- TRUE\nWHILE go\nINPUT o\nINPUT k\nCASE OF o\n'+''.join(f'{k}: {s}\n' for k,s in enumerate(OPS))+'OTHERWISE: go <- FALSE\nENDCASE\nENDWHILE\n'
    rd='\n'.join('SEEK "f", %d\nGETRECORD "f", v\nOUTPUT %d, v'%(k,k) for k in range(1,5))+'\n'
    D='DECLARE v, o, k : INTEGER\nDECLARE s : STRING\nDECLARE go : BOOLEAN\n'
    for n in range(4):
        for a in range(len(OPS)):
            hh={'k0':I(-2,6)}; st=f'{a}\n<<k0>>\n'
            for q in range(1,3 if deep else 2): hh[f'o{q}']=I(0,len(OPS)-1); hh[f'k{q}']=I(-1,6); st+=f'<<o{q}>>\n<<k{q}>>\n'
            T(out,f'hist/{n}/{a}',D+'OPENFILE "f" FOR RANDOM\n'+fill(n)+disp+rd,stdin=st+'99\n0\n',weight=3,**hh)
            if deep or (n+a)%3==0: T(out,f'histnext/{n}/{a}',D+'OPENFILE "f" FOR RANDOM\n'+fill(n)+disp,stdin=st+'99\n0\n',weight=3,more=[(D+'OPENFILE "f" FOR RANDOM\n'+rd,)],**hh)
    return out
