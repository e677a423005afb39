"""C16: the handle state machine of the file statements; nothing written is lost silently."""
from .common import *
BOUNDS='every sequence of 2 statements of a 14-statement alphabet over one file after every way of being open or closed, histories of 4 (quick) or 5 (thorough) symbolic operations over two names in one run and of 3 statements in the REPL (where the session continues after each rejected statement); existing files of 3 symbolic bytes, 3-record random files; paths that are missing, directories, in missing directories, empty, or on a full device; writes the system rejects because of their size (limit 2000 bytes, 0 to 15 k bytes written, text and random files, reported at the statement or when the program ends); every way a run ends; every statement rejected or not in the REPL while another handle is in any state; two names of which one is a prefix of the other or differs in case'
OPTS=dict(asan='some',asan_n=2)
ANY=bytes(c for c in range(1,256) if c not in b'"\\\r\n')
FB=bytes(range(0,256))
OPS=['OPENFILE "F" FOR READ','OPENFILE "F" FOR WRITE','OPENFILE "F" FOR APPEND','OPENFILE "F" FOR RANDOM','CLOSEFILE "F"','WRITEFILE "F", k','IF NOT EOF("F") THEN\nREADFILE "F", l\nOUTPUT "[", l, "]"\nENDIF','OUTPUT EOF("F")','SEEK "F", k','PUTRECORD "F", k','GETRECORD "F", v\nOUTPUT v','READFILE "F", l\nOUTPUT l']
D='DECLARE l : STRING\nDECLARE o, k, v : INTEGER\nDECLARE go : BOOLEAN\n'
PRE={'closed':'','read':'OPENFILE "f" FOR READ\n','write':'OPENFILE "f" FOR WRITE\nWRITEFILE "f", "w"\n','append':'OPENFILE "f" FOR APPEND\nWRITEFILE "f", "p"\n','random':'OPENFILE "f" FOR RANDOM\nk <- 11\nPUTRECORD "f", k\nSEEK "f", 2\nPUTRECORD "f", k\n',
     'wclosed':'OPENFILE "f" FOR WRITE\nWRITEFILE "f", "w"\nCLOSEFILE "f"\n','aclosed':'OPENFILE "f" FOR APPEND\nWRITEFILE "f", "a"\nCLOSEFILE "f"\n','rclosed':'OPENFILE "f" FOR READ\nREADFILE "f", l\nCLOSEFILE "f"\n','xclosed':'OPENFILE "f" FOR RANDOM\nk <- 11\nPUTRECORD "f", k\nCLOSEFILE "f"\n'}
def templates(tier):
    out=[]; deep=tier!='quick'
    rand=('random','xclosed')
    for pn,pre in PRE.items():
        fl=lambda: {} if pn in rand else {'f':'<<s>>'}
        fh=lambda: {} if pn in rand else dict(s=BY(3,FB,'\n'))
        for a,op in enumerate(OPS):
            x=op.replace('"F"','"f"')
            T(out,f'step/{pn}/{a}',D+pre+'k <- <<k>>\nOUTPUT "s"\n'+x+'\nOUTPUT "t"\n',files=fl(),k=I(),**fh())
            # the same with a statement before it, the second one's effect seen by a following run
            T(out,f'step2/{pn}/{a}',D+pre+'k <- <<k>>\nINPUT o\nOUTPUT "s"\nCASE OF o\n'+''.join(f'{j}: {y}\n'.replace('"F"','"f"') for j,y in enumerate(OPS))+'ENDCASE\nOUTPUT "m"\n'+x+'\nOUTPUT "t"\n',stdin='<<o>>\n',files=fl() if pn in rand else {'f':'a\nb'},k=I(-1,4),o=I(0,len(OPS)-1),weight=1.5)
            # never opened
            if pn=='closed': T(out,f'missing/{a}',D+'k <- <<k>>\nOUTPUT "s"\n'+op.replace('"F"','"nofile"')+'\nOUTPUT "t"\n',k=I())
        # the run goes on in the REPL: a rejected statement changes nothing
        R=['OPENFILE "f" FOR READ  ','OPENFILE "f" FOR WRITE ','OPENFILE "f" FOR APPEND','OPENFILE "f" FOR RANDOM','CLOSEFILE "f"','WRITEFILE "f", k','SEEK "f", k','PUTRECORD "f", k','GETRECORD "f", v','EOF("f")']
        probe='EOF("f")\nWRITEFILE "f", "q"\nSEEK "f", 1\nGETRECORD "f", v\nv\nCLOSEFILE "f"\nCLOSEFILE "f"\n'+('' if pn in rand else 'OPENFILE "f" FOR READ\nEOF("f")\n')
        for a,op in enumerate(R):
            T(out,f'repl/{pn}/{a}',D.replace(', v',', v')+pre+'k <- 7\n'+op.strip()+'\n<<o>>\n'+probe+'EXIT\n',repl=True,files=fl() if pn in rand else {'f':'a\nb'},o=CH(*R,init=4),weight=2)
    # statements rejected for another reason than the state leave handle, position and contents as they were
    BD='TYPE E = (Red, Green)\nTYPE P = ^INTEGER\nDECLARE e : E\nDECLARE p : P\nDECLARE i, v : INTEGER\nDECLARE a : ARRAY[1:3] OF STRING\nDECLARE l : STRING\nDECLARE r : REAL\nCONSTANT c = "k"\nCONSTANT n = 5\n'
    BAD=['READFILE "f", i','READFILE "f", c','READFILE "f", a','READFILE "f", e','READFILE "f", r','READFILE "f" & 1, l','READFILE 5, l','WRITEFILE "f", e','WRITEFILE "f", a','WRITEFILE "f", nope','WRITEFILE "f", p','WRITEFILE "f", 1 DIV 0','WRITEFILE f, 1','SEEK "f", 0','SEEK "f", -1','SEEK "f", 9','SEEK "f", 1.0','SEEK "f", "1"','SEEK "f", nope','SEEK 1, 1','GETRECORD "f", n','GETRECORD "f", c','GETRECORD "f", l','GETRECORD "f", r','GETRECORD "f", a','GETRECORD "f", e','GETRECORD "f", p','GETRECORD "f", nope','PUTRECORD "f", nope','PUTRECORD "f", p','PUTRECORD "f", Red','CLOSEFILE f','CLOSEFILE 1','CLOSEFILE "F"','CLOSEFILE "f "','OPENFILE "f" FOR READ','OPENFILE "f" FOR WRITE','OPENFILE "f" FOR APPEND','OPENFILE "f" FOR RANDOM','EOF("F")','EOF(1)']
    for pn,pre,probe,fs in [('read','OPENFILE "f" FOR READ\nREADFILE "f", l\n','READFILE "f", l\nl\nREADFILE "f", l\nl\nEOF("f")\nCLOSEFILE "f"\n',{'f':'one\n<<b>>wo\nthree\n'}),
                            ('write','OPENFILE "f" FOR WRITE\nWRITEFILE "f", "<<b>>"\n','WRITEFILE "f", 2\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", l\nl\nREADFILE "f", l\nl\nEOF("f")\n',{'f':'old\n'}),
                            ('append','OPENFILE "f" FOR APPEND\nWRITEFILE "f", "<<b>>"\n','WRITEFILE "f", 2\nCLOSEFILE "f"\nOPENFILE "f" FOR READ\nREADFILE "f", l\nl\nREADFILE "f", l\nl\nREADFILE "f", l\nl\nEOF("f")\n',{'f':'old'}),
                            ('random','i <- 11\nOPENFILE "f" FOR RANDOM\nPUTRECORD "f", i\nSEEK "f", 2\ni <- <<k>>\nPUTRECORD "f", i\nSEEK "f", 3\ni <- 33\nPUTRECORD "f", i\nSEEK "f", 2\n','GETRECORD "f", v\nv\nSEEK "f", 4\nGETRECORD "f", v\nSEEK "f", 3\nPUTRECORD "f", v\nCLOSEFILE "f"\nOPENFILE "f" FOR RANDOM\nSEEK "f", 3\nGETRECORD "f", v\nv\nSEEK "f", 5\nSEEK "f", 1\nGETRECORD "f", v\nv\n',{})]:
        for q in range(0,len(BAD),7):
            T(out,f'rejrepl/{pn}/{q//7}',BD+pre+'<<x>>\n'+probe+'i\nl\nr\ne\na[1]\nc\nn\nEXIT\n',repl=True,files=fs,x=CH(*BAD[q:q+7]),prio=2,**(dict(b=BY(1,PRN,'t')) if pn!='random' else dict(k=I(-9,99))))
        T(out,f'rejrepl/{pn}/two',BD+pre+'<<x>>\n<<y>>\n'+probe+'i\nl\nEXIT\n',repl=True,files=fs,x=CH(*BAD[::4]),y=CH(*BAD[1::5]),**(dict(b=BY(1,PRN,'t')) if pn!='random' else dict(k=I(1,9))))
    # similar names are different files
    NM=['"ab"','"a"','"b"','"Ab"','"ab."','"ab "','" ab"','"abc"','"aB"','"a b"','"ab/../ab2"','"bb"','"aa"','"abababababababababababababababab1"','"abababababababababababababababab2"']
    NM2=[n for n in NM if '/' not in n]
    for m in ('WRITE','APPEND','RANDOM'):
        wr='WRITEFILE x, "<<b>>1"\n' if m!='RANDOM' else 'PUTRECORD x, v\n'
        rd='READFILE x, l\nOUTPUT l, EOF(x)\n' if m!='RANDOM' else 'GETRECORD x, v\nOUTPUT v\n'
        rm_='READ' if m!='RANDOM' else m
        hh=dict(b=BY(1,PRN,'t')) if m!='RANDOM' else {}
        T(out,f'names/{m}/other','DECLARE l : STRING\nDECLARE v : INTEGER\nv <- 5\nx <- "ab"\nOPENFILE x FOR '+m+'\n'+wr+'y <- <<n>>\nOUTPUT "o"\nOPENFILE y FOR '+m+'\nv <- 6\n'+wr.replace('x, "','y, "2').replace('x, v','y, v')+'CLOSEFILE x\nOUTPUT "c"\nv <- 7\n'+wr.replace('x, "','y, "3').replace('x, v','y, v')+'CLOSEFILE y\nOPENFILE x FOR '+rm_+'\n'+rd+'x <- y\nOPENFILE x FOR '+rm_+'\n'+rd,n=CH(*NM2),prio=1,**hh)
        T(out,f'names/{m}/three','DECLARE l : STRING\nDECLARE v : INTEGER\nv <- 5\nOPENFILE <<n>> FOR '+m+'\nOPENFILE <<q>> FOR '+m+'\nx <- <<n>>\n'+wr+'x <- <<q>>\nv <- 8\n'+wr+'CLOSEFILE <<z>>\nOUTPUT "c"\nx <- <<n>>\n'+wr+'x <- <<q>>\n'+wr+'OUTPUT "d"\n',n=CH(*NM2[:4]),q=CH(*NM2[4:9]),z=CH(*NM2[:9]),more=[('DECLARE l : STRING\nDECLARE v : INTEGER\nx <- <<n>>\nOPENFILE x FOR '+rm_+'\n'+rd,)],**hh)
    T(out,'names/read','DECLARE l : STRING\nOPENFILE "ab" FOR READ\nx <- <<n>>\nOPENFILE x FOR READ\nREADFILE x, l\nOUTPUT l\nREADFILE "ab", l\nOUTPUT l, EOF("ab"), EOF(x)\nCLOSEFILE "ab"\nOUTPUT EOF(x)\nCLOSEFILE x\nOUTPUT EOF(x)\n',files={'ab':'1\n2\n','a':'3<<b>>\n','b':'4','abc':'5\n6\n','Ab':'7\n','ab ':'8','bb':'9\n'},n=CH('"a"','"b"','"abc"','"Ab"','"ab "','"bb"','"ab"','"nope"','""','"abd"'),b=BY(1,PRN,'t'),prio=1)
    # paths that cannot be opened
    for k,(n,nm) in enumerate([('missing','nofile'),('dir','d'),('dirslash','d/'),('nodir','no/f'),('indir','d/f'),('empty',''),('deep','d/e/f'),('trail','f/'),('filedir','f/x')]):
        for m in ('READ','WRITE','APPEND','RANDOM'):
            T(out,f'path/{n}/{m}',f'OUTPUT "s"\nOPENFILE "{nm}" FOR {m}\nOUTPUT "o"\nCLOSEFILE "{nm}"\nOUTPUT "t"\n',files={'f':'x\n'},dirs=('d',))
            T(out,f'pathrepl/{n}/{m}',f'x <- "{nm}"\nOPENFILE x FOR {m}\nCLOSEFILE x\nOPENFILE x FOR WRITE\nWRITEFILE x, <<k>>\nCLOSEFILE x\nOPENFILE x FOR READ\nEOF(x)\nEXIT\n',repl=True,files={'f':'x\n'},dirs=('d',),k=I())
    T(out,'path/nul','OUTPUT "s"\nn <- "f" & CHR(0) & "g"\nOPENFILE n FOR <<m>>\nOUTPUT "t"\n',files={'f':'x\n'},m=CH('READ','WRITE','APPEND','RANDOM'))
    T(out,'path/full','OUTPUT "s"\nOPENFILE "/dev/full" FOR <<m>>\nOUTPUT "o"\nWRITEFILE "/dev/full", <<k>>\nOUTPUT "no"\n',m=CH('WRITE ','APPEND'),k=I())
    T(out,'path/fullother','OPENFILE "f" FOR WRITE\nWRITEFILE "f", <<k>>\nOPENFILE "/dev/full" FOR WRITE\nWRITEFILE "/dev/full", ""\nWRITEFILE "f", 2\n',k=I())
    T(out,'path/fullrepl','OPENFILE "/dev/full" FOR WRITE\nWRITEFILE "/dev/full", <<k>>\nOUTPUT "a"\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", <<k>>\nCLOSEFILE "f"\nOUTPUT "b"\nEXIT\n',repl=True,k=I())
    for k,e in enumerate(['5','2.5','TRUE',"'f'",'1/1/2020','nope','a','"f" + 1','1 DIV 0','"f" & ""','e','LEFT("fg", 1)','F()']):
        for st in ('OPENFILE X FOR WRITE','READFILE X, l','WRITEFILE X, 1','CLOSEFILE X','SEEK X, 1','GETRECORD X, v','PUTRECORD X, v','OUTPUT EOF(X)'):
            if deep or (k+len(st))%2==0 or k in(0,3,8): T(out,f'name/{k}/{st[:4]}','TYPE E = (f, g)\nFUNCTION F() RETURNS STRING\nRETURN "f"\nENDFUNCTION\nDECLARE a : ARRAY[1:2] OF STRING\nDECLARE e : E\nDECLARE l : STRING\nDECLARE v : INTEGER\nOPENFILE "f" FOR APPEND\nOUTPUT "s"\nWRITEFILE "f", <<k>>\n'+st.replace('X',e)+'\nOUTPUT "t"\n',files={'f':'x\n'},k=I())
    # everything written reaches the file system, however the run ends
    for m in ('WRITE','APPEND','RANDOM'):
        wr=(lambda e:f'WRITEFILE "f", {e}\n') if m!='RANDOM' else (lambda e:f'v <- {e}\nPUTRECORD "f", v\n')
        O='DECLARE v : INTEGER\nOPENFILE "f" FOR '+m+'\n'
        nxt=[('DECLARE v : INTEGER\nDECLARE l : STRING\n'+('OPENFILE "f" FOR READ\nWHILE NOT EOF("f")\nREADFILE "f", l\nOUTPUT "[", l, "]"\nENDWHILE\n' if m!='RANDOM' else 'OPENFILE "f" FOR RANDOM\nGETRECORD "f", v\nOUTPUT v\nSEEK "f", 2\n'),)]
        for k,e in enumerate(['','CLOSEFILE "f"\n','OUTPUT 1 DIV 0\n','CALL P()\n','OUTPUT G(3)\n','IF TRUE THEN\nWHILE TRUE\nOUTPUT nope\nENDWHILE\nENDIF\n','CLOSEFILE "f"\nCLOSEFILE "f"\n','OPENFILE "f" FOR READ\n','INPUT q\nOUTPUT q\n','OPENFILE "g" FOR READ\n','PROCEDURE Q()\nENDPROCEDURE\nCALL Q(1)\n']):
            src='PROCEDURE P()\n'+wr('8').replace('v <- 8\n','v <- 8\n')+'OUTPUT LEFT("a", 2)\nENDPROCEDURE\nFUNCTION G(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN "x"\nENDIF\nRETURN G(n - 1)\nENDFUNCTION\n'+O+wr('<<x>>')+'OUTPUT "w"\n'+e
            T(out,f'end/{m}/{k}',src,more=nxt,x=I())
            if m!='RANDOM': T(out,f'endold/{m}/{k}',src,files={'f':'<<s>>'},x=I(),s=BY(2,b'\na\xff','a'))
        T(out,f'endrepl/{m}',O+wr('<<x>>')+'1 DIV 0\n'+wr('2')+'nope\n'+('EXIT\n' if m=='WRITE' else ''),repl=True,x=I())
        T(out,f'endpedantic/{m}',O+wr('<<x>>')+('q <- 1\n' if m!='RANDOM' else 'q <- 1\n'),ped=True,x=I()) if m!='RANDOM' else T(out,f'endpedantic/{m}','DECLARE v : INTEGER\nOPENFILE "f" FOR RANDOM\nv <- <<x>>\nPUTRECORD "f", v\nq <- 1\n',ped=True,x=I(),more=[])
    for n in range(1,6):
        T(out,f'many/{n}','DECLARE l : STRING\n'+''.join(f'OPENFILE "f{j}" FOR WRITE\n' for j in range(n))+''.join(f'WRITEFILE "f{j}", "<<s>>{j}"\n' for j in range(n))+'c <- "f" & <<k>>\nCLOSEFILE c\nOUTPUT "c"\n'+''.join(f'WRITEFILE "f{j}", {j}\nOUTPUT {j}\n' for j in range(n)),k=I(0,5),s=BY(1,ANY))
        T(out,f'manyread/{n}','DECLARE l : STRING\n'+''.join(f'OPENFILE "f{j}" FOR READ\n' for j in range(n))+'CLOSEFILE "f" & <<k>>\n'+''.join(f'READFILE "f{j}", l\nOUTPUT l\n' for j in range(n)),files={f'f{j}':f'<<s>>{j}\n' for j in range(n)},k=I(0,5),s=BY(1,ANY))
    # the operating system rejects what does not fit (no file may grow beyond L bytes here)
    L=2000; GROW='s <- "<<b>>bcdefg"\nFOR i <- 1 TO <<n>>\ns <- s & s\nNEXT i\n'; gh=lambda: dict(b=BY(1,PRN),n=I(0,11,10)); lim=dict(fsize=L)
    for m in ('WRITE','APPEND'):
        o=f'OPENFILE "f" FOR {m}\n'
        T(out,f'rej/{m}/one',GROW+o+'OUTPUT "o"\nWRITEFILE "f", s\nOUTPUT "w"\nCLOSEFILE "f"\nOUTPUT "c"\n',files={'f':'old\n'},more=['DECLARE l : STRING\nOPENFILE "f" FOR READ\nREADFILE "f", l\nOUTPUT LENGTH(l)\n'],**lim,**gh())
        T(out,f'rej/{m}/noclose',GROW+o+'WRITEFILE "f", s\nOUTPUT "w"\n',**lim,**gh())
        T(out,f'rej/{m}/sum',o+'s <- "<<b>>2345678"\ns <- s & s & s & s\ns <- s & s & s & s\nFOR i <- 1 TO <<n>>\nWRITEFILE "f", s\nOUTPUT i\nNEXT i\nWRITEFILE "f", <<k>>\nOUTPUT "e"\n',files={'f':'<<b>>'},b=BY(1,PRN),n=I(0,18,14),k=I(-9,99),**lim)
        T(out,f'rej/{m}/exact','s <- "<<b>>"\nFOR i <- 1 TO 10\ns <- s & s\nNEXT i\ns <- s & LEFT(s, <<n>>)\n'+o+'WRITEFILE "f", s\nOUTPUT "w"\nCLOSEFILE "f"\nOUTPUT LENGTH(s)\n',b=BY(1,PRN),n=I(970,980),**lim)
        T(out,f'rej/{m}/repl',GROW.replace('NEXT i\n','NEXT i\n\n')+o+'WRITEFILE "f", s\nLENGTH(s)\nOPENFILE "g" FOR WRITE\nWRITEFILE "g", 1\nCLOSEFILE "g"\nEXIT\n',repl=True,**lim,**gh())
        T(out,f'rej/{m}/call','PROCEDURE P(t : STRING)\nWRITEFILE "f", t\nENDPROCEDURE\n'+GROW+o+'OPENFILE "g" FOR WRITE\nWRITEFILE "g", "g"\nCALL P(s)\nWRITEFILE "g", "h"\nCLOSEFILE "f"\n',**lim,**gh())
    RT='TYPE T\nDECLARE a : STRING\nDECLARE b : INTEGER\nENDTYPE\nDECLARE r : T\nDECLARE v : INTEGER\nDECLARE z : ARRAY[1:2] OF STRING\n'; o='OPENFILE "f" FOR RANDOM\n'
    for k,put in enumerate(['PUTRECORD "f", s\n','r.a <- s\nPUTRECORD "f", r\n','z[2] <- s\nPUTRECORD "f", z\n','v <- <<k>>\nPUTRECORD "f", v\nSEEK "f", 2\nPUTRECORD "f", s\nSEEK "f", 1\nGETRECORD "f", v\nOUTPUT v\n']):
        kk=dict(k=I(-9,99)) if k==3 else {}
        T(out,f'rej/RANDOM/{k}',RT+GROW+o+put+'OUTPUT "p"\nCLOSEFILE "f"\nOUTPUT "c"\n',**lim,**gh(),**kk)
        T(out,f'rej/RANDOM/{k}/noclose',RT+GROW+o+put+'OUTPUT "p"\n',**lim,**gh(),**kk)
        T(out,f'rej/RANDOM/{k}/fault',RT+GROW+o+put+'OUTPUT 1 DIV 0\n',**lim,**gh(),**kk)
        T(out,f'rej/RANDOM/{k}/repl',RT.replace('ENDTYPE\n','ENDTYPE\n\n')+GROW.replace('NEXT i\n','NEXT i\n\n')+o+put+'CLOSEFILE "f"\n1\nOPENFILE "g" FOR RANDOM\nv <- 2\nPUTRECORD "g", v\nCLOSEFILE "g"\nEXIT\n',repl=True,**lim,**gh(),**kk)
    T(out,'rej/RANDOM/many',RT+o+'s <- "<<b>>2345678"\ns <- s & s & s & s\ns <- s & s & s & s\nFOR i <- 1 TO <<n>>\nSEEK "f", i\nPUTRECORD "f", s\nNEXT i\nOUTPUT "p"\nCLOSEFILE "f"\nOUTPUT "c"\n',b=BY(1,PRN),n=I(0,30,20),**lim)
    T(out,'rej/RANDOM/same',RT+o+'s <- "<<b>>2345678"\ns <- s & s & s & s\ns <- s & s & s & s\nFOR i <- 1 TO <<n>>\nPUTRECORD "f", s\nNEXT i\nOUTPUT "p"\nCLOSEFILE "f"\nOUTPUT "c"\n',b=BY(1,PRN),n=I(0,30,20),**lim)
    # the data expression itself uses files
    T(out,'nested/close','FUNCTION F() RETURNS STRING\nCLOSEFILE "g"\nRETURN "r"\nENDFUNCTION\nOPENFILE "f" FOR WRITE\nOPENFILE "g" FOR WRITE\nWRITEFILE "f", F() & <<k>>\nWRITEFILE "f", F()\n',k=I())
    T(out,'nested/open','FUNCTION F(n : STRING) RETURNS STRING\nOPENFILE n FOR WRITE\nWRITEFILE n, n\nRETURN n\nENDFUNCTION\nOPENFILE "f" FOR WRITE\nWRITEFILE "f", F("a") & F("b") & F("c") & F("d") & F("e")\nWRITEFILE "f", <<k>>\n'+''.join(f'CLOSEFILE "{c}"\n' for c in 'abcdef'),k=I())
    T(out,'nested/read','FUNCTION F() RETURNS STRING\nDECLARE t : STRING\nREADFILE "g", t\nRETURN t\nENDFUNCTION\nOPENFILE "g" FOR READ\nOPENFILE "f" FOR WRITE\nWHILE NOT EOF("g")\nWRITEFILE "f", F() & "."\nENDWHILE\n',files={'g':'<<s>>'},s=BY(3,FB,'\n'))
    T(out,'alias','a <- "f"\nb <- "f"\nOPENFILE a FOR WRITE\nWRITEFILE b, <<k>>\nOUTPUT "w"\nOPENFILE b FOR <<m>>\nOUTPUT "no"\n',k=I(),m=CH('READ','WRITE','APPEND','RANDOM'))
    T(out,'proc','PROCEDURE O(n : STRING)\nOPENFILE n FOR WRITE\nENDPROCEDURE\nCALL O("f")\nWRITEFILE "f", <<k>>\nCALL O("f")\nOUTPUT "no"\n',k=I())
    # histories in one run over two files
    disp='go <- TRUE\nWHILE go\nINPUT o\nINPUT k\nCASE OF o\n'+''.join(f'{j}: {x}\n'.replace('"F"','"f"') for j,x in enumerate(OPS))+''.join(f'{20+j}: {x}\n'.replace('"F"','"g"') for j,x in enumerate(OPS[:7]))+'OTHERWISE: go <- FALSE\nENDCASE\nOUTPUT "ok"\nENDWHILE\n'
    for a in list(range(4))+[20,21]:
        hh={'k0':I(-2,9)}; st=f'{a}\n<<k0>>\n'
        for q in range(1,4 if deep else 3): hh[f'o{q}']=I(0,26); hh[f'k{q}']=I(-1,5); st+=f'<<o{q}>>\n<<k{q}>>\n'
        T(out,f'hist/{a}',D+disp,stdin=st+'4\n0\n1\n0\n5\n3\n99\n0\n',files={'f':'<<s>>','g':'one\ntwo'} if a!=3 else {'g':'one'},weight=3,**hh,**(dict(s=BY(2,b'\nx','x')) if a!=3 else {}))
    return out
