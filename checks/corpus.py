"""The repository's own test and example programs (texts in /verif/corpus, with RAND and transcendental calls replaced) as a
corpus: symbolic layout (C10), faults at symbolic places (C11, C01), entry by entry (C12), with --pedantic (C20), and
symbolic inputs for those that read any."""
import os,re,random,glob
from .common import *
D=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'corpus')
STD={'Average':'1.5\n2\n-3.25\n4\n0.5\n','BinarySearch':'49\n','CopyFile':'src\ndst\n','LinearSearch':'64\n','ROT13':'Hello z\n\n','input_int':'x1\n2.5\n12\n','io':'-12\n2.75\nTRUE\nq\nsome text\n'}
FILES={'CopyFile':{'src':'one\n\n two\nlast'}}
def progs():
    for f in sorted(glob.glob(D+'/*.pseudo')):
        yield os.path.basename(f)[:-7],open(f,encoding='latin-1').read()
def strip(l):
    """the line without its comment and outer blanks"""
    m=re.match(r'((?:"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|/(?!/)|[^"\'/])*)//',l)
    return (m.group(1) if m else l).strip()
def lines(src): return [x for x in (strip(l) for l in src.split('\n')) if x]
def toklines(src):
    from .c10 import toks
    return [toks(l) for l in lines(src)]
def join(ls): return '\n'.join(ls)+'\n'
def rnd(*k): return random.Random('/'.join(map(str,k)))
def cases(): return [(n,s,STD.get(n,''),FILES.get(n)) for n,s in progs()]
def c10(o,deep):
    from .c10 import need,ANC
    for n,src,sin,fs in cases():
        add=lambda k,text,**h:T(o,f'corpus/{n}/{k}',text,stdin=sin,files=fs,prio=-1,weight=.6,**h)
        L=toklines(src)
        sq=[''.join(x+(' ' if i+1<len(t) and need(x,t[i+1]) else '') for i,x in enumerate(t)) for t in L]
        gaps=[(i,j) for i,t in enumerate(L) for j in range(len(t)-1)]
        def withgaps(sel): return join([''.join(x+(sel[i,j] if (i,j) in sel else (' ' if j+1<len(t) and need(x,t[j+1]) else '')) for j,x in enumerate(t)) for i,t in enumerate(L)])
        add('base',src); add('crlf',src.replace('\n','\r\n')); add('end',join([l+'<<e>>' for l in sq]),e=BY(1,b' \t\r',' '))
        add('gapall',withgaps({g:('<<a>>' if k%2 else '<<b>>') for k,g in enumerate(gaps)}),a=CH(' ','\t','  '),b=BY(1,b' \t','\t'))
        add('comment',join([l+' //<<c>>' for l in sq]),c=BY(2,ANC,'x')); add('tight',join([l+'//<<c>>' for l in sq]),c=CH('1 ','"\'','NE','\t\r','//'))
        add('indent','\n'.join('<<a>>'+l for l in src.split('\n')),a=BY(2,b' \t',' ')); add('blank',join(['<<a>>\n'+l for l in sq]),a=CH('    ','\t   ','//  ','// x','   \r','//"\r'))
        W=4; ks=list(range(0,len(gaps),W)); r=rnd('c10',n)
        for k in (ks if deep else r.sample(ks,min(2,len(ks)))): add(f'gap{k}',withgaps({g:f'<<g{q}>>' for q,g in enumerate(gaps[k:k+W])}),**{f'g{q}':BY(1,b' \t',' ') for q in range(len(gaps[k:k+W]))})
        for k in (range(len(sq)) if deep else r.sample(range(len(sq)),min(3,len(sq)))): add(f'line{k}',join([l+(' <<c>>' if i==k else '') for i,l in enumerate(sq[:k+1])]+(['<<d>>'] if k%2 else [])+sq[k+1:]),c=CH('     ','//end','//"  ','//\'3\r','\t\t\t\r','// i '),**({'d':CH('     ','//end','  \r  ','//IF ')} if k%2 else {}))
TOKS=['','\n',',',')','(',']',':','=','<-','-','+','.','^','&','<','x9','1','1.5','"s"',"'c'",'1/1/2000','TRUE','THEN','ELSE','ENDIF','TO','NEXT','OUTPUT','DECLARE','ENDPROCEDURE','RETURN','INTEGER','IF','DO','BREAK','"']
FLT=['OUTPUT nope9    ','x9 <- 1 / 0     ','OUTPUT 1 + ""   ','CALL Nope9()    ','CLOSEFILE "zz"  ','OUTPUT LEFT("",1)','OUTPUT 5 MOD 0  ','OUTPUT -"s"     ']
def faults(o,prop,deep,tok,run):
    for n,src,sin,fs in cases():
        L=toklines(src); r=rnd(prop,n)
        sp=[' '.join(t) for t in L]
        pos=[(i,j) for i,t in enumerate(L) for j in range(len(t))]
        for i,j in r.sample(pos,min(tok,len(pos))):
            t=L[i]; ins=r.random()<.4
            T(o,f'corpus/{n}/tok{i}.{j}{"i" if ins else "r"}',join(sp[:i]+[' '.join(t[:j]+['<<t>>']+t[j+(not ins):])]+sp[i+1:]),stdin=sin,files=fs,prio=-1,weight=.6,t=CH(*(TOKS if deep else r.sample(TOKS,18))))
        for i in r.sample(range(len(sp)+1),min(run,len(sp)+1)): T(o,f'corpus/{n}/run{i}',join(sp[:i]+['','<<f>>']+sp[i:]),stdin=sin,files=fs,prio=-1,weight=.6,f=CH(*FLT))
def c11(o,deep): faults(o,'c11',deep,12 if deep else 3,8 if deep else 3)
def c01(o,deep): faults(o,'c01',deep,10 if deep else 2,0)
SESS='nope9|OUTPUT 1 +|x9 <- nope9|CLOSEFILE "zz"|DECLARE v9 : NOTYPE|OUTPUT 1 / 0|)|OUTPUT "a" + 1|IF nope9 THEN\nOUTPUT 1\nENDIF\n|CONSTANT k9 = |READFILE "zz", v9|SEEK "zz", 1'.split('|')
def c12(o,deep):
    from .c12 import entries
    for n,src,sin,fs in cases():
        es=[]; cur=''; ins=sin.split('\n')[:-1]
        for l in entries(join(lines(src))).split('\n'):     # entries, with the input of each behind it
            cur+=l+'\n'
            es.append(l)
        # a line of input follows the entry which reads it
        out=[]; blk=[]; d=False; f=list(ins)
        for l in es:
            blk.append(l)
            w=re.match(r'[A-Za-z]+',l); w=w.group(0) if w else ''
            if not d and w in('IF','CASE','WHILE','REPEAT','FOR','PROCEDURE','FUNCTION','TYPE') and not(w=='TYPE' and '=' in l): d=True
            if d and l!='': continue
            t='\n'.join(blk); defn=re.match('PROCEDURE|FUNCTION',t); k=0
            if not defn: k=len(f) if re.match('WHILE|FOR|REPEAT',t) and re.search(r'\bINPUT\b',t) or 'InputInt()' in t else 1 if re.match(r'(INPUT|READ) ',t) else 0
            out.append(t+'\n'+''.join(x+'\n' for x in f[:k])); del f[:k]; blk=[]; d=False
        if blk and ''.join(blk): out.append('\n'.join(blk)+'\n')
        out=[x for x in out if x.strip()]
        add=lambda k,text,**h:T(o,f'corpus/{n}/{k}',text,repl=True,files=fs,prio=-1,weight=.6,**h)
        add('repl',''.join(out)); r=rnd('c12',n)
        for k in (range(len(out)+1) if deep else r.sample(range(len(out)+1),min(2,len(out)+1))): add(f'fail{k}',''.join(out[:k])+'<<f>>'+''.join(out[k:]),f=CH(*[x+'\n' for x in (SESS if deep else r.sample(SESS,5))]))
        T(o,f'corpus/{n}/runfile','x <- 5\nRUNFILE "prog"\n'+sin+'x + 1\nRUNFILE "none"\nx\n',repl=True,files=dict(fs or {},prog=src),prio=-1,weight=.6)
BAD=['BREAK','CONTINUE','OUTPUT INTEGER(2.5)','new9 <- 1','INPUT new9','OUTPUT STRING(1) & "x"']
def c20(o,deep):
    for n,src,sin,fs in cases():
        sp=lines(src); r=rnd('c20',n)
        # declare what the programs only assign
        und=[v for v in dict.fromkeys(re.findall(r'^(?:FOR )?([A-Za-z]\w*)\s*<-',join(sp),re.M)) if not re.search(r'^(DECLARE|CONSTANT)\b[^:\n]*\b%s\b'%v,join(sp),re.M)]
        full=[f'DECLARE {v} : INTEGER' for v in und]+sp
        both(T(o,f'corpus/{n}/plain',src,stdin=sin,files=fs,prio=-1,weight=.6)); both(T(o,f'corpus/{n}/decl',join(full),stdin=sin,files=fs,prio=-1,weight=.6),'--pedantic')
        for k in r.sample(range(len(full)+1),min(8 if deep else 2,len(full)+1)): both(T(o,f'corpus/{n}/bad{k}',join(full[:k]+['<<f>>']+full[k:]),stdin=sin,files=fs,prio=-1,weight=.6,f=CH(*(BAD if deep else r.sample(BAD,4)))))
def one(o,n,nm_,stdin,files=None,sub=None,**h):
    s=dict(progs())[n]
    for a,b in (sub or {}).items(): assert a in s,(n,a); s=s.replace(a,b)
    T(o,f'corpus/{n}/{nm_}',s,stdin=stdin,files=files,prio=-1,**h)
def c02(o,deep):
    one(o,'Average','sym','<<a>>\n2\n<<b>>\n4\n0.5\n',a=I(-10**6,10**6),b=I(-10**6,10**6)); one(o,'primes','sym','',sub={'TO 40':'TO 21','x MOD y = 0':'x MOD y = <<k>>'},k=I(-1,4))
def c03(o,deep):
    one(o,'LinearSearch','sym','<<a>>\n',a=I()); one(o,'InsertionSort','sym','',sub={'20':'6','(i * 37)':'(i * <<k>>)'},k=I(1,12)); one(o,'BubbleSort','sym','',sub={'20':'6','(i * 37)':'(i * <<k>>)'},k=I(1,12)); one(o,'primes','sym','',sub={'TO 40':'TO <<k>>'},k=I(-3,30))
def c04(o,deep):
    one(o,'BinarySearch','sym','<<a>>\n',sub={'100':'30'},a=I()); one(o,'Factorial','sym','',sub={'Factorial(6)':'Factorial(<<k>>)'},k=I(0,25)); one(o,'arrays','sym','',sub={'Increment(intArr[0])':'Increment(intArr[<<k>>])'},k=I(-1,3))
def c05(o,deep): one(o,'io','sym','<<i>>\n<<r>>\n<<b>>\n<<c>>\n<<s>>\n',i=BY(2,b'0123456789-+ x',"1"),r=BY(2,b'0159-. x',"1"),b=CH('TRUE ','FALSE','true ','1    ','TRUEx'),c=BY(1),s=BY(2)); one(o,'input_int','sym','<<s>>\n2.0\n7\n8\n',s=BY(3,b'0159.- x','1'))
def c06(o,deep): one(o,'arrays','idx','',sub={'Arr3D[i, j-1, k] <-':'Arr3D[i, j-1 + <<k>>, k] <-'},k=I(-1,1))
def c09(o,deep): one(o,'pointer','base','')
def c13(o,deep): one(o,'random_files','sym','',sub={'Int <- 99':'Int <- <<a>>',"Char <- 'a'":"Char <- '<<c>>'",'"Hello world"':'"<<s>>#<<s>>"'},a=I(),c=BY(1),s=BY(2,b'\n# "'.replace(b'"',b'')+b'0A',' '))
def c14(o,deep): one(o,'random_files','seek','',sub={'SEEK FNAME, 8\nGETRECORD':'SEEK FNAME, <<k>>\nGETRECORD','SEEK FNAME, 3\nGETRECORD':'SEEK FNAME, <<j>>\nGETRECORD'},k=I(),j=I(2,4))
def c15(o,deep): one(o,'CopyFile','sym','src\ndst\n',files={'src':'<<a>>\n<<b>>'},a=BY(3,bytes([97,32,10,9,34,0,255])),b=BY(2,bytes([97,10,32]))); one(o,'files','sym','',sub={'this text was appended':'<<a>>','Value of e:':'<<b>>'},a=BY(2),b=BY(1))
def c16(o,deep): one(o,'CopyFile','names','<<a>>\n<<b>>\n',files={'src':'x\n','dst':'old\n'},a=CH('src','dst','no ','d  ','   ','./s'),b=CH('dst','src','new','d/x','d  ','   ')); one(o,'files','name','',sub={'filename <- "new.txt"':'filename <- "<<a>>"'},a=CH('new.txt','new.tx ','New.txt','other  '))
def c17(o,deep): one(o,'ROT13','sym','<<s>>\n\n',s=BY(3 if deep else 2,PRN)); one(o,'str','base',''); one(o,'builtin_functions','base',''); one(o,'input_int','sym','<<s>>\n3\n3\n',s=BY(4,b'0159.- x','1'))
def c18(o,deep): one(o,'date','base','')
def c19(o,deep): one(o,'enum','base','')
def extend(prop,tier,out):
    f=globals().get(prop.lower())
    if f: f(out,tier!='quick')
    return out
