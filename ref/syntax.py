"""Reference lexer and parser, written from Syntax.md/grammar.txt and the property list."""
from .conc import *
class SynErr(Exception):
    def __init__(s,line,msg=''): s.line=line; s.msg=msg
class PedErr(Exception):
    def __init__(s,line,msg=''): s.line=line; s.msg=msg
class Tok:
    __slots__=('t','v','line','sp')
    def __init__(s,t,v,line,sp=False): s.t=t; s.v=v; s.line=line; s.sp=sp
    def __repr__(s): return '%s:%r@%d'%(s.t,s.v,s.line)
class Num:  # an INTEGER / REAL numeral hole inside a text
    __slots__=('kind','node','vid')
    def __init__(s,kind,node,vid): s.kind=kind; s.node=node; s.vid=vid
KW=set('DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION ENDFUNCTION RETURNS RETURN OUTPUT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD'.split())
DT={'INTEGER','REAL','BOOLEAN','CHAR','STRING','DATE'}
IOK={'INPUT','OUTPUT','OPENFILE','READFILE','WRITEFILE','CLOSEFILE'}
def isal(c):
    return OR(rng(c,65,90),rng(c,97,122))
def isdg(c): return rng(c,48,57)
def ise(c,ch):
    if isinstance(c,Num): return False
    return T(eq(c,ord(ch)))
ESC={'n':10,'t':9,"'":39,'"':34,'\\':92}
def lex(src,ped=False):
    s=[]
    for c in src:
        if isinstance(c,Num): s.append(c)
        elif not T(eq(c,13)): s.append(c)
    toks=[]; i=0; line=1; n=len(s)
    def at(k): return s[k] if k<n else 0
    spaced=True   # white space (or start) directly before the current position
    def put(t,v=None): toks.append(Tok(t,v,line,spaced))
    while i<n:
        c=s[i]
        if isinstance(c,Num):
            put('LIT',(c.kind,c.node)); i+=1; spaced=False
            # a digit directly after a hole would extend the numeral: templates never do that
            continue
        if T(OR(eq(c,32),eq(c,9))): i+=1; spaced=True; continue
        if T(eq(c,10)): put('NL'); line+=1; i+=1; spaced=True; continue
        if T(isal(c)):
            j=i+1
            while j<n and not isinstance(s[j],Num) and T(OR(OR(isal(s[j]),isdg(s[j])),eq(s[j],95))): j+=1
            cs=s[i:j]
            w=''.join(chr(pick(x)) if isN(x) else chr(x) for x in cs)
            if w=='PRINT': w='OUTPUT'
            if w in DT: put('DT',w)
            elif w in KW:
                put(w)
                if ped and w in('BREAK','CONTINUE'): raise PedErr(line,w)
            else: put('ID',w)
            i=j; spaced=False; continue
        if T(isdg(c)):
            i=lexnum(s,i,n,put,line); spaced=False; continue
        done=False
        for two,t in (('<-','<-'),('<=','<='),('<>','<>'),('>=','>=')):
            if ise(c,two[0]) and i+1<n and ise(s[i+1],two[1]): put(t); i+=2; done=True; break
        if done: spaced=False; continue
        if ise(c,'/'):
            if i+1<n and ise(s[i+1],'/'):
                while i<n and not ise(s[i],'\n'): i+=1
                spaced=True
                continue
            put('/'); i+=1; spaced=False; continue
        if ise(c,'='):
            if i+1<n and ise(s[i+1],'='): raise SynErr(line,"'=='")
            put('='); i+=1; spaced=False; continue
        if ise(c,'('):
            if not spaced and toks and toks[-1].t in IOK: raise SynErr(line,"'(' after I/O keyword")
            put('('); i+=1; spaced=False; continue
        for ch in '+-*)[]:,&^.><':
            if ise(c,ch): put(ch); i+=1; done=True; break
        if done: spaced=False; continue
        if ise(c,"'"):
            if i+2>=n: raise SynErr(line)
            if isinstance(s[i+1],Num): raise Unspecified('numeral hole in CHAR literal')
            if ise(s[i+1],'\\'):
                e=s[i+2]; v=None
                for k,x in ESC.items():
                    if ise(e,k): v=x; break
                if v is None: raise SynErr(line)
                i+=3
            elif ise(s[i+1],"'"): raise SynErr(line)
            else:
                v=s[i+1]; i+=2
                if ise(v,'\n'): raise Unspecified('line break inside a CHAR literal')
            if i>=n or not ise(s[i],"'"): raise SynErr(line)
            put('LIT',('C',v)); i+=1; spaced=False; continue
        if ise(c,'"'):
            i+=1; v=[]; l0=line; nl=0
            while True:
                if i>=n: raise SynErr(None if nl else line)
                x=s[i]
                if isinstance(x,Num): raise Unspecified('numeral hole in STRING literal')
                if ise(x,'"'): break
                if ise(x,'\\'):
                    if i+1>=n: raise SynErr(None)
                    e=s[i+1]; y=None
                    for k,z in ESC.items():
                        if ise(e,k): y=z; break
                    if y is None: raise SynErr(None if nl else line)
                    v.append(y); i+=2; continue
                if ise(x,'\n'): nl+=1
                v.append(x); i+=1
            put('LIT',('S',v)); line+=nl; i+=1; spaced=False
            continue
        raise SynErr(line,'Invalid character')
    put('EOF'); toks[-1].line=None     # end of input has no line of its own
    return toks
def lexnum(s,i,n,put,line):
    j=i; dot=False; 
    def isd(k): return k<n and not isinstance(s[k],Num) and T(isdg(s[k]))
    while j<n:
        if isinstance(s[j],Num): raise Unspecified('numeral hole glued to digits')
        if not dot and ise(s[j],'.'): dot=True; j+=1; continue
        if not isd(j): break
        j+=1
    cs=s[i:j]
    if not dot and j<n and not isinstance(s[j],Num) and ise(s[j],'/') :
        if isd(j+1) or (j+1<n and isinstance(s[j+1],Num)):
            k=j+1
            if isinstance(s[k],Num): raise Unspecified('numeral hole in a date literal')
            while isd(k): k+=1
            if k<n and not isinstance(s[k],Num) and ise(s[k],'/') and isd(k+1):
                e=k+1
                while isd(e): e+=1
                put('LIT',('D',(dec(s[i:j]),dec(s[j+1:k]),dec(s[k+1:e]))))
                return e
    if dot:
        t=''.join(chr(pick(x)) for x in cs)
        try: v=float(t) if t!='.' else 0.0
        except ValueError: v=float(t.rstrip('.') or '0')
        if math.isinf(v): raise SynErr(line,'REAL literal too large')
        put('LIT',('R',v))
    else:
        v=dec(cs)
        if len(cs)<=18: put('LIT',('I',v))
        else:
            if all(not isN(x) for x in cs):
                if v>=1<<63: raise SynErr(line,'INTEGER literal too large')
                put('LIT',('I',v))
            else:
                v=0
                for x in cs: v=v*10+(pick(x)-48)
                if v>=1<<63: raise SynErr(line,'INTEGER literal too large')
                put('LIT',('I',v))
    return j
def dec(cs):
    """value of a digit sequence: Python int (unbounded) or term"""
    if all(not isN(x) for x in cs) or len(cs)>18:
        v=0
        for x in cs: v=v*10+(pick(x)-48)
        return v
    v=0
    for x in cs:
        d=isub(zext(x),48) if isN(x) else x-48
        v=iadd(imul(v,10),d)
    return v

BLOCKEND={'EOF','ENDIF','OTHERWISE','ENDCASE','ELSE','ENDWHILE','UNTIL','NEXT','ENDPROCEDURE','ENDFUNCTION'}
class Parser:
    def __init__(s,toks,ped=False): s.k=toks; s.i=0; s.ped=ped; s.warn=False
    @property
    def t(s): return s.k[s.i].t
    @property
    def cur(s): return s.k[s.i]
    def la(s,n): return s.k[s.i+n].t if s.i+n<len(s.k) else None
    def adv(s): s.i=min(s.i+1,len(s.k)-1)
    def need(s,t,line=True):
        if s.t!=t: raise SynErr(s.cur.line if line else None,'Expected '+t)
        c=s.cur; s.adv(); return c
    def skipnl(s):
        while s.t=='NL': s.adv()
    def program(s):
        b=s.block('main')
        if s.t!='EOF': raise SynErr(s.cur.line)
        return b
    def block(s,kind=''):
        out=[]
        while True:
            s.skipnl()
            if s.t in BLOCKEND: break
            if kind=='case' and s.t!='DECLARE':
                j=1; end=False
                while s.i+j<len(s.k):
                    x=s.k[s.i+j].t
                    if x==':': end=True; break
                    if x=='NL': break
                    j+=1
                if end: break
            if s.t in('PROCEDURE','FUNCTION'):
                if kind!='main': raise SynErr(s.cur.line)
                st=s.proc(s.t=='FUNCTION')
            else:
                st=s.stmt()
                if st[0]=='bin' and st[2] in('=','<>','<','>','<=','>=') and st[3][0]=='acc': s.warn=True
            out.append(st)
            if s.t not in('NL','EOF'): raise SynErr(s.cur.line)
        return out
    def stmt(s):
        t=s.t; l=s.cur.line
        f={'DECLARE':s.declare,'CONSTANT':s.constant,'TYPE':s.type,'IF':s.if_,'CASE':s.case,'WHILE':s.while_,'REPEAT':s.repeat,'FOR':s.for_,'CALL':s.call}.get(t)
        if f: return f()
        if t=='OUTPUT':
            s.adv(); es=[s.expr()]
            while s.t==',': s.adv(); es.append(s.expr())
            return ('output',l,es)
        if t in('INPUT','READ'):
            s.adv()
            if s.t!='ID': raise SynErr(s.cur.line)
            return ('input',l,s.resolver())
        if t=='OPENFILE':
            s.adv(); f=s.cat(); s.need('FOR'); m=s.t
            if m not in('READ','WRITE','APPEND','RANDOM'): raise SynErr(s.cur.line)
            s.adv(); return ('open',l,f,m)
        if t=='CLOSEFILE': s.adv(); return ('close',l,s.cat())
        if t in('READFILE','GETRECORD','PUTRECORD'):
            s.adv(); f=s.cat(); s.need(','); i=s.need('ID'); return (t.lower(),l,f,i.v)
        if t=='WRITEFILE': s.adv(); f=s.cat(); s.need(','); return ('writefile',l,f,s.expr())
        if t=='SEEK': s.adv(); f=s.cat(); s.need(','); return ('seek',l,f,s.expr())
        if t=='RETURN': s.adv(); return ('return',l,s.expr())
        if t in('BREAK','CONTINUE'): s.adv(); return (t.lower(),l)
        return s.expr()
    # expressions
    def expr(s):
        e=s.logic()
        while s.t in('=','<>'):
            o=s.cur; s.adv(); e=('bin',o.line,o.t,e,s.logic())
        return e
    def logic(s):
        e=s.comp()
        while s.t in('AND','OR'):
            o=s.cur; s.adv(); e=('bin',o.line,o.t,e,s.comp())
        return e
    def comp(s):
        if s.t=='NOT':
            o=s.cur; s.adv(); return ('not',o.line,s.comp())
        e=s.cat()
        while s.t in('=','<>','<','>','<=','>='):
            o=s.cur; s.adv(); e=('bin',o.line,o.t,e,s.cat())
        return e
    def cat(s):
        e=s.arith()
        while s.t=='&':
            o=s.cur; s.adv(); e=('bin',o.line,'&',e,s.arith())
        return e
    def arith(s):
        e=s.term()
        while s.t in('+','-'):
            o=s.cur; s.adv(); e=('bin',o.line,o.t,e,s.term())
        return e
    def term(s):
        e=s.factor()
        while s.t in('*','/','DIV','MOD'):
            o=s.cur; s.adv(); e=('bin',o.line,o.t,e,s.factor())
        return e
    def factor(s):
        if s.t=='-':
            o=s.cur; s.adv(); return ('neg',o.line,s.atom())
        return s.atom()
    def lit(s):
        c=s.cur; k,v=c.v; s.adv(); return ('lit',c.line,k,v)
    def atom(s):
        c=s.cur; t=c.t
        if t=='LIT': return s.lit()
        if t in('TRUE','FALSE'): s.adv(); return ('lit',c.line,'B',t=='TRUE')
        if t=='ID':
            if s.la(1)=='(':
                s.adv(); s.adv(); args=[]
                if s.t==')': s.adv()
                else:
                    args.append(s.expr())
                    while s.t==',': s.adv(); args.append(s.expr())
                    s.need(')')
                return ('fn',c.line,c.v,args)
            r=s.resolver()
            if s.t=='<-':
                o=s.cur; s.adv()
                if s.t=='^':
                    o=s.cur; s.adv()
                    if s.t!='ID': raise SynErr(s.cur.line)
                    return ('pasg',o.line,r,s.resolver())
                return ('asg',o.line,s.expr(),r)
            return ('acc',c.line,r)
        if t=='(':
            s.adv(); e=s.expr(); s.need(')'); return e
        if t=='DT':
            if s.ped: raise PedErr(c.line,'cast|conver|'+c.v)
            s.adv(); s.need('('); e=s.expr(); s.need(')')
            return ('cast',c.line,c.v,e)
        if t in('DIV','MOD') and s.la(1)=='(':
            s.adv(); s.adv(); a=s.expr(); s.need(','); b=s.expr(); s.need(')'); return ('bin',c.line,t,a,b)
        raise SynErr(c.line,'Expected value or expression')
    def resolver(s):
        c=s.need('ID'); r=('var',c.v,c.line)
        while True:
            if s.t=='.': l=s.cur.line; s.adv(); m=s.need('ID'); r=('mem',r,m.v,l)
            elif s.t=='^': r=('deref',r,s.cur.line); s.adv()
            elif s.t=='[':
                l=s.cur.line; s.adv(); ix=[s.arith()]
                while s.t==',': s.adv(); ix.append(s.arith())
                s.need(']'); r=('idx',r,ix,l)
            else: return r
    # declarations
    def ty(s):
        if s.t not in('DT','ID'): raise SynErr(s.cur.line)
        c=s.cur; s.adv(); return c.v
    def declare(s):
        l=s.cur.line; s.adv(); ids=[s.need('ID').v]
        while s.t==',': s.adv(); ids.append(s.need('ID').v)
        s.need(':')
        if s.t=='ARRAY':
            s.adv(); s.need('['); b=[]
            while True:
                lo=s.arith(); s.need(':'); b.append((lo,s.arith()))
                if s.t==',': s.adv()
                else: break
            s.need(']'); s.need('OF'); return ('array',l,ids,s.ty(),b)
        return ('declare',l,ids,s.ty())
    def constant(s):
        l=s.cur.line; s.adv(); i=s.need('ID').v
        if s.t not in('=','<-'): raise SynErr(s.cur.line)
        s.adv(); neg=s.t=='-'; nl=s.cur.line
        if neg: s.adv()
        if s.t=='LIT' and s.cur.v[0]!='D': v=s.lit()
        elif s.t in('TRUE','FALSE'): v=('lit',s.cur.line,'B',s.t=='TRUE'); s.adv()
        else: raise SynErr(s.cur.line)
        return ('const',l,('neg',nl,v) if neg else v,i)
    def type(s):
        l=s.cur.line; s.adv(); s.skipnl(); n=s.need('ID').v
        if s.t!='=':
            if s.t!='NL': raise SynErr(s.cur.line)
            body=[]
            s.skipnl()
            while s.t=='DECLARE':
                body.append(s.declare())
                if s.t!='NL': raise SynErr(s.cur.line)
                s.skipnl()
            s.need('ENDTYPE',False); return ('record',l,n,body)
        s.adv()
        if s.t=='^': s.adv(); return ('ptrtype',l,n,s.ty())
        if s.t=='(':
            s.adv(); vs=[s.need('ID').v]
            while s.t==',': s.adv(); vs.append(s.need('ID').v)
            s.need(')'); return ('enum',l,n,vs)
        raise SynErr(s.cur.line)
    def if_(s):
        l=s.cur.line; s.adv(); c=s.expr(); s.skipnl(); s.need('THEN',False); cs=[(c,s.block())]
        while s.t=='ELSE':
            s.adv()
            if s.t=='IF':
                if s.ped: raise PedErr(s.cur.line,'ELSE *IF')
                s.adv(); c=s.expr(); s.skipnl(); s.need('THEN',False); cs.append((c,s.block()))
            else: cs.append((None,s.block())); break
        s.need('ENDIF',False); return ('if',l,cs)
    def case(s):
        l=s.cur.line; s.adv(); s.need('OF'); v=s.need('ID'); s.skipnl(); cl=[]
        while s.t!='ENDCASE':
            if s.t=='OTHERWISE':
                s.adv(); s.need(':'); cl.append(('other',None,None,s.block('case'))); s_=s
                if s.t!='ENDCASE': raise SynErr(None)
                break
            e=s.expr(); o=None
            if s.t=='TO': s.adv(); o=s.expr()
            s.need(':'); cl.append(('eq' if o is None else 'range',e,o,s.block('case')))
        s.adv(); return ('case',l,v.v,cl)
    def while_(s):
        l=s.cur.line; s.adv(); c=s.expr(); s.skipnl()
        if s.t=='DO': s.adv()
        b=s.block(); s.need('ENDWHILE',False); return ('while',l,c,b)
    def repeat(s):
        l=s.cur.line; s.adv(); b=s.block(); s.need('UNTIL',False); return ('repeat',l,b,s.expr())
    def for_(s):
        l=s.cur.line; s.adv(); i=s.need('ID').v; s.need('<-'); a=s.arith(); s.need('TO'); b=s.arith(); st=None
        if s.t=='STEP': s.adv(); st=s.arith()
        bl=s.block(); s.need('NEXT',False)
        if s.t=='ID':
            if s.cur.v!=i: raise SynErr(s.cur.line)
            s.adv()
        return ('for',l,i,a,b,st,bl)
    def call(s):
        l=s.cur.line; s.adv(); n=s.need('ID').v; args=[]
        if s.t=='(':
            s.adv()
            if s.t==')': s.adv()
            else:
                args.append(s.expr())
                while s.t==',': s.adv(); args.append(s.expr())
                s.need(')')
        return ('call',l,n,args)
    def proc(s,isf):
        l=s.cur.line; s.adv(); n=s.need('ID').v; ps=[]; ref=False
        if s.t=='(':
            s.adv(); pend=[]
            first=True
            while s.t!=')':
                if not first: s.need(',')
                first=False
                if s.t in('BYREF','BYVAL'): ref=s.t=='BYREF'; s.adv()
                pn=s.need('ID').v; pend.append((pn,ref))
                if s.t==':':
                    s.adv(); ty=s.ty(); ps+=[(a,ty,r) for a,r in pend]; pend=[]
                elif s.t==',': continue
                else: raise SynErr(s.cur.line)
            if pend: raise SynErr(s.cur.line)
            s.adv()
        rt=None
        if isf:
            s.skipnl(); s.need('RETURNS',False); rt=s.ty()
        b=s.block(); s.need('ENDFUNCTION' if isf else 'ENDPROCEDURE',False)
        return ('func' if isf else 'proc',l,n,ps,b,rt)
def parse(src,ped=False):
    p=Parser(lex(src,ped),ped); b=p.program(); b_=p
    return b,p.warn
