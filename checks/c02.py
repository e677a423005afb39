"""C02: expressions."""
from sym.template import Tpl
QUICK=40
BOUNDS='expression shapes listed in the templates (all ordered pairs of the 13 binary operators over three operands with and without parentheses, all operator x operand type pairs, unary minus / NOT positions, up to 5 operands for selected shapes); INTEGER operands range over all 64-bit numerals except where a template states a smaller range (products and quotients: see template names), REAL operands over all finite doubles with |x|<=1e200 and (x=0 or |x|>=1e-200); STRING operands up to 2 symbolic characters, CHAR over all printable bytes.'
OPS=['+','-','*','/','DIV','MOD','&','=','<>','<','<=','>','>=','AND','OR']
def sp(o): return ' %s '%o
PRN='abc xyz019'
def tv(t,ty,k=0,small=False):
    """an operand of the given type (symbolic)"""
    if ty=='I': return '(%s)'%(t.int(0,20,init=3+k) if small else t.int(init=7+k))
    if ty=='R': return '(%s)'%t.real(init=2.5+k)
    if ty=='B': return t.choice(['TRUE ','FALSE'],init=k&1)
    if ty=='C': return "'%s'"%t.byte(bytes(c for c in range(32,127) if c not in b"'\\"),init=65+k)
    if ty=='S': return '"%s"'%t.bytes(1+k%2,bytes(c for c in range(32,127) if c not in b'"\\'),init=97+k)
    if ty=='D': return '2%d/0%d/2020'%(k,1+k)
def templates(tier):
    out=[]
    # all 64-bit INTEGER pairs
    for op in ['+','-','*','DIV','MOD','<','<=','>','>=','=','<>']:
        t=Tpl('int2/'+op); a,b=t.int(),t.int(); t.run(f'OUTPUT ({a}) {op} ({b})\nOUTPUT "end"\n'); out.append(t)
    for c in ['1','2','-4','0','1024']:
        t=Tpl('int2/div-by-'+c); a=t.int(); t.run(f'OUTPUT ({a}) / ({c})\nOUTPUT "e"\n'); out.append(t)
    for c in ['3','-7','10']:
        t=Tpl('int2/div-by-'+c,prio=2); a=t.int(-1000,1000); t.run(f'OUTPUT ({a}) / ({c}) >= 7.5\nOUTPUT "e"\n'); out.append(t)
    t=Tpl('int2/const-div',prio=2); b=t.int(-50,50); t.run(f'OUTPUT 100 / ({b})\n'); out.append(t)
    # laws of DIV and MOD, all pairs in a range, and boundary divisors for all 64-bit dividends
    t=Tpl('law/small'); a,b=t.int(-40,40),t.int(-40,40); t.run(f'a <- {a}\nb <- {b}\nq <- a DIV b\nr <- a MOD b\nOUTPUT q*b+r = a\nOUTPUT r*r < b*b\nOUTPUT q, " ", r\n'); out.append(t)
    for c in ['2','3','-1','-2','7','10','9223372036854775807','(-9223372036854775807)','1000000007']:
        t=Tpl('law/any-by-'+c.strip('()')); a=t.int(); t.run(f'a <- {a}\nOUTPUT (a DIV {c})*{c}+(a MOD {c}) = a\nOUTPUT a DIV {c}, " ", a MOD {c}\n'); out.append(t)
    t=Tpl('law/kw-form'); a,b=t.int(),t.int(-9,9); t.run(f'OUTPUT DIV({a}, {b})\nOUTPUT MOD({a}, {b})\n'); out.append(t)
    # every operator on every pair of operand types
    TY='IRBCSD'
    for x in TY:
        for y in TY:
            for grp,ops in (('arith',['+','-','*']),('quot',['/','DIV','MOD']),('cmp',['<','<=','>','>=','=','<>']),('other',['&','AND','OR'])):
                if grp in('arith','quot') and 'R' in x+y and x in 'IR' and y in 'IR': continue
                if grp=='quot' and x in 'IR' and y in 'IR': continue
                t=Tpl(f'types/{x}{y}/{grp}',prio=-1); a=tv(t,x,0,True); b=tv(t,y,1,True); o=t.choice([sp(q) for q in ops])
                t.run(f'OUTPUT "s"\nOUTPUT {a}{o}{b}\nOUTPUT "e"\n'); out.append(t)
    # REAL arithmetic, all finite operands
    for x,y in ('IR','RI','RR'):
        for op in ['+','-','*']:
            t=Tpl(f'real/{x}{y}/{op}',prio=1); t.weight=2; a=tv(t,x); b=tv(t,y,1); t.run(f'r <- {a} {op} {b}\nOUTPUT r < 10.5\nOUTPUT "e"\n'); out.append(t)
        t=Tpl(f'real/{x}{y}/cmp'); a=tv(t,x); b=tv(t,y,1); o=t.choice(['<','<=','>','>=','=','<>']); t.run(f'OUTPUT {a} {o} {b}\n'); out.append(t)
    for op in ['/','DIV','MOD']:
        for c in ['2','0.5','-4','3','0.0']:
            t=Tpl(f'real/R-by-{c}/{op}',prio=1); a=t.real(-1e6,1e6,init=7.5); t.run(f'OUTPUT ({a}) {op} ({c}) > 1.5\nOUTPUT "e"\n'); out.append(t)
        t=Tpl(f'real/I-by-R/{op}',prio=1); a=t.int(-1000,1000); t.run(f'OUTPUT ({a}) {op} (2.5) > 1.5\nOUTPUT "e"\n'); out.append(t)
        t=Tpl(f'real/zero-div/{op}',prio=1); a=t.real(-8,8,init=4.0); t.run(f'OUTPUT "s"\nr <- 8 {op} ({a})\nOUTPUT "e"\n'); out.append(t)
    t=Tpl('real/out'); a=t.real(-1e9,1e9,init=2.0); t.run(f'OUTPUT {a}\nOUTPUT -({a})\n'); out.append(t)
    t=Tpl('real/div-int-type'); t.run('x <- 7 / 2\nOUTPUT x\ny <- 8 / 2\nOUTPUT y\ny <- 2.5\nOUTPUT y\nz <- 7.5 DIV 2\nOUTPUT z\nz <- 4\nOUTPUT z\nw <- 6 * 1.5\nOUTPUT w\n'); out.append(t)
    # precedence and associativity: every ordered pair of operators over three operands
    def rank(o): return 0 if o in('AND','OR') else 1 if o in('=','<>','<','<=','>','>=') else 2 if o=='&' else 3 if o in'+-' else 4
    def opnds(o1,o2):
        """operand types making the pair well typed under the documented grammar, else integers"""
        num='+ - * / DIV MOD < <= > >= = <> &'.split()
        if o1 in num and o2 in num: return 'III'
        if o1 in('AND','OR') and o2 in('AND','OR'): return 'BBB'
        if o1 in('AND','OR'): return 'BII' if rank(o2)==1 else 'BBB'
        return 'IIB' if rank(o1)==1 else 'BBB'
    for o1 in OPS:
        for o2 in OPS:
            if {o1,o2}=={'AND','OR'}: continue
            ty=opnds(o1,o2); t=Tpl(f'prec/{o1}/{o2}',prio=0,asan=False); xs=[tv(t,c,k,True) for k,c in enumerate(ty)] if '/' not in (o1,o2) else [tv(t,ty[0],0,True)]+[{'I':'84'[k],'B':'TRUE'}[c] for k,c in enumerate(ty[1:])]
            p=t.choicevar(3)
            l=t.alts(p,[' ','(',' ']); m1=t.alts(p,[' ',' ','(']); m2=t.alts(p,[' ',')',' ']); r=t.alts(p,[' ',' ',')'])
            t.run(f'OUTPUT {l}{xs[0]} {o1} {m1}{xs[1]}{m2} {o2} {xs[2]}{r}\n'); out.append(t)
    # unary minus and NOT
    for k,e in enumerate(['-{a} + {b}','-{a} * {b}','{a} - -{b}','{a} * -{b}','-({a} - {b})','-{a} = {b}','-{a} & "x"','-{a} DIV 3','-{a} MOD 4','5 - -{a} - {b}','-(-{a})','2 - {a} - {b}','100 DIV 7 DIV {p}','2 * {a} MOD {p} * 3']):
        t=Tpl('neg/%d'%k); t.run('a <- %s\nb <- %s\np <- %s\nOUTPUT %s\n'%(t.int(-50,50),t.int(-50,50),t.int(-6,6),e.format(a='a',b='b',p='p'))); out.append(t)
    for k,e in enumerate(['NOT {a} AND {b}','NOT ({a} AND {b})','NOT {a} OR {b}','NOT {a} = {b}','NOT (1 < 2) = {a}','NOT NOT {a}','{a} AND NOT {b}','{a} OR NOT {b} OR {c}','{a} AND {b} AND {c}','{a} = {b} = {c}','{a} <> {b} = {c}','1 = 1 AND {a}','{a} AND 2 > 1','{a} OR 1 > 2','NOT 1','NOT "a"','-TRUE','-"a"',"-'c'"]):
        t=Tpl('not/%d'%k); B=lambda:t.choice(['TRUE','FALSE']); t.run('OUTPUT %s\n'%e.format(a=B(),b=B(),c=B())); out.append(t)
    # longer expressions (depth up to 6)
    L=['{a} + {b} * {c} - {d} DIV {p} MOD 5','({a} + {b}) * ({c} - {d}) & "z" & {a}','{a} * {b} + {c} < {d} * 2 - 1 AND {a} <> {b}','(({a} - {b}) - ({c} - {d})) * 2 >= {a} OR {b} = {c} - 1 AND {a} < {b} * {c} + {d}' .replace(' AND ',' OR '),'{a} - {b} - {c} - {d}','{a} + {b} & {c} - {d} & ({a} < {b})','1.5 * {a} + {b} / 2 - {c}','({a} DIV {p}) * {p} + ({a} MOD {p}) = {a} AND {b} <= {b} + 0','{a} < {b} = ({c} < {d})','"" & {a} + {b} * {c}','{a} & {b} = {c} & {d}','- {a} * - {b} + - {c}','({a}) - (({b}) - ({c} * (({d}) - 1)))',"'x' & {a} & 'y' = \"x3y\""]
    for k,e in enumerate(L):
        t=Tpl('deep/%d'%k); t.weight=2; v={n:t.int(-9,9,init=3+i) for i,n in enumerate('abcd')}; v['p']=t.int(-4,4)
        if tier=='thorough': pass
        t.run(''.join(f'{n} <- {x}\n' for n,x in v.items())+'OUTPUT '+e.format(**{n:n for n in v})+'\n'); out.append(t)
        if tier=='thorough':
            t=Tpl('deepwide/%d'%k); t.weight=4; v={n:t.int(-2**40,2**40,init=3+i) for i,n in enumerate('abcd')}; v['p']=t.int(-9,9)
            t.run(''.join(f'{n} <- {x}\n' for n,x in v.items())+'OUTPUT '+e.format(**{n:n for n in v})+'\n'); out.append(t)
    # operand order / evaluation of sides, short circuit
    t=Tpl('side/and'); a=t.choice(['TRUE ','FALSE']); t.run(f'FUNCTION F(x : BOOLEAN) RETURNS BOOLEAN\nOUTPUT "f"\nRETURN x\nENDFUNCTION\nOUTPUT F({a}) = TRUE\nOUTPUT F({a}) & F(TRUE)\n'); out.append(t)
    # strings and characters
    t=Tpl('str/eq'); a=t.bytes(2,'abA '); b=t.bytes(2,'abA '); o=t.choice(['=','<>']); t.run(f'OUTPUT "{a}" {o} "{b}"\nOUTPUT "{a}" & "{b}" = "{b}" & "{a}"\n'); out.append(t)
    t=Tpl('str/len'); a=t.bytes(2,'ab'); t.run(f'OUTPUT "{a}" = "a"\nOUTPUT "a" = "{a}"\nOUTPUT "" & "{a}" & "" = "{a}"\nOUTPUT "{a}" <> ""\n'); out.append(t)
    t=Tpl('chr/cmp'); a=t.byte(bytes(c for c in range(32,127) if c not in b"'\\")); b=t.byte(bytes(c for c in range(32,127) if c not in b"'\\"),init=98); o=t.choice(['<','<=','>','>=','=','<>']); t.run(f"OUTPUT '{a}' {o} '{b}'\n"); out.append(t)
    t=Tpl('chr/bytes'); a=t.byte(bytes(c for c in range(1,256) if c not in b"'\\\r\n")); t.run(f"OUTPUT '{a}'\nOUTPUT '{a}' = 'a'\nOUTPUT \"x\" & '{a}' & \"y\"\n"); out.append(t)
    t=Tpl('cat/all'); a=t.int(); b=t.choice(['TRUE ','FALSE']); t.run(f"OUTPUT {a} & {b} & 'c' & \"s\" & 12/03/2020\nOUTPUT ({a}) & \"\" = \"5\"\n"); out.append(t)
    t=Tpl('cat/real'); t.run('OUTPUT 1.5 & "x"\nOUTPUT 0.1 & 2 & 3.25\nOUTPUT (-2.125) & ""\nOUTPUT 100.0 & ""\nOUTPUT 1.0 / 3 & ""\n'); out.append(t)
    # big INTEGER arithmetic stays exact
    for e in ['{a} + 0 = {a}','{a} * 1 = {a}','{a} - 1 < {a}','{a} DIV 1','({a} + 1) - 1 = {a}','{a} * 3 - {a} * 2','{a} = {a} + 1','{a} + 1 > {a}']:
        t=Tpl('exact/'+e.replace('{a}','a').replace('/','|')); a=t.int(-2**62,2**62,init=9007199254740993); t.run('a <- %s\nOUTPUT %s\n'%(a,e.format(a='a'))); out.append(t)
    t=Tpl('typed-vars'); a=t.int(); r=t.real(); t.run(f'DECLARE i : INTEGER\nDECLARE r : REAL\nDECLARE b : BOOLEAN\ni <- {a}\nr <- {r}\nb <- i < r\nOUTPUT b, " ", i, " ", i = i, " ", r = r\nr <- i\nOUTPUT r = i\n'); out.append(t)
    t=Tpl('zero/all'); a=t.int(-3,3); o=t.choice(['/','DIV','MOD']); t.run(f'OUTPUT "s"\nx <- 5\nx <- 17 DIV 4\nOUTPUT (10 {o} ({a})) = (10 {o} ({a}))\nOUTPUT "e"\n'); out.append(t)
    t=Tpl('zero/line'); a=t.int(-1,1); t.run(f'OUTPUT 1\n\nOUTPUT 2,\\\n' .replace(',\\\n','\n')+f'OUTPUT 7 MOD\t({a})\n'); out.append(t)
    # INTEGER DIV / MOD / REAL operand, large INTEGERs (every value below 2**53 is exact as a REAL)
    for op in ('DIV','MOD','/','+','*','<','='):
        for c in ('1.0','2.0','0.5','-4.0','1024.0'):
            if op=='MOD' and c=='0.5': continue
            t=Tpl(f'bigreal/{op}/{c}'); a=t.int(0,2**50); t.run(f'a <- {a}\nOUTPUT (a {op} ({c})) = {c}\nx <- a {op} ({c})\nOUTPUT (a + 1) {op} ({c}) = x\nOUTPUT (a {op} ({c})) = a\n'); out.append(t)
    return out
