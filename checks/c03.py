"""C03: selection and loops."""
from sym.template import Tpl
import itertools
BOUNDS='IF chains up to 4 branches nested 3 deep; CASE up to 6 clauses (values, ranges, overlapping, expression and call labels) over INTEGER (64-bit), REAL, CHAR, STRING, BOOLEAN, DATE and enumerated selectors; WHILE/REPEAT up to ~6 iterations; FOR start/stop/step in [-4,4] plus values near 2^53 and 2^62; every outer loop kind x inner loop kind x BREAK/CONTINUE x trigger position (symbolic), BREAK/CONTINUE under IF, CASE and procedure calls; non-BOOLEAN conditions of every type; CASE over dates with 3 and 4 clauses; labels and clauses that change the selector variable'
QUICK=42
NB=['5','0','2.5','"TRUE"',"'T'",'1/1/2020','Red','rec','arr','p','TRUE & ""','-1']
PRE='TYPE Col = (Red, Green, Blue)\nTYPE R\nDECLARE a : INTEGER\nENDTYPE\nTYPE PI = ^INTEGER\nDECLARE rec : R\nDECLARE arr : ARRAY[1:3] OF BOOLEAN\nDECLARE p : PI\nDECLARE n : INTEGER\nn <- 0\n'
def ind(s,k=1): return ''.join('    '*k+l+'\n' for l in s.rstrip('\n').split('\n'))
def loop(kind,var,n,body):
    """a loop running body up to n times with counter var"""
    if kind=='F': return f'FOR {var} <- 1 TO {n}\n{body}NEXT {var}\n'
    if kind=='N': return f'FOR {var} <- {n} TO 1 STEP -1\n{body}NEXT {var}\n'
    if kind=='S': return f'stp{var} <- 2\nFOR {var} <- 0 TO {n} STEP stp{var}\nstp{var} <- -1\n{body}NEXT {var}\n'
    if kind=='W': return f'{var} <- 0\nWHILE {var} < {n} DO\n{var} <- {var} + 1\n{body}ENDWHILE\n'
    return f'{var} <- 0\nREPEAT\n{var} <- {var} + 1\n{body}UNTIL {var} >= {n}\n'
def templates(tier):
    out=[]; A=out.append; th=tier=='thorough'
    # IF / ELSE IF / ELSE
    t=Tpl('if/chain'); a,b=t.int(),t.int()
    A(t.run(f'a <- {a}\nb <- {b}\nIF a < b THEN\nOUTPUT 1\nELSE IF a = b THEN\nOUTPUT 2\nELSE IF a > 100 THEN\nOUTPUT 3\nELSE\nOUTPUT 4\nENDIF\nOUTPUT "e"\n'))
    t=Tpl('if/noelse'); a=t.int()
    A(t.run(f'a <- {a}\nIF a < 0 THEN\nOUTPUT 1\na <- -a\nELSE IF a < 10 THEN\nOUTPUT 2\na <- a - 100\nELSE IF a < -95 THEN\nOUTPUT 3\nENDIF\nOUTPUT "e", a\n'))
    t=Tpl('if/side'); x=[t.choice(['TRUE ','FALSE']) for _ in range(4)]
    A(t.run('FUNCTION F(k : INTEGER, b : BOOLEAN) RETURNS BOOLEAN\nOUTPUT "f", k\nRETURN b\nENDFUNCTION\n'+f'IF F(1, {x[0]}) THEN\nOUTPUT "A"\nELSE IF F(2, {x[1]}) THEN\nOUTPUT "B"\nELSE IF F(3, {x[2]}) THEN\nOUTPUT "C"\nELSE\nIF F(4, {x[3]}) THEN\nOUTPUT "D"\nELSE\nOUTPUT "E"\nENDIF\nENDIF\nOUTPUT "z"\n'))
    t=Tpl('if/nest'); a,b,c=t.int(-5,5),t.int(-5,5),t.int(-5,5)
    A(t.run(f'a <- {a}\nb <- {b}\nc <- {c}\nIF a > 0 THEN\nIF b > 0 THEN\nIF c > 0 THEN\nOUTPUT 1\nENDIF\nELSE IF c > a THEN\nOUTPUT 2\nELSE\nOUTPUT 3\nENDIF\nOUTPUT "m"\nELSE\nIF b = c THEN\nOUTPUT 4\nELSE IF b > c THEN\nOUTPUT 5\nENDIF\nENDIF\nOUTPUT "e"\n'))
    t=Tpl('if/modify'); a=t.int(-3,3)
    A(t.run(f'a <- {a}\nFUNCTION F() RETURNS INTEGER\na <- a + 1\nRETURN a\nENDFUNCTION\nIF F() > 2 THEN\nOUTPUT "x", a\nELSE IF F() > 1 THEN\nOUTPUT "y", a\nELSE IF F() = 1 THEN\nOUTPUT "z", a\nELSE\nOUTPUT "w", a\nENDIF\nOUTPUT a\n'))
    for k,stmt in enumerate(['IF {c} THEN\nOUTPUT "in"\nENDIF','IF n = 1 THEN\nOUTPUT 1\nELSE IF {c} THEN\nOUTPUT 2\nELSE\nOUTPUT 3\nENDIF','IF n = 0 THEN\nOUTPUT 1\nELSE IF {c} THEN\nOUTPUT 2\nENDIF','WHILE {c} DO\nOUTPUT "in"\nn <- n + 1\nIF n > 2 THEN\nBREAK\nENDIF\nENDWHILE','REPEAT\nOUTPUT "in"\nn <- n + 1\nIF n > 2 THEN\nBREAK\nENDIF\nUNTIL {c}','IF NOT {c} THEN\nOUTPUT "in"\nENDIF']):
        t=Tpl('nonbool/%d'%k); c=t.choice(NB); A(t.run(PRE+'OUTPUT "s"\n'+stmt.format(c=c)+'\nOUTPUT "e"\n'))
    # CASE
    t=Tpl('case/int'); a=t.int()
    A(t.run(f'a <- {a}\nCASE OF a\n1 : OUTPUT "one"\n2 TO 5 : OUTPUT "r"\n4 : OUTPUT "four"\n-3 TO -1 : OUTPUT "neg"\n-9 : OUTPUT "m9"\nOTHERWISE : OUTPUT "other"\nENDCASE\nOUTPUT "e"\n'))
    t=Tpl('case/nootherwise'); a=t.int(-20,20)
    A(t.run(f'a <- {a}\nsel <- a * 2\nCASE OF sel\n2 : OUTPUT "one"\nOUTPUT "more"\n4 TO 10 : a <- a + 1\nOUTPUT a\n8 : OUTPUT "never"\n12 TO 11 : OUTPUT "empty range"\nENDCASE\nOUTPUT "e", a\n'))
    t=Tpl('case/overlap'); a=t.int(-3,3); l=[t.int(-2,2) for _ in range(3)]
    A(t.run(f'sel <- {a}\nCASE OF sel\n({l[0]}) TO ({l[1]}) : OUTPUT "A"\n({l[2]}) : OUTPUT "B"\n({l[1]}) TO ({l[2]}) : OUTPUT "C"\nOTHERWISE : OUTPUT "D"\nENDCASE\n'))
    t=Tpl('case/big'); a=t.int(9007199254740990,9007199254741000)
    A(t.run(f'sel <- {a}\nCASE OF sel\n9007199254740993 : OUTPUT "x"\n9007199254740994 TO 9007199254740995 : OUTPUT "r"\n9007199254740997 TO 9007199254740997 : OUTPUT "q"\nOTHERWISE : OUTPUT "o"\nENDCASE\n'))
    t=Tpl('case/big2'); a=t.int(2**61,2**63-1)
    A(t.run(f'sel <- {a}\nCASE OF sel\n4611686018427387905 TO 4611686018427387907 : OUTPUT "r"\n9223372036854775806 TO 9223372036854775807 : OUTPUT "q"\nOTHERWISE : OUTPUT "o"\nENDCASE\n'))
    t=Tpl('case/side'); a=t.int(-3,8); x=t.int(0,4)
    A(t.run(f'n <- 0\nFUNCTION F(k : INTEGER) RETURNS INTEGER\nOUTPUT "f", k\nn <- n + 1\nRETURN k\nENDFUNCTION\nsel <- F({a})\nCASE OF sel\nF(1) : OUTPUT "A"\nF({x}) TO F(5) : OUTPUT "B"\nF(7) : OUTPUT "C"\nOTHERWISE : OUTPUT "D"\nENDCASE\nOUTPUT n\n'))
    t=Tpl('case/selside'); a=t.int(-3,8); x=t.int(-2,2)
    A(t.run(f'FUNCTION F(k : INTEGER) RETURNS INTEGER\nOUTPUT "f", k, " ", sel\nsel <- sel + {x}\nRETURN k\nENDFUNCTION\nsel <- {a}\nCASE OF sel\nF(1) : OUTPUT "A"\nF(2) TO F(3) : OUTPUT "B"\nF(5) : OUTPUT "C"\nF(6) : sel <- 100\nOTHERWISE : OUTPUT "D"\nENDCASE\nOUTPUT sel\n'))
    t=Tpl('case/real'); a=t.real(-10,10)
    A(t.run(f'sel <- {a}\nCASE OF sel\n1.5 : OUTPUT "A"\n2 TO 3 : OUTPUT "B"\n-1 TO 0.5 : OUTPUT "C"\nOTHERWISE : OUTPUT "D"\nENDCASE\n'))
    t=Tpl('case/intreal'); a=t.int(-10,10)
    A(t.run(f'sel <- {a}\nCASE OF sel\n1.0 : OUTPUT "A"\n1.5 TO 3.5 : OUTPUT "B"\n-1 TO 0.5 : OUTPUT "C"\nOTHERWISE : OUTPUT "D"\nENDCASE\n'))
    t=Tpl('case/intreal2'); a,r=t.int(-10,10),t.real(-10,10)
    A(t.run(f'sel <- {a}\nCASE OF sel\n{r} : OUTPUT "A"\n2.5 : OUTPUT "B"\n7.0 : OUTPUT "C"\n-3.5 : OUTPUT "D"\nOTHERWISE : OUTPUT "O"\nENDCASE\n'))
    t=Tpl('case/intreal3'); a,r,q=t.int(-10,10),t.real(-10,10),t.real(-10,10)
    A(t.run(f'sel <- {a}\nCASE OF sel\n{r} TO {q} : OUTPUT "A"\n-20 TO ({q}) : OUTPUT "B"\n({r}) TO 20 : OUTPUT "C"\nOTHERWISE : OUTPUT "O"\nENDCASE\n'))
    t=Tpl('case/realint'); a,r,q=t.real(-10,10),t.int(-10,10),t.int(-10,10)
    A(t.run(f'sel <- {a}\nCASE OF sel\n({r}) : OUTPUT "A"\n({q}) TO 5 : OUTPUT "B"\n-9.5 TO ({r}) : OUTPUT "C"\nOTHERWISE : OUTPUT "O"\nENDCASE\n'))
    t=Tpl('case/reallab'); a,r,q=t.real(-10,10),t.real(-10,10),t.real(-10,10)
    A(t.run(f'sel <- {a}\nCASE OF sel\n{r} : OUTPUT "A"\n({q}) TO 5.5 : OUTPUT "B"\n-9.5 TO ({r}) : OUTPUT "C"\nOTHERWISE : OUTPUT "O"\nENDCASE\n'))
    t=Tpl('case/mixtype'); a=t.int(-2,3); v=t.choice(['n','rl','st','ch','bo','dt','en']); l=t.choice(['1','1.5','2.0','"1"',"'1'",'TRUE','1/1/2020','Red','""'])
    A(t.run(PRE+f'n <- {a}\nrl <- n + 0.5\nst <- "" & n\nch <- \'1\'\nbo <- n > 0\ndt <- 1/1/2020\nDECLARE en : Col\nen <- Red\nCASE OF {v}\n{l} : OUTPUT "m"\nOTHERWISE : OUTPUT "o"\nENDCASE\n'))
    t=Tpl('case/mixrange'); a=t.int(-2,3); v=t.choice(['n','rl','st','ch','bo','dt','en']); l,m=t.choice(['1','1.5','"1"',"'1'",'TRUE','1/1/2020','Red']),t.choice(['2','2.5','"3"',"'3'",'2/1/2020','Blue'])
    A(t.run(PRE+f'n <- {a}\nrl <- n + 0.5\nst <- "" & n\nch <- \'1\'\nbo <- n > 0\ndt <- 1/1/2020\nDECLARE en : Col\nen <- Red\nOUTPUT "s"\nCASE OF {v}\n{l} TO {m} : OUTPUT "m"\nOTHERWISE : OUTPUT "o"\nENDCASE\n'))
    t=Tpl('case/char'); a=t.byte(bytes(c for c in range(33,127) if c not in b"'\\"),init='b')
    A(t.run(f"sel <- '{a}'\nCASE OF sel\n'a' : OUTPUT 1\n'b' : OUTPUT 2\n'B' : OUTPUT 3\nOTHERWISE : OUTPUT 4\nENDCASE\n"))
    t=Tpl('case/charrange'); a=t.byte(bytes(c for c in range(33,127) if c not in b"'\\"),init='b')
    A(t.run(f"sel <- '{a}'\nCASE OF sel\n'a' TO 'f' : OUTPUT 1\n'A' TO 'F' : OUTPUT 2\nOTHERWISE : OUTPUT 4\nENDCASE\n"))
    t=Tpl('case/string'); a=t.bytes(2,'abAB ')
    A(t.run(f'sel <- "{a}"\nCASE OF sel\n"a" : OUTPUT 0\n"ab" : OUTPUT 1\n"AB" : OUTPUT 2\n"a ": OUTPUT 3\n"" : OUTPUT 5\nOTHERWISE : OUTPUT 4\nENDCASE\n'))
    t=Tpl('case/bool'); a=t.int(-5,5)
    A(t.run(f'a <- {a}\nsel <- a > 0\nCASE OF sel\nTRUE : OUTPUT "t"\nFALSE : OUTPUT "f"\nENDCASE\nsel <- TRUE\nCASE OF sel\na = 1 : OUTPUT "1"\na > 2 : OUTPUT "2"\na < 0 : OUTPUT "3"\nENDCASE\nOUTPUT "e"\n'))
    t=Tpl('case/enum'); a=t.choice(['Red','Green','Blue'])
    A(t.run(PRE+f'DECLARE c : Col\nc <- {a}\nCASE OF c\nGreen : OUTPUT "g"\nRed : OUTPUT "r"\nOTHERWISE : OUTPUT "o"\nENDCASE\n'))
    t=Tpl('case/date'); a=t.int(1,28)
    A(t.run(f'sel <- SETDATE({a}, 2, 2021)\nCASE OF sel\n1/2/2021 : OUTPUT "A"\n14/2/2021 : OUTPUT "B"\nOTHERWISE : OUTPUT "C"\nENDCASE\n'))
    t=Tpl('case/date3'); a,b,c=t.int(1,28),t.int(1,12),t.int(1999,2030)
    A(t.run(f'sel <- SETDATE({a}, {b}, {c})\nCASE OF sel\n14/2/2020 : OUTPUT "A"\n14/2/2021 : OUTPUT "B"\n14/3/2021 : OUTPUT "C"\n15/2/2021 : OUTPUT "D"\nSETDATE(1, {b}, {c}) : OUTPUT "E"\nOTHERWISE : OUTPUT "F"\nENDCASE\nOUTPUT sel\n'))
    t=Tpl('case/date4'); a,b,c=t.int(1,28),t.int(1,12),t.int(1999,2030)
    A(t.run(f'sel <- 5/6/2007\nt <- SETDATE({a}, {b}, {c})\nCASE OF sel\nt : OUTPUT "A"\n5/6/2007 : OUTPUT "B"\nENDCASE\nCASE OF t\nsel : OUTPUT "A"\nOTHERWISE : OUTPUT "B"\nENDCASE\n'))
    t=Tpl('case/nested'); a,b=t.int(0,4),t.int(0,4)
    A(t.run(f'a <- {a}\nb <- {b}\nCASE OF a\n1 : CASE OF b\n1 : OUTPUT "11"\n2 TO 3 : OUTPUT "1r"\nENDCASE\nOUTPUT "1e"\n2 : IF b > 2 THEN\nOUTPUT "2b"\nELSE\nOUTPUT "2s"\nENDIF\n3 : FOR i <- 1 TO b\nCASE OF i\n2 : CONTINUE\n4 : BREAK\nENDCASE\nOUTPUT i\nNEXT\nOTHERWISE :\nOUTPUT "o"\nENDCASE\nOUTPUT "e"\n'))
    t=Tpl('case/change'); a=t.int(-2,6)
    A(t.run(f'a <- {a}\nCASE OF a\n1 : a <- 2\nOUTPUT "one"\n2 : a <- 3\nOUTPUT "two"\n3 TO 4 : a <- 1\nOUTPUT "thr"\nOTHERWISE : a <- 1\nOUTPUT "oth"\nENDCASE\nOUTPUT a\n'))
    t=Tpl('case/wrongtype'); l=t.choice(['1','"a"',"'a'",'TRUE','2.5','1/1/2020','Red']); 
    A(t.run(PRE+f'CASE OF n\n{l} : OUTPUT "m"\n0 : OUTPUT "z"\nOTHERWISE : OUTPUT "o"\nENDCASE\n'))
    t=Tpl('case/loopinside'); n=t.int(-1,5)
    A(t.run(f'FOR i <- 0 TO {n}\nCASE OF i\n0 : OUTPUT "a"\n1 TO 2 : OUTPUT "b"\nCONTINUE\n4 : BREAK\nOTHERWISE : OUTPUT "o"\nENDCASE\nOUTPUT "x"\nNEXT\nOUTPUT i\n'))
    # WHILE / REPEAT
    t=Tpl('while/count'); a,b=t.int(-2,5),t.int(1,3)
    A(t.run(f'a <- {a}\nn <- 0\nWHILE a > 0 DO\nOUTPUT a\na <- a - ({b})\nn <- n + 1\nENDWHILE\nOUTPUT n, " ", a\n'))
    t=Tpl('while/side'); a=t.int(-2,4)
    A(t.run(f'n <- 0\nFUNCTION F() RETURNS BOOLEAN\nn <- n + 1\nOUTPUT "c", n\nRETURN n <= {a}\nENDFUNCTION\nWHILE F() DO\nOUTPUT "b"\nIF n = 2 THEN\nCONTINUE\nENDIF\nOUTPUT "t"\nENDWHILE\nOUTPUT n\n'))
    t=Tpl('repeat/count'); a,b=t.int(-2,5),t.int(1,3)
    A(t.run(f'a <- {a}\nn <- 0\nREPEAT\nOUTPUT a\na <- a - ({b})\nn <- n + 1\nUNTIL a <= 0\nOUTPUT n, " ", a\n'))
    t=Tpl('repeat/side'); a,c=t.int(-1,4),t.int(0,4)
    A(t.run(f'n <- 0\nFUNCTION F() RETURNS BOOLEAN\nn <- n + 1\nOUTPUT "c", n\nRETURN n >= {a}\nENDFUNCTION\nREPEAT\nOUTPUT "b"\nIF n = {c} THEN\nCONTINUE\nENDIF\nOUTPUT "t"\nUNTIL F()\nOUTPUT n\n',))
    for k in 'WR':
        t=Tpl('cond-error/'+k); a=t.int(0,3)
        c='10 DIV (%s - n) > 0'%a if k=='W' else '10 DIV (%s - n) < 0'%a
        A(t.run(f'n <- 0\n'+(f'WHILE {c} DO\nn <- n + 1\nOUTPUT n\nENDWHILE\n' if k=='W' else f'REPEAT\nn <- n + 1\nOUTPUT n\nUNTIL {c}\n')+'OUTPUT "e"\n'))
    # FOR
    t=Tpl('for/range'); a,b=t.int(-3,3),t.int(-3,3)
    A(t.run(f'FOR i <- {a} TO {b}\nOUTPUT i\nNEXT i\nOUTPUT "end ", i\n'))
    t=Tpl('for/step'); a,b,c=t.int(-4,4),t.int(-4,4),t.int(-3,3)
    nz=c
    t.assume(lambda tab,nd,v=t.vars[2]: tab.NOT(tab.mk('EQ',1,0,nd[v.id],tab.const(0,64))))
    A(t.run(f'FOR i <- {a} TO {b} STEP {c}\nOUTPUT i\nNEXT\nOUTPUT "end ", i\n'))
    for nm,st in (('2','STEP 2'),('m1','STEP -1'),('m2','STEP -2'),('expr','STEP 1 + 1'),('neg-expr','STEP 0 - 1')):
        t=Tpl('for/step-'+nm); a,b=t.int(-4,4),t.int(-4,4)
        A(t.run(f'FOR i <- {a} TO {b} {st}\nOUTPUT i\nNEXT i\nOUTPUT "end ", i\n'))
    t=Tpl('for/big'); a=t.int(2**53-2,2**53+4)
    A(t.run(f'FOR i <- 9007199254740991 TO {a}\nOUTPUT i\nNEXT\nOUTPUT "end ", i\n'))
    t=Tpl('for/huge'); a=t.int(2**62,2**62+4)
    A(t.run(f'FOR i <- 4611686018427387904 TO {a} STEP 2\nOUTPUT i\nNEXT\nOUTPUT "end ", i\n'))
    t=Tpl('for/far'); a=t.int(2**62,2**63-3)
    A(t.run(f'FOR i <- -{a} TO {a} STEP {a}\nOUTPUT i\nNEXT\nOUTPUT "end ", i\n'.replace(f'-{a} TO',f'0 - {a} TO'))) if False else None
    t=Tpl('for/once'); a,b=t.int(-2,2),t.int(-2,2)
    A(t.run(f'lo <- {a}\nhi <- {b}\nst <- 1\nFOR i <- lo TO hi STEP st\nOUTPUT i\nlo <- lo + 5\nhi <- hi - 2\nst <- 3\nNEXT\nOUTPUT i, lo, hi, st\n'))
    t=Tpl('for/evalonce'); a=t.int(-1,3)
    A(t.run(f'FUNCTION F(k : INTEGER) RETURNS INTEGER\nOUTPUT "f", k\nRETURN k\nENDFUNCTION\nFOR i <- F(1) TO F({a}) STEP F(1)\nOUTPUT i\nNEXT\nOUTPUT i\n'))
    t=Tpl('for/modify'); a,b=t.int(-2,2),t.int(1,2)
    A(t.run(f'FOR i <- {a} TO 3\nOUTPUT i\ni <- i + {b}\nOUTPUT i\nNEXT\nOUTPUT "e", i\n'))
    t=Tpl('for/back'); a=t.int(0,3)
    A(t.run(f'n <- 0\nFOR i <- 1 TO 3\nOUTPUT i\nIF n < {a} THEN\nn <- n + 1\ni <- i - 1\nENDIF\nNEXT\nOUTPUT "e", i\n'))
    for nm,d in (('real','DECLARE i : REAL\n'),('int','DECLARE i : INTEGER\n'),('string','DECLARE i : STRING\n'),('bool','DECLARE i : BOOLEAN\n'),('arr','DECLARE i : ARRAY[1:2] OF INTEGER\n'),('char','i <- \'a\'\n'),('const','CONSTANT i = 2\n'),('undecl','')):
        t=Tpl('for/iter-'+nm); a=t.int(-1,3)
        A(t.run(f'{d}OUTPUT "s"\nFOR i <- 1 TO {a}\nOUTPUT i\nNEXT i\nOUTPUT "e", i\n'))
    for pos in range(3):
        t=Tpl('for/type-%d'%pos); c=t.choice(['1','2.5','2.0','TRUE','"1"',"'1'",'1/1/2020']); ps=['1','2','1']; ps[pos]=c
        A(t.run(f'OUTPUT "s"\nFOR i <- {ps[0]} TO {ps[1]} STEP {ps[2]}\nOUTPUT i\nIF i > 4 THEN\nBREAK\nENDIF\nNEXT i\nOUTPUT "e"\n'))
    t=Tpl('for/nextname'); c=t.choice(['i','j','']); A(t.run(f'OUTPUT "s"\nFOR i <- 1 TO 2\nOUTPUT i\nNEXT {c}\nOUTPUT "e"\n'))
    t=Tpl('for/nest'); a,b=t.int(0,2),t.int(0,2)
    A(t.run(f'FOR i <- 0 TO {a}\nFOR j <- i TO {b}\nOUTPUT i, j\nNEXT j\nOUTPUT j\nNEXT i\nOUTPUT i\n'))
    t=Tpl('for/sameiter'); a=t.int(0,3)
    A(t.run(f'FOR i <- 1 TO 3\nFOR i <- 2 TO {a}\nOUTPUT "in", i\nNEXT\nOUTPUT "out", i\nIF i > 8 THEN\nBREAK\nENDIF\ni <- i + 1\nNEXT\nOUTPUT i\n'))
    t=Tpl('for/local'); a=t.int(-1,2)
    A(t.run(f'i <- 42\nPROCEDURE P(n : INTEGER)\nDECLARE i : INTEGER\nFOR i <- 0 TO n\nOUTPUT "p", i\nNEXT\nOUTPUT i\nENDPROCEDURE\nCALL P({a})\nOUTPUT i\nFOR i <- 1 TO 2\nCALL P(i - 2)\nNEXT\nOUTPUT i\n'))
    t=Tpl('for/global-iter'); a=t.int(-1,2)
    A(t.run(f'i <- 42\nPROCEDURE P(n : INTEGER)\nFOR i <- 0 TO n\nOUTPUT "p", i\nNEXT\nENDPROCEDURE\nCALL P({a})\nOUTPUT i\n'))
    t=Tpl('for/return'); a=t.int(0,4)
    A(t.run(f'FUNCTION F(n : INTEGER) RETURNS INTEGER\nFOR i <- 1 TO 3\nFOR j <- 1 TO 3\nIF i * j = n THEN\nRETURN i * 10 + j\nENDIF\nNEXT\nNEXT\nRETURN -1\nENDFUNCTION\nOUTPUT F({a})\nOUTPUT F(6)\nOUTPUT F(5)\n'))
    t=Tpl('for/recursive'); a=t.int(0,3)
    A(t.run(f'PROCEDURE P(n : INTEGER)\nDECLARE k : INTEGER\nFOR k <- 1 TO n\nOUTPUT n, k\nCALL P(n - 1)\nNEXT\nENDPROCEDURE\nCALL P({a})\n'))
    # BREAK / CONTINUE in nested loops of every kind
    for k1 in 'FWRNS':
        t=Tpl(f'bc/one/{k1}'); x=t.int(0,4); c=t.choice(['BREAK','CONTINUE'])
        A(t.run(loop(k1,'i',3,f'OUTPUT "i", i\nIF i = {x} THEN\n{c}\nENDIF\nOUTPUT "t"\n')+'OUTPUT "e", i\n'))
        t=Tpl(f'bc/case/{k1}'); x=t.int(0,4); c=t.choice(['BREAK','CONTINUE'])
        A(t.run(loop(k1,'i',3,f'OUTPUT "i", i\nCASE OF i\n{x} : {c}\nOTHERWISE : OUTPUT "o"\nENDCASE\nOUTPUT "t"\n')+'OUTPUT "e", i\n'))
        for k2 in 'FWRNS':
            t=Tpl(f'bc/two/{k1}{k2}'); x,y=t.int(0,3),t.int(0,3); c=t.choice(['BREAK','CONTINUE'])
            A(t.run(loop(k1,'i',2,'OUTPUT "i", i\n'+loop(k2,'j',3,f'OUTPUT "j", j\nIF i = {x} THEN\nIF j = {y} THEN\n{c}\nENDIF\nENDIF\nOUTPUT "t"\n')+f'IF i = {y} THEN\n{c}\nENDIF\nOUTPUT "u"\n')+'OUTPUT "e", i, j\n'))
        # through a procedure / function call
        for kind in 'PF':
            t=Tpl(f'bc/call/{k1}{kind}'); x=t.int(0,3); c=t.choice(['BREAK','CONTINUE','x <- 1'])
            body=f'IF n = {x} THEN\n{c}\nENDIF\nOUTPUT "p"\n'
            d=f'PROCEDURE P(n : INTEGER)\n{body}ENDPROCEDURE\n' if kind=='P' else f'FUNCTION P(n : INTEGER) RETURNS INTEGER\n{body}RETURN n\nENDFUNCTION\n'
            A(t.run(d+loop(k1,'i',2,'OUTPUT "i", i\n'+('CALL P(i)\n' if kind=='P' else 'OUTPUT P(i)\n')+'OUTPUT "t"\n')+'OUTPUT "e", i\n'))
        t=Tpl(f'bc/loopincall/{k1}'); x=t.int(0,3); c=t.choice(['BREAK','CONTINUE'])
        A(t.run('PROCEDURE P(n : INTEGER)\n'+loop(k1,'j',2,f'IF j = {x} THEN\n{c}\nENDIF\nOUTPUT "p", n, j\n')+'ENDPROCEDURE\n'+loop('F','i',2,'CALL P(i)\nOUTPUT "t"\n')+'OUTPUT "e", i\n'))
    for k1 in 'FWRNS':
        t=Tpl(f'bc/infunc/{k1}'); x=t.int(0,4); c=t.choice(['BREAK','CONTINUE','RETURN -j'])
        A(t.run('FUNCTION F(n : INTEGER) RETURNS INTEGER\nDECLARE s : INTEGER\n'+loop(k1,'j',3,f'IF j = {x} THEN\n{c}\nENDIF\ns <- s + j + n\nOUTPUT "f", j\n')+'RETURN s * 10 + j\nENDFUNCTION\n'+loop('F','i',2,'OUTPUT F(i)\n')+loop('W','k',2,'w <- F(k) + F(0)\nOUTPUT w\n')))
    t=Tpl('bc/top'); c=t.choice(['BREAK','CONTINUE']); A(t.run(f'OUTPUT 1\n{c}\nOUTPUT 2\n'))
    t=Tpl('bc/topif'); c=t.choice(['BREAK','CONTINUE']); x=t.int(0,2); A(t.run(f'OUTPUT 1\nIF {x} = 1 THEN\n{c}\nENDIF\nOUTPUT 2\nFOR i <- 1 TO 2\nOUTPUT i\nNEXT\nIF {x} = 2 THEN\n{c}\nENDIF\n'))
    t=Tpl('bc/three'); x,y=t.int(0,2),t.int(0,3)
    A(t.run(loop('F','i',2,loop('W','j',2,loop('R','k',2,f'OUTPUT i, j, k\nIF i * j = {x} THEN\nBREAK\nENDIF\nIF j + k = {y} THEN\nCONTINUE\nENDIF\nOUTPUT "t"\n')+f'IF j = {y} THEN\nBREAK\nENDIF\n')+'OUTPUT "o"\n')+'OUTPUT i, j, k\n'))
    t=Tpl('whole/collatz'); a=t.int(1,9)
    A(t.run(f'n <- {a}\nc <- 0\nWHILE n <> 1 DO\nIF n MOD 2 = 0 THEN\nn <- n DIV 2\nELSE\nn <- 3 * n + 1\nENDIF\nc <- c + 1\nIF c > 6 THEN\nOUTPUT "long"\nBREAK\nENDIF\nENDWHILE\nOUTPUT n, " ", c\n'))
    return [t for t in out if t]
