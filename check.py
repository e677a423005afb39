#!/usr/bin/env python3-vt
"""check.py Cxx quick|thorough          run the check of one property
   check.py replay FILE                  re-run a recorded counterexample"""
import sys, os, time, json, importlib, multiprocessing as mp, queue as Q, random, resource, shutil, signal, re, traceback
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
sys.setrecursionlimit(20000)
from engine import build
from checks import gen, scale, corpus
from sym.explore import Skeleton, Env, Stats, ctext, canon_ref
from sym import proc
KNOWN=os.path.join(HERE,'known-findings.txt')
def known_rules(prop):
    r=[]
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m=re.match(r'known: property=(\S+) skeleton=(\S+) match=/(.*)/ (.*)$',l.strip())
            if m and m.group(1)==prop: r.append((m.group(2),re.compile(m.group(3)),m.group(4)))
    return r
def banner(bins):
    d=os.path.join(SCR,'banner'); os.makedirs(os.path.join(d,'w'),exist_ok=True)
    x=proc.run(bins['plain'],[],os.path.join(d,'w'),b'',{},capture=os.path.join(d,'io')); return x.out.decode('latin1')
SCR='/dev/shm/symcx-%d'%os.getpid()
def worker(k,skels,bins,ban,shared,outq,t_end,slice_,opts,rules,prop,quota):
    if os.environ.get('SYMCX_STUCK'): import faulthandler; faulthandler.dump_traceback_later(int(os.environ['SYMCX_STUCK']))
    try:
        env=Env(bins,SCR,'w%d'%k); env.banner=ban; mine=[]; n=len(skels)
        def report(sk,final):
            st=dict(sk.st.d); st['solver_time']=sk.solver_time; st['paths']=sk.paths; st['proved']=sk.proved
            outq.put(('skel',sk.t.name,sk.done,st,sorted(sk.inexact),sk.funcs,[vio(sk,v) for v in sk.viol],[(w,desc(sk,a)) for w,a in sk.unconf[:3]],[desc(sk,a) for a in sk.samples[:1]],sk.known,sk.outcomes,getattr(sk,'errs',[])))
        while True:
            if shared['stop'].value: break
            with shared['lock']:
                i=shared['next'].value; shared['next'].value+=1
            if i>=n: break
            t=skels[i]; st=Stats(); sk=Skeleton(t,env,st,opts); sk.rules=rules
            now=time.time(); 
            sk.run(min(t_end,now+slice_(i)*t.weight),maxpaths=quota)
            if sk.viol and not os.environ.get('SYMCX_KEEP'): shared['stop'].value+=1
            if sk.done or sk.viol or time.time()>=t_end: report(sk,True)
            else: mine.append(sk)
        while mine and time.time()<t_end and not shared['stop'].value:
            nxt=[]
            for sk in mine:
                if time.time()>=t_end or shared['stop'].value: nxt.append(sk); continue
                sk.run(min(t_end,time.time()+min(3.0,max(0.3,(t_end-time.time())/len(mine)))*min(sk.t.weight,2.0)),maxpaths=quota)
                if sk.viol and not os.environ.get('SYMCX_KEEP'): shared['stop'].value+=1
                if sk.done or sk.viol: report(sk,True)
                else: nxt.append(sk)
            mine=nxt
            if all(sk.paths>=quota for sk in mine): break
        for sk in mine: report(sk,False)
        outq.put(('end',k))
    except BaseException:
        outq.put(('error',k,traceback.format_exc())); outq.put(('end',k))
def desc(sk,asg):
    """concrete inputs of an assignment"""
    t=sk.t; rs=[]
    for r in t.runs:
        rs.append({'args':list(r.args),'source':None if r.repl else t.render(r.src,asg,'p')[0].decode('latin1'),'stdin':t.render(r.src if r.repl else r.stdin,asg,'p')[0].decode('latin1'),
          'files':{n:t.render(x,asg,'p')[0].decode('latin1') for n,x in r.files.items()},'remove':list(r.rm),'fresh':r.fresh,'fsize':r.fsize,'rand':[asg[q.id] if q else 12345 for q in r.rands]})
    return {'template':t.name,'time':t.time,'dirs':list(t.dirs),'runs':rs}
def vio(sk,v):
    d=desc(sk,v['asg']); d['what']=v['what']; d['where']=v['where']; d['query']=v['first']
    outs,fs,why,_,ev=sk.ref(v['asg'])
    d['expected']=[{'stdout':ctext(canon_ref(o.out),ev)[0].decode('latin1'),'diagnostics':o.diags,'status':o.status} for o in outs]; d['reference']=why
    return d
def replay(path):
    d=json.load(open(path)); bins=build.ensure(('plain','asan'))
    for exe in ('plain','asan'):
        w=os.path.join(SCR,'replay'); os.makedirs(w,exist_ok=True); proc.clear(w)
        for n in d['dirs']: os.makedirs(os.path.join(w,n),exist_ok=True)
        for k,r in enumerate(d['runs']):
            if r.get('fresh'):
                proc.clear(w)
                for n in d['dirs']: os.makedirs(os.path.join(w,n),exist_ok=True)
            for n in r['remove']:
                try: os.unlink(os.path.join(w,n))
                except OSError: pass
            for n,t in r['files'].items(): open(os.path.join(w,n),'wb').write(t.encode('latin1'))
            if r['source'] is not None: open(os.path.join(w,'p.pseudo'),'wb').write(r['source'].encode('latin1'))
            x=proc.run(bins[exe],r['args'],w,r['stdin'].encode('latin1'),{'SYMCX_TIME':str(d['time']),'SYMCX_RAND':','.join(map(str,r['rand'])),'ASAN_OPTIONS':'detect_leaks=0:exitcode=99:allocator_may_return_null=1','UBSAN_OPTIONS':'halt_on_error=1:exitcode=99'},timeout=20,memory=0,capture=os.path.join(SCR,'rio'),fsize=r.get('fsize'))
            print('--- %s build, run %d: status %d signal %d\n[stdout]\n%s[stderr]\n%s'%(exe,k,x.status,x.sig,x.out.decode('latin1'),x.err.decode('latin1')[:3000]))
            if k<len(d['expected']): print('[expected] %r'%(d['expected'][k],))
    shutil.rmtree(SCR,ignore_errors=True)
def main():
    prop,tier=sys.argv[1],(sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick'))
    only=sys.argv[3] if len(sys.argv)>3 else None
    seed=int(os.environ.get('VERIF_SEED','1')); t0=time.time()
    mod=importlib.import_module('checks.'+prop.lower())
    bins=build.ensure(('inst','asan','plain')); tb=time.time()-t0
    os.makedirs(SCR,exist_ok=True)
    shm=os.statvfs('/dev/shm')
    ban=banner(bins)
    skels=gen.extend(prop,tier,corpus.extend(prop,tier,scale.extend(prop,tier,mod.templates(tier))))
    names=[t.name for t in skels]; assert len(set(names))==len(names),[n for n in names if names.count(n)>1][:5]
    if only: skels=[t for t in skels if re.search(only,t.name)]
    for t in skels: t.weight=getattr(t,'weight',1.0)
    skels.sort(key=lambda t:-t.prio)
    budget=float(os.environ.get('SYMCX_BUDGET',0)) or (getattr(mod,'QUICK',50) if tier=='quick' else getattr(mod,'THOROUGH',600))
    opts=dict(qtimeout=2500 if tier=='quick' else 15000,vtimeout=6000 if tier=='quick' else 60000,maxviol=1); opts.update(getattr(mod,'OPTS',{}))
    if os.environ.get('SYMCX_SLOW'): opts['slow']=1
    if os.environ.get('SYMCX_EV'): opts['events']=1
    nw=int(os.environ.get('SYMCX_WORKERS','0')) or min(os.cpu_count() or 8,16)
    t1=time.time(); t_end=t1+budget
    mp.set_start_method('fork')
    shared={'next':mp.Value('i',0),'stop':mp.Value('i',0),'lock':mp.Lock()}; outq=mp.Queue()
    def slice_(i):
        left=max(1,len(skels)-i); return max(0.1,(t_end-time.time())*nw/left*0.7) # a short first turn for each, so that the budget reaches all of them
    rules=known_rules(prop)
    ps=[mp.Process(target=worker,args=(k,skels,bins,ban,shared,outq,t_end,slice_,opts,rules,prop,getattr(mod,'QUOTA',10**9))) for k in range(nw)]
    for p in ps: p.start()
    ended=0; recs=[]; errors=[]; hard=t_end+120
    while ended<nw and time.time()<hard:
        try: m=outq.get(timeout=2)
        except Q.Empty:
            if all(not p.is_alive() for p in ps) and outq.empty(): break
            continue
        if m[0]=='end': ended+=1
        elif m[0]=='error': errors.append(m[2]); print('worker error:\n'+m[2],file=sys.stderr)
        else: recs.append(m)
    for p in ps:
        if p.is_alive(): p.terminate()
    tot=Stats(); funcs={}; viols=[]; unconf=[]; samples=[]; inex={}; knowns={}; outc={}; undone=[]
    for _,name,done,st,ix,fn,vs,uc,sm,kn,oc,kinds in recs:
        tot.merge({k:v for k,v in st.items()})
        for f,c in fn.items(): funcs[f]=funcs.get(f,0)+c
        viols+=vs; unconf+=uc; samples+=sm
        for e in kinds: print('internal error in %s:\n%s'%(name,e),file=sys.stderr)
        for x in ix: inex.setdefault(x,[]).append(name)
        for k in kn: knowns[k]=knowns.get(k,0)+1
        for k,c in oc.items(): outc[k]=outc.get(k,0)+c
        if not done: undone.append(name)
    d=tot.d; wall=time.time()-t0
    own=demangle({f:c for f,c in funcs.items()})
    ev={'property':prop,'tier':tier,'seed':seed,'level':'model_checking','wall_s':round(wall,2),'violations':len(viols),
     'coverage':{
      'states':d.get('paths',0),'transitions':d.get('queries',0)+d.get('qcache_hits',0),'traces_validated_against_impl':d.get('asan_replays',0)+d.get('executions',0),
      'samples':[s for s in samples[:3]] or ['none'],
      'templates':len(recs),'templates_exhausted':len(recs)-len(undone),'templates_not_exhausted':undone[:200],
      'paths_compared_with_reference':d.get('paths_compared',0),'paths_proved_equal':d.get('proved',0),'equal_by_identical_terms':d.get('equal_by_identity',0),'equal_by_solver':d.get('equal_by_solver',0),'paths_checked_for_crash_only':d.get('paths_crash_only',0),
      'queries':{'discharged':d.get('queries',0),'sat':d.get('q_sat',0),'unsat':d.get('q_unsat',0),'unknown':d.get('q_unknown',0),'untranslatable':d.get('q_opaque',0),'answered_from_cache':d.get('qcache_hits',0),'single_variable_finite_domain_decisions':d.get('fd_decisions',0),'of_these_cross_checked_with_z3':d.get('fd_crosschecked',0),'cross_check_mismatches':d.get('fd_mismatch',0)},
      'solver_time_s':round(d.get('solver_time',0),2),'outcomes':outc,
      'sanitizer_replays':d.get('asan_replays',0),'not_covered':{k:{'templates':len(v),'examples':v[:5]} for k,v in inex.items()},
      'counters':{k:v for k,v in d.items() if k in('pins','opaque','divergence','value_mismatch','bad_model','event_limit','neg_unknown','neg_opaque','candidates','unconfirmed','no_trace','hang_unspecified','ref_budget','carry_pins','duplicate_paths')},
      'unconfirmed_candidates':unconf[:5],
      'functions_encoded':len(own),'functions':own[:400],'bounds':getattr(mod,'BOUNDS','')+scale.BOUNDS,
      'exhaustive':not undone and not inex,'build_s':round(tb,1)},
     'assumptions':ASSUME+getattr(mod,'ASSUME',[])}
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    if not only:
        with open(os.path.join(HERE,'evidence',prop+'.json'),'w') as f: json.dump(ev,f,indent=1)
    shutil.rmtree(SCR,ignore_errors=True)
    print('%s %s: %d templates (%d exhausted), %d paths, %d compared, %d proved, %d queries (%d unknown), solver %.1fs, wall %.1fs; outcomes %s'%(prop,tier,len(recs),len(recs)-len(undone),d.get('paths',0),d.get('paths_compared',0),d.get('proved',0),d.get('queries',0),d.get('q_unknown',0),d.get('solver_time',0),wall,outc))
    if os.environ.get('SYMCX_V'):
        for r in sorted(recs,key=lambda r:-r[3].get('time',0))[:25]: print('   %-28s done=%s t=%.1f solver=%.1f paths=%d front? unknown=%d'%(r[1],r[2],r[3].get('time',0),r[3]['solver_time'],r[3]['paths'],r[3].get('q_unknown',0)))
        fam={}
        for r in recs: f=fam.setdefault(r[1].split('/')[0],[0,0,0]); f[0]+=r[3].get('time',0); f[1]+=r[3]['paths']; f[2]+=1
        print('FAM',' '.join('%s:%.0fs/%d/%d'%(k,v[0],v[1],v[2]) for k,v in sorted(fam.items(),key=lambda z:-z[1][0])))
        print('syntax only:',[r[1] for r in recs if r[10] and all('Syntax' in k for k in r[10])][:40])
        print('not covered:',{k:(len(v),v[:4]) for k,v in inex.items()}); print('undone',undone[:30])
        for u in unconf[:5]: print('UNCONFIRMED',u[0],json.dumps(u[1])[:1500])
    for k in sorted(knowns): print('KNOWN-FINDING: property=%s %s'%(prop,k))
    if viols:
        rd=os.path.join(HERE,'build','replay'); os.makedirs(rd,exist_ok=True)
        for i,v in enumerate(viols if os.environ.get('SYMCX_KEEP') else viols[:10]):
            p=os.path.join(rd,'%s-%s-%d.json'%(prop,tier,i)); json.dump(v,open(p,'w'),indent=1)
            print('  %s: %s'%(v['template'],v['what'][:600]))
            print('VIOLATION property=%s replay=%s'%(prop,p))
        return 1
    if errors or not recs: return 3
    return 0
ASSUME=['clang 18 -O1 IR of /repo/src (libstdc++ instantiated in it) is the encoded code; the shipped build differs only by compiler and optimisation level','the pass and runtime in engine/ build correct path conditions (each is cross-checked against the concrete value on every run; mismatches are counted)','z3 verdicts; the reference semantics in ref/ written from Syntax.md, grammar.txt and the property text','behaviour the properties leave open is only checked for crashes','signed 64-bit overflow wraps']
def demangle(fs):
    import subprocess
    ks=sorted(fs,key=lambda k:-fs[k])
    try: r=subprocess.run(['c++filt'],input='\n'.join(ks),stdout=subprocess.PIPE,text=True).stdout.split('\n')
    except OSError: r=ks
    return [x for x in r if x and not x.startswith('std::') and 'std::__' not in x.split('(')[0]]
if __name__=='__main__':
    if sys.argv[1]=='replay': replay(sys.argv[2]); sys.exit(0)
    sys.exit(main())
