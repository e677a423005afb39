"""Builds, from /repo's current sources: the instrumented interpreter, an ASan+UBSan interpreter, and (lazily) a plain one."""
import os, sys, re, hashlib, subprocess, shutil, concurrent.futures as cf, time
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('SYMCX_REPO','/repo')
CXX='clang++-18'
INST=['-std=c++20','-O1','-w','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-D__NO_CTYPE']
ASAN=['-D_GLIBCXX_ASSERTIONS','-D_GLIBCXX_SANITIZE_VECTOR','-std=c++20','-O1','-g1','-w','-fno-omit-frame-pointer','-fsanitize=address,undefined','-fno-sanitize=signed-integer-overflow,float-cast-overflow,vptr','-fno-sanitize-recover=all']
PLAIN=['-std=c++20','-O2','-w']

def sh(cmd,**k):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
    return r.returncode,r.stdout

def sources():
    out=[]
    for d,_,fs in os.walk(os.path.join(REPO,'src')):
        for f in fs:
            if f.endswith('.cpp'): out.append(os.path.join(d,f))
    cm=open(os.path.join(REPO,'CMakeLists.txt')).read()
    listed=[s for s in sorted(out) if os.path.relpath(s,REPO) in cm]
    return listed or sorted(out)

def digest():
    h=hashlib.sha256()
    fs=[]
    for d,_,ff in os.walk(os.path.join(REPO,'src')):
        fs+= [os.path.join(d,f) for f in ff]
    fs+=[os.path.join(REPO,'CMakeLists.txt'),os.path.join(REPO,'PsConfig.h.in')]
    for f in ['pass.cpp','runtime.cpp','models.cpp','stub_readline.c','build.py']: fs.append(os.path.join(HERE,f))
    for f in sorted(fs):
        if os.path.exists(f): h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:20]

def ensure(kinds=('inst','asan'),log=lambda *a:None):
    """returns dict with paths of binaries"""
    base=os.environ.get('SYMCX_BUILD',os.path.join(os.path.dirname(HERE),'build'))
    d=os.path.join(base,digest()); os.makedirs(d,exist_ok=True)
    res={k:os.path.join(d,'pe_'+k) for k in kinds}; res['dir']=d
    todo=[k for k in kinds if not os.path.exists(res[k])]
    if not todo: return res
    # keep only this build (disk)
    for o in os.listdir(base):
        p=os.path.join(base,o)
        if o!=os.path.basename(d) and os.path.isdir(p) and time.time()-os.path.getmtime(p)>3600: shutil.rmtree(p,ignore_errors=True)
    inc=os.path.join(d,'inc'); os.makedirs(os.path.join(inc,'bits'),exist_ok=True)
    cfgh='/usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h'
    s=open(cfgh).read().replace('# define _GLIBCXX_EXTERN_TEMPLATE 1','# define _GLIBCXX_EXTERN_TEMPLATE 0')
    open(os.path.join(inc,'bits','c++config.h'),'w').write(s)
    cm=open(os.path.join(REPO,'CMakeLists.txt')).read(); m=re.search(r'project\(\S+\s+VERSION\s+(\d+)\.(\d+)\.(\d+)',cm); v=m.groups() if m else ('1','0','0')
    gen=os.path.join(d,'gen'); os.makedirs(gen,exist_ok=True)
    pin=os.path.join(REPO,'PsConfig.h.in'); t=open(pin).read() if os.path.exists(pin) else ''
    for k,x in zip(('MAJOR','MINOR','PATCH'),v): t=t.replace('@PseudoEngine2_VERSION_%s@'%k,x)
    open(os.path.join(gen,'PsConfig.h'),'w').write(t)
    defs=['-DREADLINE','-I'+os.path.join(REPO,'src'),'-I'+gen]
    srcs=sources()
    solo=[s for s in srcs if 'readline' in open(s,errors='replace').read()]
    rest=[s for s in srcs if s not in solo]
    # group by size
    NG=int(os.environ.get('SYMCX_GROUPS','4')); groups=[[] for _ in range(NG)]; sz=[0]*NG
    for s in sorted(rest,key=lambda x:-os.path.getsize(x)):
        i=sz.index(min(sz)); groups[i].append(s); sz[i]+=os.path.getsize(s)+4000
    jobs={}
    ex=cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
    so=os.path.join(d,'pass.so')
    def build_pass():
        return sh(['g++','-std=c++17','-O1','-fPIC','-shared','-fno-rtti','-w','-I/usr/lib/llvm-18/include',os.path.join(HERE,'pass.cpp'),'-o',so])
    def comp(kind,files,obj):
        fl={'inst':INST+['-I'+inc,'-fpass-plugin='+so],'asan':ASAN,'plain':PLAIN}[kind]
        src=files[0]
        if len(files)>1:
            src=obj[:-2]+'.cpp'; open(src,'w').write(''.join('#include "%s"\n'%f for f in files))
        rc,o=sh([CXX]+fl+defs+['-c',src,'-o',obj])
        if rc==0: return [obj]
        if len(files)==1: raise RuntimeError('compile failed: %s\n%s'%(src,o[-3000:]))
        objs=[]
        for i,f in enumerate(files):
            oo='%s_%d.o'%(obj[:-2],i); objs+=comp(kind,[f],oo)
        return objs
    if 'inst' in todo and not os.path.exists(so):
        pf=ex.submit(build_pass)
    else: pf=None
    futs={}
    def start(kind):
        fl=[]
        for i,g in enumerate(groups+[[s] for s in solo]):
            if g: fl.append(ex.submit(comp,kind,g,os.path.join(d,'%s_%d.o'%(kind,i))))
        futs[kind]=fl
    if 'inst' in todo:
        rt=ex.submit(sh,['g++','-std=c++20','-O2','-w','-c',os.path.join(HERE,'runtime.cpp'),'-o',os.path.join(d,'runtime.o')])
    rl=ex.submit(sh,['gcc','-O1','-c',os.path.join(HERE,'stub_readline.c'),'-o',os.path.join(d,'rl.o')])
    for k in todo:
        if k!='inst': start(k)
    if pf:
        rc,o=pf.result()
        if rc: raise RuntimeError('pass build failed '+o[-3000:])
    if 'inst' in todo:
        start('inst')
        futs['inst'].append(ex.submit(comp,'inst',[os.path.join(HERE,'models.cpp')],os.path.join(d,'models.o')))
        rc,o=rt.result()
        if rc: raise RuntimeError('runtime build failed '+o[-3000:])
    rl.result()
    for k in todo:
        objs=[]
        for f in futs[k]: objs+=f.result()
        if k=='inst': cmd=[CXX,'-no-pie']+objs+[os.path.join(d,'runtime.o'),os.path.join(d,'rl.o')]
        elif k=='asan': cmd=[CXX,'-fsanitize=address,undefined']+objs+[os.path.join(d,'rl.o')]
        else: cmd=[CXX]+objs+[os.path.join(d,'rl.o')]
        rc,o=sh(cmd+['-o',res[k]+'.tmp'])
        if rc: raise RuntimeError('link failed %s\n%s'%(k,o[-3000:]))
        os.rename(res[k]+'.tmp',res[k])
        for ob in objs:
            try: os.remove(ob)
            except OSError: pass
    ex.shutdown()
    return res
if __name__=='__main__':
    t=time.time(); r=ensure(tuple(sys.argv[1:]) or ('inst','asan')); print(r,'%.1fs'%(time.time()-t))
