"""Runs the three builds of the interpreter in a scratch directory."""
import os, signal, resource, shutil, re, ctypes
try: ctypes.CDLL(None).personality(0x0040000)   # children run without address randomisation (where the system allows it)
except Exception: pass
class Res: __slots__=('status','sig','out','err','hang','trace','files')
_child=0; _hung=False
def _onalarm(*a):
    global _hung
    if _child:
        _hung=True
        try: os.kill(_child,signal.SIGKILL)
        except OSError: pass
def scratch(d):
    """fresh scratch directory (all effects of the code under test stay inside)"""
    os.makedirs(d,exist_ok=True); return d
def clear(d):
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False): shutil.rmtree(e.path,ignore_errors=True)
        else: os.unlink(e.path)
_SP=os.posix_spawn
def run(exe,args,cwd,stdin,env,timeout=10,memory=3<<30,capture=None,fsize=None):
    """run exe in cwd (a scratch directory); stdin is bytes; fsize: writes beyond this offset of a file are rejected by the system (SIGXFSZ is ignored)"""
    global _child,_hung
    io=capture
    with open(io+'.in','wb') as f: f.write(stdin)
    e=dict(env); e['TZ']='UTC'; e['LC_ALL']='C'; e['HOME']=cwd
    old=os.getcwd(); os.chdir(cwd); _hung=False; lim=None
    fa=[(os.POSIX_SPAWN_OPEN,0,io+'.in',os.O_RDONLY,0),(os.POSIX_SPAWN_OPEN,1,io+'.out',os.O_WRONLY|os.O_CREAT|os.O_TRUNC,0o600),(os.POSIX_SPAWN_OPEN,2,io+'.err',os.O_WRONLY|os.O_CREAT|os.O_TRUNC,0o600)]
    try:
        signal.signal(signal.SIGALRM,_onalarm)
        if fsize: lim=resource.getrlimit(resource.RLIMIT_FSIZE); resource.setrlimit(resource.RLIMIT_FSIZE,(fsize,lim[1]))
        pid=_SP(exe,[exe]+args,e,file_actions=fa,setsigdef=[signal.SIGALRM,signal.SIGPIPE])
        if lim: resource.setrlimit(resource.RLIMIT_FSIZE,lim); lim=None
        _child=pid
        if memory:
            try: resource.prlimit(pid,resource.RLIMIT_DATA,(memory,memory))
            except (OSError,ValueError): pass
        try: fsize or resource.prlimit(pid,resource.RLIMIT_FSIZE,(64<<20,64<<20))
        except (OSError,ValueError): pass
        signal.setitimer(signal.ITIMER_REAL,timeout)
        while True:
            try: _,st=os.waitpid(pid,0); break
            except InterruptedError: continue
        signal.setitimer(signal.ITIMER_REAL,0); _child=0
    finally:
        if lim: resource.setrlimit(resource.RLIMIT_FSIZE,lim)
        os.chdir(old)
    r=Res(); r.hang=_hung; r.sig=os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0; r.status=os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1; r.trace=None; r.files=None
    with open(io+'.out','rb') as f: r.out=f.read(4<<20)
    with open(io+'.err','rb') as f: r.err=f.read(1<<20)
    return r
DIAG=re.compile(r'^(Syntax Error|Error\(pedantic\)|Runtime Error) (?:on line (\d+), column (-?\d+) of|in file) (.*?):?$')
FRAME=re.compile(r'^(\S+), line (-?\d+), column (-?\d+)$')
def parse_err(err):
    """stderr bytes -> (list of (kind,[lines]), leftover text)"""
    ds=[]; rest=[]; tb=False
    for ln in err.decode('latin1').split('\n'):
        m=DIAG.match(ln)
        if m:
            k={'S':'Syntax','E':'Pedantic','R':'Runtime'}[m.group(1)[0]]
            ds.append((k,[int(m.group(2))] if m.group(2) else [])); tb=False; continue
        if ln=='Traceback:' and ds: tb=True; continue
        m=FRAME.match(ln)
        if m and tb: ds[-1][1].append(int(m.group(2))); continue
        if ln=='': continue
        if not ds: rest.append(ln)
    return ds,rest
def ped_info(err):
    """the texts following each pedantic diagnostic's header"""
    r=[]; ls=err.decode('latin1').split('\n')
    for i,l in enumerate(ls):
        m=DIAG.match(l)
        if m and m.group(1)[0]=='E': r.append(ls[i+1] if i+1<len(ls) else '')
    return r
def badpos(err,src):
    """the first position printed in the diagnostics that does not exist in the source (None: all exist)"""
    ls=src.replace(b'\r',b'').split(b'\n')
    if ls[-1]==b'': ls.pop()
    n=len(ls); first=True
    for l in err.decode('latin1').split('\n'):
        m=DIAG.match(l) or FRAME.match(l)
        if not m or m.lastindex<3: continue
        f=m.re is FRAME; line,col=int(m.group(2) or 0),int(m.group(3) or 0)
        if m.group(2) is None: continue
        if f and line==0 and col==0 and first: first=False; continue      # a built-in function has no source position
        if f: first=False
        if line<1 or line>n+2 or col<0 or (line<=n and not 1<=col<=len(ls[line-1])+1): return 'diagnostic names line %d column %d, outside the source (%d lines): %r'%(line,col,n,l[:200])
    return None
