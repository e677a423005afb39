"""Reader of the engine's trace files."""
FPW={'FADD','FSUB','FMUL','FDIV','FREM','FNEG','FABS','FRTI','FSQRT','SI2F','UI2F','FPEXT','FPTRUNC','BV2F'}
class Trace: pass
def load(path,tab,maxbytes=40_000_000):
    """-> Trace(why, consumed, events[(kind,node,val,fid)], out[1..2]=(bytes,{off:node}), files{path:{off:node}}, funcs, stats)"""
    t=Trace(); t.why=None; t.events=[]; t.out={1:(b'',{}),2:(b'',{})}; t.files={}; t.funcs={}; t.stats={}; t.ok=False; t.names={}
    nodes={0:None}; cur=None; mk=tab.mk
    with open(path,'rb') as f: data=f.read()
    for ln in data.decode('latin1').split('\n'):
        if not ln: continue
        k=ln[0]
        if k=='N':
            p=ln.split(' '); op=p[2]; w=int(p[3]); fp=int(p[4]); i=int(p[1])
            if op=='CONST': nodes[i]=tab.raw('CONST',w,fp,None,None,None,int(p[9],16))
            elif op=='VAR': nodes[i]=tab.var(int(p[9]),w,fp)
            elif op=='TABLE':
                nodes[i]=tab.raw('TABLE',w,0,None,None,None,(int(p[9]),tuple(int(x) for x in p[10:] if x)))
            else:
                im=int(p[8])
                if op=='TEXT':
                    nodes[i]=tab.raw('TEXT',8,0,nodes[int(p[5])],None,None,im)
                else: nodes[i]=mk(op,w,1 if op in FPW else (fp if op=='ITE' else 0),nodes[int(p[5])],nodes[int(p[6])],nodes[int(p[7])],im)
        elif k=='E':
            p=ln.split(' '); t.events.append((p[1],nodes[int(p[2])],int(p[3]),int(p[4])))
        elif k=='S': p=ln.split(' '); t.why=int(p[1]); t.consumed=int(p[2])
        elif k=='O':
            p=ln.split(' '); cur={}; t.out[int(p[1])]=(bytes.fromhex(p[2]) if len(p)>2 else b'',cur)
        elif k=='F': p=ln.split(' '); cur={}; t.files[bytes.fromhex(p[1]).decode('latin1')]=cur
        elif k in 'of': p=ln.split(' '); cur[int(p[1])]=nodes[int(p[2])]
        elif k=='T': p=ln.split(' ',3); t.funcs[p[3]]=t.funcs.get(p[3],0)+int(p[2]); t.names[int(p[1])]=p[3]
        elif k=='D': t.stats={x.split('=')[0]:int(x.split('=')[1]) for x in ln.split(' ')[1:]}
        elif k=='Z': t.ok=True
    return t
