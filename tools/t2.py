
import sys,time,traceback,collections
sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import threading, multiprocessing as mp
threading.stack_size(512*1024*1024)
import ir, engine, terms
p=ir.load()
def one(fid):
    f=p.fns[fid]
    I=[0,0]; und=[0]; unk=set()
    class E(engine.Engine):
        def on_index(s,st,e,idx=None,size=None,base=None):
            ok=s.holds(st,terms.f_and(terms.f_ge(idx),terms.f_gt(size-idx)))
            I[0 if ok else 1]+=1
        def on_undef(s,st,e,ptr): und[0]+=1
        def on_unknown(s,st,e,q): unk.add(q)
    e=E(p)
    t=time.time(); c='ok'
    try:
        out,thr=e.entry(f)
        r='ok %d ret %d thr'%(len(out),len(thr))
    except engine.Stop as x: r='STOP %s'%x; c='stop'
    except Exception as x:
        tb=traceback.extract_tb(sys.exc_info()[2])[-1]; c='crash'
        r='CRASH %s %s:%d'%(repr(x)[:100],tb.filename.split('/')[-1],tb.lineno)
    dt=time.time()-t
    return c,'%-100s %-22s %s idx %d/%d undef %d %s %s'%(f['q'][:100],f['l'][-22:],r,I[0],I[1],und[0],' '.join(unk), '%.1fs'%dt if dt>0.5 else '')
def onet(fid):
    r=[]
    t=threading.Thread(target=lambda: r.append(one(fid))); t.start(); t.join()
    return r[0]
if __name__=='__main__':
    pats=sys.argv[1:]
    fs=[f['id'] for f in p.lib() if not pats or any(x in f['q'] for x in pats)]
    C=collections.Counter()
    with mp.Pool(8) as pool:
        for c,l in pool.imap(onet,fs,chunksize=1):
            print(l); C[c]+=1
    print(C)
