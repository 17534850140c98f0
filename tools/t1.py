import sys,time
sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import threading
threading.stack_size(512*1024*1024)
def main():
    import ir, engine, terms
    from terms import show
    p=ir.load()
    pats=sys.argv[1:]
    fs=[f for f in p.lib() if any(x in f['q'] for x in pats)]
    for f in fs:
        print('==',f['q'],f['l'])
        class E(engine.Engine):
            def on_index(s,st,e,idx,size,base):
                ok=s.holds(st,terms.f_and(terms.f_ge(idx),terms.f_gt(size-idx)))
                print('   index',ok,show(idx),'<',show(size), e.get('l'))
            def on_undef(s,st,e,ptr): print('   UNDEF',show(ptr))
            def on_unknown(s,st,e,q): print('   UNKNOWN',q)
            def on_throw(s,st,e,ty,stack): print('   throw',p.ty(ty).s if ty is not None else None,[show(x) for x in st.facts])
            def on_abort(s,st,e,why,stack): print('   abort',why,[show(x) for x in st.facts])
        e=E(p)
        t=time.time()
        try:
            out,thr=e.entry(f)
            for s,v in out:
                print('  ret',show(v) if v is not None else None)
                print("    facts",[show(x) for x in s.facts])
                for o,x in s.mem.items():
                    if o[0] in 'p': print('    ',o,show(x))
        except engine.Stop as x:
            import traceback; traceback.print_exc(limit=-12)
            print('  STOP',x)
        print('  %.2fs'%(time.time()-t))
t=threading.Thread(target=main); t.start(); t.join()
