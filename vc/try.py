import sys, os, time, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine
def load(path):
    s = importlib.util.spec_from_file_location('plug', path)
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
name = sys.argv[1]; only = sys.argv[2:] 
js, hs = build.extract(os.path.join(build.VERIF, 'contracts', name + '.cpp'), '/tmp/vct%d'%os.getpid())
mod = engine.Module(js)
pl = load(os.path.join(build.VERIF, 'contracts', name + '.py'))
for h in hs:
    if only and h not in only: continue
    cfg = engine.Config(); pl.config(cfg); cfg.dump=os.environ.get('DUMP'); cfg.solver=os.environ.get('SOLVER','simple')
    if hasattr(pl, 'per_harness'): pl.per_harness(h, cfg)
    e = engine.Engine(mod, cfg)
    t = time.time()
    ends = e.run_harness(h)
    ok = sum(o.status == 'discharged' for o in e.obls)
    print('%-28s %d/%d obligations, ends=%s covers=%s queries=%d solver=%.1fs wall=%.1fs steps=%d' % (h, ok, len(e.obls), ends, [c[1] for c in e.covers], e.queries, e.solver_time, time.time() - t, e.steps))
    for o in e.obls:
        if o.status != 'discharged':
            print('   ', o.status, o.kind, o.loc, o.name, o.note); 
            if o.model: print('        ', ' '.join('%s=%s'%(n, v if not isinstance(v,dict) else '%s:%s'%(v['size'],bytes(v['bytes'][:16]).hex())) for n,v in o.model['nd'])[:600])
    slow=sorted(e.obls,key=lambda o:-o.time)[:3]
    if slow and slow[0].time>3: print('   slow:', [(o.name,round(o.time,1)) for o in slow])
