import sys, time
from run1 import *
prog = load()
mod = sys.argv[2]
tot = {}
for (c,pth),f in list(prog.fns.items()):
    if c!=sys.argv[1] or not pth.startswith(mod) or 'closure' in pth or f['kind'] not in ('Fn','AssocFn','fn','method') and False: continue
    if '::_' in pth or f.get('test'): continue
    t=time.time()
    try:
        I, outs = analyse(prog, c, pth)
    except Exception as e:
        import traceback; print("FAIL", pth, type(e), str(e)[:200]); 
        if not isinstance(e, Budget): traceback.print_exc(limit=-6)
        continue
    from collections import Counter
    cn = Counter(o.status for o in I.obs.values())
    print(f"{pth}: {len(outs)} outs {I.steps} steps {time.time()-t:.1f}s {dict(cn)} unk={I.unknown_calls}")
    for o in sorted(I.obs.values(), key=lambda o:o.line):
        if o.status!='proved': print("     ", o.status, o.kind, o.fn.split("::")[-1], o.line, o.goal[:170])
