import sys, time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
import importlib
from pyvc import harness, smt
m = importlib.import_module('pyvc.specs.'+sys.argv[1])
pos=[a for a in sys.argv[1:] if not a.startswith('-')]; only = pos[1] if len(pos)>1 else None
for name, fn, ref in m.CONTRACTS:
    if only and only not in name: continue
    t=time.time()
    r = harness.explore(name, fn, ref, verbose='-v' in sys.argv)
    from collections import Counter
    print(name, 'paths', r.paths, Counter(o['status'] for o in r.obs), '%.1fs'%(time.time()-t), 'smt', smt.STATS.queries, '%.1fs'%smt.STATS.time)
    for u in r.undecided: print('  UNDECIDED', u)
    seen=set()
    for o in r.obs:
        if o['status']!='proved':
            if (o['name'],o['status']) in seen and '-a' not in sys.argv: continue
            seen.add((o['name'],o['status']))
            print('  ', o['status'], o['name'], o['path'], o['detail'][:1500])
    if '-o' in sys.argv:
        for o in r.obs: print('    ', o['status'], o['name'], o['path'])
    if '-f' in sys.argv: print('  functions', list(r.functions))
