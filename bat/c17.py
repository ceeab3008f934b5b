"""sequences of sampling plan operations against a reference list"""
from bat.util import *
import random, os, itertools, pickle
ALARM = 60
RULE = 'random sequences (up to 14) of add/generate/product/export/parameter calls and rejected calls on plans with several variables (with and without generating functions, values of any type including lists, None and mutable objects), the plan compared after every call with a reference; exports into an initially empty or populated folder, all files compared after every call'
VALS = [0, 1.5, -3, 'a', None, [1, 2], {'k': 1}, True, (1,), 0.0]
def cases(tier, rng):
    out = []
    for i in range(150 if tier == 'quick' else 3000):
        r = random.Random(rng.randrange(10 ** 9)); ops = []
        names = ['alpha', 'beta', 'gamma', 'a'][:r.choice([1, 2, 3, 4])]; r.shuffle(names)
        vars_ = [[n, r.random() < 0.6] for n in names]
        for j in range(r.choice([1, 4, 8, 14])):
            k = r.choice(['add', 'add', 'add', 'gen', 'product', 'export', 'bad', 'var', 'param', 'full'])
            if k in ('add', 'full'):
                ns = [n for n in names if k == 'full' or r.random() < 0.6]; r.shuffle(ns); ops.append(['add', [[n, r.choice(VALS)] for n in ns]])
            elif k == 'gen': ops.append(['gen', r.choice([1, 2, 5, 12])])
            elif k == 'product':
                ns = [n for n in names if r.random() < 0.7] or names[:1]; r.shuffle(ns); ops.append(['product', [[n, [r.choice(VALS) for _ in range(r.choice([1, 2, 3, 3, 0]))]] for n in ns]])
            elif k == 'export': ops.append(['export', r.choice(['plan', 'plan', 'other', 'plan.pkl', 'plan1', 'my.plan.v2.pkl'])])
            elif k == 'bad': ops.append(['bad', r.choice(['unknown', 'unknownprod', 'notlist', 'zero', 'neg', 'float', 'badfun', 'badname', 'export'])])
            elif k == 'var': ops.append(['var', 'v%d' % j, r.random() < 0.7])
            else: ops.append(['param', r.choice([['overwrite', True], ['overwrite', False], ['id_precision', 1], ['id_precision', 5], ['nonsense', 3]])])
        out.append({'vars': vars_, 'ops': ops, 'existing': r.random() < 0.4, 'kw': r.choice([{}, {}, {'id_precision': 2}, {'overwrite': True}, {'overwrite': False, 'id_precision': 4}]), 'dir': r.choice(['./plans/', './plans/sub/', None])})
    for n, kw in ((105, {'id_precision': 2}), (1003, {}), (12, {'id_precision': 1}), (11, {'id_precision': 0})):
        out.append({'vars': [['a', True], ['b', True]], 'ops': [['gen', n], ['add', [['b', 2]]], ['gen', 3], ['export', 'plan']], 'existing': True, 'kw': kw, 'dir': None})
    return out
def listing():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs: out[os.path.normpath(os.path.join(d, f))] = open(os.path.join(d, f), 'rb').read()
    return out
def run(c):
    import do_mpc, copy
    calls = []
    def maker(n):
        def f():
            calls.append(n); return (n, len(calls))
        return f
    sp = do_mpc.sampling.SamplingPlanner(**c['kw'])
    prec = c['kw'].get('id_precision', 3); over = c['kw'].get('overwrite', False); vars_ = []; plan = []; d = c['dir'] or './'
    if c['dir']: sp.data_dir = c['dir']; need(os.path.isdir(c['dir']), 'data directory is created')
    if c['existing']:
        for n in ('plan', 'plan1', 'plan2', 'other'): open(os.path.join(d, n + '.pkl'), 'wb').write(n.encode())
        open(os.path.join(d, 'plan3.txt'), 'wb').write(b'x')
    for n, g in c['vars']: sp.set_sampling_var(n, maker(n) if g else None); vars_.append((n, g))
    def ref_add(given, k0):
        k = k0; case = dict(given)
        for n, g in vars_:
            if n not in case:
                if not g: return None, k
                k += 1; case[n] = (n, k)
        return case, k
    def same(msg):
        need(len(sp.sampling_plan) == len(plan), '%s: %d cases, expected %d' % (msg, len(sp.sampling_plan), len(plan)))
        for i, (a, b) in enumerate(zip(sp.sampling_plan, plan)): need(a == b and all(type(a[k]) == type(b[k]) for k in b), '%s: case %d is %r, expected %r' % (msg, i, a, b))
        ids = [q['id'] for q in sp.sampling_plan]; need(len(set(ids)) == len(ids), msg + ': ids are not unique')
    def append(case): case['id'] = str(len(plan)).zfill(prec); plan.append(case)
    files = listing()
    for op in c['ops']:
        msg = '%s in %s' % (op, c)
        if op[0] == 'add':
            k0 = len(calls); case, k = ref_add([(n, v) for n, v in op[1]], k0)
            if case is None: raises(lambda: sp.add_sampling_case(**dict(op[1])), 'missing value without generator: ' + msg)
            else:
                r = sp.add_sampling_case(**copy.deepcopy(dict(op[1]))); append(case); need(r is sp.sampling_plan or r == plan, msg + ': returned plan')
                need(len(calls) == k, msg + ': generating functions called %d times, expected %d' % (len(calls) - k0, k - k0))
        elif op[0] == 'gen':
            if all(g for n, g in vars_):
                for _ in range(op[1]):
                    pass
                k = len(calls); new = []
                for _ in range(op[1]): case, k = ref_add([], k); new.append(case)
                sp.gen_sampling_plan(n_samples=op[1])
                for q in new: append(q)
            else: raises(lambda: sp.gen_sampling_plan(op[1]), 'generating without generator: ' + msg)
        elif op[0] == 'product':
            comb = list(itertools.product(*[v for n, v in op[1]])); k = len(calls); new = []; ok = True
            for cm in comb:
                case, k = ref_add(list(zip([n for n, v in op[1]], cm)), k)
                if case is None: ok = False; break
                new.append(case)
            if ok:
                sp.product(**copy.deepcopy(dict((n, v) for n, v in op[1])))
                for q in new: append(q)
            else: raises(lambda: sp.product(**dict((n, v) for n, v in op[1])), 'product without generator: ' + msg)
        elif op[0] == 'var':
            sp.set_sampling_var(op[1], maker(op[1]) if op[2] else None); vars_.append((op[1], op[2]))
        elif op[0] == 'param':
            sp.set_param(**{op[1][0]: op[1][1]})
            if op[1][0] == 'overwrite': over = op[1][1]
            if op[1][0] == 'id_precision': prec = op[1][1]
        elif op[0] == 'export':
            sp.export(op[1]); stem = os.path.splitext(op[1])[0]; cand = os.path.normpath(d + stem + '.pkl')
            if cand in files and not over:
                i = 1
                while os.path.normpath(d + stem + '%d.pkl' % i) in files: i += 1
                cand = os.path.normpath(d + stem + '%d.pkl' % i)
            now = listing()
            need(set(now) - set(files) <= {cand} and cand in now, '%s: files %s, expected additionally %s' % (msg, sorted(now), cand))
            for f in files: need(f == cand or (f in now and now[f] == files[f]), '%s: existing file %s was changed' % (msg, f))
            need(pickle.loads(now[cand]) == plan, msg + ': exported plan'); files = now
        else:
            n0 = vars_[0][0]
            f = {'unknown': lambda: sp.add_sampling_case(nonsense=1, **{n0: 1}), 'unknownprod': lambda: sp.product(nonsense=[1, 2]), 'notlist': lambda: sp.product(**{n0: 3}), 'zero': lambda: sp.gen_sampling_plan(0), 'neg': lambda: sp.gen_sampling_plan(-2),
                 'float': lambda: sp.gen_sampling_plan(2.0), 'badfun': lambda: sp.set_sampling_var('w', 3), 'badname': lambda: sp.set_sampling_var(3), 'export': lambda: sp.export(3)}[op[1]]
            raises(f, 'rejected call: ' + msg)
        same(msg); now = listing(); need(now == files, msg + ': files changed')
