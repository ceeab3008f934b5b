"""sampler and data handler on small plans in a scratch folder, against a reference"""
from bat.util import *
import random, os, numpy as np, copy, logging
ALARM = 60
RULE = 'plans of 1..6 cases (ids with gaps, variables of several types), results of several types, pickle and mat format, pre-existing result files, repeated and single-case sampling, overwriting; data handler by index, negative index, slice, tuple, list and filters, post-processing functions with one or two arguments, missing results and results computed later'
def cases(tier, rng):
    out = []
    for i in range(400 if tier == 'quick' else 2500):
        r = random.Random(rng.randrange(10 ** 9)); n = r.choice([1, 2, 3, 4, 6])
        ids = ['%03d' % j for j in range(n)] if r.random() < 0.6 else r.sample(['%03d' % j for j in range(12)], n)
        c = {'n': n, 'ids': ids, 'vals': [[r.choice([0, 1, 2, -1.5, 3.25]), r.choice([1, 2, 5])] for _ in range(n)], 'res': r.choice(['num', 'num', 'dict', 'arr', 'list', 'none']), 'fmt': r.choice(['pickle', 'pickle', 'pickle', 'mat']),
             'over': r.random() < 0.3, 'name': r.choice([None, 'run', 'my.pkl_run', 'a_b']), 'dir': r.choice(['./data/', './d/e/', None]), 'pre': [q for q in ids if r.random() < 0.3], 'kw': r.random() < 0.5,
             'pp': r.sample(['one', 'two', 'const', 'swap'], r.choice([0, 0, 1, 2, 4])), 'missing': [q for q in ids if r.random() < 0.25], 'early': r.random() < 0.4, 'decoy': r.random() < 0.5,
             'steps': [r.choice([['all'], ['idx', r.randrange(n)], ['all']]) for _ in range(r.choice([1, 2, 3]))]}
        q = []
        for _ in range(r.choice([2, 5, 8, 12])):
            k = r.choice(['int', 'neg', 'slice', 'tuple', 'list', 'in', 'out', 'inout', 'loc', 'none', 'bad', 'pp', 'pp'])
            q.append([k, r.randrange(n), [r.randrange(n) for _ in range(r.choice([1, 2, 3]))], [r.choice([None, 0, 1, -1, 2]), r.choice([None, 1, 3, -1, 9]), r.choice([None, 1, 2, -1])], r.choice([0, 1, 2])])
        c['query'] = q; out.append(c)
    return out
def value(c, a, b):
    k = c['res']
    if k == 'num': return a + 10 * b
    if k == 'dict': return {'a': a, 'l': [a, b]}
    if k == 'arr': return np.array([[a, b], [b, a]])
    if k == 'list': return [a, b, a * b]
    return None if b == 1 else a
def same(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray): return np.array_equal(np.asarray(x), np.asarray(y))
    if isinstance(x, dict) and isinstance(y, dict): return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)) and type(x) == type(y): return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return type(x) == type(y) and x == y
def files():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs: out[os.path.normpath(os.path.join(d, f))] = open(os.path.join(d, f), 'rb').read()
    return out
def run(c):
    import do_mpc, pickle, scipy.io as sio
    logging.disable(logging.CRITICAL)
    mat = c['fmt'] == 'mat'
    if mat and c['res'] in ('none', 'dict'): c = dict(c, res='arr')
    plan = [{'alpha': v[0], 'beta': v[1], 'id': q} for v, q in zip(c['vals'], c['ids'])]; keep = copy.deepcopy(plan)
    sname = c['name'] or 'sample'; d = c['dir'] or './'; calls = []
    path = lambda q: os.path.normpath(d + sname + '_' + q + ('.mat' if mat else '.pkl'))
    tag = [0]
    def f(alpha, beta):
        calls.append((alpha, beta)); v = value(c, alpha, beta)
        return v
    def raw(v): return v
    def load(q):
        p = path(q)
        if not os.path.exists(p): return None
        return sio.loadmat(p)['res'] if mat else pickle.load(open(p, 'rb'))
    kw = {'overwrite': c['over'], 'print_progress': False}
    if c['name']: kw['sample_name'] = c['name']
    if mat: kw['save_format'] = 'mat'
    if c['kw']: s = do_mpc.sampling.Sampler(plan, **kw)
    else: s = do_mpc.sampling.Sampler(plan); s.set_param(**kw)
    if c['dir']: s.data_dir = c['dir']
    raises(lambda: s.sample_data(), 'sampling without a function')
    raises(lambda: s.set_sample_function(lambda alpha, gamma: 0), 'function of unknown variables'); raises(lambda: s.set_sample_function(3), 'not a function')
    s.set_sample_function(f)
    stored = {}
    for q in c['pre']:
        v = np.array([[7.0]]) if mat else 'before'
        if mat: sio.savemat(path(q), {'res': v})
        else: pickle.dump(v, open(path(q), 'wb'))
        stored[q] = v
    open('unrelated.pkl', 'wb').write(b'z')
    # files of the same name in other folders do not matter
    decoys = set()
    if c['dir'] and c['decoy']:
        for q in c['ids']:
            p = os.path.basename(path(q)); decoys.add(p); open(p, 'wb').write(b'decoy')
    dh = do_mpc.sampling.DataHandler(plan, **({'sample_name': c['name']} if c['name'] else {}))
    dh.data_dir = d
    if mat: dh.set_param(save_format='mat')
    def fetched(q):
        if q not in stored: return None
        return stored[q]
    def expect_loaded(q):
        return stored.get(q)
    if c['early']:
        # look at the results before they exist
        for i, q in enumerate(c['ids']):
            if q not in stored:
                r = dh[i]; need(len(r) == 1 and same(r[0], dict(plan[i], res=None)), 'missing result: got %r in %s' % (r, c))
    def compare_files(msg):
        for q in c['ids']:
            v = load(q); w = stored.get(q)
            if q in stored:
                need(os.path.exists(path(q)), '%s: result of %s is not stored under its id' % (msg, q))
                need(same(v, np.atleast_2d(w) if mat else w), '%s: stored result of case %s is %r, expected %r' % (msg, q, v, w))
            else: need(not os.path.exists(path(q)), '%s: unexpected result of %s' % (msg, q))
        extra = set(files()) - {path(q) for q in stored} - {'unrelated.pkl'} - decoys
        need(not extra, '%s: unexpected files %s' % (msg, extra))
        need(all(open(p, 'rb').read() == b'decoy' for p in decoys), '%s: a file of another folder was changed' % msg)
    done = 0
    for st in c['steps']:
        idx = range(c['n']) if st[0] == 'all' else [st[1]]
        want = []
        for i in idx:
            q = c['ids'][i]
            if q not in stored or c['over']:
                want.append(tuple(c['vals'][i])); stored[q] = value(c, *c['vals'][i])
        calls.clear()
        if st[0] == 'all': s.sample_data()
        else: s.sample_idx(st[1])
        msg = '%s in %s' % (st, c)
        need(calls == want, '%s: function called with %s, expected %s' % (msg, calls, want)); done += len(want)
        need(plan == keep, msg + ': plan was changed'); compare_files(msg)
    raises(lambda: s.sample_idx(c['n'] + 1), 'index beyond the plan'); raises(lambda: s.sample_idx(-1), 'negative index')
    for q in c['missing']:
        if q in stored and not c['early']:
            os.remove(path(q)); del stored[q]
    if c['over'] and c['early']: dh = do_mpc.sampling.DataHandler(plan, sample_name=sname); dh.data_dir = d; dh.save_format = c['fmt'] if mat else 'pickle'
    pps = {'one': lambda res: ('one', str(type(res))), 'two': lambda case, res: (case['id'], case['beta'], str(type(res))), 'const': lambda r: 5, 'swap': lambda beta, alpha: (beta['alpha'], alpha is None)}
    const = [5]; c = dict(c, pp=list(c['pp'])); pps['const'] = lambda r: const[0]
    for n in c['pp']: dh.set_post_processing(n, pps[n])
    def entry(i):
        q = c['ids'][i]; out = dict(plan[i]); v = stored.get(q)
        if q in stored and mat: v = 'mat'
        if c['pp']:
            for n in c['pp']:
                if q not in stored or (v is None): out[n] = None
                elif n == 'one': out[n] = ('one', str(dict if mat else type(v)))
                elif n == 'two': out[n] = (q, plan[i]['beta'], str(dict if mat else type(v)))
                elif n == 'const': out[n] = const[0]
                else: out[n] = (plan[i]['alpha'], False)
        else: out['res'] = v
        return out
    def check(r, idx, msg):
        need(isinstance(r, list) and len(r) == len(idx), '%s: %s entries, expected %d' % (msg, len(r) if isinstance(r, list) else r, len(idx)))
        for a, i in zip(r, idx):
            b = entry(i); a = dict(a)
            if mat and not c['pp'] and b['res'] == 'mat':
                need(isinstance(a.get('res'), dict) and same(a['res'].get('res'), np.atleast_2d(stored[c['ids'][i]])), '%s: result of case %d is %r' % (msg, i, a.get('res'))); a['res'] = 'mat'
            need(same({k: a[k] for k in sorted(a)}, {k: b[k] for k in sorted(b)}), '%s: case %d is %r, expected %r' % (msg, i, a, b))
        for a in r:
            for q in list(a): a[q] = 'changed by the caller'
    N = range(c['n'])
    for k, i, l, sl, th in c['query']:
        msg = 'query %s in %s' % ([k, i, l, sl, th], c)
        if k == 'pp':
            # a function is added or replaced between the queries
            n = ['one', 'two', 'const', 'swap'][(i + th) % 4]
            if n == 'const': v = const[0] + 1; const = [v]; pps['const'] = lambda r, v=v: v; pps['const'] = (lambda v: lambda r: v)(v)
            dh.set_post_processing(n, pps[n])
            if n not in c['pp']: c['pp'].append(n)
        elif k == 'int': check(dh[i], [i], msg)
        elif k == 'neg': check(dh[-1 - i], [c['n'] - 1 - i], msg)
        elif k == 'slice': check(dh[slice(*sl)], list(N)[slice(*sl)], msg)
        elif k == 'tuple': check(dh[tuple(l)], l, msg)
        elif k == 'list': check(dh[list(l)], l, msg)
        elif k == 'in': check(dh.filter(input_filter=lambda alpha: alpha > th), [j for j in N if plan[j]['alpha'] > th], msg)
        elif k == 'loc':
            def loc(beta, alpha):
                aaa = beta + th
                return aaa > 3 and alpha < 3
            check(dh.filter(input_filter=loc), [j for j in N if plan[j]['beta'] + th > 3 and plan[j]['alpha'] < 3], msg)
        elif k == 'out':
            if 'const' in c['pp']: check(dh.filter(output_filter=lambda const: const == 6), [j for j in N if entry(j)['const'] == 6], msg)
            elif not c['pp']: check(dh.filter(output_filter=lambda res: res is None), [j for j in N if entry(j)['res'] is None], msg)
            else: check(dh.filter(output_filter=lambda id: id != '001'), [j for j in N if c['ids'][j] != '001'], msg)
        elif k == 'inout': check(dh.filter(input_filter=lambda beta: beta > th, output_filter=lambda alpha, beta: alpha + beta > 2), [j for j in N if plan[j]['beta'] > th and plan[j]['alpha'] + plan[j]['beta'] > 2], msg)
        elif k == 'none': check(dh.filter(), list(N), msg)
        else:
            raises(lambda: dh[1.5], 'index of wrong type'); raises(lambda: dh['001'], 'index of wrong type'); raises(lambda: dh.filter(input_filter=3), 'filter of wrong type'); raises(lambda: dh.set_post_processing(3, lambda r: r), 'name of wrong type'); raises(lambda: dh.set_post_processing('q', 3), 'function of wrong type'); raises(lambda: dh[c['n'] + 2], 'index beyond the plan')
        need(plan == keep, msg + ': plan was changed')
    compare_files('after the queries')
