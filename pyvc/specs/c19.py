"""C19: save_results, load_results and the pickle helpers over an arbitrary file system."""
import itertools
from .files import *
MOD = 'do_mpc.data:'
KIND = {'MPC': ('do_mpc.controller:MPC', 'mpc'), 'Simulator': ('do_mpc.simulator:Simulator', 'simulator'), 'StateFeedback': ('do_mpc.estimator:StateFeedback', 'estimator'),
        'EKF': ('do_mpc.estimator:EKF', 'estimator'), 'MHE': ('do_mpc.estimator:MHE', 'estimator')}
BOUNDED = {'saved objects': 'all sequences of up to three objects of the five kinds and of other types (names, folders and existing files are arbitrary)'}

def objects(it, kinds):
    out = []
    for i, k in enumerate(kinds):
        if k == 'other': out.append(PObj(LibType('other'), {}, 'o%d' % i)); continue
        o = PObj(it.find(KIND[k][0]), {}, 'o%d' % i); o.closed = True
        o.attrs['data'] = Term('sym', ('data%d' % i,), None, None)
        out.append(o)
    return out

def content(ctx, d, kinds):
    want = {}
    for i, k in enumerate(kinds): want[KIND[k][1]] = 'data%d' % i
    ctx.true('kinds that are stored', isinstance(d, PDict) and set(d.d) == set(want), '%s' % (d,))
    if isinstance(d, PDict):
        for k in want: ctx.true('data of each object is stored under its kind', isinstance(d.d.get(k), Term) and d.d[k].args[0] == want[k], '%s: %s' % (k, d.d.get(k)))

def written(ctx, fs, d):
    """exactly one file opened for writing, the results dumped once into it"""
    w = [x for x in fs.writes() if x[0] != 'mkdir']
    ctx.true('exactly one file is written', len(w) == 2 and w[0][0] == 'open' and w[1][0] == 'write pickle' and w[0][1] == w[1][1] and 'w' in w[0][2], '%s' % (w,))
    return w[1][1], w[1][2]

def save(kinds, ow):
    def run(ctx):
        it = ctx.it; fs = Files(it, False)
        name, path = SStr('name'), SStr('path/')
        path = sstr(str_parts(SStr('path')) + str_parts('/'))
        objs = objects(it, kinds)
        args, kw = [PList(elems=objs)], {'result_name': name, 'result_path': path}
        if ow is not None: kw['overwrite'] = ow
        try: it.call(it.find(MOD + 'save_results'), args, kw)
        except PyEx as ex:
            ctx.true('only other objects are rejected', 'other' in kinds, '%s' % ex)
            return ctx.true('a rejected call writes nothing', all(x[0] == 'mkdir' for x in fs.writes()), '%s' % fs.writes())
        ctx.true('other objects are rejected', 'other' not in kinds, 'accepted')
        nm, d = written(ctx, fs, None)
        content(ctx, d, kinds)
        first = sstr(str_parts(path) + str_parts(name) + str_parts('.pkl'))
        p = str_parts(nm)
        ctx.true('folder and type of the file', p[:2] == str_parts(path) and p[-1][0] == 'c' and p[-1][1].endswith('.pkl'), '%s' % nm)
        if ow: ctx.true('the named file is replaced', nm == first, '%s' % nm)
        else: ctx.oblige('the file did not exist before', z3.Not(fs.pred(nm)))
        for x in fs.writes():
            if x[0] == 'mkdir': ctx.true('only the result folder is created', x[1] == path or x[1] == SStr('path'), '%s' % (x,))
    return run

def defaults(ctx):
    """default name, folder and no overwriting"""
    it = ctx.it; fs = Files(it, False)
    it.call(it.find(MOD + 'save_results'), [PList(elems=objects(it, ['MPC', 'Simulator', 'MHE']))], {})
    nm, d = written(ctx, fs, None)
    content(ctx, d, ['MPC', 'Simulator', 'MHE'])
    ctx.oblige('the file did not exist before', z3.Not(fs.pred(nm)))
    p = str_parts(nm)
    ctx.true('folder and type of the file', p[0][1].startswith('./results/') and p[-1][1].endswith('.pkl'), '%s' % nm)

def types(ctx):
    it = ctx.it; fs = Files(it, False)
    o = PList(elems=objects(it, ['MPC']))
    for args, kw in (([(o,)], {}), ([o.segs[0].val], {}), ([o, 3], {}), ([o, None], {}), ([o, 'a', 3], {}), ([o], {'overwrite': 1}), ([o], {'overwrite': None}), ([o], {'overwrite': 'yes'})):
        try: it.call(it.find(MOD + 'save_results'), args, kw)
        except PyEx: pass
        else: ctx.fail('arguments of wrong type are rejected', '%s %s' % (args, kw))
        ctx.true('a rejected call has no effect on the file system', not fs.log.segs, '%s' % fs.writes())

def load(ctx):
    it = ctx.it; fs = Files(it, False)
    nm = SStr('file')
    try: r = it.call(it.find(MOD + 'load_results'), [nm], {})
    except PyEx as ex:
        return ctx.oblige('existing files are loaded', z3.Not(fs.pred(nm)))
    ctx.oblige('missing files raise', fs.pred(nm))
    ctx.true('the stored object is returned', isinstance(r, PObj) and r.attrs.get('kind') == 'pickle' and r.attrs.get('name') == nm, '%s' % (r,))
    ctx.true('loading changes no file', not fs.log.segs, '')

CONTRACTS = [('save_results with default arguments', defaults, None), ('save_results argument types', types, None), ('load_results', load, None)]
ks = list(KIND) + ['other']
for n in range(3):
    for kinds in itertools.product(ks, repeat=n):
        for ow in (None, False, True):
            CONTRACTS.append(('save_results of the saved objects %s%s' % (','.join(kinds), '' if ow is None else ', overwrite=%s' % ow), save(kinds, ow), None))
for kinds in itertools.permutations(ks, 3): CONTRACTS.append(('save_results of the saved objects %s' % ','.join(kinds), save(kinds, False), None))
TRUSTED = ['open, pickle.dump, pickle.load, os.path.exists, os.path.isfile, os.makedirs (ghost file system: existence is an arbitrary predicate; opening for writing replaces a file; loading returns what was dumped)']
