"""C16: uncertainty values, parameter and time-varying parameter templates of controller, estimator and simulator"""
import itertools
from .files import *
from .c17 import flat
MPC, MHE, SIM, OPT = 'do_mpc.controller._mpc:MPC', 'do_mpc.estimator._mhe:MHE', 'do_mpc.simulator:Simulator', 'do_mpc.optimizer:Optimizer'
I = z3.IntSort()
NAMES = ('a', 'b', 'c', 'default')
BOUNDED = {'uncertain parameters': 'one, two or three listed parameters out of four in any order (their values and the numbers of values are arbitrary)'}

def obj(t, **k):
    o = PObj(LibType(t), k); o.closed = True
    return o

class World:
    """numerical structures known by their shape: ('rep', name, count, shape) or ('base', name)"""
    def __init__(self, ctx, kind):
        self.ctx = ctx; self.it = it = ctx.it
        H = it.lib.hooks
        H['casadi.tools.entry'] = LibFn('entry', lambda it, a, k: obj('entry', name=bind(a, {}, ('name',))[0], kw=k))
        self.writes = PList([])
        self.C = z3.Int('n_combinations0'); self.N = z3.Int('n_horizon')
        it.base_facts += [self.C >= 0, self.N >= 1]
        sv = obj('sv', sym_struct=LibFn('sym_struct', lambda it, a, k: self.sym(a[0])), sym=None)
        base = {n: self.struct(('base', n)) for n in ('_p', '_tvp', '_p_set')}
        keys = PList(elems=list(NAMES))
        pk = obj('struct', keys=LibFn('keys', lambda it, a, k: keys))
        m = obj('Model', sv=sv, _p=base['_p'], _tvp=base['_tvp'], p=pk)
        self.base = base
        self.me = PObj(it.find({'mpc': MPC, 'mhe': MHE, 'sim': SIM, 'opt': OPT}[kind]), {})
        st = obj('settings', n_horizon=SInt(self.N), t_step=Term('sym', ('t_step',), 1, 1))
        self.me.attrs.update({'model': m, '_settings': st, 'settings': st, 'n_combinations': SInt(self.C), '_p_set': base['_p_set'],
                              'flags': PDict({'set_p_fun': False, 'set_tvp_fun': False, 'setup': False})})
        self.me.closed = True
        def compare(it, op, a, b):
            if isinstance(a, PObj) and isinstance(b, PObj) and isinstance(a.cls, LibType) and isinstance(b.cls, LibType) and a.cls.name == b.cls.name == 'labels':
                e = self.same(a.attrs['shape'], b.attrs['shape'])
                if isinstance(op, ast.Eq): return mkbool(e)
                if isinstance(op, ast.NotEq): return mkbool(z3.Not(e))
            return NotImplemented
        eq0 = it.equal
        def equal(a, b):
            r = compare(it, ast.Eq(), a, b)
            return eq0(a, b) if r is NotImplemented else r
        it.equal = equal
        def isinst(it, v, t):
            if isinstance(v, PObj) and isinstance(v.cls, LibType) and isinstance(t, LibType) and 'shape' in v.attrs: return v.cls.name.split('.')[-1] == t.name.split('.')[-1]
            return None
        it.lib.isinst.append(isinst)
        H['setitem'] = lambda it, o, k, v: self.store(o, k, v)
    def same(self, a, b):
        if a[0] != b[0]: return FALSE
        if a[0] == 'base': return z3.BoolVal(a[1] == b[1])
        return z3.And(z3.BoolVal(a[1] == b[1]), zi(a[2]) == zi(b[2]), self.same(a[3], b[3]))
    def sym(self, entries):
        es = entries.elems()
        if len(es) != 1: raise Unsupported('structure of several entries')
        e = es[0].attrs
        if set(e['kw']) != {'repeat', 'struct'}: raise Unsupported('entry')
        return self.struct(('rep', e['name'], e['kw']['repeat'], e['kw']['struct'].attrs['shape']))
    def struct(self, shape):
        """symbolic structure; calling it gives a numerical one"""
        s = obj('ssymStruct', shape=shape)
        s.fn = lambda it, a, k: self.num(shape, a[0])
        self.callable()
        return s
    def callable(self):
        def call_obj(it, f, a, k):
            if isinstance(f, PObj) and hasattr(f, 'fn'): return f.fn(it, a, k)
            return NotImplemented
        self.it.lib.hooks['call_obj'] = call_obj
        self.it.lib.hooks['obj_attr'] = lambda it, o, n: it.getattr(o.attrs['struct'], n) if 0 else NotImplemented
    def num(self, shape, init=None, kind='structure3.DMStruct'):
        o = obj(kind, shape=shape, init=init)
        o.attrs['labels'] = LibFn('labels', lambda it, a, k: obj('labels', shape=shape))
        return o
    def store(self, o, k, v):
        if isinstance(o, PObj) and 'shape' in o.attrs:
            self.it.append_seg(self.writes, E((o, k, v)))
            return True
        return NotImplemented
    def fun(self, ret):
        f = LibFn('user function', lambda it, a, k: ret); f.kind = 'function'
        return f

def template(kind, name):
    def run(ctx):
        w = World(ctx, kind); it = ctx.it
        n = z3.Int('n')
        args = [SInt(n)] if kind == 'mpc' and name == 'p' else []
        r = it.call(it.getattr(w.me, 'get_%s_template' % name), args, {})
        want = want_shape(w, kind, name, n)
        ctx.true('a numerical structure of zeros', isinstance(r, PObj) and r.cls.name == 'structure3.DMStruct' and r.attrs['init'] == 0 and not w.writes.segs, '%s' % (r,))
        ctx.oblige('layout of the template', w.same(r.attrs['shape'], want))
    return run

def want_shape(w, kind, name, n=None):
    if kind == 'sim': return ('base', '_' + name)
    if name == 'tvp': return ('rep', '_tvp', mkint(w.N + 1), ('base', '_tvp'))
    if kind == 'mhe': return ('base', '_p_set')
    return ('rep', '_p', SInt(w.C if n is None else n), ('base', '_p'))

def setter(kind, name):
    def run(ctx):
        it = ctx.it
        w = World(ctx, kind); m = z3.Int('m')
        want = want_shape(w, kind, name)
        shapes = [want, ('base', '_other'), ('rep', 'other', SInt(m), ('base', '_' + name)), ('rep', '_' + name, SInt(m), ('base', '_' + name)), ('rep', '_' + name, SInt(m), ('base', '_other')), ('base', '_' + name)]
        for s in shapes:
            w.me.attrs['flags'].d['set_%s_fun' % name] = False
            w.me.attrs.pop(name + '_fun', None); before = dict(w.me.attrs)
            f = w.fun(w.num(s))
            good = w.same(want, s)
            try: it.call(it.getattr(w.me, 'set_%s_fun' % name), [f], {})
            except PyEx:
                ctx.oblige('functions of the right layout are accepted', z3.Not(good))
                ctx.true('a rejected function is not kept', name + '_fun' not in w.me.attrs and w.me.attrs['flags'].d['set_%s_fun' % name] is False, '')
            else:
                ctx.oblige('functions of the wrong layout are rejected', good)
                ctx.true('the function is kept unchanged', w.me.attrs.get(name + '_fun') is f and w.me.attrs['flags'].d['set_%s_fun' % name] is True, '%s' % (w.me.attrs.get(name + '_fun'),))
            ctx.true('nothing is written into the template', not w.writes.segs, '')
            c = w.me.attrs['n_combinations']
            ctx.oblige('declared number of combinations is kept', zi(c) == w.C)
            ctx.true('nothing else changes', all(w.me.attrs[k] is before[k] for k in before if k != 'n_combinations') and set(w.me.attrs) <= set(before) | {name + '_fun'}, '')
        if name == 'tvp' or kind == 'sim':
            try: it.call(it.getattr(w.me, 'set_%s_fun' % name), [w.fun(Term('sym', ('vector',), None, 1, 'DM'))], {})
            except PyEx: pass
            else: ctx.fail('other values than structures are rejected', '')
    return run

def uncertainty(names):
    def run(ctx):
        w = World(ctx, 'mpc'); it = ctx.it; kw, L = {}, {}
        for n in names:
            L[n] = z3.Int('len_' + n); it.base_facts.append(L[n] >= 1)
            b = fresh_int('v')
            kw[n] = PList([Seg('r', b=Binder(b, 0, mkint(L[n])), guard=TRUE, segs=[E(Term('value', (n, b), 1, 1))])])
        it.call(it.getattr(w.me, 'set_uncertainty_values'), [], kw)
        f = w.me.attrs.get('p_fun')
        if f is None: return ctx.fail('a parameter function is set', 'none')
        ctx.true('the parameter function is marked as set', w.me.attrs['flags'].d['set_p_fun'] is True, '')
        total = z3.IntVal(1)
        for n in names: total = total * L[n]
        ctx.oblige('number of combinations', zi(w.me.attrs['n_combinations']) == total)
        r = it.call(f, [Term('sym', ('t_now',), 1, 1)], {})
        if not (isinstance(r, PObj) and 'shape' in r.attrs): return ctx.fail('the function returns a structure', '%s' % (r,))
        ctx.oblige('layout of the realizations', w.same(r.attrs['shape'], ('rep', '_p', mkint(total), ('base', '_p'))))
        ctx.true('parameters that are not listed are zero', r.attrs['init'] == 0, '%s' % (r.attrs['init'],))
        ws = [s.val for s in w.writes.segs if s.kind == 'e' and s.val[0] is r]
        if len(ws) != 1 or len(w.writes.segs) != 1: return ctx.unknown('one assignment of all realizations', '%s' % w.writes)
        _, k, v = ws[0]
        full = isinstance(k, tuple) and len(k) == 3 and k[0] == '_p' and isinstance(k[1], Slice) and k[1].lo in (None, 0) and k[1].hi is None and k[1].step in (None, 1)
        if not full or not isinstance(v, PList): return ctx.unknown('assignment of the realizations', '%s' % (k,))
        order = k[2].elems() if isinstance(k[2], PList) else [k[2]]
        x = flat(v.segs)
        if x is None: return ctx.unknown('one realization per combination', '%s' % v)
        bs, row = x
        ctx.true('every listed parameter is assigned', sorted(order) == sorted(names), '%s' % (order,))
        if not isinstance(row, (tuple, PList)): return ctx.unknown('values of a realization', '%s' % (row,))
        row = list(row) if isinstance(row, tuple) else row.elems()
        ctx.true('one value per listed parameter', len(row) == len(order), '%s' % row)
        if len(bs) != len(names) or sorted(order) != sorted(names) or len(row) != len(order):
            return ctx.true('one realization per combination', len(bs) == len(names), '%s' % v)
        loops = dict(zip(names, bs))
        for n, y in zip(order, row):
            if not (isinstance(y, Term) and y.op == 'value'): ctx.fail('values of a realization', '%s' % (y,)); continue
            ctx.true('a parameter takes its own values', y.args[0] == n, '%s gets %s' % (n, y))
            ctx.oblige('combinations in the order of the product, first values first', y.args[1] == loops[n].var)
        for n in names: ctx.oblige('every value of a parameter is considered', z3.And(zi(loops[n].lo) == 0, zi(loops[n].hi) == L[n]))
        r2 = it.call(f, [Term('sym', ('t_later',), 1, 1)], {})
        ctx.true('the realizations do not depend on time', r2 is r, '')
    return run

def unc_rej(ctx):
    w = World(ctx, 'mpc'); it = ctx.it; b = fresh_int('v')
    l = lambda: PList(elems=[Term('sym', ('x',), 1, 1)])
    for kw in ({'z': l()}, {'a': l(), 'z': l()}):
        before = dict(w.me.attrs)
        try: it.call(it.getattr(w.me, 'set_uncertainty_values'), [], kw)
        except PyEx: pass
        else: ctx.fail('unknown parameters are rejected', '%s' % kw)
        ctx.true('a rejected call has no effect', w.me.attrs['flags'].d['set_p_fun'] is False and all(w.me.attrs[k] is before[k] for k in before) and set(w.me.attrs) == set(before), '')
    before = dict(w.me.attrs)
    it.call(it.getattr(w.me, 'set_uncertainty_values'), [], {})
    ctx.true('without values nothing is set', w.me.attrs['flags'].d['set_p_fun'] is False and all(w.me.attrs[k] is before[k] for k in before) and set(w.me.attrs) == set(before), '')

CONTRACTS = [('MPC.set_uncertainty_values rejections', unc_rej, None)]
for kind, n in (('mpc', 'p'), ('mpc', 'tvp'), ('mhe', 'p'), ('mhe', 'tvp'), ('sim', 'p'), ('sim', 'tvp')):
    K = {'mpc': 'MPC', 'mhe': 'MHE', 'sim': 'Simulator'}[kind]
    CONTRACTS += [('%s.get_%s_template' % (K, n), template(kind, n), None), ('%s.set_%s_fun' % (K, n), setter(kind, n), None)]
for k in (1, 2, 3):
    for ns in itertools.permutations(NAMES, k): CONTRACTS.append(('MPC.set_uncertainty_values of the uncertain parameters %s' % ','.join(ns), uncertainty(ns), None))
TRUSTED = ['itertools.product', 'CasADi structures: labels() determines name, number of repetitions and sub-structure of a non-empty structure; structure(0) is zero; assignment under (name, :, names) distributes a list of rows over repetitions and names']
ASSUMPTIONS = ['the model has at least one parameter (labels of empty structures do not show the number of repetitions)']
