"""C25: Graphics for every number of lines, variables of every size, every number of recorded points and every time index."""
import itertools
from .files import *
from ..interp import Slice
M = 'do_mpc.graphics:'
G = M + 'Graphics'
I = z3.IntSort()
BOUNDED = {'lines of': 'up to three variables with up to two elements and up to two predicted scenarios (recorded data, number of points and horizon are arbitrary)',
           'default plot': 'models with up to two variables of each kind (recorded data are arbitrary)'}

def T(op, *a): return Term(op, a, 1, 1)
class A:
    """an array by its elements"""
    def __init__(self, dims, el): self.dims = tuple(dims); self.el = el
    def __repr__(self): return 'array%s' % (self.dims,)
def name_at(base, k): return sstr([('u', base, zi(k))])
def tag(v):
    """identifies a name, whole number or index tuple"""
    if isinstance(v, tuple): return tuple(x for y in v for x in tag(y))
    if isinstance(v, SStr): return tuple(x for p in v.parts for x in ((p[1], p[2]) if p[0] == 'u' else ('s:%s' % (p[1],),)))
    if isinstance(v, str): return ('s:' + v,)
    if isinstance(v, (int, SInt)): return (zi(v),)
    raise Unsupported('index %s' % type(v).__name__)

class World:
    """a graphics object for recorded data with n points, of MPC type or not"""
    def __init__(self, ctx, dtype='MPC', full=True, sizes=None, scen=None):
        self.ctx = ctx; self.it = it = ctx.it; self.dtype = dtype; self.full = full; self.sizes = sizes; self.scen = scen
        self.n = z3.Int('n_points'); self.steps = z3.Int('n_steps'); it.base_facts += [self.n >= 1, self.steps >= 1]
        self.log = PList([]); self.plots = PList([]); self.nlines = 0
        self.data = d = PObj(LibType('data'), {}, 'data'); d.closed = True
        d.attrs['dtype'] = dtype
        d.attrs['meta_data'] = PDict({'store_full_solution': full, 't_step': T('t_step')} if dtype == 'MPC' else {'t_step': T('t_step')})
        d.attrs['_time'] = self.time()
        if dtype == 'MPC': d.attrs['prediction'] = LibFn('prediction', self.prediction)
        self.model = m = PObj(LibType('model'), {}, 'model'); m.closed = True; d.attrs['model'] = m
        self.install()
    def time(self): return A((SInt(self.n), 1), lambda i, j=0: T('time', zi(i)))
    def record(self, k):
        """recorded values: all elements of a variable or the selected one"""
        if isinstance(k, str) and k == '_time': return self.time()
        if not isinstance(k, tuple): raise Unsupported('field')
        if len(k) == 2:
            if self.sizes is None: raise Unsupported('number of elements')
            return A((SInt(self.n), self.sizes[k]), lambda i, j: T('rec', *tag(k + (mkint(zi(j)),)), zi(i)))
        return A((SInt(self.n), 1), lambda i, j: T('rec', *tag(k), zi(i)))
    def prediction(self, it, a, k):
        ind, t = bind(a, k, ('ind', 't_ind'), {'t_ind': -1})
        t = self.norm(t)
        if ind[0] == '_p': raise PyEx('ValueError', ('Index not recognized',))
        if len(ind) == 2:
            if self.sizes is None: raise Unsupported('number of elements')
            return A((self.sizes[ind], SInt(self.steps), self.scen), lambda e, s, c: T('pred', *tag(ind + (mkint(zi(e)),)), zi(s), zi(c), t))
        return A((1, SInt(self.steps), SInt(z3.Int('n_scenarios'))), lambda e, s, c: T('pred', *tag(ind), zi(s), zi(c), t))
    def norm(self, t):
        it = self.it; z = zi(t)
        if not it.decide(mkbool(z3.And(z >= -self.n, z < self.n))): raise PyEx('IndexError')
        return z3.simplify(z if it.prove(z >= 0) else self.n + z if it.prove(z < 0) else z3.If(z >= 0, z, self.n + z))
    def index(self, o, k):
        it = self.it; ks = list(k) if isinstance(k, tuple) else [k]
        if len(ks) > len(o.dims): raise Unsupported('index')
        ks += [Slice(None, None, None)] * (len(o.dims) - len(ks)); dims, f = [], []
        for x, d in zip(ks, o.dims):
            if isinstance(x, Slice):
                if x.step not in (None, 1): raise Unsupported('step')
                lo, hi = it.norm_slice(x, mkint(zi(d)))
                dims.append(mkint(z3.simplify(hi - lo) if not isinstance(hi, int) else zi(hi - lo))); f.append((True, zi(lo)))
            elif isinstance(x, (int, SInt)) and not isinstance(x, bool):
                z = zi(x)
                if not it.decide(mkbool(z3.And(z >= -zi(d), z < zi(d)))): raise PyEx('IndexError')
                f.append((False, z if it.prove(z >= 0) else zi(d) + z if it.prove(z < 0) else z3.If(z < 0, zi(d) + z, z)))
            else: raise Unsupported('index')
        def el(*ix):
            ix = iter(ix)
            return o.el(*[z3.simplify(zi(next(ix)) + v) if s else v for s, v in f])
        return A(dims, el) if dims else el()
    def elementwise(self, f, a, b):
        g = lambda v: v if isinstance(v, A) else A((), lambda: C(v) if isinstance(v, (int, float)) else v)
        a, b = g(a), g(b)
        one = lambda x: all(isinstance(d, int) and d == 1 for d in x.dims)
        if one(a): return A(b.dims, lambda *i: f(a.el(*[0] * len(a.dims)), b.el(*i))) if len(a.dims) <= len(b.dims) else unsup('broadcasting')
        if one(b): return A(a.dims, lambda *i: f(a.el(*i), b.el(*[0] * len(b.dims)))) if len(b.dims) <= len(a.dims) else unsup('broadcasting')
        if len(a.dims) == len(b.dims) and all(self.it.prove(zi(x) == zi(y)) for x, y in zip(a.dims, b.dims)): return A(a.dims, lambda *i: f(a.el(*i), b.el(*i)))
        raise Unsupported('broadcasting')
    def points(self, v):
        """number and an arbitrary element of what a line shows"""
        if isinstance(v, PList) and not v.segs: return SInt(z3.IntVal(0)), T('none')
        if not isinstance(v, A): raise Unsupported('line data %s' % type(v).__name__)
        i = z3.Int('i!')
        if len(v.dims) == 1: return mkint(zi(v.dims[0])), v.el(i)
        if len(v.dims) == 2 and isinstance(v.dims[1], int) and v.dims[1] == 1: return mkint(zi(v.dims[0])), v.el(i, 0)
        raise Unsupported('line data')
    def axis(self, name):
        o = PObj(LibType('Axes'), {}, name); o.closed = True; o.calls = PList([])
        def plot(it, a, k):
            x, y = a; out = []
            n = 1 if len(y.dims) == 1 else y.dims[1]
            if not isinstance(n, int): raise Unsupported('number of lines')
            for j in range(n):
                l = self.line(); out.append(l)
                yj = y if len(y.dims) == 1 else self.index(y, (Slice(None, None, None), j))
                l.px = self.points(x)
                l.py = self.points(yj); l.kw = dict(k); l.axis = o; l.order = len(self.plots.segs)
                it.append_seg(self.plots, E(l))
            return PList(elems=out)
        o.attrs['plot'] = LibFn('plot', plot)
        for m in ('relim', 'autoscale', 'set_prop_cycle', 'set_ylabel', 'set_xlabel'):
            def call(it, a, k, m=m): it.append_seg(o.calls, E((m,) + tuple(a)))
            o.attrs[m] = LibFn(m, call)
        return o
    def line(self):
        o = PObj(LibType('line'), {}, 'line%d' % self.nlines); o.closed = True; self.nlines += 1
        o.attrs['get_color'] = LibFn('get_color', lambda it, a, k: T('color', o.name))
        o.attrs['set_data'] = LibFn('set_data', lambda it, a, k: self.shown(o, a))
        return o
    def shown(self, line, a):
        x, y = a
        self.it.append_seg(self.log, E((line, *self.points(x), *self.points(y))))
    def install(self):
        it = self.it; H = it.lib.hooks; W = self
        def getitem(it, o, k):
            if o is W.data: return W.record(k)
            if isinstance(o, A): return W.index(o, k)
            if o is W.model: return W.group(k)
            return NotImplemented
        H['getitem'] = getitem
        def getattr_(it, o, n):
            if isinstance(o, A):
                if n == 'shape': return tuple(mkint(zi(d)) for d in o.dims)
                if n == 'size' and len(o.dims) == 1: return mkint(zi(o.dims[0]))
                if n == 'ndim': return len(o.dims)
                if n in ('copy', 'astype'): return LibFn(n, lambda it, a, k: o)
                if n in ('flatten', 'ravel') and len(o.dims) <= 2: return LibFn(n, lambda it, a, k: W.flat(o))
                raise Unsupported('attribute %s of an array' % n)
            if isinstance(o, Term) and o.op == 'line':
                if n == 'set_data': return LibFn(n, lambda it, a, k: W.shown(o, a))
                raise Unsupported('attribute %s of a line' % n)
            return NotImplemented
        H['getattr'] = getattr_
        H['length'] = lambda it, o: mkint(zi(o.dims[0])) if isinstance(o, A) else NotImplemented
        ops = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul'}
        def binop(it, op, a, b):
            if not (isinstance(a, A) or isinstance(b, A)): return NotImplemented
            if type(op) not in ops: raise Unsupported('operator')
            return W.elementwise(lambda x, y: mk(ops[type(op)], x, y), a, b)
        H['binop'] = binop
        F = lambda n, f: H.__setitem__(n, LibFn(n, f))
        def ar(it, a, k):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2: raise Unsupported('arange')
            return A((mkint(z3.simplify(zi(hi) - zi(lo))),), lambda i: T('num', z3.simplify(zi(lo) + zi(i))))
        F('numpy.arange', ar)
        def zeros(it, a, k):
            d = a[0] if isinstance(a[0], tuple) else (a[0],)
            return A(d, lambda *i: C(0))
        F('numpy.zeros', zeros)
        F('numpy.ravel', lambda it, a, k: W.flat(a[0])); F('numpy.array', lambda it, a, k: a[0] if isinstance(a[0], A) else unsup('array')); F('numpy.asarray', H['numpy.array'].f)
        ch0 = it.lib.iter_chunks
        def chunks(it, o):
            if isinstance(o, A): return [('gen', 0, o.dims[0], lambda i: W.index(o, i))]
            return ch0(it, o)
        it.lib.iter_chunks = chunks
        it.lib.isinst.append(lambda it, v, t: (t.name.split('.')[-1] == v.cls.name) if isinstance(v, PObj) and isinstance(v.cls, LibType) and v.cls.name in ('Axes', 'line') and isinstance(t, LibType) else None)
        pc = PObj(LibType('cycler'), {}, 'cycler'); pc.closed = True
        pc.attrs['by_key'] = LibFn('by_key', lambda it, a, k: PDict({'color': T('colors')}))
        H['matplotlib.pyplot.rcParams'] = PDict({'axes.prop_cycle': pc})
        H['call:print'] = lambda it, a, k: None
    def flat(self, v):
        if len(v.dims) == 1: return v
        if len(v.dims) == 2 and isinstance(v.dims[1], int) and v.dims[1] == 1: return self.index(v, (Slice(None, None, None), 0))
        if len(v.dims) == 2 and isinstance(v.dims[0], int) and v.dims[0] == 1: return self.index(v, (0,))
        raise Unsupported('flatten')
    def graphics(self): return self.it.call(self.it.find(G), [self.data], {})
    # ------------------------------------------------------------ any number of lines
    def lines(self, g, which, pred):
        """L lines that belong to arbitrary distinct indices"""
        it = self.it; L = z3.Int('n_lines_' + which); it.base_facts.append(L >= 0)
        s = g.attrs['_%s_lines' % which]
        b, c, d = fresh_int('l'), fresh_int('l'), fresh_int('l')
        ix = lambda k: (name_at('kind', k), name_at('name', k), SInt(z3.Function('element_' + which, I, I)(k))) + ((SInt(z3.Function('scenario', I, I)(k)),) if pred else ())
        S = lambda b, v: PList([Seg('r', b=Binder(b, 0, mkint(L)), guard=TRUE, segs=[E(v)])])
        s.attrs['master'] = S(b, T('line', which, b)); s.attrs['powerindex'] = S(c, ix(c)); s.attrs['index'] = S(d, SInt(d)); s.attrs['count'] = SInt(L)
        return L, ix

def shows(ctx, w, name, L, line, nx, x, y, which):
    """exactly one update of every line, with the given number of points and elements"""
    it = ctx.it; log = [s for s in w.log.segs]
    k, i = z3.Int('k!'), z3.Int('i!')
    it.assume(z3.And(k >= 0, k < L))
    ok = len(log) == 1 and log[0].kind == 'r' and len(log[0].segs) == 1 and log[0].segs[0].kind == 'e'
    if not ok:
        if not log: return ctx.fail('%s: every line is updated' % name, 'no line is updated') if it.prove(L > 0) else None
        return ctx.unknown('%s: every line is updated once' % name, '%s' % (log,))
    s = log[0]
    ctx.oblige('%s: exactly the lines of this kind are updated' % name, z3.And(zi(s.b.lo) == 0, zi(s.b.hi) == L, subst(SBool(s.guard), [(s.b.var, k)]).e))
    got = tuple(subst(v, [(s.b.var, k)]) for v in s.segs[0].val)
    ctx.true('%s: each line is updated once' % name, isinstance(got[0], Term) and got[0].op == 'line' and got[0].args[0] == which, '%s' % (got[0],))
    ctx.oblige('%s: each line is updated once' % name, zi(got[0].args[1]) == k)
    ctx.oblige('%s: number of points' % name, z3.And(zi(got[1]) == nx, zi(got[3]) == nx))
    if z3.is_int_value(nx): return None
    it.assume(z3.And(i >= 0, i < nx))
    return k, i, got[2], got[4]

def results(default):
    def run(ctx):
        w = World(ctx, dtype='any'); it = ctx.it; g = w.graphics()
        L, ix = w.lines(g, 'result', False)
        w.lines(g, 'pred', True)
        t = z3.Int('t')
        if default: z = w.n - 1; kw = {}
        else:
            it.assume(z3.And(t >= -w.n, t < w.n)); z = z3.If(t < 0, w.n + t, t); kw = {'t_ind': SInt(t)}
        it.call(it.getattr(g, 'plot_results'), [], kw)
        it.assume(L > 0)
        r = shows(ctx, w, 'results', L, None, z + 1, None, None, 'result')
        if r is None: return
        k, i, x, y = r
        ctx.eq('recorded times are shown', x, T('time', i))
        ctx.eq('recorded values of the element are shown', y, T('rec', *tag(ix(k)), i))
    return run

def predictions(default):
    def run(ctx):
        w = World(ctx); it = ctx.it; g = w.graphics()
        w.lines(g, 'result', False)
        L, ix = w.lines(g, 'pred', True)
        t = z3.Int('t'); ns = z3.Int('n_scenarios'); k0 = z3.Int('k0')
        sc = z3.Function('scenario', I, I)
        it.base_facts.append(z3.ForAll([k0], z3.And(sc(k0) >= 0, sc(k0) < ns)))
        if default: z = w.n - 1; kw = {}
        else:
            it.assume(z3.And(t >= -w.n, t < w.n)); z = z3.If(t < 0, w.n + t, t); kw = {'t_ind': SInt(t)}
        it.call(it.getattr(g, 'plot_predictions'), [], kw)
        it.assume(L > 0)
        r = shows(ctx, w, 'predictions', L, None, w.steps, None, None, 'pred')
        if r is None: return
        k, i, x, y = r
        for c, zz in ((t >= 0, t), (t < 0, w.n + t)) if not default else ((TRUE, z),):
            if not it.decide(mkbool(c)): continue
            p = ix(k)
            ctx.eq('predictions start at the current time and advance by the time step', x, mk('add', T('time', zz), mk('mul', T('num', i), T('t_step'))))
            ctx.eq('predicted values of the element and scenario are shown', y, T('pred', *tag(p[:-1]), i, zi(p[-1]), z3.simplify(zz)))
    return run

def rejected(ctx):
    """predictions need the full solution of a controller"""
    for dtype, full in (('MPC', False), ('Simulator', False), ('Estimator', False)):
        w = World(ctx, dtype, full); it = ctx.it; g = w.graphics(); w.lines(g, 'pred', True)
        try: it.call(it.getattr(g, 'plot_predictions'), [], {})
        except PyEx: pass
        else: ctx.fail('predictions need the full solution of a controller', '%s %s' % (dtype, full))
        ctx.true('nothing is shown by a rejected call', not w.log.segs, '')

def outofrange(ctx):
    for fn in ('plot_results', 'plot_predictions'):
        for bad in ('big', 'small', 'float', 'str'):
            w = World(ctx); it = ctx.it; g = w.graphics(); w.lines(g, 'result', False); w.lines(g, 'pred', True)
            t = {'big': SInt(w.n + 1), 'small': SInt(-w.n - 1), 'float': 1.5, 'str': 'a'}[bad]
            try: it.call(it.getattr(g, fn), [], {'t_ind': t})
            except PyEx: ctx.ok('time indices outside the record are rejected')
            else: ctx.fail('time indices outside the record are rejected', '%s %s' % (fn, t))
            ctx.true('nothing is shown by a rejected call', not w.log.segs, '')

def clear(ctx):
    w = World(ctx, dtype='any'); it = ctx.it; g = w.graphics()
    L, ix = w.lines(g, 'result', False); w.lines(g, 'pred', True)
    it.call(it.getattr(g, 'clear'), [], {})
    it.assume(L > 0)
    shows(ctx, w, 'clear', L, None, z3.IntVal(0), None, None, 'result')

def clear_some(ctx):
    w = World(ctx, dtype='any'); it = ctx.it; g = w.graphics()
    w.lines(g, 'result', False); w.lines(g, 'pred', True)
    L = z3.Int('n_given'); it.base_facts.append(L >= 0); b = fresh_int('l')
    lst = PList([Seg('r', b=Binder(b, 0, mkint(L)), guard=TRUE, segs=[E(T('line', 'given', b))])])
    it.call(it.getattr(g, 'clear'), [lst], {})
    it.assume(L > 0)
    shows(ctx, w, 'clear of given lines', L, None, z3.IntVal(0), None, None, 'given')

def reset(ctx):
    """reset_axes and reset_prop_cycle change no line"""
    w = World(ctx, dtype='any'); it = ctx.it; g = w.graphics(); w.lines(g, 'result', False); w.lines(g, 'pred', True)
    g.attrs['ax_list'] = PList(elems=[w.axis('a'), w.axis('b')])
    for f in ('reset_axes', 'reset_prop_cycle'): it.call(it.getattr(g, f), [], {})
    ctx.true('resetting axes or colors changes no line', not w.log.segs, '')

CONTRACTS = [('plot_results at every time index', results(False), None), ('plot_results by default', results(True), None), ('plot_predictions at every time index', predictions(False), None),
             ('plot_predictions by default', predictions(True), None), ('plot_predictions without predictions', rejected, None), ('invalid time indices', outofrange, None), ('clear', clear, None), ('clear of given lines', clear_some, None), ('reset_axes and reset_prop_cycle', reset, None)]
TRUSTED = ['matplotlib (plot returns one line per column of the values and shows them with the given options, set_data replaces what a line shows, get_color is the color of a line)',
           'Data.__getitem__ and MPCData.prediction (contracts of C13 and C14)']

# ------------------------------------------------------------------ adding lines
def addlines(seq, sizes, scen, dtype, full, opts):
    """lines of the variables of seq, added one after another to a new object"""
    def run(ctx):
        w = World(ctx, dtype, full, sizes, scen); it = ctx.it; g = w.graphics(); pred = lambda v: dtype == 'MPC' and full and v[0] != '_p'      # parameters are not predicted
        axes = [w.axis('axis%d' % i) for i in range(2)]; want = []; last = {}
        for n, v in enumerate(seq):
            ax = axes[n % 2]; n0 = len(w.plots.segs); before = dict(lines(it, g, 'result')), dict(lines(it, g, 'pred'))
            it.call(it.getattr(g, 'add_line'), [v[0], v[1], ax], dict(opts))
            new = [s.val for s in w.plots.segs[n0:]]
            R, P = dict(lines(it, g, 'result')), dict(lines(it, g, 'pred'))
            own = [v + (e,) for e in range(sizes[v])]; ownp = [v + (e, c) for e in range(sizes[v]) for c in range(scen)] if pred(v) else []
            ctx.true('one line per element', set(R) == set(before[0]) | set(own), '%s' % sorted(map(str, R)))
            ctx.true('one predicted line per element and scenario', set(P) == set(before[1]) | set(ownp), '%s' % sorted(map(str, P)))
            if set(R) != set(before[0]) | set(own) or set(P) != set(before[1]) | set(ownp): return
            ctx.true('lines of other variables are kept', all(R[k] is x for k, x in before[0].items() if k not in own) and all(P[k] is x for k, x in before[1].items() if k not in ownp), '%s' % (v,))
            mine = [R[k] for k in own] + [P[k] for k in ownp]
            ctx.true('the new lines are those that are drawn', len(new) == len(mine) and all(any(x is y for y in new) for x in mine), '%s / %s' % (new, mine))
            i = z3.Int('i!')
            for k in own:
                l = R[k]
                if not hasattr(l, 'kw'): return ctx.fail('results are drawn on the axis', '%s' % (l,))
                ctx.true('lines are drawn on the given axis', l.axis is ax, '%s' % (k,))
                ctx.true('options of the lines are used', all(l.kw.get(o) == x for o, x in opts.items() if o != 'drawstyle' or v[0] != '_u') and set(l.kw) <= set(opts) | {'drawstyle'}, '%s' % (l.kw,))
                ctx.true('inputs are drawn as steps, others not', (l.kw.get('drawstyle') == 'steps-post') if v[0] == '_u' else l.kw.get('drawstyle') == opts.get('drawstyle'), '%s %s' % (k, l.kw))
                ctx.oblige('number of points', z3.And(zi(l.px[0]) == w.n, zi(l.py[0]) == w.n))
                ctx.eq('recorded times are shown', l.px[1], T('time', i)); ctx.eq('recorded values of the element are shown', l.py[1], T('rec', *tag(k), i))
            for k in ownp:
                l = P[k]
                if not hasattr(l, 'kw'): return ctx.fail('predictions are drawn on the axis', '%s' % (l,))
                ctx.true('predictions are drawn on the given axis', l.axis is ax, '%s' % (k,))
                c = l.kw.get('color')
                ctx.true('predictions have the color of their result', isinstance(c, Term) and c.op == 'color' and c.args[0] == R[k[:3]].name, '%s %s' % (k, c))
                ctx.true('predictions are dashed', l.kw.get('linestyle') == '--', '%s' % (l.kw,))
                ctx.true('predicted inputs are drawn as steps', (l.kw.get('drawstyle') == 'steps-post') if v[0] == '_u' else l.kw.get('drawstyle') == opts.get('drawstyle'), '%s' % (l.kw,))
        for v in sizes:
            if v in seq:
                r = it.getitem(it.getattr(g, 'result_lines'), v)
                ctx.true('lines of a variable are returned in the order of its elements', [x for x in elems(r)] == [dict(lines(it, g, 'result'))[v + (e,)] for e in range(sizes[v])], '%s' % (r,))
                for e in range(sizes[v]) if pred(v) else ():
                    r = it.getitem(it.getattr(g, 'pred_lines'), v + (e,))
                    ctx.true('predicted lines of an element are returned in the order of the scenarios', [x for x in elems(r)] == [dict(lines(it, g, 'pred'))[v + (e, c)] for c in range(scen)], '%s' % (r,))
        ctx.true('adding lines updates no line', not w.log.segs, '')
        ctx.true('axes of the lines are kept for reset_axes', all(any(x is a for x in elems(g.attrs['ax_list'])) for a in axes[:len(seq)]), '')
    return run
def elems(l):
    if any(s.kind != 'e' for s in l.segs): raise Unsupported('list of lines')
    return [s.val for s in l.segs]
def lines(it, g, which):
    s = it.getattr(g, which + '_lines')
    m, p = elems(it.getattr(s, 'master')), elems(it.getattr(s, 'powerindex'))
    it.ctx_true = True
    if len(m) != len(p): raise Unsupported('lines without index')
    return list(zip([tuple(x) for x in p], m))

def badlines(ctx):
    """wrong groups or types are rejected and change nothing"""
    for args in (('_y', 'a'), ('x', 'a'), (1, 'a'), ('_x', 1), ('_x', ('a',)), ('_x', 'a', None)):
        w = World(ctx, 'MPC', True, {('_x', 'a'): 1}, 1); it = ctx.it; g = w.graphics(); ax = w.axis('axis')
        a = list(args[:2]) + [ax if len(args) == 2 else 3]
        try: it.call(it.getattr(g, 'add_line'), a, {})
        except PyEx: ctx.ok('wrong groups and types are rejected')
        else: ctx.fail('wrong groups and types are rejected', '%s' % (args,))
        ctx.true('a rejected line is not drawn', not w.plots.segs and not lines(it, g, 'result') and not lines(it, g, 'pred'), '%s' % (args,))

VS = [('_x', 'a'), ('_x', 'b'), ('_u', 'a')]
def addall():
    out = []
    for seq in [s for n in (1, 2, 3) for s in itertools.product(VS, repeat=n) if n < 3 or len(set(s)) > 1]:
        for sz, scen in ((1, 2), (2, 1), (2, 2)):
            sizes = {v: (sz if v != ('_x', 'b') else 3 - sz) for v in VS}
            for dtype, full in ((('MPC', True), ('MPC', False), ('Simulator', False)) if len(seq) == 1 else (('MPC', True),)):
                out.append(('lines of %s, %d elements, %d scenarios, %s %s' % (' '.join(''.join(v) for v in seq), sz, scen, dtype, full), addlines(seq, sizes, scen, dtype, full, {'linewidth': 2} if len(seq) != 2 else {}), None))
    for v in (('_z', 'a'), ('_p', 'a'), ('_tvp', 'a'), ('_aux', 'a')): out.append(('lines of %s%s' % v, addlines([v], {v: 2}, 2, 'MPC', True, {'drawstyle': 'steps'}), None))
    for a, b in ((('_p', 'a'), ('_x', 'a')), (('_x', 'a'), ('_p', 'a'))): out.append(('lines of parameters and states %s' % (a,), addlines([a, b], {a: 2, b: 1}, 2, 'MPC', True, {}), None))
    return out
CONTRACTS += [('wrong lines', badlines, None)] + addall()

# ------------------------------------------------------------------ default plot
KINDS = ('_x', '_z', '_u', '_aux'); ARGS = ('states_list', 'dae_states_list', 'inputs_list', 'aux_list')
class Plot(World):
    def __init__(self, ctx, names):
        World.__init__(self, ctx, 'any')
        it = self.it; self.names = names; self.added = PList([]); self.figs = []; H = it.lib.hooks
        def add(it, a, k):
            g, t, n, ax = bind(a, {x: y for x, y in k.items() if x in ('var_type', 'var_name', 'axis')}, ('self', 'var_type', 'var_name', 'axis'))
            it.append_seg(self.added, E((g, t, n, ax, {x: y for x, y in k.items() if x not in ('var_type', 'var_name', 'axis')})))
        it.contracts[G + '.add_line' if ':' in G else G] = add
        def subplots(it, a, k):
            n = a[0] if a else k.get('nrows', 1); m = a[1] if len(a) > 1 else k.get('ncols', 1)
            if not isinstance(n, int) or m != 1: raise Unsupported('subplots')
            if n < 1: raise PyEx('ValueError', ('number of rows',))
            fig = PObj(LibType('Figure'), {}, 'fig'); fig.closed = True
            for f in ('align_ylabels', 'tight_layout', 'suptitle'): fig.attrs[f] = LibFn(f, lambda it, a, k: None)
            ax = [self.axis('axis%d' % i) for i in range(n)]; self.figs.append((fig, ax, dict(k)))
            if n == 1 and k.get('squeeze', True): return fig, ax[0]
            return fig, PList(elems=ax)
        H['call:matplotlib.pyplot.subplots'] = subplots; H['matplotlib.pyplot.subplots'] = LibFn('subplots', subplots)
    def group(self, k):
        o = PObj(LibType('group'), {}, k); o.closed = True
        if k not in self.names: raise PyEx('KeyError', (k,))
        o.attrs['keys'] = LibFn('keys', lambda it, a, kw: PList(elems=([] if k == '_x' else ['default']) + list(self.names[k])))
        return o

def defplot(names, req, kw={}):
    """req: kind -> requested names or None"""
    def run(ctx):
        w = Plot(ctx, names); it = ctx.it
        args = {a: PList(elems=list(req[k])) for a, k in zip(ARGS, KINDS) if req.get(k) is not None}
        want = [(k, n) for k in KINDS for n in (req[k] if req.get(k) is not None else names[k])]
        bad = any(n not in (['default'] if k != '_x' else []) + list(names[k]) for k in KINDS for n in (req.get(k) or ()))
        try: r = it.call(it.find(M + 'default_plot'), [w.data], {**args, **kw})
        except PyEx as ex:
            ctx.true('only unknown variables or nothing to plot are rejected', bad or not want, '%s %s' % (req, ex)); return
        ctx.true('unknown variables are rejected', not bad, '%s' % (req,))
        if bad: return
        fig, ax, g = r
        calls = [s.val for s in w.added.segs]
        ctx.true('one figure', len(w.figs) == 1 and fig is w.figs[0][0], '')
        axes = elems(ax) if isinstance(ax, PList) else list(ax) if isinstance(ax, (list, tuple)) else [ax]
        ctx.true('one axis per variable', len(axes) == len(want) and all(x is y for x, y in zip(axes, w.figs[0][1])), '%s' % (axes,))
        ctx.true('options of the figure', all(w.figs[0][2].get(k) == v for k, v in kw.items()) and w.figs[0][2].get('sharex') in (True, 'all', 'col'), '%s' % (w.figs[0][2],))
        ctx.true('states, algebraic states, inputs and expressions are drawn in this order', [c[1:3] for c in calls] == want and all(c[0] is g for c in calls), '%s / %s' % ([c[1:3] for c in calls], want))
        ctx.true('each variable has its own axis', len(calls) == len(axes) and all(c[3] is x for c, x in zip(calls, axes)), '')
        for x, v in zip(axes, want):
            lab = [s.val[1] for s in x.calls.segs if s.val[0] == 'set_ylabel']
            ctx.true('each axis is labelled with its variable', lab and lab[-1] == v[1], '%s %s' % (v, lab))
        ctx.true('the returned object shows the given data', g.attrs['data'] is w.data, '')
    return run
NM = {'_x': ('a', 'b'), '_z': ('z', 'y'), '_u': ('u', 'v'), '_aux': ('e', 'f')}
def defall():
    out = []
    def add(names, req, kw={}): out.append(('default plot %s %s%s' % ({k: v for k, v in names.items()} if names is not NM else '', {k: v for k, v in req.items()}, kw or ''), defplot(names, req, kw), None))
    add(NM, {}); add(NM, {}, {'figsize': (1, 2)})
    for n in itertools.product((0, 1, 2), repeat=3):
        for nx in (1, 2): add({k: NM[k][:c] for k, c in zip(KINDS, (nx,) + n)}, {})
    for k in KINDS:
        a, b = NM[k]
        for l in ((), (a,), (b,), (b, a), (a, a), ('q',), (a, 'q')): add(NM, {k: l})
        for o in KINDS:
            if o != k: add(NM, {k: (NM[o][0],)})
    for a, b in itertools.combinations(KINDS, 2): add(NM, {a: (NM[a][1],), b: ()})
    add(NM, {k: () for k in KINDS}); add(NM, {k: (NM[k][1],) for k in KINDS})
    for k in KINDS: add(NM, {j: (NM[j][1],) if j == k else () for j in KINDS})
    return out

# ------------------------------------------------------------------ animation
def anim(fmt, ow, steps, export=None):
    def run(ctx):
        w = World(ctx); it = ctx.it; g = w.graphics(); fs = Files(it, False); H = it.lib.hooks; frames = []; ev = PList([])
        w.lines(g, 'result', False); w.lines(g, 'pred', True)
        it.contracts[G + '.plot_results'] = lambda it, a, k: it.append_seg(ev, E(('results',) + tuple(bind(a[1:], k, ('t_ind',), {'t_ind': -1}))))
        it.contracts[G + '.plot_predictions'] = lambda it, a, k: it.append_seg(ev, E(('predictions',) + tuple(bind(a[1:], k, ('t_ind',), {'t_ind': -1}))))
        it.contracts[G + '.reset_axes'] = lambda it, a, k: None
        fig = PObj(LibType('Figure'), {}, 'fig'); fig.closed = True
        def animation(it, a, k):
            f, up = a[0], a[1]; n = k['frames']
            o = PObj(LibType('animation'), {}, 'anim'); o.closed = True; frames.append((f, up, n, o))
            def save(it, a, k):
                fs.write('animation', a[0], (o, k.get('writer', a[1] if len(a) > 1 else None)))
            o.attrs['save'] = LibFn('save', save)
            return o
        for m in ('FuncAnimation', 'FFMpegWriter', 'ImageMagickWriter'):
            f = animation if m == 'FuncAnimation' else (lambda it, a, k, m=m: T('writer', m, *[x for p, v in sorted(k.items()) if p == 'fps' for x in (v,)]))
            H['matplotlib.animation.' + m] = LibFn(m, f); H['call:matplotlib.animation.' + m] = f; H['new:matplotlib.animation.' + m] = f
        name = SStr('name'); path = sstr(str_parts(SStr('path')) + str_parts('/'))
        kw = {}
        if fmt is not None: kw['format'] = fmt
        if ow is not None: kw['overwrite'] = ow
        if steps: kw['n_steps'] = SInt(z3.Int('n_frames')); it.base_facts.append(z3.Int('n_frames') >= 1)
        if export is None: kw.update(export_path=path, export_name=name)
        else: path, name = './', 'animation'
        ext = 'mp4' if fmt == 'mp4' else 'gif'
        try: it.call(it.find(M + 'animate'), [g, fig], kw)
        except PyEx as ex:
            ctx.true('only other formats are rejected', fmt not in ('gif', 'mp4', None), '%s %s' % (fmt, ex))
            return ctx.true('a rejected call writes nothing', all(x[0] == 'mkdir' for x in fs.writes()), '%s' % fs.writes())
        ctx.true('other formats are rejected', fmt in ('gif', 'mp4', None), '%s' % fmt)
        wr = [x for x in fs.writes() if x[0] != 'mkdir']
        ctx.true('one file is written', len(wr) == 1 and len(frames) == 1 and wr[0][2][0] is frames[0][3], '%s' % (wr,))
        ctx.true('the writer of the format is used', isinstance(wr[0][2][1], Term) and wr[0][2][1].args[0] == ('FFMpegWriter' if ext == 'mp4' else 'ImageMagickWriter'), '%s' % (wr[0][2][1],))
        nm = wr[0][1]; p = str_parts(nm); first = sstr(str_parts(path) + str_parts(name) + str_parts('.' + ext))
        q = str_parts(path)
        ctx.true('folder and type of the file', (p[:len(q)] == q or p[0][0] == 'c' and p[0][1].startswith('./')) and p[-1][0] == 'c' and p[-1][1].endswith('.' + ext), '%s' % (nm,))
        if ow: ctx.true('the named file is replaced', nm == first, '%s' % (nm,))
        else: ctx.oblige('the file did not exist before', z3.Not(fs.pred(nm)))
        for x in fs.writes():
            if x[0] == 'mkdir': ctx.true('only the result folder is created', x[1] == path, '%s' % (x,))
        f, up, n, o = frames[0]
        ctx.true('the given figure is animated', f is fig, '')
        ctx.oblige('one frame per recorded point, or as many as requested', zi(n) == (z3.Int('n_frames') if steps else w.n))
        t = z3.Int('t'); it.assume(z3.And(t >= 0, t < w.n))
        n0 = len(ev.segs); it.call(up, [SInt(t)], {})
        e = [s.val for s in ev.segs[n0:]]
        ctx.true('each frame shows results and predictions', sorted(x[0] for x in e) == ['predictions', 'results'], '%s' % (e,))
        for x in e: ctx.oblige('each frame shows its point in time', zi(x[1]) == t)
    return run
for fmt in ('gif', 'mp4', None, 'avi'):
    for ow in (None, False, True):
        for st in (False, True):
            CONTRACTS.append(('animate as %s%s%s' % (fmt, '' if ow is None else ', overwrite=%s' % ow, ', given number of frames' if st else ''), anim(fmt, ow, st), None))
CONTRACTS.append(('animate with default names', anim('gif', None, False, 0), None))
CONTRACTS += defall()
TRUSTED += ['matplotlib.animation (FuncAnimation.save calls the update function with 0, 1, ..., frames - 1 and writes exactly the named file); os.path.isfile, os.path.exists, os.makedirs (ghost file system)']
