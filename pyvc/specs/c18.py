"""C18: Sampler and DataHandler for every plan (any number of cases), every position, every existing file and any stored results."""
import itertools
from .files import *
from .c17 import flat, isfun
SM = 'do_mpc.sampling._sampler:Sampler'
DH = 'do_mpc.sampling._datahandler:DataHandler'
I, B = z3.IntSort(), z3.BoolSort()
NAMES = ('a', 'b')
VAL = {}
BOUNDED = {'case of 2 variables': 'cases with two named variables (their values, the number of cases and the ids are arbitrary)',
           'post processing of': 'up to two post processing functions'}

def T(op, *a): return Term(op, a, None, None)
def case(i): return T('case', zi(i))
def iscase(v): return isinstance(v, Term) and v.op == 'case'
def ident(i): return sstr([('u', 'id', zi(i))])
def value(n, i): return T('value', n, zi(i))
def asdict(v): return PDict({**{n: value(n, v.args[0]) for n in NAMES}, 'id': ident(v.args[0])})

class World:
    """an arbitrary plan of n >= 1 cases with distinct ids"""
    def __init__(self, ctx):
        self.it = it = ctx.it; self.ctx = ctx
        self.fs = Files(it)
        self.n = z3.Int('n_cases'); it.base_facts.append(self.n >= 1)
        b = fresh_int('c')
        self.plan = PList([Seg('r', b=Binder(b, 0, mkint(self.n)), guard=TRUE, segs=[E(case(b))])])
        self.segs = list(self.plan.segs)
        self.mutated = []
        H = it.lib.hooks
        H['index_error'] = True
        H['mapping'] = lambda it, d: asdict(d) if iscase(d) else self.processed(d) if isinstance(d, Term) and d.op == 'processed' else d
        def copy(it, v, deep): return asdict(v) if iscase(v) else NotImplemented
        H['copy'] = copy
        def getitem(it, o, k):
            if iscase(o):
                if not isinstance(k, str): return NotImplemented
                d = asdict(o).d
                if k not in d: raise PyEx('KeyError', (k,))
                return d[k]
            return NotImplemented
        H['getitem'] = getitem
        def setitem(it, o, k, v):
            if iscase(o): self.mutated.append('item assignment'); return None
            return NotImplemented
        H['setitem'] = setitem
        def getattr_(it, o, name):
            if iscase(o):
                if name in ('pop', 'update', 'clear', 'popitem', 'setdefault'):
                    def mut(it, a, k):
                        self.mutated.append(name)
                        d = asdict(o)
                        return it.call(it.getattr(d, name), a, k)
                    return LibFn(name, mut)
                return it.getattr(asdict(o), name)
            if isinstance(o, LibFn) and getattr(o, 'kind', None) == 'function' and name == '__code__':
                c = PObj(LibType('code'), {'co_varnames': tuple(o.params) + tuple(o.locals_), 'co_argcount': len(o.params)}); c.closed = True
                return c
            return NotImplemented
        H['getattr'] = getattr_
        H['call:inspect.getfullargspec'] = lambda it, a, k: self.obj('spec', args=PList(elems=list(a[0].params)))
        H['call:inspect.signature'] = lambda it, a, k: self.obj('signature', parameters=PDict({p: T('parameter', p) for p in a[0].params}))
        H['new:inspect.signature'] = H['call:inspect.signature']; H['new:inspect.getfullargspec'] = H['call:inspect.getfullargspec']
        it.lib.isinst.append(lambda it, v, t: (t.name == 'dict') if iscase(v) and isinstance(t, LibType) else None)
        it.lib.isinst.append(lambda it, v, t: (t.name in ('FunctionType', 'BuiltinFunctionType', 'function')) if isinstance(v, LibFn) and isinstance(t, LibType) else None)
        it.contracts['do_mpc.tools:printProgressBar'] = lambda it, a, k: None
    def obj(self, t, **k):
        o = PObj(LibType(t), k); o.closed = True
        return o
    def processed(self, d):
        """fields of a processed case (contract of _post_process_single without functions)"""
        r = asdict(d.args[0]); r.d['res'] = d.args[1]
        return r
    def sampler(self, **kw):
        self.me = self.it.call(self.it.find(SM), [self.plan], kw); self.ctx.declared(self.me, self.me.attrs['flags'], extra=('sample_function',))
        return self.me
    def handler(self, **kw):
        self.me = self.it.call(self.it.find(DH), [self.plan], kw); self.ctx.declared(self.me, self.me.attrs['flags'], extra=('sample_function',))
        return self.me
    def fn(self, params, result=None, locals_=()):
        """a user function: every call is recorded, the result depends on the arguments only"""
        calls = PList([])
        def f(it, a, k):
            key = (tuple(a), tuple(sorted(k.items())))
            it.append_seg(calls, E(key))
            return result(a, k) if result else T('result', *[x for p, v in sorted(k.items()) for x in (p, v)])
        g = LibFn('user function', f); g.kind = 'function'; g.params = list(params); g.locals_ = list(locals_); g.calls = calls
        return g
    def intact(self):
        """the plan and the settings of the object stay as they were"""
        ctx = self.ctx
        ctx.true('the plan is not changed', not self.mutated and len(self.plan.segs) == len(self.segs) and all(x is y for x, y in zip(self.plan.segs, self.segs)) and self.me.attrs['sampling_plan'] is self.plan, '%s' % (self.mutated,))

def same_str(ctx, name, got, want):
    e = str_eq(got, want, ctx.it.prove) if isinstance(got, (str, SStr)) else False
    if e is None: return ctx.unknown(name, '%s / %s' % (got, want))
    ctx.oblige(name, zb(e))

def setup(ctx, fmt, cls, over=True):
    w = World(ctx)
    me = w.sampler() if cls is SM else w.handler()
    me.attrs['_data_dir'] = SStr('dir')
    me.attrs['sample_name'] = SStr('name')
    me.attrs['save_format'] = fmt
    if over and cls is SM:
        me.attrs['overwrite'] = SBool(z3.Bool('overwrite'))
        me.attrs['print_progress'] = SBool(z3.Bool('progress'))
    return w, me

EXT = {'pickle': '.pkl', 'mat': '.mat'}
def fname(i, fmt): return sstr(str_parts(SStr('dir')) + str_parts(SStr('name')) + str_parts('_') + str_parts(ident(i)) + str_parts(EXT[fmt]))

def save_name(fmt):
    def run(ctx):
        w, me = setup(ctx, fmt, SM); i = z3.Int('i')
        r = ctx.it.call(ctx.it.getattr(me, '_save_name'), [ident(i)], {})
        same_str(ctx, 'file name of a case', r, sstr(str_parts(SStr('name')) + str_parts('_') + str_parts(ident(i)) + str_parts(EXT[fmt])))
    return run

def unique(ctx):
    """files of different cases differ, and belong to the same folder, name and format"""
    i, j = z3.Ints('i j')
    for fmt in EXT:
        e = str_eq(fname(i, fmt), fname(j, fmt), ctx.it.prove)
        ctx.oblige('different cases have different files', z3.Implies(i != j, z3.Not(e)))

def stored(v, fmt, res):
    """what is written for a result"""
    if fmt == 'pickle': return v is res or (isinstance(v, Term) and isinstance(res, Term) and v.op == res.op and v.args == res.args)
    return isinstance(v, PDict) and set(v.d) == {'res'} and stored(v.d['res'], 'pickle', res)

def save(fmt):
    def run(ctx):
        w, me = setup(ctx, fmt, SM); i = z3.Int('i')
        nm = ctx.it.call(ctx.it.getattr(me, '_save_name'), [ident(i)], {})
        res = T('sym', 'some result'); n0 = len(w.fs.log.segs); before = dict(me.attrs)
        ctx.it.call(ctx.it.getattr(me, '_save'), [nm, res], {})
        ws = w.fs.writes()[n0:]
        ex = w.fs.pred(fname(i, fmt))
        if not ws: return ctx.oblige('new results are stored', z3.And(ex, z3.Not(z3.Bool('overwrite'))))
        ctx.oblige('existing results are only replaced when configured', z3.Or(z3.Not(ex), z3.Bool('overwrite')))
        ctx.true('one file is written in the configured format', len(ws) == 1 and ws[0][0] == {'pickle': 'write pickle', 'mat': 'write mat'}[fmt], '%s' % (ws,))
        same_str(ctx, 'file of the case', ws[0][1], fname(i, fmt))
        ctx.true('the result is stored', stored(ws[0][2], fmt, res), '%s' % (ws[0][2],))
        ctx.true('settings are kept', all(me.attrs[k] is before[k] for k in before), '')
    return run

def one(fmt):
    """sample_idx for an arbitrary position"""
    def run(ctx):
        w, me = setup(ctx, fmt, SM); it = ctx.it
        f = w.fn(NAMES); it.call(it.getattr(me, 'set_sample_function'), [f], {})
        idx = z3.Int('idx'); n0 = len(w.fs.log.segs); before = dict(me.attrs); done = list(me.attrs['completion_list'].segs)
        try: it.call(it.getattr(me, 'sample_idx'), [SInt(idx)], {})
        except PyEx as ex:
            ctx.oblige('every position of the plan is accepted', z3.Not(z3.And(idx >= 0, idx < w.n)))
            ctx.true('a rejected position has no effect', not f.calls.segs and len(w.fs.log.segs) == n0 and len(me.attrs['completion_list'].segs) == len(done), '')
            return w.intact()
        ctx.oblige('wrong positions are rejected', z3.And(idx >= 0, idx < w.n))
        ws = w.fs.writes()[n0:]
        ex = w.fs.pred(fname(idx, fmt)); keep = z3.And(ex, z3.Not(z3.Bool('overwrite')))
        w.intact()
        ctx.true('settings are kept', all(me.attrs[k] is before[k] for k in before), '')
        if not f.calls.segs:
            ctx.oblige('missing results are computed', keep)
            return ctx.true('nothing is written for existing results', not ws, '%s' % (ws,))
        ctx.oblige('existing results are not computed again', z3.Not(keep))
        if any(s.kind != 'e' for s in f.calls.segs): return ctx.unknown('calls of the sample function', '%s' % f.calls)
        ctx.true('the sample function is called once', len(f.calls.segs) == 1, '%s' % f.calls)
        pos, kw = f.calls.segs[0].val
        ctx.true('arguments of the sample function are the variables of the case', not pos and tuple(k for k, _ in kw) == NAMES, '%s %s' % (pos, kw))
        for k, v in kw:
            if isinstance(v, Term) and v.op == 'value': ctx.oblige('argument of the sample function', z3.And(z3.BoolVal(v.args[0] == k), v.args[1] == idx))
            else: ctx.fail('argument of the sample function', '%s=%s' % (k, v))
        ctx.true('one file is written in the configured format', len(ws) == 1 and ws[0][0] == {'pickle': 'write pickle', 'mat': 'write mat'}[fmt], '%s' % (ws,))
        if len(ws) != 1: return
        same_str(ctx, 'file of the case', ws[0][1], fname(idx, fmt))
        ctx.true('the result of the sample function is stored', stored(ws[0][2], fmt, f.result if hasattr(f, 'result') else T('result', *[x for p, v in sorted(kw) for x in (p, v)])), '%s' % (ws[0][2],))
        c = me.attrs['completion_list'].segs
        ctx.true('the case is noted as done', len(c) == len(done) + 1, '%s' % c)
    return run

def first(ctx):
    w, me = setup(ctx, 'pickle', SM); n0 = len(w.fs.log.segs)
    for name, a in (('sample_idx', [0]), ('sample_data', [])):
        try: ctx.it.call(ctx.it.getattr(me, name), a, {})
        except PyEx: pass
        else: ctx.fail('a sample function is required', name)
    ctx.true('nothing is written without a sample function', len(w.fs.log.segs) == n0, '')

def every(ctx):
    """sample_data against the contract of sample_idx"""
    w, me = setup(ctx, 'pickle', SM); it = ctx.it
    f = w.fn(NAMES); it.call(it.getattr(me, 'set_sample_function'), [f], {})
    log = PList([])
    def ghost(it, a, k):
        it.append_seg(log, E(zi(a[1] if len(a) > 1 else k['idx'])))
    it.contracts[SM + '.sample_idx'] = ghost
    it.call(it.getattr(me, 'sample_data'), [], {})
    r = flat(log.segs)
    if r is None or len(r[0]) != 1: return ctx.unknown('one case per iteration', '%s' % log) if log.segs else ctx.fail('every case is sampled', 'none')
    (b,), e = r
    j = ctx.fresh('j', 0, mkint(zi(b.hi) - zi(b.lo)))
    ctx.oblige('as many positions as cases', zi(b.hi) - zi(b.lo) == w.n)
    at = subst(e, [(b.var, j + zi(b.lo))])
    k = ctx.fresh('k', 0, mkint(w.n))
    ctx.oblige('positions belong to the plan', z3.And(at >= 0, at < w.n))
    ctx.oblige('every position is sampled once', z3.Implies(j != k, at != subst(e, [(b.var, k + zi(b.lo))])))
    w.intact()

def setfun(ctx):
    w = World(ctx); me = w.sampler(); it = ctx.it
    S = it.getattr(me, 'set_sample_function')
    for v in ('f', None, 3):
        try: it.call(S, [v], {})
        except PyEx: pass
        else: ctx.fail('the sample function must be a function', '%s' % (v,))
        ctx.true('a rejected function is not kept', me.attrs['flags'].d['set_sample_function'] is False and 'sample_function' not in me.attrs, '')
    for ps in (['a', 'z'], ['z'], ['a', 'b', 'id', 'c']):
        try: it.call(S, [w.fn(ps)], {})
        except PyEx: pass
        else: ctx.fail('functions with unknown arguments are rejected', '%s' % ps)
        ctx.true('a rejected function is not kept', me.attrs['flags'].d['set_sample_function'] is False and 'sample_function' not in me.attrs, '')
    for ps in (['a', 'b'], ['b', 'a'], ['a'], []):
        f = w.fn(ps); it.call(S, [f], {})
        ctx.true('functions of variables of the plan are accepted', me.attrs['sample_function'] is f and me.attrs['flags'].d['set_sample_function'] is True, '%s' % ps)
    w.intact()

def settings(cls, keys):
    def run(ctx):
        w = World(ctx); it = ctx.it
        me = w.sampler() if cls is SM else w.handler()
        ctx.true('default folder, name and format', (me.attrs['_data_dir'], me.attrs['sample_name'], me.attrs['save_format']) == ('./', 'sample', 'pickle'), '%s' % me.attrs)
        if cls is SM: ctx.true('existing results are kept by default', me.attrs['overwrite'] is False, '')
        before = dict(me.attrs)
        for n in keys:
            v = SStr('setting ' + n)
            it.call(it.getattr(me, 'set_param'), [], {n: v})
            ctx.true('%s is set' % n, it.getattr(me, n) is v, '')
            a = '_data_dir' if n == 'data_dir' else n
            ctx.true('nothing else is set by %s' % n, all(me.attrs.get(k) is before[k] for k in before if k != a) and set(me.attrs) == set(before), '')
            before = dict(me.attrs)
        it.call(it.getattr(me, 'set_param'), [], {'unknown': SStr('v')})
        ctx.true('an unknown setting changes nothing', all(me.attrs.get(k) is before[k] for k in before) and set(me.attrs) == set(before), '')
        it.setattr(me, 'data_dir', SStr('folder'))
        ctx.true('folder is kept', it.getattr(me, 'data_dir') == SStr('folder'), '')
        ctx.true('nothing is written', not any(x[0].startswith('write') for x in w.fs.writes()), '')
        w.intact()
    return run

def load(fmt):
    def run(ctx):
        w, me = setup(ctx, fmt, DH); it = ctx.it; i = z3.Int('i'); before = dict(me.attrs)
        r = it.call(it.getattr(me, '_load'), [ident(i)], {})
        ex = w.fs.pred(fname(i, fmt))
        ctx.true('loading writes nothing', not w.fs.log.segs, '')
        ctx.true('settings are kept', all(me.attrs[k] is before[k] for k in before), '')
        if r is None: return ctx.oblige('existing results are loaded', z3.Not(ex))
        ctx.oblige('missing results are None', ex)
        ctx.true('content of the file', isinstance(r, PObj) and r.attrs.get('kind') == {'pickle': 'pickle', 'mat': 'mat'}[fmt], '%s' % (r,))
        same_str(ctx, 'file of the case', r.attrs['name'], fname(i, fmt))
    return run

LOADED = z3.Function('is_loaded', I, B)
def lazy(ctx):
    """_lazy_loading with an arbitrary consistent cache, against the contract of _load"""
    w = World(ctx); me = w.handler(); it = ctx.it
    m = z3.Int('n_cached'); it.base_facts.append(m >= 0)
    CI = z3.Function('cached_id', I, I)
    b, c = fresh_int('q'), fresh_int('q')
    ids = PList([Seg('r', b=Binder(b, 0, mkint(m)), guard=TRUE, segs=[E(ident(CI(b)))])])
    data = PList([Seg('r', b=Binder(c, 0, mkint(m)), guard=TRUE, segs=[E(T('content', CI(c)))])])
    cache = me.attrs['pre_loaded_data']
    cache.d['id'], cache.d['data'] = ids, data
    idseg, dataseg = list(ids.segs), list(data.segs)
    wit = {}
    def members(it, l, x):
        key = (id(l), x)
        k = fresh_int('at'); it.assume(k >= 0)
        if not it.decide(SBool(z3.Bool('cached'))): return False
        it.assume(k < zi(it.length(l)))
        e = str_eq(it.getitem(l, mkint(k)), x, it.prove)
        if e is None: raise Unsupported('membership')
        it.assume(zb(e)); wit[key] = k
        return True
    def index(it, l, x):
        if (id(l), x) not in wit: raise Unsupported('position without membership')
        return mkint(wit[(id(l), x)])
    it.lib.hooks['members'] = members; it.lib.hooks['index'] = index
    loads = PList([])
    def ghost(it, a, k):
        s = a[1] if len(a) > 1 else k['sample_id']
        it.append_seg(loads, E(s))
        if not isinstance(s, SStr) or len(s.parts) != 1 or s.parts[0][0] != 'u': raise Unsupported('id')
        return T('content', s.parts[0][2]) if it.decide(SBool(LOADED(s.parts[0][2]))) else None
    it.contracts[DH + '._load'] = ghost
    i = z3.Int('i')
    r = it.call(it.getattr(me, '_lazy_loading'), [case(i)], {})
    w.intact()
    i2, d2 = me.attrs['pre_loaded_data'].d['id'].segs, me.attrs['pre_loaded_data'].d['data'].segs
    keep = len(i2) >= 1 and i2[0] is idseg[0] and len(d2) >= 1 and d2[0] is dataseg[0]
    ctx.true('loaded results are kept', keep, '%s' % (i2,))
    ctx.true('ids and results stay aligned', len(i2) == len(d2), '%s %s' % (i2, d2))
    if not loads.segs:
        ctx.oblige('results that were never loaded are loaded', z3.Bool('cached'))
        ctx.true('nothing is added for cached results', len(i2) == 1, '')
        return ctx.oblige('result of the case', r.args[0] == i) if isinstance(r, Term) and r.op == 'content' else ctx.fail('result of the case', '%s' % (r,))
    ctx.true('the result of the case is loaded once', len(loads.segs) == 1 and loads.segs[0].val == ident(i), '%s' % loads)
    if r is None:
        ctx.oblige('existing results are returned', z3.Not(LOADED(i)))
        return ctx.true('missing results are not cached', len(i2) == 1, '%s' % i2)
    ctx.true('result of the case', isinstance(r, Term) and r.op == 'content' and it.prove(r.args[0] == i), '%s' % (r,))
    for x, y in zip(i2[1:], d2[1:]):
        ctx.true('cached results belong to their ids', x.kind == 'e' and y.kind == 'e' and x.val == ident(i) and isinstance(y.val, Term) and y.val.op == 'content' and it.prove(y.val.args[0] == i), '%s %s' % (x, y))

def post(nargs, none):
    def run(ctx):
        w = World(ctx); me = w.handler(); it = ctx.it
        fs = {}
        for n, k in enumerate(nargs):
            f = w.fn(['p%d' % j for j in range(k)], lambda a, kw, n=n: T('processed by', n, *a)); fs['f%d' % n] = f
            it.call(it.getattr(me, 'set_post_processing'), ['f%d' % n, f], {})
        i = z3.Int('i'); res = None if none else T('content', i)
        r = it.call(it.getattr(me, '_post_process_single'), [case(i), res], {})
        w.intact()
        want = set(NAMES) | {'id'} | (set(fs) if fs else {'res'})
        ctx.true('fields of a processed case', isinstance(r, PDict) and set(r.d) == want, '%s' % (r,))
        if not isinstance(r, PDict): return
        for n in NAMES: ctx.true('variables of a processed case', isinstance(r.d.get(n), Term) and r.d[n].args == (n, i), '%s' % (r,))
        ctx.true('id of a processed case', r.d.get('id') == ident(i), '')
        if not fs: return ctx.true('the result is returned', r.d.get('res') is res, '%s' % (r,))
        for n, k in enumerate(nargs):
            v, cs = r.d.get('f%d' % n), fs['f%d' % n].calls.segs
            if none:
                ctx.true('missing results are None', v is None and not cs, '%s' % (v,)); continue
            ctx.true('the function is called once', len(cs) == 1, '%s' % cs)
            a, kw = cs[0].val
            ctx.true('arguments of the function', not kw and (k == 1 and a == (res,) or k == 2 and len(a) == 2 and (iscase(a[0]) and a[0].args == (i,) or isinstance(a[0], PDict)) and a[1] is res), '%s' % (a,))
            ctx.true('value of the function', isinstance(v, Term) and v.op == 'processed by' and v.args[0] == n, '%s' % (v,))
    return run

def setpost(ctx):
    w = World(ctx); me = w.handler(); it = ctx.it; S = it.getattr(me, 'set_post_processing')
    f = w.fn(['x'])
    for a in ([3, f], [None, f], ['n', 'f'], ['n', None]):
        try: it.call(S, a, {})
        except PyEx: pass
        else: ctx.fail('wrong types are rejected', '%s' % (a,))
        ctx.true('a rejected function is not kept', not me.attrs['post_processing'].d and me.attrs['flags'].d['set_post_processing'] is False, '')
    it.call(S, ['n', f], {}); g = w.fn(['x', 'y']); it.call(S, ['m', g], {})
    d = me.attrs['post_processing'].d
    ctx.true('functions are kept by name', set(d) == {'n', 'm'} and d['n'].d['function'] is f and d['m'].d['function'] is g, '%s' % d)
    h = w.fn(['x']); it.call(S, ['n', h], {})
    ctx.true('a function is replaced by name', set(d) == {'n', 'm'} and d['n'].d['function'] is h and d['m'].d['function'] is g, '')

def ghosts(w, post=True):
    it = w.it
    it.contracts[DH + '._lazy_loading'] = lambda it, a, k: T('content of', a[1])
    it.contracts[DH + '._post_process_single'] = lambda it, a, k: T('processed', a[1], a[2])

def proc(ctx, v, i, name='processed case'):
    if not (isinstance(v, Term) and v.op == 'processed' and iscase(v.args[0]) and isinstance(v.args[1], Term) and v.args[1].op == 'content of'): return ctx.fail(name, '%s' % (v,))
    ctx.oblige(name, z3.And(v.args[0].args[0] == zi(i), v.args[1].args[0].args[0] == zi(i)))

def get_int(ctx):
    w = World(ctx); me = w.handler(); ghosts(w); it = ctx.it
    i = z3.Int('i')
    try: r = it.getitem(me, SInt(i))
    except PyEx as ex:
        return ctx.oblige('every position is accepted', z3.Not(z3.And(i >= -w.n, i < w.n)))
    ctx.oblige('wrong positions raise', z3.And(i >= -w.n, i < w.n))
    ctx.true('one case is returned', isinstance(r, PList) and r.concrete() and len(r.segs) == 1, '%s' % (r,))
    proc(ctx, r.segs[0].val, z3.If(i < 0, i + w.n, i))
    w.intact()

def get_many(k, lst):
    def run(ctx):
        w = World(ctx); me = w.handler(); ghosts(w); it = ctx.it
        q = [z3.Int('i%d' % j) for j in range(k)]
        ind = PList(elems=[SInt(x) for x in q]) if lst else tuple(SInt(x) for x in q)
        good = z3.And(*[z3.And(x >= -w.n, x < w.n) for x in q])
        try: r = it.getitem(me, ind)
        except PyEx as ex: return ctx.oblige('every position is accepted', z3.Not(good))
        ctx.oblige('wrong positions raise', good)
        ctx.true('one processed case per position', isinstance(r, PList) and r.concrete() and len(r.segs) == k, '%s' % (r,))
        for s, x in zip(r.segs, q): proc(ctx, s.val, z3.If(x < 0, x + w.n, x))
        w.intact()
    return run

def get_slice(lo, hi):
    def run(ctx):
        w = World(ctx); me = w.handler(); ghosts(w); it = ctx.it
        l = SInt(z3.Int('lo')) if lo else None
        h = SInt(z3.Int('hi')) if hi else None
        if lo: it.base_facts += [z3.Int('lo') >= 0, z3.Int('lo') <= w.n]
        if hi: it.base_facts += [z3.Int('hi') >= 0, z3.Int('hi') <= w.n]
        r = it.getitem(me, Slice(l, h, None))
        a, z = (z3.Int('lo') if lo else z3.IntVal(0)), (z3.Int('hi') if hi else w.n)
        w.intact()
        if not isinstance(r, PList): return ctx.fail('a list is returned', '%s' % (r,))
        ctx.oblige('one processed case per position of the slice', zi(it.length(r)) == z3.If(z > a, z - a, z3.IntVal(0)))
        j = ctx.fresh('j', 0)
        it.assume(j < z - a)
        if smt.check(it.facts()) == 'unsat': return
        proc(ctx, it.getitem(r, mkint(j)), j + a)
    return run

def get_list(ctx):
    """a list of arbitrary length with valid positions"""
    w = World(ctx); me = w.handler(); ghosts(w); it = ctx.it
    m = z3.Int('n_ind'); P = z3.Function('ind', I, I); x = z3.Int('x')
    it.base_facts += [m >= 0, z3.ForAll([x], z3.And(P(x) >= 0, P(x) < w.n), patterns=[P(x)])]
    b = fresh_int('b')
    r = it.getitem(me, PList([Seg('r', b=Binder(b, 0, mkint(m)), guard=TRUE, segs=[E(SInt(P(b)))])]))
    ctx.oblige('one processed case per position', zi(it.length(r)) == m)
    j = ctx.fresh('j', 0, mkint(m))
    proc(ctx, it.getitem(r, mkint(j)), P(j))
    w.intact()

def get_rej(ctx):
    w = World(ctx); me = w.handler(); ghosts(w)
    for v in ('a', 1.5, None):
        try: ctx.it.getitem(me, v)
        except PyEx: pass
        else: ctx.fail('other kinds of positions are rejected', '%s' % (v,))

def guarded(segs, g):
    """alternatives (condition, element) of one iteration"""
    out = []
    for s in segs:
        if s.kind == 'e': out.append((g, s.val)); continue
        if not (z3.is_int_value(zi(s.b.lo)) and z3.is_int_value(zi(s.b.hi)) and zi(s.b.hi).as_long() - zi(s.b.lo).as_long() == 1): return None
        r = guarded(s.segs, z3.And(g, s.guard))
        if r is None: return None
        out += [(subst(x, [(s.b.var, zi(s.b.lo))]), subst(v, [(s.b.var, zi(s.b.lo))])) for x, v in r]
    return out

FIN, FOUT = z3.Function('input_ok', I, B), z3.Function('output_ok', I, B)
def filt(fin, fout):
    def run(ctx):
        w = World(ctx); me = w.handler(); ghosts(w); it = ctx.it
        def idx_of(kw, what):
            want = {'a': lambda v: isinstance(v, Term) and v.op == 'value' and v.args[0] == 'a', 'b': lambda v: isinstance(v, Term) and v.op == 'value' and v.args[0] == 'b',
                    'res': lambda v: isinstance(v, Term) and v.op == 'content of'}
            i = None
            for k, v in kw.items():
                if not want[k](v): ctx.fail('arguments of the %s filter' % what, '%s=%s' % (k, v)); raise PyEx('wrong')
                e = v.args[0].args[0] if k == 'res' else v.args[1]
                if i is not None and not i.eq(e): ctx.fail('arguments of the %s filter' % what, '%s=%s' % (k, v)); raise PyEx('wrong')
                i = e
            return i
        def mk(params, pred, what):
            def res(a, k):
                ctx.true('arguments of the %s filter' % what, not a and set(k) == set(params), '%s %s' % (a, k))
                return SBool(pred(idx_of(k, what)))
            return w.fn(params, res, locals_=['zz', 'a0'])
        kw = {}
        if fin: kw['input_filter'] = mk(fin, FIN, 'input')
        if fout: kw['output_filter'] = mk(fout, FOUT, 'output')
        r = it.call(it.getattr(me, 'filter'), [], kw)
        w.intact()
        if not isinstance(r, PList): return ctx.fail('a list is returned', '%s' % (r,))
        if len(r.segs) != 1 or r.segs[0].kind != 'r': return ctx.unknown('cases in the order of the plan', '%s' % r)
        s = r.segs[0]
        ctx.oblige('every case is considered once', z3.And(zi(s.b.lo) == 0, zi(s.b.hi) == w.n))
        i = ctx.fresh('i', 0, mkint(w.n))
        alts = guarded(s.segs, s.guard)
        if alts is None: return ctx.unknown('one case per position', '%s' % r)
        alts = [(subst(g, [(s.b.var, i)]), it.inst(v, [(s.b.var, i)])) for g, v in alts]
        ctx.oblige('a case is returned if and only if both filters accept it', z3.Or(*[g for g, v in alts]) == z3.And(FIN(i) if fin else TRUE, FOUT(i) if fout else TRUE))
        for j, (g, v) in enumerate(alts):
            for h, _ in alts[:j]: ctx.oblige('a case is returned once', z3.Not(z3.And(g, h)))
            if isinstance(v, Term) and v.op == 'processed' and iscase(v.args[0]) and isinstance(v.args[1], Term) and v.args[1].op == 'content of':
                ctx.oblige('processed case', z3.Implies(g, z3.And(v.args[0].args[0] == i, v.args[1].args[0].args[0] == i)))
            else: ctx.fail('processed case', '%s' % (v,))
    return run

def filt_rej(ctx):
    w = World(ctx); me = w.handler(); ghosts(w)
    for kw in ({'input_filter': 'f'}, {'output_filter': 3}, {'input_filter': PDict({})}):
        try: ctx.it.call(ctx.it.getattr(me, 'filter'), [], kw)
        except PyEx: pass
        else: ctx.fail('filters must be functions', '%s' % kw)

CONTRACTS = [('different cases have different files', unique, None), ('sample function required', first, None), ('Sampler.sample_data', every, None), ('Sampler.set_sample_function', setfun, None),
             ('Sampler settings', settings(SM, ('overwrite', 'sample_name', 'save_format', 'print_progress')), None), ('DataHandler settings', settings(DH, ('data_dir', 'sample_name', 'save_format')), None),
             ('DataHandler._lazy_loading', lazy, None), ('DataHandler.set_post_processing', setpost, None), ('DataHandler.__getitem__ with one position', get_int, None),
             ('DataHandler.__getitem__ with a list of any length', get_list, None), ('DataHandler.__getitem__ with other keys', get_rej, None), ('DataHandler.filter rejections', filt_rej, None)]
for fmt in EXT:
    CONTRACTS += [('Sampler._save_name, %s' % fmt, save_name(fmt), None), ('Sampler._save, %s' % fmt, save(fmt), None), ('Sampler.sample_idx with a case of 2 variables, %s' % fmt, one(fmt), None), ('DataHandler._load, %s' % fmt, load(fmt), None)]
for n in ((), (1,), (2,), (1, 2), (2, 1), (1, 1), (2, 2)):
    for none in (False, True): CONTRACTS.append(('DataHandler._post_process_single with post processing of %s arguments%s' % (','.join(map(str, n)) or 'no functions', ', missing result' if none else ''), post(n, none), None))
for k in (0, 1, 2, 3):
    for lst in (False, True): CONTRACTS.append(('DataHandler.__getitem__ with a %s of %d positions' % ('list' if lst else 'tuple', k), get_many(k, lst), None))
for lo in (False, True):
    for hi in (False, True): CONTRACTS.append(('DataHandler.__getitem__ with slice %d%d' % (lo, hi), get_slice(lo, hi), None))
for fin in ((), ('a',), ('b', 'a')):
    for fout in ((), ('res',), ('a', 'res'), ('b',)): CONTRACTS.append(('DataHandler.filter of a case of 2 variables, input (%s), output (%s)' % (','.join(fin), ','.join(fout)), filt(fin, fout), None))
TRUSTED = ['save_pickle and load_pickle (verified in C19), scipy.io.savemat/loadmat, os.path.isfile, pathlib.Path.mkdir (ghost file system: existence is an arbitrary predicate, writes are recorded)',
           'inspect.getfullargspec, inspect.signature, function.__code__ (parameter names of a function)', 'printProgressBar writes to the terminal only', 'user functions depend on their arguments only']
ASSUMPTIONS = ['ids of the plan are distinct (C17: add_sampling_case) and no result file is created or removed by other processes between two calls']
