"""C15: Model.set_variable, set_rhs, set_alg, set_meas, set_expression, setup, pickling, guards."""
from .mdl import *
MOD = 'do_mpc.model._model:Model'
TYPES = {'_x': 'states', '_u': 'inputs', '_z': 'algebraic', '_p': 'parameter', '_tvp': 'timevarying_parameter'}
LISTS = ('_x', '_u', '_z', '_p', '_tvp', '_aux', '_w', '_v', '_y')

def fresh(ctx, sv='SX', mt='continuous'):
    it = ctx.it
    w = MdlWorld(it); w.ty = sv
    w.me = it.call(it.find(MOD), [mt, sv], {})
    return w

def arbitrary(ctx, sv='SX'):
    """model before setup after an arbitrary history: every list is an unknown prefix of arbitrary length"""
    w = fresh(ctx, sv); it, a = w.it, w.me.attrs
    def unknown(tag, f=None):
        k = I('n' + tag); it.base_facts.append(k >= 0); b = fresh_int('h')
        return PList([Seg('r', b=Binder(b, 0, mkint(k)), guard=TRUE, segs=[E(Term('old', (tag, b), None, None))])])
    for t in LISTS: a[t] = PDict({'name': unknown(t + 'name'), 'var': unknown(t + 'var')})
    for t in ('_aux_expression', '_y_expression', 'rhs_list', 'alg_list'): a[t] = unknown(t)
    def contains(it, c, x):
        if isinstance(c, PList) and not c.concrete(): 
            old = z3.Bool('%s in %s' % (key_atom(x), c.segs[0].segs[0].val.args[0]))
            return SBool(z3.Or(old, *[zb(it.compare(ast.Eq(), s.val, x)) for s in c.segs if s.kind == 'e']))
        return NotImplemented
    it.lib.hooks['contains'] = contains
    return w

def snap(w):
    a = w.me.attrs
    d = {}
    for t in LISTS:
        for k in ('name', 'var'): d[(t, k)] = list(w.it.getitem(a[t], k).segs)
    for t in ('_aux_expression', '_y_expression', 'rhs_list', 'alg_list'): d[t] = list(a[t].segs)
    return d
def same(s1, s2):
    return len(s1) == len(s2) and all(x is y for x, y in zip(s1, s2))
def changed(d1, d2): return {k for k in d1 if not same(d1[k], d2[k])}
def added(ctx, d1, d2, k, n=1):
    """elements appended to a list whose old part is untouched"""
    ctx.true('earlier declarations of %s are kept' % (k,), same(d1[k], d2[k][:len(d1[k])]), 'changed')
    new = d2[k][len(d1[k]):]
    ctx.true('%d new element(s) in %s' % (n, k), len(new) == n and all(s.kind == 'e' for s in new), '%d' % len(new))
    return [s.val for s in new]

NAME = SStr('name')
def set_variable(t, tn, shape, sv):
    def run(ctx):
        w = arbitrary(ctx, sv); it, me = w.it, w.me
        r = z3.Int('r'); it.base_facts.append(r >= 1)
        sh = {'none': None, 'int': SInt(r), 'tuple': (SInt(r), 1)}[shape]
        d1 = snap(w)
        n0 = len(w.syms)
        try: v = it.call(it.getattr(me, 'set_variable'), [tn, NAME] + ([] if sh is None else [sh]), {})
        except PyEx as ex:
            ctx.true('a rejected variable leaves the model unchanged', not changed(d1, snap(w)), 'changed %s' % changed(d1, snap(w)))
            return ctx.oblige('only a duplicate name is rejected', z3.Bool('name in %sname' % t))
        d2 = snap(w)
        ctx.oblige('duplicate names are rejected', z3.Not(z3.Bool('name in %sname' % t)))
        (nm,), (var,) = added(ctx, d1, d2, (t, 'name')), added(ctx, d1, d2, (t, 'var'))
        ctx.true('declared name', nm is NAME, '%s' % nm)
        ctx.true('new symbol', len(w.syms) == n0 + 1 and var is w.syms[-1] and v is var, '%s' % show(var))
        ctx.oblige('shape of the variable', zi(var.rows) == (r if sh is not None else 1))
        ctx.true('nothing else is declared', changed(d1, d2) == {(t, 'name'), (t, 'var')}, '%s' % changed(d1, d2))
    return run

def expr(ctx, ty, nm='expr'):
    r = z3.Int('r'); ctx.it.base_facts.append(r >= 1)
    return Term('sym', (nm,), r, 1, ty)

def declare(what, flag, sv, ty, kw):
    """set_rhs, set_meas, set_expression, set_alg on an arbitrary model"""
    def run(ctx):
        noise = flag
        w = arbitrary(ctx, sv); it, me = w.it, w.me
        e = expr(ctx, ty); d1 = snap(w); n0 = len(w.syms)
        args, k = [NAME, e], {}
        if noise is not None:
            key = 'process_noise' if what == 'set_rhs' else 'meas_noise'
            if kw: k[key] = noise
            else: args.append(noise)
        else: noise = what == 'set_meas'
        try: v = it.call(it.getattr(me, what), args, k)
        except PyEx as ex:
            ctx.true('a rejected declaration leaves the model unchanged', not changed(d1, snap(w)), 'changed %s' % changed(d1, snap(w)))
            if what == 'set_rhs': return ctx.oblige('only an unknown state is rejected', z3.Not(z3.Bool('name in _xname')))
            return ctx.fail('declaration is accepted', '%s' % ex)
        d2 = snap(w); exp = set(); N = w.syms[n0:]; noisy = []
        if noise:
            t = '_w' if what == 'set_rhs' else '_v'
            (nm,), (nv,) = added(ctx, d1, d2, (t, 'name')), added(ctx, d1, d2, (t, 'var'))
            exp |= {(t, 'name'), (t, 'var')}; noisy = [nv]
            ctx.true('name of the noise', isinstance(nm, SStr) and 'name' in nm.name and '_noise' in nm.name, '%s' % nm)
            ctx.oblige('one noise per equation', zi(nv.rows) == e.rows)
            ctx.true('the noise is a new symbol', any(nv is s for s in N), show(nv))
        want = mk('add', e, noisy[0]) if noise else e
        if what == 'set_rhs':
            ctx.oblige('unknown states are rejected', z3.Bool('name in _xname'))
            (x,) = added(ctx, d1, d2, 'rhs_list'); exp.add('rhs_list')
            ctx.true('state of the equation', it.getitem(x, 'var_name') is NAME, '%s' % x)
            ctx.eq('declared equation', vec(it.getitem(x, 'expr')), want)
        else:
            lst = {'set_meas': '_y_expression', 'set_expression': '_aux_expression', 'set_alg': 'alg_list'}[what]
            (x,) = added(ctx, d1, d2, lst); exp.add(lst)
            ctx.true('name of the equation', isinstance(x, StEntry) and x.name is NAME and set(x.kw) == {'expr'}, '%s' % x)
            ctx.eq('declared equation', vec(x.kw['expr']), want)
            t = {'set_meas': '_y', 'set_expression': '_aux'}.get(what)
            if t:
                (nm,), (var,) = added(ctx, d1, d2, (t, 'name')), added(ctx, d1, d2, (t, 'var'))
                exp |= {(t, 'name'), (t, 'var')}
                ctx.true('name of the quantity', nm is NAME, '%s' % nm)
                ctx.oblige('size of the quantity', zi(var.rows) == e.rows)
                ctx.eq('returned expression', vec(v), want)
        ctx.true('nothing else is declared', changed(d1, d2) == exp, '%s' % changed(d1, d2))
        ctx.true('the given expression is not modified', e.op == 'sym', '')
    return run

# ------------------------------------------------------------------------------------------------- setup
R = lambda n: z3.Int('r_' + n)
class Cfg:
    """declared variables: names per type; the sizes are symbolic.  rhs: order of the equations with noise flags"""
    def __init__(self, x, u=(), z=(), p=(), tvp=(), aux=(), meas=None, order=None, noise=(), sv='SX', alias=False, mt='continuous'):
        self.v = {'_x': x, '_u': u, '_z': z, '_p': p, '_tvp': tvp}; self.aux = aux; self.meas = meas; self.order = order or x; self.noise = noise; self.sv = sv; self.alias = alias; self.mt = mt
    def __repr__(self):
        return '%s %s, x=%s u=%s z=%s p=%s tvp=%s aux=%s meas=%s order=%s noise=%s' % (self.sv, self.mt, *[list(self.v[t]) for t in ('_x', '_u', '_z', '_p', '_tvp')], list(self.aux), self.meas, list(self.order), list(self.noise))

def build(ctx, g, skip=(), extra=()):
    """declare everything through the real methods; returns the world with the declared symbols and expressions"""
    w = fresh(ctx, g.sv, g.mt); it, me = w.it, w.me
    w.dec = {}; w.expr = {}
    call = lambda m, *a, **k: it.call(it.getattr(me, m), list(a), k)
    for t in ('_p', '_u', '_x', '_tvp', '_z'):
        for n in g.v[t]:
            r = R(t + n); it.base_facts.append(r >= 1)
            w.dec[(t, n)] = call('set_variable', TYPES[t] if g.alias else t, n, SInt(r))
    S = [w.dec[k] for k in sorted(w.dec)]
    def e(kind, n, r):
        # an arbitrary function of all declared quantities
        v = Term('call', ('f' + kind + n,) + tuple(S), r, 1, g.sv); w.expr[(kind, n)] = v; return v
    for n in g.aux: r = R('aux' + n); it.base_facts.append(r >= 1); call('set_expression', n, e('aux', n, r))
    for n in g.order:
        if n in skip: continue
        call('set_rhs', n, e('rhs', n, w.dec[('_x', n)].rows), **({'process_noise': True} if n in g.noise else {}))
    for n in g.v['_z']:
        if n in skip: continue
        call('set_alg', 'eq' + n, e('alg', n, w.dec[('_z', n)].rows))
    if g.meas is not None:
        for n, noisy in g.meas: r = R('y' + n); it.base_facts.append(r >= 1); call('set_meas', n, e('meas', n, r), **({} if noisy else {'meas_noise': False}))
    w.noise = {n[:-6]: v for n, v in zip(it.getitem(me.attrs['_w'], 'name').elems(), it.getitem(me.attrs['_w'], 'var').elems()) if n != 'default'}
    w.vnoise = {n[:-6]: v for n, v in zip(it.getitem(me.attrs['_v'], 'name').elems(), it.getitem(me.attrs['_v'], 'var').elems()) if n != 'default'}
    return w

def val(kind, n, r): return Term('var', ('VAL' + kind, n), r, 1)

def functions(ctx, w, g, me, tag=''):
    """the functions of the object return the declared expressions at arbitrary values"""
    it, a = w.it, me.attrs
    V = {}
    names = {}
    for t in ('_x', '_u', '_z', '_p', '_tvp', '_w', '_v'):
        L = a[t].layout
        names[t] = list(L.entries)
        V[t] = PStruct(L, 'num', content=lambda n, q, t=t, L=L: val(t, n, base_rows(L.entries[n][1])), name='VAL' + t)
    for t in ('_u', '_z', '_p', '_tvp'): ctx.true('order of %s%s' % (t, tag), [n for n in names[t] if n != 'default'] == list(g.v[t]), '%s' % names[t])
    ctx.true('order of _x' + tag, names['_x'] == list(g.v['_x']), '%s' % names['_x'])
    meas = g.meas if g.meas is not None else [(n, True) for n in g.v['_x']]
    ctx.true('order of _w' + tag, [n for n in names['_w'] if n != 'default'] == [n + '_noise' for n in g.order if n in g.noise], '%s' % names['_w'])
    ctx.true('order of _v' + tag, [n for n in names['_v'] if n != 'default'] == [n + '_noise' for n, noisy in meas if noisy], '%s' % names['_v'])
    pr = [(w.dec[(t, n)], val(t, n, w.dec[(t, n)].rows)) for (t, n) in w.dec]
    at = lambda e: replace(e, pr)
    def fun(nm, last):
        args = [V[k] for k in ('_x', '_u', '_z', '_tvp', '_p')] + ([V[last]] if last else [])
        return vec(it.call(it.getattr(me, nm), args, {}))
    rhs = [mk('add', at(w.expr[('rhs', n)]), val('_w', n + '_noise', w.dec[('_x', n)].rows)) if n in g.noise else at(w.expr[('rhs', n)]) for n in g.v['_x']]
    cat = lambda xs: vcat(it, [E(x) for x in xs])
    ctx.eq('right-hand side' + tag, fun('_rhs_fun', '_w'), cat(rhs))
    ctx.eq('algebraic equations' + tag, fun('_alg_fun', '_w'), cat([at(w.expr[('alg', n)]) for n in g.v['_z']]))
    ctx.eq('expressions' + tag, fun('_aux_expression_fun', None), cat([C(0)] + [at(w.expr[('aux', n)]) for n in g.aux]))
    out = []
    for n, noisy in meas:
        e = at(w.expr[('meas', n)]) if g.meas is not None else val('_x', n, w.dec[('_x', n)].rows)
        out.append(mk('add', e, val('_v', n + '_noise', e.rows)) if noisy else e)
    ctx.eq('measurements' + tag, fun('_meas_fun', '_v'), cat(out))
    # linearization functions: derivatives of right-hand side and measurement
    own = {t: sfn(it, a[t]) for t in V}
    def jac(body, t):
        ss = [own[t](n, []) for n in names[t]]
        jp = [(val(t, n, None), Term('sym', ('$j%d' % i,), None, 1)) for i, n in enumerate(names[t])]
        return Term('jac', (replace(body, jp), tuple(val(t, n, None) for n in names[t])), None, None)
    ctx.eq('derivative A' + tag, fun('A_fun', '_w'), jac(cat(rhs), '_x')); ctx.eq('derivative B' + tag, fun('B_fun', '_w'), jac(cat(rhs), '_u'))
    ctx.eq('derivative C' + tag, fun('C_fun', '_v'), jac(cat(out), '_x')); ctx.eq('derivative D' + tag, fun('D_fun', '_v'), jac(cat(out), '_u'))
    tot = {'n_x': [w.dec[('_x', n)].rows for n in g.v['_x']], 'n_u': [w.dec[('_u', n)].rows for n in g.v['_u']], 'n_z': [w.dec[('_z', n)].rows for n in g.v['_z']], 'n_p': [w.dec[('_p', n)].rows for n in g.v['_p']],
           'n_tvp': [w.dec[('_tvp', n)].rows for n in g.v['_tvp']], 'n_w': [w.dec[('_x', n)].rows for n in g.noise], 'n_y': [e.rows for e in out], 'n_v': [e.rows for e, (n, noisy) in zip(out, meas) if noisy], 'n_aux': [1] + [w.expr[('aux', n)].rows for n in g.aux]}
    for k, d in tot.items(): ctx.oblige(k + tag, zi(a[k]) == size(*d))
    # named access to the symbolic equations
    for n, e in zip(g.v['_x'], rhs):
        own_at = [(w.dec[(t, m_)], own[t](m_, [])) for (t, m_) in w.dec]
        e2 = replace(w.expr[('rhs', n)], own_at)
        if n in g.noise: e2 = mk('add', e2, own['_w'](n + '_noise', []))
        ctx.eq('equation of a named state' + tag, vec(it.getitem(a['_rhs'], n)), e2)

def setup(g):
    def run(ctx):
        w = build(ctx, g); it, me = w.it, w.me
        it.call(it.getattr(me, 'setup'), [], {})
        ctx.true('set up', it.getitem(me.attrs['flags'], 'setup') is True, 'flag')
        functions(ctx, w, g, me)
        for (t, n), v in w.dec.items():
            h = w.exported.get(v.args)
            ctx.true('symbols held by the user denote the variables of the model', h is not None and h.d['this'][1].args == sfn(it, me.attrs[t])(n, []).args, '%s' % n)
        # nothing may be declared any more
        e = Term('sym', ('e',), 1, 1, g.sv); before = dict(me.attrs)
        for m, args in (('set_variable', ['_x', 'nn']), ('set_expression', ['nn', e]), ('set_meas', ['nn', e]), ('set_rhs', [g.v['_x'][0], e]), ('set_alg', ['nn', e])):
            reject(ctx, w, '%s after setup' % m, lambda: it.call(it.getattr(me, m), list(args), {}))
        for k in ('x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w', 'v'): reject(ctx, w, 'assignment of %s' % k, lambda: it.setattr(me, k, e))
        ctx.true('rejected changes leave the model unchanged', set(before) == set(me.attrs) and all(before[k] is me.attrs[k] for k in before), '')
        # queries return the variables
        for t in ('_x', '_u', '_z', '_p', '_tvp', '_w', '_v', '_y'): ctx.true('query %s' % t, it.getattr(me, t[1:]) is me.attrs[t], t)
        if g.sv == 'SX':
            st = it.call(it.getattr(me, '__getstate__'), [], {})
            o = PObj(it.find(MOD), name='restored')
            # the structures of a restored object have lost their expressions
            state = PDict({k: v for k, v in st.d.items()})
            for k in ('_rhs', '_alg', '_aux_expression', '_y_expression'):
                L = me.attrs[k].layout
                state.d[k] = PStruct(L, 'expr', content=lambda n, q, L=L: Term('undef', (), base_rows(L.entries[n][1]), 1), name=me.attrs[k].name)
            it.call(it.getattr(o, '__setstate__'), [state], {})
            functions(ctx, w, g, o, ' of a restored model')
            for k in ('_alg', '_aux_expression', '_y_expression'):
                for n in [x for x in me.attrs[k].layout.entries if x != 'default']: ctx.eq('restored %s' % k, vec(it.getitem(o.attrs[k], n)), vec(it.getitem(me.attrs[k], n)))
        else: reject(ctx, w, 'pickling a model of MX symbols', lambda: it.call(it.getattr(me, '__getstate__'), [], {}))
    return run

def reject(ctx, w, name, f):
    try: f()
    except PyEx: return ctx.ok('rejected: ' + name)
    ctx.fail('rejected: ' + name, 'accepted')

def incomplete(g, how):
    def run(ctx):
        skip, more = (), None
        if how == 'rhs': skip = (g.v['_x'][-1],)
        if how == 'alg': skip = (g.v['_z'][-1],)
        w = build(ctx, g, skip); it, me = w.it, w.me
        if how == 'more':
            e = Term('sym', ('e',), 1, 1, g.sv); it.call(it.getattr(me, 'set_alg'), ['more', e], {})
        if how == 'size':
            e = Term('sym', ('e',), z3.Int('r_e'), 1, g.sv); it.base_facts.append(z3.Int('r_e') >= 0); it.base_facts.append(z3.Int('r_e') != 0); it.call(it.getattr(me, 'set_alg'), ['more', e], {})
        reject(ctx, w, {'rhs': 'missing right-hand side', 'alg': 'missing algebraic equation', 'more': 'additional algebraic equation', 'size': 'algebraic equations of another size'}[how], lambda: it.call(it.getattr(me, 'setup'), [], {}))
        ctx.true('not set up', it.getitem(me.attrs['flags'], 'setup') is False, 'flag')
        reject(ctx, w, 'pickling before setup', lambda: it.call(it.getattr(me, '__getstate__'), [], {}))
    return run

def badargs(ctx):
    w = arbitrary(ctx); it, me = w.it, w.me; d1 = snap(w); g = lambda m: it.getattr(me, m)
    e = expr(ctx, 'SX')
    for m, args, what in (('set_variable', ['_y', 'n'], 'type _y'), ('set_variable', ['_w', 'n'], 'type _w'), ('set_variable', ['x', 'n'], 'type x'), ('set_variable', ['state', 'n'], 'type state'), ('set_variable', ['_aux', 'n'], 'type _aux'), ('set_variable', [1, 'n'], 'type no string'),
        ('set_variable', ['_x', 1], 'name no string'), ('set_variable', ['_x', 'n', PList(elems=[1, 1])], 'shape list'), ('set_variable', ['_x', 'n', 1.5], 'shape float'), ('set_expression', [1, e], 'name no string'), ('set_expression', ['n', 1.0], 'number'),
        ('set_meas', [1, e], 'name no string'), ('set_meas', ['n', 2.0], 'number'), ('set_meas', ['n', e, 1], 'noise flag'), ('set_rhs', [1, e], 'name no string'), ('set_rhs', ['n', 1.0], 'number'), ('set_alg', [1, e], 'name no string'), ('set_alg', ['n', 1.0], 'number')):
        reject(ctx, w, '%s with %s' % (m, what), lambda: it.call(g(m), list(args), {}))
    ctx.true('rejected declarations leave the model unchanged', not changed(d1, snap(w)), '%s' % changed(d1, snap(w)))
    for a in (['foo', 'SX'], [None, 'SX'], [1, 'SX'], ['discrete', 'DM'], ['discrete', 'foo']): reject(ctx, w, 'Model%s' % (tuple(a),), lambda: it.call(it.find(MOD), list(a), {}))

CFG = [Cfg(('xa', 'xb'), ('ua',), ('za',), ('pa',), ('ta',), ('ea',), [('ya', True), ('yb', False)], ('xb', 'xa'), ('xb',)),
       Cfg(('xa', 'xb'), ('ua', 'ub'), (), ('pa', 'pb'), (), (), None, None, ('xb', 'xa'), alias=True),
       Cfg(('xa',), (), ('zb', 'za'), (), ('tb', 'ta'), ('eb', 'ea'), [('xa', False)], None, (), mt='discrete'),
       Cfg(('xb', 'xa', 'xc'), ('xa',), ('xa',), ('xa',), ('xa',), (), [('yb', True), ('ya', True)], ('xc', 'xa', 'xb'), ('xc', 'xb'), alias=True),
       Cfg(('xa', 'xb'), ('ua',), ('za',), ('pa',), ('ta',), ('ea',), [('ya', True), ('yb', False)], ('xb', 'xa'), ('xb',), sv='MX')]
refuter = Refuter({}, dom=3)
LEVEL = 'proof'
CONTRACTS = [('Model.set_variable (%s, shape %s, %s)' % (n, s, sv), set_variable(t, n, s, sv), refuter) for t, al in TYPES.items() for n in (t, al) for s, sv in (('none', 'SX'), ('int', 'SX'), ('tuple', 'MX'))]
CONTRACTS += [('Model.%s (noise %s, %s, %s)' % (m, nz, sv, ty), declare(m, nz, sv, ty, kw), refuter) for m, nzs in (('set_rhs', (None, True, False)), ('set_meas', (None, True, False)), ('set_expression', (None,)), ('set_alg', (None,))) for nz in nzs for sv, ty, kw in (('SX', 'SX', True), ('MX', 'MX', False)) + ((('SX', 'DM', True),) if m in ('set_rhs', 'set_alg') else ())]
CONTRACTS += [('Model.setup and pickling (%r)' % g, setup(g), refuter) for g in CFG]
CONTRACTS += [('Model.setup rejects incomplete models (%s, %d)' % (h, i), incomplete(g, h), refuter) for i, g in enumerate(CFG[:4]) for h in ('rhs', 'alg', 'more', 'size') if not (h in ('alg',) and not g.v['_z'])]
CONTRACTS += [('Model rejects wrong arguments', badargs, refuter)]
BOUNDED = {'Model.setup': 'bounded in the number of named variables of each kind (at most three); all sizes, functions and points are symbolic'}
TRUSTED = ['casadi symbols, struct_symSX/struct_symMX/struct_SX/struct_MX, substitute, jacobian and Function construction by their documented contracts (pyvc/specs/mdl.py)']
ASSUMPTIONS = ['the contracts of set_variable, set_rhs, set_meas, set_expression and set_alg hold for every history of earlier calls; those of setup are bounded in the number of variables']
