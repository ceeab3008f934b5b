"""C24: current values, settings, guards and validity checks, for every model dimension and every combination of flags."""
from .step import *
from . import mpcnlp
XT = {'x0': '_x', 'u0': '_u', 'z0': '_z', 'p_est0': '_p_est'}
bad = I('n_bad')

def holder(ctx, cls):
    """object with the four current values"""
    it = ctx.it
    it.base_facts += DIMFACTS + [DIMS.setdefault('_p_est', I('n_p_est')) >= 0, bad >= 0]
    W = World(it); W.L.setdefault('_p_est', Layout('_p_est', None, mkint(DIMS['_p_est'])))
    m = model(it, W)
    me = PObj(it.find(cls), name='obj'); a = me.attrs
    a['model'] = m
    if cls.endswith(':MHE'): a['_p_est'] = W.st('_p_est')
    for k, v in XT.items(): a['_' + k] = W.st(v, 'old_' + k, 'num')
    a['_t0'] = Term('sym', ('old_t0',), 1, 1, 'ndarray')
    return it, W, me

def thing():
    o = PObj(LibType('thing'), name='thing'); o.closed = True
    return o
def snapshot(a): return {k: (id(v), struct_whole(v) if isinstance(v, PStruct) else v) for k, v in a.items()}
def untouched(ctx, a, s0, name, but=()):
    for k, (i, v) in s0.items():
        if k in but: continue
        if k not in a: ctx.fail('%s: %s unchanged' % (name, k), 'attribute removed'); continue
        w = a[k]
        if isinstance(v, Term): ctx.eq('%s: %s unchanged' % (name, k), struct_whole(w) if isinstance(w, PStruct) else vec2(w), v)
        else: ctx.true('%s: %s unchanged' % (name, k), w is v or (not isinstance(v, (PObj, PDict, PList)) and w == v), 'attribute replaced')

def value(W, attr, kind):
    k = XT[attr]; n = DIMS[k]
    if kind in ('ndarray', 'DM'): return Term('sym', ('val',), n, 1, kind), Term('sym', ('val',), n, 1)
    if kind == 'flat': return PArr([mkint(n)], lambda q: Term('call', ('val', q[0]), 1, 1)), None
    if kind == 'struct': return W.st(k, 'val', 'num'), Term('sym', ('val',), n, 1)
    if kind in ('float', 'int'): return (2.5 if kind == 'float' else 3), Term('c', (Fraction(5, 2) if kind == 'float' else Fraction(3),), 1, 1)
    raise ValueError(kind)

def assign_ok(cls, attr, kind):
    def run(ctx):
        it, W, me = holder(ctx, cls); a = me.attrs
        if kind in ('float', 'int'): it.base_facts.append(DIMS[XT[attr]] == 1)
        v, want = value(W, attr, kind)
        s0 = snapshot(a)
        try: it.setattr(me, attr, v)
        except PyEx as ex: return ctx.fail('accepts a value of matching size', str(ex))
        r = it.getattr(me, attr)
        ctx.true('the value is a structure of that variable', isinstance(r, PStruct) and r.layout is W.L[XT[attr]], show(r))
        ctx.eq('returned with exactly the assigned values', struct_whole(r), want)
        untouched(ctx, a, s0, 'assignment', ('_' + attr,))
    return run

def assign_bad(cls, attr, kind):
    def run(ctx):
        it, W, me = holder(ctx, cls); a = me.attrs; k = XT[attr]; n = DIMS[k]
        if kind in ('float', 'int'): it.base_facts.append(n != 1); v = 2.5 if kind == 'float' else 3
        elif kind in ('ndarray', 'DM'): it.base_facts.append(bad != n); v = Term('sym', ('val',), bad, 1, kind)
        elif kind == 'struct':
            it.base_facts.append(bad != n); v = PStruct(Layout('other', None, mkint(bad)), 'num', whole=Term('sym', ('val',), bad, 1), name='val')
        elif kind == 'SX': v = Term('sym', ('val',), n, 1, 'SX')
        elif kind == 'list': v = PList(elems=[1.0, 2.0])
        elif kind == 'str': v = 'abc'
        elif kind == 'None': v = None
        elif kind == 'object': v = thing()
        s0 = snapshot(a)
        try: it.setattr(me, attr, v)
        except PyEx: return untouched(ctx, a, s0, 'rejected assignment')
        ctx.fail('anything else is rejected', '%s accepted' % kind)
    return run

def t0_ok(kind):
    def run(ctx):
        it, W, me = holder(ctx, 'do_mpc.model._iteratedvariables:IteratedVariables'); a = me.attrs
        v, want = {'float': (2.5, Term('c', (Fraction(5, 2),), 1, 1)), 'int': (3, C(3))}.get(kind, (Term('sym', ('val',), 1, 1, kind), Term('sym', ('val',), 1, 1)))
        s0 = snapshot(a)
        try: it.setattr(me, 't0', v)
        except PyEx as ex: return ctx.fail('accepts a time', str(ex))
        ctx.eq('returned with exactly the assigned time', vec(it.getattr(me, 't0')), want)
        untouched(ctx, a, s0, 'assignment of the time', ('_t0',))
    return run

def t0_bad(kind):
    def run(ctx):
        it, W, me = holder(ctx, 'do_mpc.model._iteratedvariables:IteratedVariables'); a = me.attrs
        it.base_facts.append(bad != 1)
        v = {'list': PList(elems=[1.0]), 'str': 'a', 'None': None, 'object': thing()}.get(kind) if kind not in ('ndarray', 'DM') else Term('sym', ('val',), bad, 1, kind)
        s0 = snapshot(a)
        try: it.setattr(me, 't0', v)
        except PyEx: return untouched(ctx, a, s0, 'rejected time')
        ctx.fail('anything else is rejected', '%s accepted' % kind)
    return run

# ------------------------------------------------------------------ settings
OBJS = {'mpc': ('do_mpc.controller._mpc:MPC', 'do_mpc.controller._controllersettings:MPCSettings'), 'mhe': ('do_mpc.estimator._mhe:MHE', 'do_mpc.estimator._estimatorsettings:MHESettings'),
        'simulator': ('do_mpc.simulator:Simulator', 'do_mpc.simulator:SimulatorSettings'), 'continuous simulator': ('do_mpc.simulator:Simulator', 'do_mpc.simulator:ContinousSimulatorSettings'),
        'lqr': ('do_mpc.controller._lqr:LQR', 'do_mpc.controller._controllersettings:LQRSettings')}
GUARDED = [k for k in OBJS if k != 'lqr']
def fields_of(cls):
    out = []
    for c in reversed(cls.mro()):
        for f in c.fields:
            n = f[0] if isinstance(f, tuple) else f
            if n not in out: out.append(n)
    return out
def settings_obj(ctx, kind, setup):
    it = ctx.it; c, s = OBJS[kind]
    me = PObj(it.find(c), name=kind); st = PObj(it.find(s), name='settings')
    names = fields_of(st.cls)
    if len(names) < 1: raise Unsupported('no settings found')
    for n in names: st.attrs[n] = PObj(LibType('old'), name='old ' + n)
    me.attrs['flags'] = PDict({'setup': setup}); me.attrs['settings' if kind in ('mhe', 'lqr') else '_settings'] = st
    return it, me, st, names
def settings(kind, group):
    """changing the named settings: singles, pairs, all; unknown names in between"""
    def run(ctx):
        it, me, st, names = settings_obj(ctx, kind, False)
        sets = {'each': [[n] for n in names], 'pairs': [[p, q] for p in names for q in names if p < q], 'all': [names], 'unknown': [['no_such_setting'] + names[:1], names[:1] + ['no_such_setting'], ['no_such_setting']]}[group]
        for g in sets:
            before = dict(st.attrs); others = {k: v for k, v in me.attrs.items()}
            kw = {n: PObj(LibType('new'), name='new ' + n) for n in g}
            try: it.call(it.getattr(me, 'set_param'), [], dict(kw))
            except PyEx as ex:
                if 'no_such_setting' in g: continue      # rejecting unknown names would be stricter than ignoring them
                ctx.fail('settings %s are accepted' % g, str(ex)); continue
            want = dict(before); want.update({k: v for k, v in kw.items() if k in before})
            ctx.true('exactly the named settings change (%s)' % ', '.join(g), st.attrs.keys() == want.keys() and all(st.attrs[k] is want[k] for k in want), 'changed: %s' % [k for k in set(want) | set(st.attrs) if st.attrs.get(k) is not want.get(k)])
            ctx.true('nothing else changes (%s)' % ', '.join(g), me.attrs.keys() == others.keys() and all(me.attrs[k] is others[k] for k in others), 'attributes of the object')
            for n in g:
                if n in before and (isinstance(me.cls.lookup(n), PProp)): ctx.true('attribute %s follows the setting' % n, it.getattr(me, n) is kw[n], 'property')
    return run
def solver_options(kind, op):
    """the helpers of the settings change exactly the solver options they name; repeated and in any state of the options"""
    def run(ctx):
        it, me, st, names = settings_obj(ctx, kind, False)
        old = PObj(LibType('old'), name='old option')
        for pre in ({}, {'ipopt.max_iter': old}, {'ipopt.max_iter': old, 'ipopt.print_level': old, 'ipopt.linear_solver': old, 'print_time': old, 'ipopt.sb': old}):
            d = PDict(dict(pre)); st.attrs['nlpsol_opts'] = d; before = dict(st.attrs); n = 'MA57'
            for rep in range(2):
                it.call(it.getattr(st, op), [], {} if op == 'supress_ipopt_output' else {'solver_name': n})
                new = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0} if op == 'supress_ipopt_output' else {'ipopt.linear_solver': n}
                got = st.attrs['nlpsol_opts']
                want = dict(pre); want.update(new)
                ctx.true('exactly the named solver options change', isinstance(got, PDict) and got.d.keys() == want.keys() and all(got.d[k] is want[k] or (got.d[k] == want[k] and not isinstance(want[k], PObj)) for k in want), '%s' % got)
                ctx.true('no other setting changes', st.attrs.keys() == before.keys() and all(st.attrs[k] is before[k] for k in before if k != 'nlpsol_opts'), '')
    return run
def settings_separate(kind):
    """the settings of two objects do not share state: changing the options of one leaves the other's"""
    def run(ctx):
        it = ctx.it; c = it.find(OBJS[kind][1])
        a, b, e = [it.call(c, [], {}) for _ in range(3)]
        ctx.true('fresh solver options are empty', all(isinstance(x.attrs['nlpsol_opts'], PDict) and not x.attrs['nlpsol_opts'].d for x in (a, b, e)), '')
        it.call(it.getattr(a, 'supress_ipopt_output'), [], {}); it.call(it.getattr(b, 'set_linear_solver'), [], {'solver_name': 'MA97'})
        opts = lambda x: dict(x.attrs['nlpsol_opts'].d)
        ctx.true('options of separate objects are separate', (opts(a), opts(b), opts(e), opts(it.call(c, [], {}))) == ({'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}, {'ipopt.linear_solver': 'MA97'}, {}, {}), '%s' % [opts(x) for x in (a, b, e)])
        la, lb = a.attrs['store_solver_stats'], b.attrs['store_solver_stats']
        ctx.true('lists of separate objects are separate', la is not lb, '')
    return run
def settings_after(kind):
    def run(ctx):
        it, me, st, names = settings_obj(ctx, kind, True)
        for n in names + ['no_such_setting']:
            before = dict(st.attrs)
            try: it.call(it.getattr(me, 'set_param'), [], {n: PObj(LibType('new'), name='new')})
            except PyEx:
                ctx.true('setting %s unchanged after setup' % n, st.attrs.keys() == before.keys() and all(st.attrs[k] is before[k] for k in before), 'changed'); continue
            ctx.fail('setting %s after setup is rejected' % n, 'accepted')
    return run

# ------------------------------------------------------------------ guards
def optimizer(ctx, kind, setup, prepared):
    if kind == 'mpc': it, W, m, me = prestate(ctx, {})
    elif kind == 'mhe': it, W, m, me = mhe_prestate(ctx, {})
    a = me.attrs
    it.setitem(a['flags'], 'setup', setup); it.setitem(a['flags'], 'prepare_nlp', prepared)
    a.update(nl_cons_list=PList([]), slack_vars_list=PList([]), _nlp_obj=Term('sym', ('obj',), 1, 1, 'SX'), _nlp_cons=PList([]), _nlp_cons_lb=PList([]), _nlp_cons_ub=PList([]))
    for k in ('_opt_x', '_opt_p', '_opt_aux'): a[k] = PObj(LibType('x'), name=k)
    return it, W, m, me
SX = lambda n: Term('sym', (n,), 1, 1, 'SX')
def ops(kind, it, me):
    g = lambda f, *x, **k: (lambda: it.call(it.getattr(me, f), list(x), k))
    out = {'set_nl_cons': g('set_nl_cons', 'c', SX('expr'), 1.0), 'scaling': lambda: it.setitem(it.getattr(me, 'scaling'), ('_x', 'nm'), 2.0),
           'set_param': g('set_param', n_horizon=3)}
    if kind == 'mpc':
        out.update({'set_objective': g('set_objective', SX('mterm'), SX('lterm')), 'set_rterm': g('set_rterm', SX('rterm')), 'set_rterm (factors)': g('set_rterm', u=1.0)})
    else:
        out.update({'set_objective': g('set_objective', SX('stage'), SX('arrival'))})
    for p in ('nlp_obj', 'nlp_cons'): out['assign ' + p] = lambda p=p: it.setattr(me, p, SX('new'))
    return out
def shallow(it, me):
    def f(v):
        if isinstance(v, PStruct): return ('s', id(v), len(v.log), show(struct_whole(v)) if v.layout.entries is None else None)
        if isinstance(v, PDict): return ('d', id(v), tuple(sorted((str(k), id(x)) for k, x in v.d.items())))
        if isinstance(v, PList): return ('l', id(v), len(v.segs))
        if isinstance(v, PObj) and v.name == 'settings': return ('o', id(v), tuple(sorted((k, id(x)) for k, x in v.attrs.items())))
        return ('v', id(v))
    return {k: f(v) for k, v in me.attrs.items()}
def after_setup_rejected(kind, op):
    def run(ctx):
        it, W, m, me = optimizer(ctx, kind, True, True)
        it.base_facts += [z3.Bool('key:nm in _x'), z3.Bool('key:(nm) in _x')]
        s0 = shallow(it, me)
        try: ops(kind, it, me)[op]()
        except PyEx:
            s1 = shallow(it, me)
            return ctx.true('rejected %s changes nothing' % op, s0 == s1, '%s' % [k for k in set(s0) | set(s1) if s0.get(k) != s1.get(k)])
        ctx.fail('%s after setup is rejected' % op, 'accepted')
    return run
PROPS = ('nlp_obj', 'nlp_cons', 'nlp_cons_lb', 'nlp_cons_ub')
STRUCTS = ('opt_x', 'opt_p', 'opt_x_num', 'opt_p_num')
def before_prepare(kind, p):
    def run(ctx):
        it, W, m, me = optimizer(ctx, kind, False, False)
        try: it.getattr(me, p)
        except PyEx: ctx.ok('%s before preparation is rejected' % p)
        else: ctx.fail('%s before preparation is rejected' % p, 'returned a value')
        old = me.attrs['_' + p]
        try: it.setattr(me, p, SX('new'))
        except PyEx: ctx.true('assigning %s before preparation changes nothing' % p, me.attrs['_' + p] is old, 'changed')
        else: ctx.fail('assigning %s before preparation is rejected' % p, 'accepted')
    return run
def after_prepare(kind, p):
    def run(ctx):
        it, W, m, me = optimizer(ctx, kind, False, True)
        ctx.true('%s after preparation is the problem data' % p, it.getattr(me, p) is me.attrs['_' + p], 'other value')
    return run

def struct_before(kind, p):
    """representation invariant: before preparation the attribute _opt_x (...) does not exist"""
    def run(ctx):
        it, W, m, me = optimizer(ctx, kind, False, False)
        for k in list(me.attrs):
            if k.lstrip('_').startswith('opt_'): del me.attrs[k]
        try: it.getattr(me, p)
        except PyEx: return ctx.ok('%s before preparation is rejected' % p)
        ctx.fail('%s before preparation is rejected' % p, 'returned a value')
    return run

# ------------------------------------------------------------------ validity checks
def validity(kind):
    """setup fails exactly if something is missing or inconsistent; otherwise missing functions default to constant zero"""
    def run(ctx):
        Bo = lambda n: z3.Bool(n)
        if kind == 'mpc': it, W, m, me = prestate(ctx, {})
        elif kind == 'mhe': it, W, m, me = mhe_prestate(ctx, {})
        else:
            from . import c10
            w = c10.simulator(ctx, {'type': kind.split()[0]}); it, W, m, me = w.it, w.W, w.m, w.me
        a = me.attrs; it.contracts.pop('*._check_validity', None)
        fl = ['set_tvp_fun', 'set_p_fun'] + {'mpc': ['set_objective', 'set_rterm'], 'mhe': ['set_objective', 'set_y_fun']}.get(kind, [])
        for f in fl: it.setitem(a['flags'], f, SBool(Bo(f)))
        # representation invariant of the object: the function is an attribute iff its flag is set
        have = {}
        for k in ('tvp_fun', 'p_fun') + (('y_fun',) if kind == 'mhe' else ()):
            have[k] = it.decide(SBool(Bo('set_' + k)))
            a.pop(k, None)
            if have[k]: a[k] = PObj(LibType('fun'), name=k)
        keys = {'mpc': ('_x', '_u', '_z', '_x_terminal'), 'mhe': ('_x', '_u', '_z', '_p_est')}.get(kind, ())
        if keys: consistent_bounds(it, a, keys, facts=False)
        st = a['_settings'].attrs
        if kind == 'mpc':
            st['use_terminal_bounds'] = SBool(Bo('use_terminal_bounds')); st['t_step'] = None if it.decide(SBool(Bo('no t_step'))) else Term('sym', ('t_step',), 1, 1)
            def cmp_inf(it, op, x, y): return NotImplemented
        if kind == 'mhe': st['meas_from_data'] = SBool(Bo('meas_from_data'))
        if kind not in ('mpc', 'mhe'): st['t_step'] = None if it.decide(SBool(Bo('no t_step'))) else Term('sym', ('t_step',), 1, 1)
        dt, dp = DIMS['_tvp'], DIMS['_p_set'] if kind == 'mhe' else DIMS['_p']
        A, O, N_ = z3.And, z3.Or, z3.Not
        fail = [A(N_(Bo('set_tvp_fun')), dt > 0), A(N_(Bo('set_p_fun')), dp > 0)]
        if kind in ('mpc', 'mhe'): fail.append(N_(Bo('set_objective')))
        for k in keys: fail.append(Bo('bad:' + k) if k != '_x_terminal' else A(Bo('use_terminal_bounds'), Bo('bad:eff')))
        if kind == 'mhe': fail.append(A(N_(Bo('set_y_fun')), N_(Bo('meas_from_data'))))
        if kind not in ('mpc', 'mhe'): fail.append(Bo('no t_step'))
        tpl = Rec(it)
        for q in ('get_tvp_template', 'get_p_template', 'get_y_template'):
            def tm(it, args, kw, q=q):
                o = PObj(LibType('structure3.DMStruct'), name=q); o.attrs['labels'] = LibFn('labels', lambda it, x, kw: 'labels ' + q); tpl.add((q, args[1:])); return o
            it.contracts['*.' + q] = tm
        if kind == 'mpc':
            # terminal bounds: unset bounds default to the state bounds
            import pyvc.lib as lib
            unset = {b: Bo('unset:' + b) for b in ('lb', 'ub')}
            prev = it.lib.hooks['compare']
            def cmp(it, op, x, y):
                if isinstance(x, PObj) and str(x.attrs.get('bv', '')).startswith('_x_terminal') and isinstance(op, ast.Eq) and isinstance(y, (int, float, Term)):
                    return SBool(unset[x.attrs['bv'][-2:]])
                if isinstance(x, PObj) and isinstance(y, PObj) and 'bv' in x.attrs and 'bv' in y.attrs and isinstance(op, (ast.Gt, ast.Lt)):
                    p, q = x.attrs['bv'], y.attrs['bv']
                    if isinstance(op, ast.Lt): p, q = q, p
                    if p.startswith('_x') and q.startswith('_x') and (p[-2:], q[-2:]) == ('lb', 'ub') and (p.startswith('_x_t') or q.startswith('_x_t')): return SBool(Bo('bad:%s>%s' % (p, q)))
                return prev(it, op, x, y)
            it.lib.hooks['compare'] = cmp
            lb, ub = it.decide(SBool(unset['lb'])), it.decide(SBool(unset['ub']))
            eff = ('_x_lb' if lb else '_x_terminal_lb', '_x_ub' if ub else '_x_terminal_ub')
            ctx.extra.append(Bo('bad:eff') == (Bo('bad:_x') if eff == ('_x_lb', '_x_ub') else Bo('bad:_x_terminal') if eff == ('_x_terminal_lb', '_x_terminal_ub') else Bo('bad:%s>%s' % eff)))
            ctx.extra.append(Bo('bad:_x_terminal') == Bo('bad:_x_terminal_lb>_x_terminal_ub'))
        def set_y(it, args, kw): it.setattr(args[0], 'y_fun', args[1]); it.setitem(args[0].attrs['flags'], 'set_y_fun', True)
        if kind == 'mhe': it.contracts['*.set_y_fun'] = set_y
        try: it.call(it.getattr(me, '_check_validity'), [], {})
        except PyEx as ex:
            return ctx.oblige('setup fails only if something is missing or inconsistent', O(*fail))
        ctx.oblige('missing or inconsistent data makes setup fail', N_(O(*fail)))
        for k in have:
            v = a.get(k)
            if have[k]: ctx.true('the function %s given by the user stays' % k, isinstance(v, PObj) and v.name == k, 'replaced'); continue
            if k == 'y_fun': continue
            if v is None: ctx.fail('missing function %s gets a default' % k, 'not set'); continue
            r = it.call(v, [Term('sym', ('t_any',), 1, 1)], {})
            ctx.true('default %s returns the template' % k, isinstance(r, PObj) and r.name == 'get_%s_template' % k[:-4], 'returns %s' % show(r))
    return run

refuter = Refuter({}, dom=4)
IV = 'do_mpc.model._iteratedvariables:IteratedVariables'; MH = 'do_mpc.estimator._mhe:MHE'
CONTRACTS = []
for at in XT:
    c_ = MH if at == 'p_est0' else IV
    CONTRACTS += [('assign %s: %s' % (at, k), assign_ok(c_, at, k), refuter) for k in ('ndarray', 'DM', 'struct', 'float', 'int')]
    CONTRACTS += [('assign %s: invalid %s' % (at, k), assign_bad(c_, at, k), refuter) for k in ('ndarray', 'DM', 'struct', 'float', 'int', 'SX', 'list', 'str', 'None', 'object')]
CONTRACTS += [('assign t0: %s' % k, t0_ok(k), refuter) for k in ('ndarray', 'DM', 'float', 'int')] + [('assign t0: invalid %s' % k, t0_bad(k), refuter) for k in ('ndarray', 'DM', 'list', 'str', 'None', 'object')]
CONTRACTS += [('%s.set_param: %s' % (k, g), settings(k, g), refuter) for k in OBJS for g in ('each', 'pairs', 'all', 'unknown') if (k, g) != ('simulator', 'pairs')] + [('%s settings of two objects' % k, settings_separate(k), refuter) for k in ('mpc', 'mhe')] + [('%s settings: %s' % (k, op), solver_options(k, op), refuter) for k in ('mpc', 'mhe') for op in ('supress_ipopt_output', 'set_linear_solver')]
CONTRACTS += [('%s.set_param after setup' % k, settings_after(k), refuter) for k in GUARDED]
CONTRACTS += [('%s: %s after setup' % (k, o), after_setup_rejected(k, o), refuter) for k in ('mpc', 'mhe') for o in (['set_nl_cons', 'scaling', 'set_param', 'set_objective', 'assign nlp_obj', 'assign nlp_cons'] + (['set_rterm', 'set_rterm (factors)'] if k == 'mpc' else []))]
CONTRACTS += [('%s: %s before preparation' % (k, p), before_prepare(k, p), refuter) for k in ('mpc', 'mhe') for p in PROPS] + [('%s: %s after preparation' % (k, p), after_prepare(k, p), refuter) for k in ('mpc', 'mhe') for p in PROPS]
CONTRACTS += [('%s: %s before preparation' % (k, p), struct_before(k, p), refuter) for k in ('mpc', 'mhe') for p in STRUCTS]
CONTRACTS += [('%s._check_validity' % k, validity(k), refuter) for k in ('mpc', 'mhe', 'discrete simulator', 'continuous simulator')]

def setup_checks(kind):
    """a failing validity check makes preparation and setup fail"""
    def run(ctx):
        if kind == 'mpc': it, W, m, me = prestate(ctx, {})
        elif kind == 'mhe': it, W, m, me = mhe_prestate(ctx, {})
        else:
            from . import c10
            w = c10.simulator(ctx, {'type': kind.split()[0]}); it, me = w.it, w.me
        def no(it, args, kw): raise PyEx('Exception', ('invalid',))
        it.contracts['*._check_validity'] = no
        f0 = dict(me.attrs['flags'].d)
        try: it.call(it.getattr(me, 'setup'), [], {})
        except PyEx: return ctx.true('failed setup leaves the object not set up', all(me.attrs['flags'].d.get(k) == f0.get(k) for k in ('setup', 'prepare_nlp')), 'flags changed')
        ctx.fail('inconsistent data makes setup fail', 'setup succeeded')
    return run
CONTRACTS += [('%s.setup runs the validity check' % k, setup_checks(k), refuter) for k in ('mpc', 'mhe', 'discrete simulator', 'continuous simulator')]
from . import c06 as _c06, c09 as _c09, c10 as _c10
CONTRACTS += [x for x in _c06.CONTRACTS + _c09.CONTRACTS + _c10.CONTRACTS if 'make_step' in x[0] and ('before setup' in x[0] or 'wrong size' in x[0] or 'with a list' in x[0] or 'with None' in x[0])]
