"""current values, settings and call-order guards of MPC, MHE, simulator and model against a small state machine"""
from bat.util import *
import random, numpy as np, copy, logging, time, warnings
RULE = 'assignments of arrays, vectors, structures, scalars, wrong sizes and wrong types to current values; settings by name (single, several, unknown) on MPC, MHE and simulator; random call orders of the public setup methods before/after preparation and setup; every subset of missing objective, parameter, time-varying parameter and measurement function; inconsistent bounds of every kind'
NPROC = 6
ASSUMPTIONS = ['settings are changed through set_param; direct assignment to the settings object after setup is not guarded by the code and not covered']
def cases(tier, rng):
    out = []; q = tier == 'quick'
    for i in range(120 if q else 2500): out.append({'kind': 'values', 'seed': rng.randrange(10 ** 9), 'obj': rng.choice(['mpc', 'mhe', 'sim', 'est']), 'dim': [rng.choice([1, 1, 2, 3]), rng.choice([1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2])]})
    for i in range(80 if q else 1500): out.append({'kind': 'settings', 'seed': rng.randrange(10 ** 9), 'obj': rng.choice(['mpc', 'mhe', 'sim'])})
    for i in range(110 if q else 2500): out.append({'kind': 'order', 'seed': rng.randrange(10 ** 9), 'obj': rng.choice(['mpc', 'mpc', 'mhe', 'mhe', 'sim', 'model']), 'n': rng.choice([4, 8, 14])})
    for i in range(160 if q else 2500): out.append({'kind': 'valid', 'seed': rng.randrange(10 ** 9), 'obj': rng.choice(['mpc', 'mpc', 'mhe', 'mhe', 'sim'])})
    return out
def model(dim=(2, 1, 1, 1), tvp=1, meas=True, setup=True):
    import do_mpc, casadi as ca
    m = do_mpc.model.Model('discrete', 'SX')
    nx, nu, nz, np_ = dim
    x = m.set_variable('_x', 'a', shape=(nx, 1)); b = m.set_variable('_x', 'b'); u = m.set_variable('_u', 'u', shape=(nu, 1))
    z = m.set_variable('_z', 'z', shape=(nz, 1)) if nz else ca.DM(0); k = m.set_variable('_p', 'k', shape=(np_, 1)) if np_ else ca.DM(1); t = m.set_variable('_tvp', 't') if tvp else ca.DM(0)
    m.set_rhs('a', 0.5 * x + ca.sum1(u) * 0.1 + 0.1 * b); m.set_rhs('b', 0.7 * b + 0.1 * t + 0.1 * ca.sum1(k) * u[0] + 0.01 * ca.sum1(z))
    if nz: m.set_alg('z', z - b)
    if meas: m.set_meas('y', b, meas_noise=True)
    if setup: m.setup()
    return m
def obj(kind, m, p_est=()):
    import do_mpc
    if kind == 'mpc': return do_mpc.controller.MPC(m)
    if kind == 'mhe': return do_mpc.estimator.MHE(m, list(p_est))
    if kind == 'sim': return do_mpc.simulator.Simulator(m)
    return do_mpc.estimator.StateFeedback(m)
def run(c):
    logging.disable(logging.CRITICAL); warnings.simplefilter('ignore')
    sleep = time.sleep; time.sleep = lambda s: None
    try: return globals()[c['kind']](c)
    finally: time.sleep = sleep
def values(c):
    import casadi as ca, casadi.tools as ct
    r = random.Random(c['seed']); g = np.random.default_rng(c['seed']); m = model(c['dim']); dim = c['dim']
    pe = ['k'] if c['obj'] == 'mhe' and dim[3] else []
    o = obj(c['obj'], m, pe)
    n = {'x0': dim[0] + 1, 'u0': dim[1], 'z0': dim[2], 't0': 1}; st = {'x0': m._x, 'u0': m._u, 'z0': m._z}
    if pe: n['p_est0'] = dim[3]; st['p_est0'] = o._p_est
    cur = {k: np.zeros(v) for k, v in n.items()}
    for k in n: close(getattr(o, k), cur[k], 'initial value of %s' % k)
    class T: pass
    for _ in range(25):
        k = r.choice(list(n)); nv = n[k]; v = g.normal(size=nv).round(3); kind = r.choice(['np', 'np1', 'DM', 'struct', 'scalar', 'int', 'wrong', 'wrongDM', 'wrongstruct', 'list', 'str', 'none', 'tuple', 'sym', 'obj', 'row', 'empty', '0d', 'elem'])
        ok = True; val = None
        if kind == 'np': val = v.reshape(-1, 1).copy()
        elif kind == 'np1': val = v.copy()
        elif kind == 'DM': val = ca.DM(v)
        elif kind == 'struct':
            if k == 't0': continue
            val = st[k](ca.DM(v))
        elif kind == 'scalar': ok = nv == 1; val = float(v[0]) if nv else 1.5
        elif kind == 'int': ok = nv == 1; v = np.array([3.0]); val = 3
        elif kind == 'wrong': val = np.ones((nv + r.choice([1, 2]), 1)) if nv < 2 or r.random() < 0.5 else np.ones((nv - 1, 1)); ok = False
        elif kind == 'wrongDM': val = ca.DM.ones(nv + 1, 1); ok = False
        elif kind == 'wrongstruct':
            if k == 't0': continue
            q = [s for s in (m._x, m._u, m._z) if s.size != nv]
            if not q: continue
            val = r.choice(q)(1.0); ok = False
        elif kind == 'list': val = [float(q) for q in v]; ok = False
        elif kind == 'str': val = 'a' * max(nv, 1); ok = False
        elif kind == 'none': val = None; ok = False
        elif kind == 'tuple': val = tuple(v); ok = False
        elif kind == 'sym': val = ca.SX.sym('s', nv); ok = False
        elif kind == 'obj': val = T(); ok = False
        elif kind == 'row': val = v.reshape(1, -1); ok = None if nv != 1 else True
        elif kind == 'empty': val = np.zeros((0, 1)); ok = nv == 0; v = np.zeros(0)
        elif kind == '0d': val = np.array(1.5); v = np.array([1.5]); ok = None if nv == 1 else False
        elif kind == 'elem':
            if k == 't0' or nv == 0: continue
            s = getattr(o, k); i = r.randrange(nv); lab = [(q, j) for q in s.keys() if q != 'default' for j in range(int(np.prod(arr(s[q]).shape)))]
            if len(lab) != nv: continue
            s[lab[i][0], lab[i][1]] = 7.25; cur[k] = cur[k].copy(); cur[k][i] = 7.25; close(getattr(o, k), cur[k], 'assignment of one element of %s' % k); continue
        keep = arr(val).copy() if ok and not isinstance(val, (float, int)) else None
        if ok is False:
            raises(lambda: setattr(o, k, val), '%s = %s (%s)' % (k, kind, getattr(val, 'shape', type(val).__name__)))
        else:
            try: setattr(o, k, val)
            except Exception:
                if ok: raise Violation('%s = %s rejected' % (k, kind))
                close(getattr(o, k), cur[k], '%s unchanged after a rejected assignment' % k); continue
            cur[k] = v.copy()
        for q in n:
            got = getattr(o, q); close(arr(got).ravel(), cur[q], '%s after setting %s with %s' % (q, k, kind))
        if ok and nv and k != 't0': need(isinstance(getattr(o, k), ct.structure3.DMStruct) and list(getattr(o, k).labels()) == list(st[k].labels()), 'type of %s' % k)
        if ok and k == 't0': need(isinstance(o.t0, np.ndarray) and o.t0.shape == (1,), 't0 has the shape of a time')
        if ok and kind in ('np', 'np1') and nv:
            val[0] = 99.0; close(getattr(o, k), cur[k], '%s is not an alias of the assigned object' % k)
def fields(s): return {k: copy.deepcopy(getattr(s, k)) for k in s.__dataclass_fields__}
def settings(c):
    r = random.Random(c['seed']); m = model(); o = obj(c['obj'], m, ['k'] if c['obj'] == 'mhe' else ()); other = obj(c['obj'], m, ['k'] if c['obj'] == 'mhe' else ())
    cur = fields(o.settings); names = list(cur); f0 = fields(other.settings)
    for _ in range(12):
        kw = {}
        for k in r.sample(names, min(len(names), r.choice([1, 1, 2, 3]))):
            v = cur[k]
            kw[k] = (not v) if isinstance(v, bool) else r.choice([1, 2, 5, 0.25]) if v is None or isinstance(v, (int, float)) else r.choice(['radau', 'legendre', 'x']) if isinstance(v, str) else r.choice([['success'], ['iter_count']]) if isinstance(v, list) else {'a': r.randrange(9)}
        bad = {}
        if r.random() < 0.4: bad = {r.choice(['no_such', 'n_horizonn', 'T_step']): 1}
        items = list({**kw, **bad}.items()); r.shuffle(items)
        o.set_param(**copy.deepcopy(dict(items))); cur.update(copy.deepcopy(kw))
        if c['obj'] in ('mpc', 'mhe') and r.random() < 0.4:
            if r.random() < 0.5: o.settings.supress_ipopt_output(); cur['nlpsol_opts'].update({'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0})
            else: n = r.choice(['MA27', 'ma57']); o.settings.set_linear_solver(n); cur['nlpsol_opts']['ipopt.linear_solver'] = n
            if 'nlpsol_opts' in kw: kw['nlpsol_opts'] = cur['nlpsol_opts']
        need(fields(o.settings) == cur, 'settings after set_param(%s): %s, expected %s' % (dict(items), fields(o.settings), cur))
        for b in bad: need(not hasattr(o.settings, b), 'an unknown name adds no setting')
        for k in kw:
            need(getattr(o.settings, k) == kw[k], 'setting %s' % k)
            if hasattr(type(o), k) or k in o.__dict__: need(getattr(o, k) == kw[k] or callable(getattr(o, k)), 'attribute %s of the object follows the setting' % k)
    need(fields(other.settings) == f0, 'another instance keeps its settings')
    k = r.choice(names); v = cur[k]
    if isinstance(v, bool): setattr(o.settings, k, not v); cur[k] = not v; need(fields(o.settings) == cur, 'direct assignment changes exactly that setting')
def conf(o, kind, m, pe, miss=(), N=2):
    import casadi as ca, do_mpc
    if kind in ('mpc', 'mhe'): o.set_param(n_horizon=N, t_step=1.0, nlpsol_opts={'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0})
    else: o.set_param(t_step=1.0)
    if kind == 'mpc':
        if 'obj' not in miss: o.set_objective(mterm=m.x['b'] ** 2, lterm=ca.sumsqr(m.x['a']) + m.x['b'] ** 2)
        o.set_rterm(u=0.1)
        if 'tvp' not in miss: t = o.get_tvp_template(); o.set_tvp_fun(lambda _: t)
        if 'p' not in miss:
            if m.n_p: p = o.get_p_template(1); o.set_p_fun(lambda _: p)
    elif kind == 'mhe':
        if 'obj' not in miss: o.set_default_objective(np.eye(m.n_x), np.eye(m.n_v), np.eye(o._p_est.size) if pe else None)
        if 'tvp' not in miss: t = o.get_tvp_template(); o.set_tvp_fun(lambda _: t)
        if 'p' not in miss: p = o.get_p_template(); o.set_p_fun(lambda _: p)
        o.set_param(meas_from_data='y' not in miss)
    else:
        if 'tvp' not in miss: t = o.get_tvp_template(); o.set_tvp_fun(lambda _: t)
        if 'p' not in miss: p = o.get_p_template(); o.set_p_fun(lambda _: p)
def valid(c):
    r = random.Random(c['seed']); kind = c['obj']; tv = r.choice([0, 1]); np_ = r.choice([0, 1, 2]); m = model((r.choice([1, 2]), 1, r.choice([0, 1]), np_), tvp=tv); npar = np_
    pe = ['k'] if kind == 'mhe' and np_ and r.random() < 0.5 else []
    o = obj(kind, m, pe); miss = [q for q in (['obj', 'tvp', 'p', 'y'] if kind == 'mhe' else ['obj', 'tvp', 'p'] if kind == 'mpc' else ['tvp', 'p']) if r.random() < 0.12]
    conf(o, kind, m, pe, miss); bad = ('obj' in miss) or ('y' in miss) or ('tvp' in miss and tv) or ('p' in miss and (npar and not pe))
    if kind != 'sim' and r.random() < 0.75:
        vs = [('_x', 'a'), ('_x', 'b'), ('_u', 'u')] + ([('_z', 'z')] if m.n_z else []) + ([('_p_est', 'k')] if pe else []) + ([('T', 'b'), ('T', 'a')] if kind == 'mpc' else [])
        t, n = r.choice(vs); lo, hi = r.choice([(-1, 1), (1, 1), (2, 1), (0.5, 0.25), (-2, -3), (1, -1), (0, -2), (5, 0), (-np.inf, 3), (1, -np.inf), (np.inf, 2), (1, np.inf)])
        size = {'a': m._x['a'].shape[0]}.get(n, 1); idx = r.randrange(size)
        if t == 'T':
            if r.random() < 0.5: o.set_param(use_terminal_bounds=True)
            o.terminal_bounds['lower', n] = np.where(np.arange(size) == idx, lo, -9.0); o.terminal_bounds['upper', n] = np.where(np.arange(size) == idx, hi, 9.0)
            if o.settings.use_terminal_bounds and lo > hi: bad = True
            elif lo > hi: bad = None
        elif t == '_p_est': o.bounds['lower', t, n] = np.where(np.arange(npar) == min(idx, npar - 1), lo, -9.0); o.bounds['upper', t, n] = np.where(np.arange(npar) == min(idx, npar - 1), hi, 9.0); bad = bad or lo > hi
        else: o.bounds['lower', t, n] = np.where(np.arange(size) == idx, lo, -9.0); o.bounds['upper', t, n] = np.where(np.arange(size) == idx, hi, 9.0); bad = bad or lo > hi
    if r.random() < 0.15: o.settings.t_step = None; bad = True
    elif kind != 'sim' and r.random() < 0.1: o.settings.n_horizon = None; bad = True
    if bad is None: return
    if bad:
        raises(o.setup, 'setup with missing %s or inconsistent bounds' % miss)
        need(o.flags['setup'] is False, 'a failed setup does not mark the object as set up')
        raises(lambda: o.make_step(np.zeros((m.n_x if kind == 'mpc' else m.n_y if kind == 'mhe' else m.n_u, 1))), 'a step after a failed setup')
    else: o.setup(); need(o.flags['setup'] is True, 'setup succeeds')
def order(c):
    import casadi as ca
    r = random.Random(c['seed']); kind = c['obj']
    if kind == 'model': return order_model(c, r)
    m = model((r.choice([1, 2]), 1, r.choice([0, 1]), 1)); pe = ['k'] if kind == 'mhe' and r.random() < 0.5 else []
    o = obj(kind, m, pe); conf(o, kind, m, pe)
    if kind != 'sim': o.bounds['lower', '_x', 'b'] = -5
    state = {'prep': False, 'setup': False}
    step = {'mpc': lambda: o.make_step(np.zeros((m.n_x, 1))), 'mhe': lambda: o.make_step(np.zeros((m.n_y, 1))), 'sim': lambda: o.make_step(np.zeros((m.n_u, 1)))}[kind]
    def snap():
        d = fields(o.settings)
        if kind != 'sim': d['scal'] = [arr(getattr(o, k)).tolist() for k in ('_x_scaling', '_u_scaling', '_z_scaling')]; d['nl'] = len(o.nl_cons_list)
        if kind == 'mpc': d['obj'] = str(o.lterm) + str(o.mterm) + str(arr(o.rterm_factor).tolist()); d['rt'] = o.flags['set_rterm']
        if kind == 'mhe': d['obj'] = str(getattr(o, 'stage_cost', None)) + str(getattr(o, 'arrival_cost', None))
        if state['setup'] and kind != 'sim': d['J'] = str(o._nlp_obj)[:2000]; d['G'] = o._nlp_cons.shape
        return d
    ops = {'set_param': (lambda: o.set_param(t_step=r.choice([1.0, 2.0])), lambda: not state['setup']), 'step': (step, lambda: state['setup']),
           'guess': (lambda: o.set_initial_guess(), lambda: state['setup'])}
    if kind == 'sim': ops['sim'] = (lambda: o.simulate(), lambda: state['setup'])
    else:
        ops.update({'obj': (lambda: o.nlp_obj, lambda: state['prep']), 'cons': (lambda: o.nlp_cons, lambda: state['prep']), 'lb': (lambda: o.nlp_cons_lb, lambda: state['prep']), 'ub': (lambda: o.nlp_cons_ub, lambda: state['prep']),
                    'wobj': (lambda: setattr(o, 'nlp_obj', o._nlp_obj + o._opt_x['_x', 0, 0, 0, 'b'] ** 2 if kind == 'mpc' else o._nlp_obj + o._opt_x['_x', 0, -1, 'b'] ** 2), lambda: state['prep'] and not state['setup']),
                    'wcons': (lambda: setattr(o, 'nlp_cons', o._nlp_cons), lambda: state['prep'] and not state['setup']),
                    'solve': (lambda: o.solve(), lambda: state['setup']), 'scal': (lambda: o.scaling.__setitem__(('_x', 'b'), r.choice([1.0, 2.0])), lambda: not state['setup']),
                    'nl': (lambda: o.set_nl_cons('c%d' % r.randrange(10 ** 6), m.x['b'] ** 2, ub=50.0), lambda: not state['setup']),
                    'lbx': (lambda: o.lb_opt_x['_x'], lambda: state['prep']), 'ubx': (lambda: o.ub_opt_x['_x'], lambda: state['prep'])})
        if kind == 'mpc':
            ops['objective'] = (lambda: o.set_objective(mterm=m.x['b'] ** 2, lterm=r.choice([2, 3]) * m.x['b'] ** 2), lambda: not state['setup'])
            ops['rterm'] = (lambda: o.set_rterm(u=r.choice([0.1, 0.5])), lambda: not state['setup'])
            ops['rterm2'] = (lambda: o.set_rterm(rterm=(m.u['u'] - o.u_prev['u']) ** 2 if False else m.u['u'] ** 2), lambda: False if state['setup'] else None)
        else: ops['objective'] = (lambda: o.set_default_objective(np.eye(m.n_x), np.eye(m.n_v), np.eye(1) if pe else None), lambda: not state['setup'])
        # reads before the preparation
    seq = [r.choice(list(ops)) for _ in range(c['n'])]; at = r.randrange(len(seq)); prep = r.random() < 0.5 and kind != 'sim'
    for i, q in enumerate(seq):
        if i == at and prep and not state['prep']: o.prepare_nlp(); state['prep'] = True
        if (i == at + 1 and prep) or (i == at and not prep):
            if not state['setup']:
                if prep: o.create_nlp()
                else: o.setup()
                state.update(prep=True, setup=True)
        f, ok = ops[q]; allowed = ok()
        if allowed is None or (q in ('rterm2',) and not state['setup']): continue
        if allowed is True and q in ('set_param', 'scal', 'nl', 'objective', 'rterm') and state['prep'] and not state['setup']: continue   # between preparation and creation
        if q in ('lbx', 'ubx') and not allowed:
            raises(f, '%s before the preparation' % q); continue
        if q == 'solve' and state['setup']: continue
        if allowed: f()
        else:
            s = snap(); raises(f, '%s in state %s' % (q, state)); need(snap() == s, 'the rejected call %s changed the configuration' % q)
def order_model(c, r):
    import do_mpc, casadi as ca
    m = model(setup=False); x = m._x['var'] if False else None
    if r.random() < 0.5:
        for cls in (do_mpc.controller.MPC, do_mpc.estimator.MHE, do_mpc.simulator.Simulator, do_mpc.estimator.StateFeedback): raises(lambda: cls(m), '%s of a model that was not set up' % cls.__name__)
    m.setup(); n = (m.n_x, m.n_u, m.n_z, m.n_y, m.n_p, m.n_tvp, m._x.labels(), str(m._rhs.cat), str(m._alg.cat))
    ops = [lambda: m.set_variable('_x', 'new'), lambda: m.set_variable('_u', 'new'), lambda: m.set_variable('_p', 'new'), lambda: m.set_variable('_tvp', 'new'), lambda: m.set_variable('_z', 'new'), lambda: m.set_expression('e', m.x['b']), lambda: m.set_rhs('a', m.x['a']), lambda: m.set_rhs('b', m.x['b'] * 2), lambda: m.set_alg('al', m.z['z']), lambda: m.set_meas('yy', m.x['b'])]
    for _ in range(c['n']):
        raises(r.choice(ops), 'a change of the model after setup')
        need((m.n_x, m.n_u, m.n_z, m.n_y, m.n_p, m.n_tvp, m._x.labels(), str(m._rhs.cat), str(m._alg.cat)) == n, 'a rejected call changed the model')
