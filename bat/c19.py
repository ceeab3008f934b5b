"""saving and loading results in a scratch folder that may already contain files"""
from bat.util import *
import random, os, numpy as np, pickle
ALARM = 60
RULE = 'random sequences of saves (any selection and order of controller, simulator and the estimators, names, folders incl. nested new ones, overwriting or not) into folders with existing results; every file of the folder is compared before and after each save, loading is compared with the saved data'
def cases(tier, rng):
    out = []
    for i in range(40 if tier == 'quick' else 500):
        r = random.Random(rng.randrange(10 ** 9)); st = []
        for _ in range(r.choice([2, 4, 8, 12])):
            k = r.choice(['save'] * 8 + ['bad'])
            objs = [o for o in ('mpc', 'sim', 'est') if r.random() < 0.6]; r.shuffle(objs)
            st.append([k, objs, r.choice(['results', 'results', 'results', 'run.1', '001_results', 'x']), r.choice(['./results/', './results/', './a/b/c/', './']), r.random() < 0.25, r.random() < 0.2])
        out.append({'steps': st, 'est': r.choice(['sf', 'mhe']), 'seed': r.randrange(10 ** 6), 'pre': r.choice([[], ['results/results.pkl'], ['results/results.pkl', 'results/001_results.pkl', 'results/003_results.pkl'], ['results/001_results.pkl', 'x.pkl']]), 'n': r.choice([1, 3])})
    for n in (9, 14, 110, 1004):
        out.append({'steps': [['save', ['mpc', 'est'], 'results', './results/', False, False], ['save', ['sim'], 'results', './results/', False, True]], 'est': 'sf', 'seed': n, 'pre': ['results/results.pkl'] + ['results/%03d_results.pkl' % j for j in range(1, n)], 'n': 1})
    return out
def files():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs: out[os.path.normpath(os.path.join(d, f))] = open(os.path.join(d, f), 'rb').read()
    return out
def objects(c):
    import do_mpc
    m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u'); m.set_rhs('x', 0.5 * x + u, process_noise=True); m.set_meas('y', x[0], meas_noise=True); m.setup()
    mpc = do_mpc.controller.MPC(m); mpc.settings.n_horizon = 2; mpc.settings.t_step = 0.5; mpc.settings.store_full_solution = True; mpc.set_objective(mterm=x[0] ** 2, lterm=x[1] ** 2); mpc.set_rterm(u=0.1); mpc.setup()
    sim = do_mpc.simulator.Simulator(m); sim.settings.t_step = 0.5; sim.setup()
    if c['est'] == 'sf': est = do_mpc.estimator.StateFeedback(m)
    elif c['est'] == 'ekf': est = do_mpc.estimator.EKF(m)
    else:
        est = do_mpc.estimator.MHE(m, []); est.settings.n_horizon = 2; est.settings.t_step = 0.5; est.settings.meas_from_data = True; est.set_default_objective(P_x=np.eye(2), P_v=np.eye(1), P_w=np.eye(2)); est.setup()
    return {'mpc': mpc, 'sim': sim, 'est': est}
FIELDS = ['_time', '_x', '_y', '_u', '_z', '_tvp', '_p', '_aux', '_opt_x_num', 'opt_p_num', '_eps']
def snap(d):
    out = {}
    for f in FIELDS + ['success', 't_wall_total']:
        if hasattr(d, f): out[f] = np.array(getattr(d, f))
    return out
def equal(a, b, msg):
    need(sorted(a) == sorted(b), '%s: fields %s, expected %s' % (msg, sorted(a), sorted(b)))
    for f in a: need(a[f].shape == b[f].shape and np.array_equal(a[f], b[f]), '%s: field %s is %s, expected %s' % (msg, f, a[f].tolist(), b[f].tolist()))
KEY = {'mpc': 'mpc', 'sim': 'simulator', 'est': 'estimator'}
def run(c):
    import do_mpc
    from do_mpc.data import save_results, load_results
    O = objects(c); rs = np.random.RandomState(c['seed'])
    def grow():
        for k in O:
            for _ in range(c['n']): O[k].data.update(_x=rs.uniform(-1, 1, 2), _u=rs.uniform(-1, 1, 1), _time=rs.uniform(0, 9, 1))
        O['mpc'].data.update(_opt_x_num=rs.uniform(-1, 1, int(O['mpc'].n_opt_x)))
    for p in c['pre']:
        os.makedirs(os.path.dirname(os.path.join('.', p)), exist_ok=True); open(p, 'wb').write(p.encode())
    fs = files(); saved = {}
    for k, objs, name, path, over, more in c['steps']:
        grow(); lst = [O[o] for o in objs]; msg = 'save_results(%s, %r, %r, overwrite=%s) with the files %s' % (objs, name, path, over, sorted(fs))
        if k == 'bad':
            raises(lambda: save_results(tuple(lst), name, path), 'not a list: ' + msg); raises(lambda: save_results(lst, 3, path), 'name of wrong type: ' + msg); raises(lambda: save_results(lst, name, path, overwrite=1), 'overwrite of wrong type: ' + msg); raises(lambda: save_results(lst + [3], name, './'), 'unknown object: ' + msg); raises(lambda: save_results(lst + [O['mpc'].model], name, './'), 'unknown object: ' + msg)
            need(files() == fs, msg + ': rejected call changed files'); continue
        kw = dict(result_name=name, result_path=path)
        if over: kw['overwrite'] = True
        elif more: kw['overwrite'] = False
        save_results(lst, **kw); now = files(); new = set(now) - set(fs)
        target = os.path.normpath(os.path.join(path, name + '.pkl'))
        if over:
            need(new <= {target} and target in now, '%s: new files %s' % (msg, new)); got = target
        else:
            need(len(new) == 1, '%s: new files %s' % (msg, new)); got = new.pop()
            need(os.path.dirname(got) == os.path.normpath(path).replace('.', '', 1 if os.path.normpath(path) == '.' else 0) or os.path.dirname(os.path.join('.', got)) == os.path.normpath(path), '%s: saved to %s' % (msg, got))
            need(name in os.path.basename(got) and got.endswith('.pkl'), '%s: saved as %s' % (msg, got))
            if target not in fs: need(got == target, '%s: saved as %s although %s was free' % (msg, got, target))
        for f in fs: need(f in now and (f == got and over or now[f] == fs[f]), '%s: existing file %s was changed' % (msg, f))
        fs = now; saved[got] = {KEY[o]: snap(O[o].data) for o in objs}
        for f, want in saved.items():
            r = load_results('./' + f)
            need(isinstance(r, dict) and sorted(r) == sorted(want), '%s: %s contains %s, expected %s' % (msg, f, sorted(r), sorted(want)))
            for kk in want: equal(snap(r[kk]), want[kk], '%s: loaded %s of %s' % (msg, kk, f))
        r = load_results(got)
        for o in objs: need(np.array_equal(r[KEY[o]]['_x', 'x'], O[o].data['_x', 'x']) and np.array_equal(r[KEY[o]]['_u', 'u', 0], O[o].data['_u', 'u', 0]), msg + ': query of the loaded data')
        if 'mpc' in objs: need(np.array_equal(r['mpc'].prediction(('_x', 'x')), O['mpc'].data.prediction(('_x', 'x'))), msg + ': prediction of the loaded data')
