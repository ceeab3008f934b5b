"""real matplotlib figures of recorded simulations: every line against the recorded arrays"""
from bat.util import *
import random, os, numpy as np, io, contextlib
ALARM = 120
NPROC = 6
RULE = 'models with up to three states, algebraic states, inputs, parameters and expressions of 1..3 elements, controllers with 1..3 scenarios (full solution stored or not), simulators and estimators with 1..6 recorded points; random sequences of adding lines (variables repeated), showing results and predictions at every valid time index, clearing all or some lines; default plots of every selection; animations into folders with existing files'
ASSUMPTIONS = ['movie writers are replaced by one that stores what each frame shows (ffmpeg and ImageMagick are not installed)']
def cases(tier, rng):
    out = []
    for i in range(60 if tier == 'quick' else 700):
        r = random.Random(rng.randrange(10 ** 9))
        out.append({'seed': r.randrange(10 ** 6), 'src': r.choice(['mpc', 'mpc', 'mpc', 'mpc-lean', 'sim', 'est']), 'dims': [r.choice([1, 1, 2, 3]) for _ in range(6)], 'nz': r.choice([0, 1, 2]), 'nu': r.choice([1, 2]), 'na': r.choice([0, 1, 2]), 'n': r.choice([1, 2, 3, 6]),
                    'robust': r.choice([0, 1, 1]), 'nops': r.choice([3, 6, 12]), 'anim': r.random() < 0.3})
    return out
def build(c):
    import do_mpc, casadi as ca
    D = c['dims']; m = do_mpc.model.Model('discrete')
    V = {'_x': [('x', D[0]), ('b', D[1])], '_z': [('zz', D[2]), ('az', 1)][:c['nz']], '_u': [('u', D[3]), ('au', D[4])][:c['nu']], '_p': [('p', 1)], '_tvp': [('t', 1)], '_aux': [('e', D[5]), ('ae', 2)][:c['na']]}
    s = {(k, n): m.set_variable(k, n, (d, 1)) for k in ('_x', '_z', '_u', '_p', '_tvp') for n, d in V[k]}
    base = s['_x', 'x'][0] + 0.5 * s['_x', 'b'][0]
    for n, d in V['_aux']: m.set_expression(n, ca.vertcat(*[base * (i + 1) + s['_u', 'u'][0] for i in range(d)]))
    for n, d in V['_x']: m.set_rhs(n, ca.vertcat(*[0.5 * s['_x', n][i] + 0.1 * (i + 1) * s['_u', 'u'][0] + 0.2 * s['_p', 'p'] + 0.1 * s['_tvp', 't'] + (0.05 * s['_u', 'au'][0] if c['nu'] > 1 else 0) for i in range(d)]))
    for n, d in V['_z']: m.set_alg('alg_' + n, ca.vertcat(*[s['_z', n][i] - base * (i + 2) for i in range(d)]))
    m.setup()
    return m, V
def record(c):
    import do_mpc
    m, V = build(c); g = np.random.default_rng(c['seed']); nx = int(m.n_x)
    if c['src'].startswith('mpc'):
        o = do_mpc.controller.MPC(m); o.settings.n_horizon = 3; o.settings.t_step = 0.5; o.settings.n_robust = c['robust']; o.settings.store_full_solution = c['src'] == 'mpc'; o.settings.supress_ipopt_output()
        o.set_objective(mterm=sum(m.x[n][i] ** 2 for n, d in V['_x'] for i in range(d)), lterm=sum(m.x[n][i] ** 2 for n, d in V['_x'] for i in range(d))); o.set_rterm(u=0.1)
        o.set_uncertainty_values(p=[0.5, 0.7, 0.2][:1 if c['robust'] == 0 else 1 + c['seed'] % 3])
        t = o.get_tvp_template(); o.set_tvp_fun(lambda now: t); o.setup()
        o.x0 = g.normal(size=nx); o.set_initial_guess()
        for k in range(c['n']): o.make_step(g.normal(size=nx))
    elif c['src'] == 'sim':
        o = do_mpc.simulator.Simulator(m); o.settings.t_step = 0.25
        t = o.get_tvp_template(); o.set_tvp_fun(lambda now: t); p = o.get_p_template(); o.set_p_fun(lambda now: p); o.setup(); o.x0 = g.normal(size=nx)
        for k in range(c['n']): o.make_step(g.normal(size=(int(m.n_u), 1)))
    else:
        o = do_mpc.estimator.StateFeedback(m)
        for k in range(c['n']): o.data.update(_x=g.normal(size=nx), _u=g.normal(size=int(m.n_u)), _z=g.normal(size=max(int(m.n_z), 0)), _p=g.normal(size=1), _tvp=g.normal(size=1), _aux=g.normal(size=int(m.n_aux)), _time=np.array([0.3 * k + 0.1 * g.random()]))
    return m, V, o
def run(c):
    import warnings; warnings.simplefilter('ignore')
    import matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt, do_mpc
    m, V, o = record(c); d = o.data; R = random.Random(c['seed'])
    N = d._time.shape[0]; need(N == c['n'], 'points recorded: %d, expected %d' % (N, c['n']))
    T = np.array(d._time).ravel()
    def off(k, n):
        S = m[k[1:]]; p = int(S['default'].shape[0]) if 'default' in S.keys() else 0
        for a, s in V[k]:
            if a == n: return p
            p += s
    def rec(k, n, e): return np.array(getattr(d, k))[:, off(k, n) + e]
    full = c['src'] == 'mpc'
    names = [(k, n, s) for k in V for n, s in V[k]]
    def pred(k, n, e, s, t): return np.array(d.prediction((k, n), t_ind=t))[e, :, s]
    nsc = d.prediction(('_x', 'x')).shape[2] if full else 0
    fig, axs = plt.subplots(3); G = do_mpc.graphics.Graphics(d); have = {}; state = {}; pst = {}
    def check(msg):
        for k, n, s in names:
            got = list(G.result_lines[k, n]) if have else []
            need(len(got) == (s if (k, n) in have else 0), '%s: %d result lines of %s %s, expected %d' % (msg, len(got), k, n, s if (k, n) in have else 0))
            if (k, n) not in have: continue
            for e in range(s):
                l, = G.result_lines[k, n, e]; t = state[k, n, e]; msg2 = '%s: result line of %s %s element %d (shown up to index %s of %d)' % (msg, k, n, e, t, N)
                need(l is got[e], msg2 + ' is not element %d of the lines of the variable' % e); need(l.axes is have[k, n][0], msg2 + ' is on another axis')
                q = 0 if t is None else N if t == 'all' else t + 1
                close(np.ravel(l.get_xdata()), T[:q], msg2 + ': times'); close(np.ravel(l.get_ydata()), rec(k, n, e)[:q], msg2 + ': values')
                need(l.get_drawstyle() == ('steps-post' if k == '_u' else 'default'), msg2 + ': drawn as %s' % l.get_drawstyle()); need(l.get_linewidth() == have[k, n][1], msg2 + ': width %s, expected %s' % (l.get_linewidth(), have[k, n][1]))
                for s2 in range({'_p': 0, '_tvp': min(nsc, 1)}.get(k, nsc)):
                    p, = G.pred_lines[k, n, e, s2]; tp = pst[k, n, e]; msg3 = '%s: predicted line of %s %s element %d scenario %d' % (msg, k, n, e, s2)
                    need(p.axes is have[k, n][0], msg3 + ' is on another axis'); need(p.get_color() == l.get_color() and p.get_linestyle() == '--' and p.get_drawstyle() == ('steps-post' if k == '_u' else 'default'), '%s: style %s %s %s (result %s)' % (msg3, p.get_color(), p.get_linestyle(), p.get_drawstyle(), l.get_color()))
                    if tp is None: continue
                    y = pred(k, n, e, s2, tp); close(np.ravel(p.get_ydata()), y, msg3 + ' at time index %d' % tp); close(np.ravel(p.get_xdata()), T[tp] + np.arange(len(y)) * o.settings.t_step, msg3 + ' at time index %d: times' % tp)
        need(len(G.pred_lines['_p', 'p']) == 0 if len(G.pred_lines.full) else True, msg + ': predictions of a parameter')
        if not full: need(len(G.pred_lines.full) == 0, msg + ': predicted lines without predictions')
    for _ in range(c['nops']):
        op = R.choice(['add', 'add', 'res', 'res', 'pred', 'clear', 'some'])
        if op == 'add':
            k, n, s = R.choice(names); i = R.randrange(3); w = R.choice([1.0, 2.5]); msg = 'add_line(%r, %r)' % (k, n)
            new = (k, n) not in have; old = {x: y.get_xydata().copy() for x, y in zip(G.result_lines.powerindex, G.result_lines.full) if x[:2] != (k, n)}
            G.add_line(k, n, axs[i], linewidth=w); have[k, n] = (axs[i], w)
            for e in range(s): state[k, n, e] = 'all'; pst[k, n, e] = None
        elif op == 'res':
            t = R.choice(list(range(-N, N)) + [None]); msg = 'plot_results(%s)' % t
            G.plot_results(**({} if t is None else {'t_ind': t}))
            for x in state: state[x] = 'all' if t in (None, -1) else t % N
        elif op == 'pred':
            t = R.choice(list(range(-N, N)) + [None]); msg = 'plot_predictions(%s)' % t
            if not full: raises(lambda: G.plot_predictions(), 'predictions without full solution'); continue
            G.plot_predictions(**({} if t is None else {'t_ind': t}))
            for x in pst: pst[x] = (-1 if t is None else t) % N
        elif op == 'clear':
            G.clear(); msg = 'clear()'
            for x in state: state[x] = None
        else:
            if not have: continue
            k, n = R.choice(sorted(have)); msg = 'clear of the lines of %s %s' % (k, n); G.clear(list(G.result_lines[k, n]))
            for x in state:
                if x[:2] == (k, n): state[x] = None
        G.reset_axes(); check(msg)
    for a in (('_y', 'x'), ('_x', 3), (3, 'x')): raises(lambda: G.add_line(a[0], a[1], axs[0]), 'add_line%s' % (a,))
    raises(lambda: G.add_line('_x', 'x', 3), 'axis of wrong type'); check('rejected calls')
    for t in (N + 1, -N - 1, 1.5): raises(lambda: G.plot_results(t_ind=t), 'plot_results(%s) with %d points' % (t, N))
    plt.close(fig)
    # default plots
    arg = {'_x': 'states_list', '_z': 'dae_states_list', '_u': 'inputs_list', '_aux': 'aux_list'}
    for _ in range(3):
        req = {}
        for k in arg:
            if R.random() < 0.6:
                l = [n for n, s in V[k] if R.random() < 0.7]; R.shuffle(l); req[k] = l
        want = [(k, n, s) for k in arg for n in (req[k] if k in req else [n for n, s in V[k]]) for n2, s in V[k] if n == n2]; kw = {arg[k]: list(l) for k, l in req.items()}; msg = 'default_plot(%s)' % kw
        if not want: raises(lambda: do_mpc.graphics.default_plot(d, **kw), msg + ': nothing to plot'); plt.close('all'); continue
        f, ax, g = do_mpc.graphics.default_plot(d, **kw); ax = list(ax)
        need(len(ax) == len(want) == len(f.axes), '%s: %d axes, expected %d' % (msg, len(ax), len(want)))
        need([a.get_ylabel() for a in ax] == [n for k, n, s in want], '%s: labels %s, expected %s' % (msg, [a.get_ylabel() for a in ax], [n for k, n, s in want]))
        for a, (k, n, s) in zip(ax, want):
            l = list(g.result_lines[k, n]); need(len(l) == s and all(x.axes is a for x in l), '%s: lines of %s %s are not on its axis' % (msg, k, n))
            for e, x in enumerate(l): close(np.ravel(x.get_ydata()), rec(k, n, e), '%s: values of %s %s' % (msg, k, n)); close(np.ravel(x.get_xdata()), T, msg + ': times')
        plt.close(f)
    k = R.choice(sorted(arg))
    for bad in ([n for j in V for n, s in V[j] if j != k][:1] + ['q'],): raises(lambda: do_mpc.graphics.default_plot(d, **{arg[k]: [bad[0]]}), 'default_plot(%s=%s)' % (arg[k], bad[:1])); plt.close('all')
    # animations
    if full and c['anim']: animate(c, m, V, o, d, T, N, rec, pred, nsc, R, plt)
def animate(c, m, V, o, d, T, N, rec, pred, nsc, R, plt):
    import do_mpc, matplotlib.animation as ma
    shown = []
    class Writer(ma.AbstractMovieWriter):
        def __init__(self, *a, **k): ma.AbstractMovieWriter.__init__(self, fps=5)
        def setup(self, fig, outfile, dpi=None): self.fig = fig; self.out = outfile; shown.clear(); self.dpi = dpi or 50
        def grab_frame(self, **k): shown.append([[(np.ravel(l.get_xdata()).copy(), np.ravel(l.get_ydata()).copy(), l.get_linestyle()) for l in a.lines] for a in self.fig.axes])
        def finish(self): open(self.out, 'wb').write(b'movie %d' % len(shown))
    do_mpc.graphics.ImageMagickWriter = do_mpc.graphics.FFMpegWriter = Writer
    fmt = R.choice(['gif', 'mp4']); path = R.choice(['./', './new/sub/']); over = R.random() < 0.3
    if R.random() < 0.7:
        os.makedirs(path, exist_ok=True)
        for f in ['run.' + fmt, '001_run.' + fmt][:R.choice([1, 2])] + ['run.pkl'] * R.choice([0, 1]): open(os.path.join(path, f), 'w').write('old ' + f)
    def files(): return {os.path.normpath(os.path.join(a, f)): open(os.path.join(a, f), 'rb').read() for a, _, fs in os.walk('.') for f in fs}
    before = files(); f, ax, g = do_mpc.graphics.default_plot(d, states_list=['b', 'x'], dae_states_list=[], aux_list=[])
    steps = R.choice([None, N, 1]); kw = {} if steps is None else {'n_steps': steps}; steps = steps or N
    if over: kw['overwrite'] = True
    with contextlib.redirect_stdout(io.StringIO()): do_mpc.graphics.animate(g, f, export_path=path, export_name='run', format=fmt, **kw)
    after = files(); new = sorted(x for x in after if x not in before); msg = 'animate(format=%r, %s) with the files %s' % (fmt, kw, sorted(before)); first = os.path.normpath(os.path.join(path, 'run.' + fmt))
    if over: need(after.get(first) == b'movie %d' % steps and all(after.get(x) == y for x, y in before.items() if x != first), msg + ': files %s' % sorted(after))
    else:
        need(all(after.get(x) == y for x, y in before.items()), msg + ': an existing file is changed'); need(len(new) == 1 and new[0].endswith('run.' + fmt) and after[new[0]] == b'movie %d' % steps, msg + ': new files %s' % new)
        if first not in before: need(new == [first], msg + ': new file %s' % new)
    need(len(shown) == steps, '%s: %d frames, expected %d' % (msg, len(shown), steps))
    dim = dict(V['_x'] + V['_u'])
    for t, fr in enumerate(shown):
        for (k, n), ls in zip([('_x', 'b'), ('_x', 'x')] + [('_u', n) for n, s in V['_u']], fr):
            res = [l for l in ls if l[2] != '--']; pr = [l for l in ls if l[2] == '--']; s = dim[n]
            need(len(res) == s and len(pr) == s * nsc, '%s: frame %d has %d results and %d predictions of %s' % (msg, t, len(res), len(pr), n))
            for e in range(s): close(res[e][1], rec(k, n, e)[:t + 1], '%s: frame %d, values of %s element %d' % (msg, t, n, e)); close(res[e][0], T[:t + 1], '%s: frame %d, times' % (msg, t))
            for e in range(s):
                for s2 in range(nsc): close(pr[e * nsc + s2][1], pred(k, n, e, s2, t), '%s: frame %d, prediction of %s element %d scenario %d' % (msg, t, n, e, s2))
    raises(lambda: do_mpc.graphics.animate(g, f, export_name='bad', format='avi'), 'unknown format'); plt.close(f)
