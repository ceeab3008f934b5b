#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]

1. deductive part (this process, python3-vt): pyvc symbolically executes the current source of /repo against the contracts in
   pyvc/specs/<id>.py and discharges every obligation with z3 / the normal form prover.
2. bounded part (child process, /opt/venv/bin/python): the same contracts, executed on concrete instances of the real code
   (bat/<id>.py).  It is labelled bounded and never counted as proved; it supplies the replays.
Exit 1 + VIOLATION line: a contract fails on a concrete input (replay file), or an obligation is definitely refuted
(no-failing-input-found).  Exit 0 otherwise; obligations that could not be decided are reported as UNDECIDED."""
import sys, os, json, time, subprocess, importlib, hashlib, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = '/opt/venv/bin/python'
import warnings; warnings.simplefilter('ignore')

def one(args):
    mod, idx, tier = args
    import warnings; warnings.simplefilter('ignore')
    from pyvc import harness, smt
    try:
        m = importlib.import_module(mod)
        name, fn, ref = m.CONTRACTS[idx][:3]
        t = time.time()
        harness.TIER = tier
        r = harness.explore(name, fn, ref)
        return {'name': name, 'obs': r.obs, 'functions': r.functions, 'paths': r.paths, 'undecided': r.undecided, 'contracted': sorted(getattr(r, 'contracted', [])),
                'wall': time.time() - t, 'smt': {'queries': smt.STATS.queries, 'unsat': smt.STATS.unsat, 'sat': smt.STATS.sat, 'unknown': smt.STATS.unknown, 'time': round(smt.STATS.time, 3), 'cvc5': smt.STATS.cvc5}}
    except Exception as ex:
        import traceback
        return {'name': '%s[%d]' % (mod, idx), 'obs': [], 'functions': {}, 'paths': 0, 'undecided': ['engine error %r %s' % (ex, traceback.format_exc()[-800:])], 'contracted': [], 'wall': 0,
                'smt': {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0, 'cvc5': 0}}

def deductive(pid, tier, deadline):
    mod = 'pyvc.specs.' + pid.lower()
    if not os.path.exists(os.path.join(HERE, 'pyvc/specs/%s.py' % pid.lower())): return None, []
    m = importlib.import_module(mod)
    jobs = [(mod, i, tier) for i in range(len(m.CONTRACTS))]
    out = []
    pool = mp.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1)
    hs = [(pool.apply_async(one, (j,)), j) for j in jobs]
    for h, j in hs:
        try:
            out.append(h.get(timeout=max(1, deadline - time.time())))
        except mp.TimeoutError:
            out.append({'name': m.CONTRACTS[j[1]][0], 'obs': [], 'functions': {}, 'paths': 0, 'undecided': ['%s: time limit' % m.CONTRACTS[j[1]][0]], 'contracted': [], 'wall': 0,
                        'smt': {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0, 'cvc5': 0}})
    pool.terminate(); pool.join()
    return m, out

def env_bat():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + os.pathsep + HERE, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore', PYVC_REPO=REPO)
    return e

def known(pid):
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                key, _, txt = l[len('finding: property=%s ' % pid):].partition(' ')
                out.append((key, txt))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ['VERIF_TIER'] = tier
    t0 = time.time()
    budget = 240 if tier == 'quick' else 700
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    ev_path = os.path.join(HERE, 'evidence', pid + '.json')
    bat = None
    if os.path.exists(os.path.join(HERE, 'bat/%s.py' % pid.lower())):
        res_path = os.path.join(HERE, 'replays', '.%s.%d.json' % (pid, os.getpid()))
        bat = subprocess.Popen([PY, os.path.join(HERE, 'bat/run.py'), pid, tier, str(seed), res_path, str(budget)], env=env_bat(), cwd=os.path.join(HERE, 'replays'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    spec, ded = deductive(pid, tier, t0 + budget)
    bres = {'evaluations': 0, 'failures': [], 'errors': [], 'rule': '', 'samples': []}
    if bat is not None:
        try:
            out, _ = bat.communicate(timeout=max(5, t0 + budget + 60 - time.time()))
        except subprocess.TimeoutExpired:
            bat.kill(); out = 'time limit'
        if os.path.exists(res_path):
            bres = json.load(open(res_path)); os.remove(res_path)
        else:
            bres['errors'].append('battery did not finish: ' + (out or '')[-2000:])
            if bat.returncode == 3 or True:
                # the code under test cannot even be imported / crashes the process
                imp = subprocess.run([PY, '-c', 'import do_mpc'], env=env_bat(), capture_output=True, text=True)
                if imp.returncode != 0:
                    bres['failures'].append({'case': {'import': 'do_mpc'}, 'key': 'import', 'message': 'import do_mpc fails: ' + imp.stderr[-500:]})
    bound = getattr(spec, 'BOUNDED', {}) if spec else {}
    isb = lambda r: next((t for k, t in bound.items() if k in r['name']), None)
    bobs = [o for r in ded if isb(r) for o in r['obs']]
    uobs = [o for r in ded if not isb(r) for o in r['obs']]
    obs = uobs + bobs
    undec = [u for r in ded for u in r['undecided']]
    proved = [o for o in obs if o['status'] == 'proved']
    refuted = [o for o in obs if o['status'] == 'refuted']
    unknown = [o for o in obs if o['status'] == 'unknown']
    kn = known(pid)
    viol = 0
    lines = []
    for f in bres['failures']:
        hit = [k for k in kn if k[0] == f.get('key')]
        if hit:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1])); continue
        viol += 1
        rp = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, hashlib.sha1(json.dumps(f, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'kind': 'concrete input', 'case': f['case'], **({'prelude': f['prelude']} if f.get('prelude') else {}), 'message': f['message'],
                   'failed_obligations': [o['name'] for o in refuted][:20],
                   'replay_cmd': 'PYTHONPATH=%s %s %s/bat/run.py --replay %s' % (REPO, PY, HERE, rp)}, open(rp, 'w'), indent=1, default=str)
        print('contract violated on the real code: %s' % f['message'][:1500])
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        break
    for k, txt in kn:
        l = 'KNOWN-FINDING: property=%s %s' % (pid, txt)
        if l not in lines and any(f.get('key') == k for f in bres.get('known', [])): lines.append(l)
    if refuted and not viol:
        groups = {}
        for o in refuted: groups.setdefault(o['name'], o)
        rp = os.path.join(HERE, 'replays', '%s-obligation-%s.json' % (pid, hashlib.sha1(repr(sorted(groups)).encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'kind': 'failed obligations', 'obligations': [dict(o) for o in groups.values()],
                   'recheck_cmd': 'python3-vt %s/check.py %s' % (HERE, pid)}, open(rp, 'w'), indent=1, default=str)
        viol += 1
        for o in list(groups.values())[:5]: print('refuted obligation: %s\n  %s' % (o['name'], o['detail'][:1200]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    for o in unknown[:10]: print('UNDECIDED obligation: %s %s' % (o['name'], o['detail'][:400].replace('\n', ' ')))
    for u in undec[:10]: print('UNDECIDED: ' + u[:400])
    for e in bres['errors'][:5]: print('bounded part: ' + str(e)[:600])
    funcs = {}
    for r in ded:
        for k, v in r['functions'].items(): funcs[k] = funcs.get(k, 0) + v
    level = getattr(spec, 'LEVEL', 'proof') if spec else 'exploration'
    names = {}
    for o in obs:
        n = names.setdefault(o['name'], {'proved': 0, 'refuted': 0, 'unknown': 0}); n[o['status']] += 1
    cov = {'obligations': len(uobs), 'discharged': sum(1 for o in uobs if o['status'] == 'proved'), 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
           'trusted_base': getattr(spec, 'TRUSTED', []) + TRUSTED,
           'undecided': [o['name'] for o in unknown] + undec, 'refuted': [o['name'] for o in refuted],
           'obligation_names': names, 'functions_executed_symbolically': sorted(funcs), 'callee_contracts_used': sorted({c for r in ded for c in r['contracted']}),
           'paths': sum(r['paths'] for r in ded), 'contracts': [{'name': r['name'], 'bounded': isb(r) or False, 'paths': r['paths'], 'obligations': len(r['obs']), 'wall_s': round(r['wall'], 2), 'smt': r['smt']} for r in ded],
           'solver': {'back_ends': 'z3 %s (integer/array obligations), pyvc normal form (term equalities, side conditions by z3), cvc5 (second opinion, thorough tier)' % z3v(),
                      'queries': sum(r['smt']['queries'] for r in ded), 'time_s': round(sum(r['smt']['time'] for r in ded), 2), 'cvc5_confirmed': sum(r['smt']['cvc5'] for r in ded)},
           'bounded_obligations': {'label': 'obligations of contracts whose symbolic execution is bounded in the stated respect; not counted as proved', 'bounds': bound,
                                   'obligations': len(bobs), 'discharged': sum(1 for o in bobs if o['status'] == 'proved')},
           'bounded': {'label': 'bounded stand-in and replay source; not counted as proved', 'evaluations': bres['evaluations'], 'checks': bres.get('checks', 0), 'errors': bres['errors'][:5]},
           'evaluations': bres['evaluations'], 'distinct_nontrivial': bres.get('distinct', bres['evaluations']), 'rule': bres['rule'], 'samples': bres['samples'][:5]}
    if level != 'proof': cov['explanation'] = getattr(spec, 'EXPLANATION', '') or 'bounded contract execution'
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': getattr(spec, 'ASSUMPTIONS', []) + bres.get('assumptions', []),
               'wall_s': round(time.time() - t0, 2), 'violations': viol}, open(ev_path, 'w'), indent=1, default=str)
    for l in lines: print(l)
    print('%s: %d obligations (%d of them bounded), %d proved, %d refuted, %d undecided; %d bounded evaluations; %.1f s' % (pid, len(obs), len(bobs), len(proved), len(refuted), len(unknown) + len(undec), bres['evaluations'], time.time() - t0))
    if viol: return 1
    if not proved and not bres['evaluations']:
        print('nothing was checked'); return 2
    if spec is not None and getattr(spec, 'REQUIRED', None) and not obs and not bres['evaluations']: return 2
    return 0

def z3v():
    import z3
    return z3.get_version_string()

TRUSTED = ['pyvc: symbolic semantics of the interpreted Python subset (pyvc/interp.py) and of the modelled numpy/casadi/builtin operations (pyvc/lib.py)',
           'pyvc normal form prover (pyvc/nf.py)', 'z3', 'CPython ast module',
           'real arithmetic: floating point is treated as exact; integers are mathematical', 'casadi, numpy, scipy: their documented behaviour (assumed contracts)']

if __name__ == '__main__':
    sys.exit(main())
