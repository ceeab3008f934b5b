"""bounded contract execution on the real code: run.py ID TIER SEED OUT BUDGET   |   run.py --replay FILE"""
import sys, os, json, time, importlib, traceback, random, warnings, tempfile, shutil, io, contextlib
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import multiprocessing as mp

def execute(pid, case):
    """None if the contract holds, otherwise a message; key identifies known findings"""
    m = importlib.import_module('bat.' + pid.lower())
    from bat import util
    tmp = tempfile.mkdtemp(prefix='vbat')
    cwd = os.getcwd()
    buf = io.StringIO()
    try:
        os.chdir(tmp)
        n0 = util.COUNT[0]
        lim = getattr(m, 'ALARM', 0)
        if lim:
            import signal
            def late(*a): raise util.Violation('no result within %d seconds' % lim)
            signal.signal(signal.SIGALRM, late); signal.alarm(lim)
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                msg = m.run(case)
                key = None
            except util.Violation as ex:
                msg, key = str(ex), ex.key
            except util.Skip as ex:
                return {'skip': str(ex), 'checks': 0}
            except Exception as ex:
                tb = traceback.extract_tb(sys.exc_info()[2])
                inrepo = [f for f in tb if '/do_mpc/' in f.filename and HERE not in f.filename]
                if not inrepo and isinstance(ex, AttributeError) and str(getattr(ex, 'name', '')).startswith('_') and not str(ex.name).startswith('__'):
                    # the harness reached for a private attribute that does not exist (any more): no statement about the property
                    return {'skip': 'harness: %s' % str(ex)[:200], 'checks': 0}
                msg = 'unexpected %s: %s (%s)' % (type(ex).__name__, str(ex)[:500], ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:5]))
                key = None
        return {'fail': msg, 'key': key, 'checks': util.COUNT[0] - n0} if msg else {'checks': util.COUNT[0] - n0}
    finally:
        if getattr(m, 'ALARM', 0): signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)

DONE = []      # cases this process has executed so far
def work(a):
    pid, case = a[:2]
    if a[2:]: DONE[:] = []
    for q in (a[2] if a[2:] else []):
        try: execute(pid, q)
        except BaseException: pass
    before = list(DONE); DONE.append(case)
    try:
        r = execute(pid, case)
    except BaseException as ex:
        r = {'fail': 'unexpected %r' % ex, 'key': None, 'checks': 0}
    if r.get('fail'): r['before'] = before
    return case, r
def again(pid, case, prelude, t):
    """the case in a fresh process, after the cases of the prelude; None: no result in time"""
    p = mp.get_context('fork').Pool(1)
    try: return bool(p.apply_async(work, ((pid, case, prelude),)).get(timeout=max(t, 1))[1].get('fail'))
    except mp.TimeoutError: return None
    finally: p.terminate(); p.join()
def sequence(pid, case, before, t):
    """a shortened list of preceding cases after which the case fails, or None"""
    end = time.time() + t
    if not before or not again(pid, case, before, t): return None
    n = 2
    while time.time() < end and len(before) > 1:
        k = max(1, len(before) // n); parts = [before[i:i + k] for i in range(0, len(before), k)]
        for i in range(len(parts)):
            q = [c for j, b in enumerate(parts) if j != i for c in b]
            if time.time() < end and again(pid, case, q, end - time.time()): before = q; break
        else:
            if k == 1: break
            n = min(len(before), 2 * n)
    return before

def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        for q in d.get('prelude', []): execute(d['property'], q)
        r = execute(d['property'], d['case'])
        print(r.get('fail') or 'no violation')
        sys.exit(1 if r.get('fail') else 0)
    pid, tier, seed, out, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], float(sys.argv[5])
    t0 = time.time()
    m = importlib.import_module('bat.' + pid.lower())
    cases = m.cases(tier, random.Random(seed))
    res = {'evaluations': 0, 'distinct': 0, 'checks': 0, 'failures': [], 'known': [], 'errors': [], 'skipped': 0, 'rule': getattr(m, 'RULE', ''), 'samples': cases[:3], 'assumptions': getattr(m, 'ASSUMPTIONS', [])}
    seen = set()
    nproc = getattr(m, 'NPROC', 6)
    pool = mp.get_context('fork').Pool(nproc, maxtasksperchild=50)
    from bat import util
    knownk = util.known_keys(pid)
    it = [pool.apply_async(work, ((pid, c),)) for c in cases]
    for h, c in zip(it, cases):
        left = budget - (time.time() - t0)
        if left <= 0:
            res['errors'].append('time budget used up'); break
        try:
            case, r = h.get(timeout=left)
        except mp.TimeoutError:
            res['errors'].append('time budget used up in case %s' % json.dumps(c)[:300]); break
        if r.get('skip'):
            res['skipped'] += 1
            res['errors'].append('skipped: ' + r['skip']) if len(res['errors']) < 5 else None
            continue
        res['evaluations'] += 1
        res['checks'] += r.get('checks', 0)
        seen.add(json.dumps(case, sort_keys=True, default=str))
        if r.get('fail'):
            f = {'case': case, 'message': r['fail'], 'key': r.get('key')}
            if f['key'] in knownk: res['known'].append(f); continue
            # confirm in a fresh process: alone, or after the cases the same process had executed before
            if again(pid, case, [], 120) in (True, None): res['failures'].append(f); break
            seq = sequence(pid, case, r.get('before', []), min(100, budget - (time.time() - t0)))
            if seq is not None:
                f['prelude'] = seq; f['message'] = 'after %d other uses in the same process: %s' % (len(seq), f['message'])
                res['failures'].append(f); break
            res['errors'].append('not reproducible: ' + f['message'][:300])
    pool.terminate(); pool.join()
    res['distinct'] = len(seen)
    res['failures'] += res['known']
    json.dump(res, open(out, 'w'), default=str)

if __name__ == '__main__':
    main()
