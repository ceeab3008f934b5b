#!/usr/bin/env python3
"""seedtable.py: apply every planted bug to a scratch copy of /repo, run the check of its property (and, with ALL=1, every other check)
and write tools_dev/seedtable.txt, one line per bug: id | property | caught or missed | how | needs"""
import os, json, subprocess, shutil, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(b):
    d = os.path.join(HERE, 'seeded', b); m = json.load(open(os.path.join(d, 'meta.json'))); W = '/tmp/seedtable/' + b
    os.makedirs('/tmp/seedtable', exist_ok=True); subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '/repo/', W + '/'], check=True)
    try:
        subprocess.run(['patch', '-s', '-p1', '-i', os.path.join(d, 'patch.diff')], cwd=W, check=True)
        c = subprocess.run(['./check', m['property']], cwd=HERE, env=dict(os.environ, PYVC_REPO=W), capture_output=True, text=True)
    finally: shutil.rmtree(W)
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]; last = (c.stdout.strip().splitlines() or [''])[-1]
    ref = last.split(' refuted')[0].split()[-1] if ' refuted' in last else '0'
    how = 'missed' if not v else 'caught (%s)' % ('obligations only' if 'no-failing' in v[0] else 'failing input' + (' and %s refuted obligations' % ref if ref != '0' else ''))
    return '| %s | %s | %s | %s |' % (b, m['property'], how, ' '.join(m['needs'].split())[:150])
if __name__ == '__main__':
    ids = sorted(b for b in os.listdir(os.path.join(HERE, 'seeded')) if not sys.argv[1:] or b in sys.argv[1:])
    with cf.ThreadPoolExecutor(3) as ex: rows = list(ex.map(run, ids))
    print('| bug | check | result | needs |\n|---|---|---|---|\n' + '\n'.join(rows))
