#!/usr/bin/env python3
"""tools/dpor_test.py [FROM TO]: for random concurrent programs (selftest/h) the outcomes
that the engine finds with partial-order reduction are those of all schedules."""
import subprocess, sys, re, tempfile, shutil, os
from concurrent.futures import ThreadPoolExecutor
lo, hi = (int(sys.argv[1]), int(sys.argv[2])) if len(sys.argv) > 2 else (0, 60)
tmp = tempfile.mkdtemp(prefix='dpor_')
for d in ['sym', 'model', 'vs', 'vsync', 'vatomic']:
    shutil.copytree('/verif/harness/' + d, tmp + '/' + d)
shutil.copytree('/verif/selftest/h', tmp + '/h')
def run(a, nd):
    env = dict(os.environ, VERIF_HARNESS=tmp, SECONDS='100')
    if nd: env['NODPOR'] = '1'
    out = subprocess.run(['/verif/bin/gosym', 'run', 'Rand'] + a, capture_output=True, text=True, env=env).stdout
    m = re.search(r'complete=(\w+) (\S+) .*?Paths:(\d+).*reach=map\[(.*?)\] bound', out, flags=re.S)
    if not m: return None, 0, out
    return m.group(1) == 'true', int(m.group(3)), (set(re.findall(r'\[\[.*?\]\]:\d+', m.group(4))), re.sub(r'complete=.*', '', out, flags=re.S))
def one(s):
    a = ['seed', str(s), 'threads', str(2 + s % 2), 'ops', str(3 if s % 2 == 0 else 2), 'set', str(s // 2 % 4)]
    c1, n1, r1 = run(a, False)
    c2, n2, r2 = run(a, True)
    if c1 is None or c2 is None: return s, 'ERROR', a, (r1 if c1 is None else r2)[:300]
    o1 = {re.sub(r':\d+$', '', x) for x in r1[0]}; o2 = {re.sub(r':\d+$', '', x) for x in r2[0]}
    k1 = set(re.findall(r'^\w+ \S+', r1[1], flags=re.M)); k2 = set(re.findall(r'^\w+ \S+', r2[1], flags=re.M))
    if not c2: return s, 'cut', a, '%d of %d outcomes, %d paths' % (len(o1), len(o2), n1) + ('' if o2 <= o1 else ' LOST')
    return s, 'same' if o1 == o2 and k1 == k2 and c1 else 'DIFFERENT', a, '%d outcomes, paths %d of %d %s' % (len(o2), n1, n2, k1 ^ k2)
try:
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for s, r, a, t in ex.map(one, range(lo, hi)):
            if r != 'same': print(s, r, ' '.join(a), t, flush=True)
            bad += r in ('DIFFERENT', 'ERROR') or 'LOST' in t
    print('%d programs, %d bad' % (hi - lo, bad))
finally:
    shutil.rmtree(tmp)
