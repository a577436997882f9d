#!/usr/bin/env python3
# tools/refactor.py [ID...]: applies behaviour-preserving rewrites of tools/refactors/*.py
# to scratch copies of /repo, runs the tests and the checks of the properties they
# touch, and reports every check that does not stay quiet.
import glob, os, re, shutil, subprocess, sys, tempfile, time
R = {}
def ref(id, props, edits, **kw):
    R[id] = (props, edits, kw)
for f in sorted(glob.glob('/verif/tools/refactors/*.py')):
    exec(open(f).read())
ALLP = ['C%02d' % i for i in range(1, 33)]
def apply(w, edits):
    for e in edits:
        p = w + '/' + e[0]
        s = open(p).read() if os.path.exists(p) else ''
        if callable(e[1]):
            n = e[1](s)
        elif e[1] == 're':
            n = re.sub(e[2], e[3], s, flags=re.S)
        else:
            assert e[1] in s, (e[0], e[1])
            n = s.replace(e[1], e[2]) if len(e) < 4 else s.replace(e[1], e[2], e[3])
        assert n != s, e
        open(p, 'w').write(n)
ids = sys.argv[1:] or list(R)
bad = 0
for id in ids:
    props, edits, kw = R[id]
    if props == 'all': props = ALLP
    elif isinstance(props, str): props = props.split()
    tmp = tempfile.mkdtemp(prefix='ref_')
    try:
        w = tmp + '/repo'
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        apply(w, edits)
        env = dict(os.environ, GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOWORK='off')
        r = subprocess.run(['go', 'vet', './internal/', './parallel/', './pipeline/', './sequential/', './sort/', './speculative/', './sync/'], cwd=w, capture_output=True, text=True, env=env)
        b = subprocess.run(['go', 'build', './...'], cwd=w, capture_output=True, text=True, env=env)
        if b.returncode:
            print(id, 'DOES NOT BUILD', b.stderr[:600]); bad += 1; continue
        t = subprocess.run(['go', 'test', '-short', './parallel/', './pipeline/', './sort/', './sync/', './speculative/', './sequential/'], cwd=w, capture_output=True, text=True, env=env)
        if t.returncode:
            print(id, 'TESTS FAIL', t.stdout[-600:]); bad += 1; continue
        for p in props:
            s = time.time()
            c = subprocess.run(['/verif/bin/gosym', 'check', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=tmp + '/ev', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off'))
            out = c.stdout
            m = re.search(r': (\d+)/(\d+) instances', out)
            full = m and m.group(1) == m.group(2)
            st = 'quiet' if c.returncode == 0 else 'ALARM'
            if c.returncode: bad += 1
            if c.returncode or not full or 'vacuous' in out or 'mismatch' in out or 'note:' in out:
                print(id, p, st, m.group(0) if m else '', '%.0fs' % (time.time() - s))
                for l in ([x for x in out.split('\n')[:-1] if x.startswith('note')][:2] + [x for x in out.split('\n')[:-1] if not x.startswith('note')])[:12]:
                    if not l.startswith('incomplete') : print('   ', l[:300])
                for l in c.stderr.split('\n')[:3]:
                    if l: print('   !', l[:200])
        print(id, 'done', flush=True)
    finally:
        shutil.rmtree(tmp)
sys.exit(bad > 0)
