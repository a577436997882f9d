#!/usr/bin/env python3
# tools/mutants.py SEED COUNT FILE[:INDEX]...: mutates COUNT random places of the given
# files of /repo (relative names) in scratch copies and runs the quick checks of their
# properties; reports which check catches each mutant, and the survivors.
import os, random, shutil, subprocess, sys, tempfile, time
PROPS = {
 'internal/internal.go': 'C06 C05 C01 C02',
 'parallel/parallel.go': 'C01 C02 C03 C04 C05 C32',
 'speculative/speculative.go': 'C01 C02 C07 C08 C09 C32',
 'sequential/sequential.go': 'C01 C02 C10',
 'sort/sort.go': 'C19 C20 C17 C18', 'sort/quicksort.go': 'C17 C20', 'sort/mergesort.go': 'C18 C20',
 'sync/map.go': 'C12 C13 C11 C14 C15 C16',
 'pipeline/filters.go': 'C31 C30 C29 C33 C27 C21 C24 C25 C22',
 'pipeline/filter.go': 'C33 C21 C24 C31 C30 C29',
 'pipeline/source.go': 'C28 C27 C26 C25 C21',
 'pipeline/pipeline.go': 'C33 C27 C26 C21 C24 C25 C22 C23 C28 C31',
 'pipeline/parnode.go': 'C33 C21 C24 C25 C23 C22 C31 C30',
 'pipeline/lparnode.go': 'C33 C21 C22 C23 C24 C25 C31 C30',
 'pipeline/seqnode.go': 'C33 C21 C22 C23 C24 C25 C31 C30',
 'pipeline/strictordnode.go': 'C33 C21 C22 C23 C24 C25 C31 C30',
}
MUT = '/tmp/mut_bin'
subprocess.check_call(['go', 'build', '-o', MUT, './main.go'], cwd='/verif/tools/mut', env=dict(os.environ, GOFLAGS='', GO111MODULE='off'))
env = dict(os.environ, GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOWORK='off')
seed, count, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
rnd = random.Random(seed)
todo = []
for f in files:
    name, _, ix = f.partition(':')
    ms = [l.split('\t') for l in subprocess.check_output([MUT, 'list', '/repo/' + name], text=True).strip().split('\n')]
    if not os.environ.get('SWAPS'):
        ms = [m for m in ms if not (m[3].startswith('swap ') and ' WITH ' in m[3])] if not ix else ms
    if ix:
        todo += [(name, ms[int(i)]) for i in ix.split(',')]
    else:
        todo += [(name, m) for m in rnd.sample(ms, min(count, len(ms)))]
for name, (ix, loc, fn, kind) in todo:
    tmp = tempfile.mkdtemp(prefix='mut_')
    desc = '%s:%s %s:%s %s' % (name, ix, fn, loc.split(':')[1], kind)
    try:
        w = tmp + '/repo'
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        out = subprocess.check_output([MUT, 'make', ix, '/repo/' + name], text=True)
        open(w + '/' + name, 'w').write(out.split('\n', 1)[1])
        b = subprocess.run(['go', 'build', './...'], cwd=w, capture_output=True, text=True, env=env)
        if b.returncode:
            print(desc, 'NOBUILD'); continue
        s = time.time()
        res = ''
        for p in PROPS[name].split():
            c = subprocess.run(['/verif/bin/gosym', 'check', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=tmp + '/ev', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', VERIF_DEADLINE=os.environ.get('VERIF_DEADLINE', '100')))
            if c.returncode == 1 and 'VIOLATION property=' + p in c.stdout:
                res = 'CAUGHT by ' + p; break
            if c.returncode: res += ' rc%d by %s' % (c.returncode, p)
            notes = [l for l in c.stdout.split('\n') if 'note' in l and 'repro' in l]
            if notes: res += ' %s unreproduced %d' % (p, len(notes))
        if 'CAUGHT' not in res:
            try:
                t = subprocess.run(['go', 'test', '-short', './' + name.split('/')[0] + '/'], cwd=w, capture_output=True, text=True, env=env, timeout=200)
                res += ' SURVIVED (tests %s)' % ('pass' if t.returncode == 0 else 'fail')
            except subprocess.TimeoutExpired:
                res += ' SURVIVED (tests hang)'
        print(desc, '=>', res, '%.0fs' % (time.time() - s), flush=True)
    finally:
        shutil.rmtree(tmp)
