#!/usr/bin/env python3
# tools/seed.py [ID...]: makes and confirms the planted bugs of tools/seeds/*.py
# in a scratch copy of /repo, and writes seeded/ID/.
import glob, json, os, shutil, subprocess, sys, tempfile
BUGS = {}
def bug(id, prop, edits, needs, breaks, main, race=False, env=""):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, race=race, env=env)
for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/main.go"}}' "$PWD" "$d" >"$t/o.json"
go build%s -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 3
%stimeout 100 "$t/demo"
'''
PRE = '''package main

import (
	"fmt"
	"os"
%s)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("WRONG: "+format+"\\n", args...)
		os.Exit(1)
	}
}

'''
def run(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def make(id):
    b = BUGS[id]
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        w = tmp + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        for (file, anchor, old, new) in b['edits']:
            p = w + '/' + file
            s = open(p).read()
            i = s.index(anchor) if anchor else 0
            assert old in s[i:], (id, file, old)
            j = s.index(old, i)
            s = s[:j] + new + s[j+len(old):]
            open(p, 'w').write(s)
        g = run(['gofmt', '-l'] + [e[0] for e in b['edits']], w)
        patch = run(['git', 'diff'], w).stdout
        out = tmp + '/out'
        os.mkdir(out)
        open(out + '/patch.diff', 'w').write(patch)
        imports, body = b['main'].split('---\n', 1)
        imps = ''.join('\t%s\n' % (l if ' ' in l else '"%s"' % l) for l in imports.split('\n') if l.strip())
        main = PRE % imps + body.lstrip('\n')
        main = main.replace(')\n\nfunc check', ')\n\nfunc check')
        open(out + '/main.go', 'w').write(main)
        run(['gofmt', '-w', out + '/main.go'], w)
        open(out + '/demo.sh', 'w').write(DEMO % (' -race' if b['race'] else '', b['env'] + ' ' if b['env'] else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({"property": b['prop'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r = run(['go', 'vet', './...'], w)
        t = run(['go', 'test', '-vet=off', '-count=1', './...'], w, 900)
        ok = True
        msg = []
        if t.returncode != 0: ok = False; msg.append('TESTS FAIL ' + t.stdout[-600:] + t.stderr[-300:])
        n = 3
        for k in range(n):
            d = run(['bash', out + '/demo.sh'], w)
            if d.returncode == 0: ok = False; msg.append('demo passes with the bug')
            elif k == 0: msg.append('bug: rc %d %s' % (d.returncode, (d.stdout + d.stderr)[:160].replace('\n', ' | ')))
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=w)
        for k in range(n):
            d = run(['bash', out + '/demo.sh'], w)
            if d.returncode != 0: ok = False; msg.append('demo fails without the bug: ' + (d.stdout + d.stderr)[-400:])
        print(id, 'OK' if ok else 'REJECTED', ' '.join(msg), flush=True)
        dst = '/verif/seeded/' + id
        if ok:
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
    finally:
        shutil.rmtree(tmp)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or list(BUGS)
    with ThreadPoolExecutor(3) as ex:
        def m(i):
            try: make(i)
            except Exception as e: print(i, 'ERROR', repr(e)[:300], flush=True)
        list(ex.map(m, ids))
