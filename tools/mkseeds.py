#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds_table.py and verifies each one in a
scratch copy: applies, touches original lines, builds, passes the stable tests, demo 0/nonzero.
usage: mkseeds.py [-check] [id-substring ...]      (-check also runs the property's quick check)
Development tool only: no check reads /verif/seeded."""
import json, os, subprocess, sys, shutil, tempfile, re, concurrent.futures
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_table import SEEDS
REPO = '/repo'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOENV='off')
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the current directory (the repository).
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s %(flags)s-overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
BASE = subprocess.check_output(['git','-C',REPO,'rev-list','--max-parents=0','HEAD'], text=True).split()[0]
STABLE = json.load(open('/opt/vp/BASELINE.json'))

def orig_lines(patch):
    """how many removed lines of the patch blame to the original commit"""
    n = 0; f = None; ln = 0; cache = {}
    for l in patch.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            if f not in cache:
                out = subprocess.check_output(['git','-C',REPO,'blame','-l','-s',f], text=True)
                cache[f] = [x.split()[0].lstrip('^')[:39] for x in out.splitlines()]
            if cache[f][ln-1] == BASE[:39]: n += 1
            ln += 1
        elif l.startswith('+'): pass
        else: ln += 1
    return n

def one(s, check):
    log = []
    tmp = tempfile.mkdtemp(prefix='seed-')
    repo = os.path.join(tmp, 'repo')
    try:
        shutil.copytree(REPO, repo, symlinks=True)
        sid = s['id']
        d = os.path.join(ROOT, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        pkg = s.get('pkg', '.')
        open(os.path.join(d,'demo.sh'),'w').write(DEMO % dict(pkg=pkg, flags=s.get('flags','')))
        os.chmod(os.path.join(d,'demo.sh'), 0o755)
        src = s['demo'].lstrip('\n')
        open(os.path.join(d,'demo_test.go'),'w').write(src)
        sh('gofmt -w %s' % os.path.join(d,'demo_test.go'), tmp)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d,'meta.json'),'w'), indent=1)
        rc, out = sh('bash %s/demo.sh' % d, repo)
        if rc != 0: return sid, 'DEMO FAILS UNPATCHED\n' + out
        for f, old, new in s['edits']:
            p = os.path.join(repo, f); t = open(p).read()
            if t.count(old) != 1: return sid, 'EDIT %d matches in %s: %r' % (t.count(old), f, old)
            open(p,'w').write(t.replace(old, new))
        rc, out = sh('gofmt -l .', repo)
        if out.strip(): log.append('gofmt: ' + out.strip())
        patch = subprocess.check_output(['git','diff'], cwd=repo, text=True)
        open(os.path.join(d,'patch.diff'),'w').write(patch)
        n = orig_lines(patch)
        if n == 0: log.append('NO ORIGINAL LINES')
        rc, out = sh('go build ./... && go vet ./... 2>&1 | head -5', repo)
        if rc != 0: return sid, 'BUILD FAILS\n' + out
        rc, out = sh('go test -vet=off -count=1 ./...', repo)
        if rc != 0: return sid, 'TESTS FAIL\n' + out[:1500]
        rc, out = sh('bash %s/demo.sh' % d, repo)
        if rc == 0: return sid, 'DEMO PASSES PATCHED'
        log.append('orig=%d' % n)
        if check:
            o = os.path.join(tmp,'out'); os.makedirs(o)
            env = dict(ENV, MC_REPO=repo, MC_OUT=o, VERIF_SEED='1', VERIF_TIER='quick')
            for prop in [s['property']] :
                rc, out = sh('%s/run.sh %s' % (ROOT, prop), ROOT, env)
                v = [x for x in out.splitlines() if x.startswith('VIOLATION')]
                log.append('%s rc=%d %s' % (prop, rc, (v[0][:150] if v else 'NO VIOLATION')))
                if rc != 1: log.append('MISSED ' + out[-600:])
        return sid, 'ok ' + ' | '.join(log)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    check = '-check' in a; a = [x for x in a if x != '-check']
    sel = [s for s in SEEDS if not a or any(x in s['id'] for x in a)]
    with concurrent.futures.ThreadPoolExecutor(1 if check else 4) as ex:
        for sid, r in ex.map(lambda s: one(s, check), sel):
            print(sid, r, flush=True)
main()
