#!/usr/bin/env python3
"""Development tool (no check uses it): mutation analysis of the checks.
usage: mutrun.py stage1 MUTS.jsonl OUT.jsonl      build + existing tests, keeps the survivors
       mutrun.py stage2 SURV.jsonl OUT.jsonl      runs quick checks until one reports a violation"""
import json, os, subprocess, sys, shutil, tempfile, queue, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOENV='off', VERIF_TIER='quick', VERIF_SEED='1')
ORDER = {
 'decoder.go': 'C01 C04 C05 C16 C25 C15 C14 C07 C03 C02 C24',
 'encode.go': 'C01 C02 C03 C06 C26 C19 C18 C15 C17 C07 C16',
 'gltf.go': 'C01 C02 C18 C16 C07 C17 C15',
 'const.go': 'C02 C01 C18 C09 C23 C10 C26 C07',
 'const_strings.go': 'C02 C07',
 'math.go': 'C13 C11',
 'modeler/read.go': 'C09 C11 C08 C20 C23 C24',
 'modeler/write.go': 'C10 C22 C24',
 'binary/encode.go': 'C12 C09 C08 C10',
 'binary/binary.go': 'C23 C12 C10 C09',
 'binary/slice.go': 'C23 C09 C20',
 'binary/unsafe.go': 'C23 C12 C09',
}
ALL = ['C%02d' % i for i in range(1, 27)]
def sh(cmd, cwd, env=ENV, timeout=60):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, 'timeout'
def apply(repo, m):
    p = os.path.join(repo, m['file']); s = open('/repo/' + m['file'], 'rb').read()
    open(p, 'wb').write(s[:m['off']] + m['new'].encode() + s[m['end']:])
def undo(repo, m):
    shutil.copyfile('/repo/' + m['file'], os.path.join(repo, m['file']))
def stage1(ms, out):
    q = queue.Queue(); [q.put(m) for m in ms]
    f = open(out, 'a'); lock = threading.Lock(); stats = {}
    def work():
        tmp = tempfile.mkdtemp(prefix='mut-'); repo = tmp + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        env = dict(ENV, GOMAXPROCS='2')
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            apply(repo, m)
            rc, o = sh('go build ./... ', repo, env, 30)
            r = 'nobuild'
            if rc == 0:
                rc, o = sh('ulimit -v 16000000; go test -vet=off -failfast -timeout 20s ./... >/dev/null 2>&1', repo, env, 40)
                r = 'killed' if rc else 'survived'
            undo(repo, m)
            with lock:
                stats[r] = stats.get(r, 0) + 1
                if r == 'survived':
                    f.write(json.dumps(m) + '\n'); f.flush()
                n = sum(stats.values())
                if n % 200 == 0: print(n, stats, flush=True)
        shutil.rmtree(tmp)
    ts = [threading.Thread(target=work) for _ in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(stats)
def stage2(ms, out):
    tmp = tempfile.mkdtemp(prefix='mut-', dir='/var/tmp'); repo = tmp + '/repo'; o = tmp + '/out'
    # the checks are run from a copy of the committed work
    vf = tmp + '/verif'
    subprocess.check_call(['git', 'clone', '-q', ROOT, vf])
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git')); os.makedirs(o)
    f = open(out, 'a')
    done = set()
    for l in open(out): d = json.loads(l); done.add((d['file'], d['off'], d['end'], d['new']))
    env = dict(ENV, MC_REPO=repo, MC_OUT=o)
    full = os.environ.get('FULL')
    for i, m in enumerate(ms):
        if (m['file'], m['off'], m['end'], m['new']) in done: continue
        apply(repo, m)
        order = ORDER.get(m['file'], 'C26 C17 C18').split()
        if full: order += [c for c in ALL if c not in order]
        t = time.time(); res = 'MISSED'
        for c in order:
            rc, log = sh('bash %s/run.sh %s -limit 12s' % (vf, c), vf, env, 200)
            if rc == 1 and 'VIOLATION property=' + c in log:
                v = [x for x in log.splitlines() if x.startswith('VIOLATION')][0]
                res = c; break
            if rc != 0: res = 'RC%d %s %s' % (rc, c, log[-300:]); break
        undo(repo, m)
        m = dict(m, res=res, t=round(time.time() - t, 1))
        f.write(json.dumps(m) + '\n'); f.flush()
        print(i, m['file'], m['line'], m['op'], repr(m['old'][:60]), '->', repr(m['new'][:60]), res[:200], m['t'], flush=True)
    shutil.rmtree(tmp)
ms = [json.loads(l) for l in open(sys.argv[2])]
{'stage1': stage1, 'stage2': stage2}[sys.argv[1]](ms, sys.argv[3])
