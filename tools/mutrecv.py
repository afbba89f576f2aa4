#!/usr/bin/env python3
"""mutrecv.py MUTANTS.jsonl OUT.jsonl [JOBS [SHARE]]: which small changes of the programs the checks tell apart.

Each mutant is made in a scratch copy of the repository and given to the checks of its part, one after the other, until one reports a violation."""
import json, os, random, shutil, subprocess, sys, tempfile, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
GO = '/opt/veriftools/go1.27.3/bin'
ORDER = [('cli/receiver/server/', 'C05 C02 C08 C11 C03 C07 C09 C28 C22 C10 C27 C06 C29'), ('cli/packet-gen/', 'C25 C29'), ('cli/receiver/config/', 'C23'), ('cli/receiver/main.go', 'C23 C29'),
         ('cli/receiver/storage/store/', 'C24 C29 C03'), ('cli/receiver/storage/packet.go', 'C05 C27 C29'), ('cli/receiver/', 'C23 C03 C29')]
muts = [json.loads(l) for l in open(sys.argv[1])]
jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 2
share = float(sys.argv[4]) if len(sys.argv) > 4 else 1
spans = {(m['file'], m['line']) for m in muts if m['what'] == 'condition true'}
muts = [m for m in muts if not (m['what'] == 'negated condition' and (m['file'], m['line']) in spans)]
random.Random(1).shuffle(muts)
muts = muts[:int(len(muts) * share)]
try:
    done = {json.dumps([json.loads(l)[k] for k in ('file', 'from', 'to', 'text')]) for l in open(sys.argv[2])}
except FileNotFoundError:
    done = set()
muts = [m for m in muts if json.dumps([m[k] for k in ('file', 'from', 'to', 'text')]) not in done]
q, lock, out = queue.Queue(), threading.Lock(), open(sys.argv[2], 'a')
for m in muts:
    q.put(m)


def work():
    d = tempfile.mkdtemp(prefix='mutrecv-')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', R, r])
    env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(d, 'ev'), VERIF_SEED='1', VERIF_TIER='quick')
    genv = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', PATH=GO + ':' + os.environ['PATH'])
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(r, m['file'])
        src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['from']] + m['text'].encode() + src[m['to']:])
        res = 'survived'
        try:
            if subprocess.run(['go', 'build', './cli/...'], cwd=r, env=genv, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                res = 'nobuild'
            else:
                for c in next(o for f, o in ORDER if m['file'].startswith(f)).split():
                    try:
                        x = subprocess.run(['python3', os.path.join(V, 'bin/check.py'), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                        if b'VIOLATION' in x.stdout:
                            res = 'killed ' + c
                        elif x.returncode:
                            res = 'error ' + c
                            m['out'] = x.stdout.decode(errors='replace')[-300:]
                    except subprocess.TimeoutExpired:
                        res = 'timeout ' + c
                    if res != 'survived':
                        break
        finally:
            open(p, 'wb').write(src)
        m['r'] = res
        with lock:
            out.write(json.dumps(m) + '\n')
            out.flush()
    shutil.rmtree(d)


ts = [threading.Thread(target=work) for _ in range(jobs)]
for t in ts:
    t.start()
for t in ts:
    t.join()
