#!/usr/bin/env python3
"""mkbug.py SPEC.py...: makes seeded/<id>/ from a description and confirms it in a scratch copy of /repo.

SPEC.py defines id, property, edits = [(file, old, new)], needs, what, and demo: a Go main program, or demo_sh: a shell script. files: {name: content} laid beside demo.sh."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds in the demonstrated case
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/cli/zzdemo/main.go":"%s/demo.go.txt"}}' "$PWD" "$here" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./cli/zzdemo && cd "$t" && timeout 120 ./demo
'''


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return r.returncode, r.stdout.decode(errors='replace')


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, c in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(c)
    if 'demo' in s:
        open(os.path.join(d, 'demo.go.txt'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(s['demo_sh'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='bug-')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/repo'])
        r = w + '/repo'
        rc, o = sh('bash %s/demo.sh' % d, r)
        assert rc == 0, 'demo fails on the unchanged tree\n' + o
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d matches of %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        env = 'export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH; '
        rc, o = sh(env + 'go build ./... && go test -vet=off -count=1 -p 1 ./cli/receiver ./cli/receiver/config', r)
        assert rc == 0, 'build or tests\n' + o
        rc, o = sh('bash %s/demo.sh' % d, r)
        assert rc != 0, 'demo passes with the change\n' + o
        diff = subprocess.check_output(['git', 'diff'], cwd=r).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        print('ok', s['id'], o.strip().splitlines()[-3:])
    except AssertionError as e:
        shutil.rmtree(d)
        print('FAILED', s['id'], e)
    finally:
        shutil.rmtree(w)


for a in sys.argv[1:]:
    main(a)
