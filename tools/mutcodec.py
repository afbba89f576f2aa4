#!/usr/bin/env python3
"""mutcodec.py MUTANTS.jsonl OUT.jsonl [JOBS [SHARE]]: which small changes of the library the codec checks tell apart.

The calls of every codec suite are generated once and executed with the unchanged library; each mutant is built through an overlay and given the
same calls, and where its results differ, the specification judges them."""
import json, os, random, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from vlib import core, codec
R = core.REPO
muts = [json.loads(l) for l in open(sys.argv[1])]
jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 7
share = float(sys.argv[4]) if len(sys.argv) > 4 else 1
base = {}
ORDER = ['C13', 'C14', 'C15', 'C16', 'C20', 'C21', 'C19', 'C18', 'C17', 'C12', 'C26']


def prepare(p):
    ctx = core.Ctx(p)
    calls, focus = codec.SUITES[p](ctx)
    if share < 1:
        calls = [c for c in calls if len(json.dumps(c)) < 4000]
        calls = random.Random(1).sample(calls, min(len(calls), max(250, int(len(calls) * share))))
    a = codec.execute(ctx, calls)
    b = codec.execute(ctx, calls)
    assert len(a) == len(b)
    base[p] = (calls, focus, a, {i for i in range(len(a)) if a[i] != b[i]})
    print(p, len(a), 'calls', len(base[p][3]), 'vary', flush=True)
    ctx.cleanup()


def one(m):
    ctx = core.Ctx('mut')
    try:
        src = open(os.path.join(R, m['file']), 'rb').read()
        mf = ctx.path('m.go')
        open(mf, 'wb').write(src[:m['from']] + m['text'].encode() + src[m['to']:])
        ov = json.load(open(ctx.overlay()))
        ov['Replace'][os.path.join(R, m['file'])] = mf
        json.dump(ov, open(ctx.path('o.json'), 'w'))
        drv = ctx.path('driver')
        r = subprocess.run(['go', 'build', '-o', drv, '-overlay', ctx.path('o.json'), './cli/zzverif'], cwd=R, env=core.go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return dict(m, r='nobuild')
        differs = []
        for p in ORDER:
            calls, focus, want, vary = base[p]
            try:
                got = codec.execute(ctx, [dict(c) for c in calls])
            except Exception as e:
                return dict(m, r='killed', by=p, how='driver: ' + str(e)[:100])
            d = [g for i, g in enumerate(got) if i < len(want) and g != want[i] and i not in vary] + got[len(want):]
            if len(got) < len(want):
                d.append(got[-1])
            if not d:
                continue
            differs.append(p)
            d = d[:150] if len(d) <= 150 else random.Random(1).sample(d, 150)
            ctx.prop = p
            codec_lines = d
            trace, meta = ctx.path('trace.ndjson'), ctx.path('meta.json')
            open(trace, 'w').write('\n'.join(codec_lines) + '\n')
            json.dump(dict(focus=focus, stride=64), open(meta, 'w'))
            r = ctx.tlc('CodecTrace', env=dict(TRACE=trace, TRACE_META=meta), workers=1, heap='1g')
            if not r['ok']:
                return dict(m, r='killed', by=p)
        return dict(m, r='differs' if differs else 'same', by=differs)
    except Exception as e:
        return dict(m, r='error', how=str(e)[-300:])
    finally:
        ctx.cleanup()


core.Ctx.log = lambda self, *a: None
with ThreadPoolExecutor(4) as ex:
    list(ex.map(prepare, ORDER))
n = {}
with open(sys.argv[2], 'w') as f, ThreadPoolExecutor(jobs) as ex:
    for k, r in enumerate(ex.map(one, muts)):
        n[r['r']] = n.get(r['r'], 0) + 1
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
        f.flush()
        if k % 100 == 99:
            print(k + 1, n, flush=True)
print(n)
