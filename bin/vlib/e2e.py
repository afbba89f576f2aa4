"""C29: packet generators, the receiver and stand-in storages together, judged by spec/EndToEndTrace."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError
from . import recv, pgen, startup

U32 = [0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def requests(rng, c):
    qs, args, used = [], [], set()
    u32 = lambda: rng.choice(U32) if rng.random() < .3 else rng.randrange(1 << 32)
    n = c['gens'] + c['again']
    base = None
    for g in range(n):
        if c['same'] and g and rng.random() < .4:
            q = rng.choice(sent)
        else:
            while True:
                q = dict(pid=rng.choice([1, 2, 255, 256, 65535]) if rng.random() < .3 else rng.randrange(1, 65536), oid=pgen.pair(max(1, u32())), ntm=pgen.pair(u32()),
                         lat=pgen.pair(u32()), laneg=rng.random() < .5, lon=pgen.pair(u32()), loneg=rng.random() < .5, liq=pgen.pair(u32()))
                if base and (c['same'] or rng.random() < .3):
                    q['oid'] = base['oid']
                if base and (c['same'] or rng.random() < .3):
                    q['pid'] = base['pid']
                k = (q['pid'], *q['oid'], *q['ntm'])
                if k not in used:
                    break
            used.add(k)
        base = base or q
        sent = [base, q]
        over = {}
        if g + 1 in c['bad']:
            k = rng.choice(sorted(pgen.BAD))
            over = {k: rng.choice(pgen.BAD[k])}
        r, a = pgen.request(rng, q, c['timeout'], fits=not over, override=over)
        qs.append(r)
        args.append(a)
    return qs, args


def scenarios(ctx):
    rng = random.Random(ctx.seed * 7919 + 29)
    out = ctx.path('e2e-cases.ndjson')
    r = ctx.tlc('GenEndToEnd', env=dict(GEN_OUT=out, GEN_TIER=ctx.tier), workers=1)
    cs = [json.loads(l) for l in open(out)]
    if not r['ok'] or not cs:
        raise CheckError('no cases')
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    names = {x['name']: x for c in cs for x in (c['stores'] or [])}
    for _ in range(60 if ctx.quick else 600):
        ks = rng.sample(sorted(names), rng.choice([1, 2, 3, 4]))
        n = rng.choice([3, 6, 10])
        c = dict(stores=[dict(names[k]) for k in ks], gens=n, again=0, kill=0, par=rng.random() < .5, noise=rng.random() < .3, host='specific', timeout=20, bad=[g for g in range(1, n + 1) if rng.random() < .1],
                 scripts=[[rng.choice(['ok', 'ok', 'ok', 'ok', 'refuse', 'slow', 'slowrefuse', 'before', 'after', 'late']) for _ in range(n)] for _ in ks])
        c['same'] = not c['par'] and rng.random() < .3
        if rng.random() < .2:
            c.update(kill=rng.randrange(1, n * len(ks) + 1), again=rng.choice([1, 3]))
        cs.append(c)
    ctx.cov['cases_generated'] = len(cs)
    mk = recv.Maker(recv.Pool(ctx))
    scs = []
    for c in cs:
        for k in ('stores', 'scripts', 'bad'):
            c[k] = list(c[k]) if c[k] else []
        qs, args = requests(rng, c)
        conf = startup.config(rng, dict(host=c['host'], ttl=rng.choice([5, 10]), level=rng.choice(['DEBUG', 'INFO']), stores=c['stores']))
        noise = []
        if c['noise']:
            half = bytes(mk.data([mk.rec(oid=mk.p.newoid(), pos=True)]).b)
            noise = [bytes(mk.foreign(12).b), bytes(mk.bad('hcs').b), bytes(mk.bad('hcs').b), half[:rng.randrange(3, len(half) - 1)], half[:rng.randrange(11, len(half) - 1)], b'']
        scs.append(dict(c, reqs=qs, args=args, text=conf, noise=noise))
    return scs


def job(i, s):
    return dict(ID=i, Config=s['text'], Host=s['host'], Gens=s['args'], First=s['gens'], Par=s['par'], Kill=s['kill'], Timeout=s['timeout'], Noise=[p.hex() for p in s['noise']],
                Backends=[dict(Up=True, Cfg=dict(Kind=x['backend']['kind'], User=x['backend']['user'], Password=x['backend']['password'], Database=x['backend']['database'],
                                                 Places=x['backend']['places'], Script=s['scripts'][k], Auth=x['backend']['auth'])) for k, x in enumerate(s['stores'])])


def execute(ctx, scs):
    exe, gen = ctx.path('receiver'), ctx.path('packet-gen')
    if not os.path.exists(exe):
        ctx.go_build(exe, './cli/receiver')
        ctx.go_build(gen, './cli/packet-gen')
    work = ctx.path('e2e')
    os.makedirs(work, exist_ok=True)
    r = subprocess.run([ctx.driver(), 'e2e', exe, gen, work], input='\n'.join(json.dumps(job(i, s)) for i, s in enumerate(scs)).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    if r.returncode != 0:
        raise CheckError('driver: rc %d\n%s' % (r.returncode, r.stderr.decode(errors='replace')[-3000:]))
    res = [json.loads(l) for l in r.stdout.splitlines()]
    if len(res) != len(scs):
        raise CheckError('%d of %d runs' % (len(res), len(scs)))
    return res


def trace(s, r):
    evs = [{k: v for k, v in e.items() if k != 'out'} for e in r['events']]
    if not s['stores']:      # the log is read at the end: its order with the rest is not known
        evs = [e for e in evs if e['e'] == 'begin'] + [e for e in evs if e['e'] == 'msg'] + [e for e in evs if e['e'] not in ('begin', 'msg')]
    return dict(stores=s['stores'], reqs=s['reqs'], timeout=s['timeout'], par=s['par'], events=evs)


def validate(ctx, scs, results, shards=4):
    parts = [list(range(k, len(scs), shards)) for k in range(shards)] if len(scs) > 8 else [list(range(len(scs)))]

    def one(k):
        lines = [trace(scs[i], results[i]) for i in parts[k]]
        bads, todo = [], list(range(len(lines)))
        while True:
            p = ctx.path('etrace%d.ndjson' % k)
            with open(p, 'w') as f:
                for j in todo:
                    f.write(json.dumps(lines[j]) + '\n')
            r = ctx.tlc('EndToEndTrace', env=dict(TRACE=p), workers=2, heap='2g', timeout=600)
            n = sum(len(lines[j]['events']) + 1 for j in todo)
            if r['ok']:
                if r['distinct'] != n:
                    raise CheckError('%d of %d trace states were explored' % (r['distinct'], n))
                return bads, n
            st = re.findall(r'/\\ sc = (\d+)\n/\\ l = \d+\n/\\ fault = "(.*?)"', r['out'], re.S)
            if not st:
                raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
            a, f = st[-1]
            bads.append((parts[k][todo[int(a) - 1]], f))
            del todo[int(a) - 1]
            if len(bads) >= 3 or not todo:
                return bads, n
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    return [b for bs, _ in rs for b in bs], sum(n for _, n in rs)


def run(ctx):
    r = ctx.tlc('MCEndToEnd', workers=4)
    if not r['ok']:
        raise CheckError('the specification violates its own property:\n' + r['out'][-3000:])
    ctx.cov['states'] += r['distinct']
    ctx.cov['transitions'] += r['states']
    scs = scenarios(ctx)
    size = 200
    for o in range(0, len(scs), size):
        part = scs[o:o + size]
        results = execute(ctx, part)
        ctx.log('%d runs, %d generators' % (len(part), sum(len(s['reqs']) for s in part)))
        bads, n = validate(ctx, part, results)
        for i, f in bads:
            b2 = again = None
            for _ in range(6):      # what time decides must show again
                again = execute(ctx, [part[i]])
                b2, _ = validate(ctx, [part[i]], again)
                if b2:
                    break
            if not b2:
                ctx.cov['unconfirmed'] = ctx.cov.get('unconfirmed', 0) + 1
                continue
            ctx.violation('%s: %d generators%s, storages %s answering %s%s: %s' % (
                              ctx.prop, len(part[i]['reqs']), ' at once' if part[i]['par'] else '', [x['name'] for x in part[i]['stores']], part[i]['scripts'],
                              ', receiver killed' if part[i]['kill'] else '', b2[0][1]),
                          dict(kind='end-to-end', fault=b2[0][1], scenario=job(i, part[i]), requests=part[i]['reqs'], result=again[0]))
            return
        ctx.cov['traces_validated_against_impl'] += len(part)
        ctx.cov['trace_events'] = ctx.cov.get('trace_events', 0) + n
        ctx.cov['succeeded'] = ctx.cov.get('succeeded', 0) + sum(1 for x in results for e in x['events'] if e['e'] == 'exit' and e['code'] == 0)
        ctx.cov['failed'] = ctx.cov.get('failed', 0) + sum(1 for x in results for e in x['events'] if e['e'] == 'exit' and e['code'] != 0)
        if o == 0:
            for s, x in list(zip(part, results))[:: max(1, len(part) // 3)]:
                ctx.sample(dict(config=s['text'], args=s['args'][0], events=x['events'][:6]))
        if ctx.left(780 if ctx.quick else 3000) < 0:
            break
