"""C23: the receiver program with configurations and stand-in storages, judged by spec/StartupTrace."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError
from . import recv

MALFORMED = ['host: [', '\t\thost: x', "host: 'a\nport: \"1", 'just text', '- a\n- b\n', 'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: 5\nstorage: [redis]\n',
             'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: 5\nstorage:\n  redis: text\n', 'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: abc\n',
             'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: [1]\n', 'host: {a: b}\nport: "@PORT@"\nconn_ttl: 5\n', 'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: 5\n}',
             'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: 5\n  storage: x\n', 'host: "@HOST@"\nport: "@PORT@"\nconn_ttl: 5\nstorage:\n  redis:\n    server: [1, 2]\n', '\x00\x01\x02']


def scalar(rng, x):
    if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_.]*', x) and x.lower() not in ('yes', 'no', 'on', 'off', 'true', 'false', 'null', 'y', 'n') and rng.random() < .5:
        return x
    if re.fullmatch(r'[1-9]\d{0,5}', x) and rng.random() < .5:      # numbers are texts, too
        return x
    return json.dumps(x) if rng.random() < .6 else "'%s'" % x.replace("'", "''")


def config(rng, c):
    host = {'empty': '', 'any': '0.0.0.0', 'localhost': 'localhost'}.get(c['host'], '@HOST@')
    parts = []
    if host or rng.random() < .5:
        parts.append('host: %s\n' % (json.dumps(host) if rng.random() < .7 else "'%s'" % host))
    parts.append('port: %s\n' % rng.choice(['"@PORT@"', "'@PORT@'", '@PORT@']))
    parts.append('conn_ttl: %d%s\n' % (c['ttl'], rng.choice(['', '  # seconds'])))
    if c['level']:
        parts.append('log_level: %s\n' % rng.choice([c['level'], '"%s"' % c['level']]))
    if c['stores']:
        order = list(enumerate(c['stores']))
        rng.shuffle(order)
        ind = rng.choice(['  ', '    '])
        s = 'storage:\n'
        for i, x in order:
            st = {k: re.sub('@(ADDR|HOST|PORT)@', lambda m: '@%s%d@' % (m.group(1), i), v) for k, v in dict(x['settings']).items()}
            name = x['name']
            if not st:
                s += '%s%s:%s\n' % (ind, name, rng.choice(['', ' {}', ' null', ' ~']))
            elif rng.random() < .2:
                s += '%s%s: {%s}\n' % (ind, name, ', '.join('%s: %s' % (k, json.dumps(v)) for k, v in st.items()))
            else:
                s += '%s%s:\n' % (ind, name)
                for k in rng.sample(sorted(st), len(st)):
                    s += '%s%s: %s\n' % (ind * 2, k, scalar(rng, st[k]) if '@' not in st[k] else json.dumps(st[k]))
        parts.append(s)
    elif rng.random() < .6:
        parts.append(rng.choice(['storage:\n', 'storage: {}\n', 'storage: null\n']))
    rng.shuffle(parts)
    if rng.random() < .3:
        parts.insert(0, '# configuration\n')
    if rng.random() < .2:
        parts.insert(0, '---\n')
    return ''.join(parts)


def cases(ctx, what):
    out = ctx.path('startup-%s.ndjson' % what)
    r = ctx.tlc('GenStartup', env=dict(GEN_OUT=out, GEN_TIER=ctx.tier, GEN_WHAT=what), workers=1)
    cs = [json.loads(l) for l in open(out)]
    if not r['ok'] or not cs:
        raise CheckError('no configurations')
    ctx.cov['cases_generated'] = ctx.cov.get('cases_generated', 0) + len(cs)
    return sorted(cs, key=lambda c: json.dumps(c, sort_keys=True))


def scenarios(ctx, what):
    rng = random.Random(ctx.seed * 7919 + 23)
    mk = recv.Maker(recv.Pool(ctx))
    cs = cases(ctx, what)
    if what == 'start':
        base = next(c for c in cs if c['stores'] and c['file'] == 'fine' and not c['busy'])
        none = next(c for c in cs if not c['stores'] and c['file'] == 'fine' and not c['busy'])
        cs += [dict(rng.choice([base, none]), file='malformed', text=t) for t in MALFORMED]
        # a good file that is not the one that is named
        cs += [dict(base, file=f) for f in ('none', 'missing', 'unreadable')]
    scs = []
    for c in cs:
        if isinstance(c['stores'], dict):
            c['stores'] = []
        n = max(len(c['refuse']), rng.choice([1, 2, 3]))
        times, packets, k = 0, [], 0
        while k < n:
            m = min(n - k, rng.choice([1, 1, 2, 3]))
            recs = [mk.rec(oid=mk.p.newoid(), pos=True, extras=rng.random() < .7) for _ in range(m)]
            if rng.random() < .2:
                recs.insert(rng.randrange(m + 1), mk.rec(oid=mk.p.newoid(), pos=False))
            packets.append(mk.data(recs).b)
            k += m
        for i, x in enumerate(c['stores']):
            x = dict(x, settings=dict(x['settings']) if x['settings'] else {})
            c['stores'][i] = x
        scripts = [['refuse' if i + 1 in r else 'ok' for r in c['refuse']] for i in range(len(c['stores']))]
        noise = what == 'start' and c['file'] == 'fine' and not c['busy']
        scs.append(dict(c, packets=packets, scripts=scripts, noise=[bytes(mk.foreign(12).b), bytes(mk.bad('hcs').b)] if noise else [],
                        text=c.get('text', config(rng, c))))
    return scs


def job(i, s):
    return dict(ID=i, File={'fine': 'file', 'malformed': 'file'}.get(s['file'], s['file']), Config=s['text'],
                Backends=[dict(Up=x['backend']['up'], Cfg=dict(Kind=x['backend']['kind'], User=x['backend']['user'], Password=x['backend']['password'], Database=x['backend']['database'],
                                                               Places=x['backend']['places'], Script=s['scripts'][k], Auth=x['backend']['auth'])) for k, x in enumerate(s['stores'])],
                Host=s['host'], Busy=s['busy'], TTL=s['ttl'] if s['noise'] else 0, Packets=[p.hex() for p in s['packets']], Noise=[p.hex() for p in s['noise']], Fails=s['file'] != 'fine')


def execute(ctx, scs):
    exe = ctx.path('receiver')
    if not os.path.exists(exe):
        ctx.go_build(exe, './cli/receiver')
    work = ctx.path('boot')
    os.makedirs(work, exist_ok=True)
    r = subprocess.run([ctx.driver(), 'boot', exe, work], input='\n'.join(json.dumps(job(i, s)) for i, s in enumerate(scs)).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    if r.returncode != 0:
        raise CheckError('driver: rc %d\n%s' % (r.returncode, r.stderr.decode(errors='replace')[-3000:]))
    res = [json.loads(l) for l in r.stdout.splitlines()]
    if len(res) != len(scs):
        raise CheckError('%d of %d runs' % (len(res), len(scs)))
    return res


def trace(s, r):
    return dict(file=s['file'], stores=[dict(x, settings=x['settings'] or {}) for x in s['stores']], level=s['level'], ttl=s['ttl'], host=s['host'], busy=s['busy'], noise=bool(s['noise']),
                packets=[list(p) for p in s['packets']], events=[dict(e, b=list(bytes.fromhex(e['b']))) if e['e'] == 'reply' else e for e in r['events']])


def validate(ctx, scs, results, shards=4):
    parts = [list(range(k, len(scs), shards)) for k in range(shards)] if len(scs) > 8 else [list(range(len(scs)))]

    def one(k):
        lines = [trace(scs[i], results[i]) for i in parts[k]]
        bads, todo = [], list(range(len(lines)))
        while True:
            p = ctx.path('strace%d.ndjson' % k)
            with open(p, 'w') as f:
                for j in todo:
                    f.write(json.dumps(lines[j]) + '\n')
            r = ctx.tlc('StartupTrace', env=dict(TRACE=p), workers=2, heap='2g', timeout=600)
            n = sum(len(lines[j]['events']) + 1 for j in todo)
            if r['ok']:
                if r['distinct'] != n:
                    raise CheckError('%d of %d trace states were explored' % (r['distinct'], n))
                return bads, n
            st = re.findall(r'/\\ sc = (\d+)\n/\\ l = (\d+)\n/\\ fault = "(.*?)"', r['out'], re.S)
            if not st:
                raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
            a, l, f = st[-1]
            bads.append((parts[k][todo[int(a) - 1]], f))
            del todo[int(a) - 1]
            if len(bads) >= 3 or not todo:
                return bads, n
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    return [b for bs, _ in rs for b in bs], sum(n for _, n in rs)


def judge(ctx, scs):
    results = execute(ctx, scs)
    ctx.log('%d runs of the receiver' % len(scs))
    bads, n = validate(ctx, scs, results)
    for i, f in bads:
        again = b2 = None
        for _ in range(6):      # what time or the order of initialisation decides must show again
            again = execute(ctx, [scs[i]])
            b2, _ = validate(ctx, [scs[i]], again)
            if b2:
                break
        if not b2:
            ctx.cov['unconfirmed'] = ctx.cov.get('unconfirmed', 0) + 1
            continue
        ctx.violation('%s: receiver with storages %s, level %r, lifetime %d, address %s, file %s: %s' % (
                          ctx.prop, [x['name'] for x in scs[i]['stores']], scs[i]['level'], scs[i]['ttl'], scs[i]['host'], scs[i]['file'], b2[0][1]),
                      dict(kind='startup', fault=b2[0][1], scenario=job(i, scs[i]), result=again[0]))
        return
    ctx.cov['traces_validated_against_impl'] += len(scs)
    ctx.cov['trace_events'] = ctx.cov.get('trace_events', 0) + n
    for s, x in list(zip(scs, results))[:: max(1, len(scs) // 3)]:
        ctx.sample(dict(config=s['text'], events=x['events'][:6]))


def model(ctx):
    r = ctx.tlc('MCStartup', workers=2)
    if not r['ok']:
        raise CheckError('the specification violates its own property:\n' + r['out'][-3000:])
    ctx.cov['states'] += r['distinct']
    ctx.cov['transitions'] += r['states']


def run(ctx):
    model(ctx)
    judge(ctx, scenarios(ctx, 'start'))


def refusals(ctx):
    """part of C03: confirmations with the real connectors"""
    judge(ctx, scenarios(ctx, 'refuse'))
