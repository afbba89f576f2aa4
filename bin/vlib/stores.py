"""C24: the storage connectors against stand-in backends, judged by spec/ConnectorTrace."""
import hashlib, json, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError

SCALARS = ['client', 'packet_id', 'navigation_unix_time', 'received_unix_time', 'latitude', 'longitude', 'speed', 'pdop', 'hdop', 'vdop', 'nsat', 'ns', 'course']


class Shape(Exception):
    pass


def norm(k, x):
    if isinstance(x, bool) or isinstance(x, (dict, list)) or x is None:
        raise Shape(k)
    if k in ('latitude', 'longitude') and not isinstance(x, str):
        return repr(float(x))
    return json.dumps(x)


def unique(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise Shape('repeated key')
    return d


def form(text):
    """the form of a message that the specification compares: a record's fields as texts, or a digest of anything else"""
    try:
        d = json.loads(text, object_pairs_hook=unique)
        if not isinstance(d, dict):
            raise Shape('not an object')
        v = {}
        for k, x in d.items():
            if k in ('an_sensors', 'liquid_sensors'):
                x = x or []
                if not isinstance(x, list) or not all(isinstance(y, dict) for y in x):
                    raise Shape(k)
                v[k] = [{n: norm(n, z) for n, z in y.items()} for y in x]
            else:
                v[k] = norm(k, x)
        if not set(SCALARS) <= set(v):
            raise Shape('fields')
        return dict(k='nav', v=v)
    except (ValueError, Shape, OverflowError):
        return dict(k='raw', h=hashlib.sha1(text.encode('utf-8', 'surrogatepass')).hexdigest())


class Recs:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def nav(self):
        r = self.r
        self.n += 1
        big = lambda bits: r.choice([0, 1, (1 << bits) - 1, r.randrange(1 << bits), r.randrange(1 << bits)])
        return dict(client=big(32), packet_id=self.n, navigation_unix_time=r.choice([0, 1262304000 + big(32), big(31)]), received_unix_time=1700000000 + self.n,
                    latitude=r.choice([0, 90, -90, r.uniform(-90, 90), r.randrange(1 << 32) * 90 / 0xffffffff]), longitude=r.choice([0, -180, 180, r.uniform(-180, 180), 1e-9]),
                    speed=big(16), pdop=big(16), hdop=big(16), vdop=big(16), nsat=big(8), ns=big(16), course=big(16),
                    an_sensors=r.choice([None, []]) if r.random() < .3 else [dict(sensor_number=big(8), value=big(32)) for _ in range(r.randrange(1, 9))],
                    liquid_sensors=None if r.random() < .3 else [dict(sensor_number=big(8), error_flag=r.choice(['0', '1', '', '"<&>\\', 'ы ']), value_mm=big(32), value_l=big(32)) for _ in range(r.randrange(1, 4))])

    def raw(self):
        r = self.r
        self.n += 1
        return json.dumps('raw %d ' % self.n + r.choice(["it's", '"\\', '%s%d', '\n\r\n\t', 'ы', '\\x41', '$1 ? ; --', "');", 'x' * r.choice([10, 255, 256, 70000, 300000])]))


def inform(rec):
    if rec in ('nil', 'bad'):
        return dict(k=rec)
    if isinstance(rec, str):
        return form(json.loads(rec)) if rec.startswith('"') else dict(k='raw', h='')
    return form(json.dumps(rec))


def cases(ctx):
    out = ctx.path('connector-cases.ndjson')
    r = ctx.tlc('GenConnector', env=dict(GEN_OUT=out, GEN_TIER=ctx.tier), workers=1)
    cs = [json.loads(l) for l in open(out)]
    if not r['ok'] or not cs:
        raise CheckError('no connector cases')
    ctx.cov['cases_generated'] = len(cs)
    return cs


def scenarios(ctx, cs):
    rng = random.Random(ctx.seed * 7919 + 24)
    scs = []
    kinds = sorted({c['kind'] for c in cs})
    runs = [c for c in cs if c['script']]
    if len(runs) > 6000:
        runs = rng.sample(runs, 6000)
    for c in [c for c in cs if not c['script']] + runs:
        pool = Recs(rng)
        recs, ops = [], [dict(op='init')]

        def save(batch):
            base = len(recs)
            recs.extend(batch)
            ops.append(dict(op='save', save=list(range(base, base + len(batch)))))
        if c['ok']:
            first = rng.random() < .25
            if first:
                save([pool.nav() for _ in range(3)])
            for _ in range(len(c['script']) + 1 if c['script'] else rng.choice([1, 2])):
                save([pool.nav() if rng.random() < .9 else pool.raw()])
            x = rng.random()
            if x < .1:
                save([rng.choice(['nil', 'bad'])])
                save([pool.nav()])
            elif x < .3:
                save([pool.nav() for _ in range(rng.choice([2, 8]))])
            if rng.random() < .1:
                ops.append(dict(op='close'))
        scs.append(dict(c, recs=recs, ops=ops, nocfg=False))
    for k in kinds:
        base = next(c for c in cs if c['kind'] == k and c['script'] and c['ok'])
        # no settings at all
        scs.append(dict(base, script=[], recs=[], ops=[dict(op='init')], nocfg=True))
        # the backend goes away, and comes back
        for rep in range(2 if ctx.quick else 10):
            pool = Recs(rng)
            recs = [pool.nav() for _ in range(6)]
            scs.append(dict(base, script=[], recs=recs, nocfg=False, ops=[dict(op='init'), dict(op='save', save=[0])] +
                            ([dict(op='sleep', ms=rng.choice([1, 50, 1200]))] if rep else []) + [dict(op='down')] + ([dict(op='sleep', ms=300)] if rep % 2 else []) +
                            [dict(op='save', save=[1]), dict(op='save', save=[2]), dict(op='up'), dict(op='sleep', ms=rng.choice([0, 2500])),
                             dict(op='save', save=[3]), dict(op='save', save=[4, 5])]))
        # many at once, some of them refused, some of the connections breaking
        for rep in range(3 if ctx.quick else 20):
            pool = Recs(rng)
            n = 40
            mix = [['ok'] * 9 + ['refuse'], ['ok'], ['ok'] * 7 + ['refuse', 'after', 'before', 'slow']][rep % 3]
            scs.append(dict(base, script=[rng.choice(mix) for _ in range(n)], recs=[pool.nav() if rng.random() < .9 else pool.raw() for _ in range(n)], nocfg=False,
                            ops=[dict(op='init')] + [dict(op='save', save=list(range(i, i + 10))) for i in range(0, n, 10)]))
        # every special record once
        pool = Recs(rng)
        scs.append(dict(base, script=[], recs=['nil', 'bad'] + [pool.raw() for _ in range(6)] + [pool.nav()], nocfg=False,
                        ops=[dict(op='init')] + [dict(op='save', save=[i]) for i in range(9)] + [dict(op='close')]))
    return scs


def job(i, s):
    b = s['backend']
    return dict(ID=i, Settings=s['settings'], NoCfg=s['nocfg'], Up=b['up'],
                Backend=dict(Kind=b['kind'], User=b['user'], Password=b['password'], Database=b['database'], Places=b['places'], Script=s['script'], Auth=b['auth']),
                Recs=[json.loads(x) if isinstance(x, str) and x.startswith('"') else x for x in s['recs']],
                Ops=[dict(Op=o['op'], Save=o.get('save', []), MS=o.get('ms', 0)) for o in s['ops']])


def execute(ctx, scs):
    inp = ''.join(json.dumps(job(i, s)) + '\n' for i, s in enumerate(scs))
    r = subprocess.run([ctx.driver(), 'stores'], input=inp.encode('utf-8', 'surrogatepass'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=820)
    if r.returncode != 0:
        raise CheckError('driver: rc %d\n%s' % (r.returncode, r.stderr.decode(errors='replace')[-3000:]))
    res = {d['id']: d for d in (json.loads(l) for l in r.stdout.decode('utf-8', 'replace').splitlines())}
    if len(res) != len(scs):
        raise CheckError('%d of %d scenarios were run' % (len(res), len(scs)))
    return [res[i] for i in range(len(scs))]


def trace(s, res):
    evs = []
    for e in res['events']:
        if e['e'] == 'msg':
            evs.append(dict(e='msg', place=e['place'], v=e['v'], body=form(e['body'])))
        elif e['e'] in ('init', 'save', 'saveret', 'down', 'hang', 'died'):
            evs.append({k: v for k, v in e.items() if k != 'err'})
    return dict(kind=s['kind'], settings=s['settings'], backend=s['backend'], nocfg=s['nocfg'], recs=[inform(x) for x in s['recs']], events=evs)


def validate(ctx, scs, results, shards=4):
    parts = [list(range(k, len(scs), shards)) for k in range(shards)] if len(scs) > 8 else [list(range(len(scs)))]

    def one(k):
        p = ctx.path('ctrace%d.ndjson' % k)
        lines = [trace(scs[i], results[i]) for i in parts[k]]
        with open(p, 'w') as f:
            for l in lines:
                f.write(json.dumps(l) + '\n')
        r = ctx.tlc('ConnectorTrace', env=dict(TRACE=p), workers=2, heap='2g', timeout=600)
        n = sum(len(l['events']) + 1 for l in lines)
        if r['ok']:
            if r['distinct'] != n:
                raise CheckError('%d of %d trace states were explored' % (r['distinct'], n))
            return None, n
        st = re.findall(r'/\\ sc = (\d+)\n/\\ l = (\d+)\n/\\ fault = "(.*?)"', r['out'], re.S)
        if not st:
            raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
        a, l, f = st[-1]
        return (parts[k][int(a) - 1], int(l), f, lines[int(a) - 1]['events'][:int(l)]), n
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    for bad, n in rs:
        if bad:
            return bad, 0
    return None, sum(n for _, n in rs)


def judge(ctx, scs):
    results = execute(ctx, scs)
    ctx.log('%d scenarios, %d events' % (len(scs), sum(len(r['events']) for r in results)))
    bad, n = validate(ctx, scs, results)
    if bad and bad[2] == 'does not return':    # a machine too slow for the deadline must not look like a violation
        r2 = execute(ctx, [scs[bad[0]]])
        b2, _ = validate(ctx, [scs[bad[0]]], r2)
        if not b2:
            return judge(ctx, [s for j, s in enumerate(scs) if j != bad[0]])
    if bad:
        i, l, f, evs = bad
        ctx.violation('%s: %s, settings %s: %s' % (ctx.prop, scs[i]['kind'], json.dumps(scs[i]['settings'], ensure_ascii=False), f),
                      dict(kind='connector', scenario=job(i, scs[i]), fault=f, events=evs, raw_events=[{k: (v[:300] if isinstance(v, str) else v) for k, v in e.items()} for e in results[i]['events'][:60]],
                           stderr=results[i].get('note', '')))
        return
    ctx.cov['traces_validated_against_impl'] += len(scs)
    ctx.cov['trace_events'] = ctx.cov.get('trace_events', 0) + n
    for k in ('init', 'save', 'msg'):
        ctx.cov['events_' + k] = ctx.cov.get('events_' + k, 0) + sum(1 for r in results for e in r['events'] if e['e'] == k)
    for s, r in list(zip(scs, results))[:: max(1, len(scs) // 4)]:
        ctx.sample(dict(kind=s['kind'], settings=s['settings'], script=s['script'], events=[{k: (v[:80] if isinstance(v, str) else v) for k, v in e.items()} for e in r['events'][:8]]))


def model(ctx):
    for saves, tries, breaks in [(2, 2, 2)] + ([] if ctx.quick else [(3, 2, 2), (3, 3, 2)]):
        cfg = ctx.path('mcc-%d%d%d.cfg' % (saves, tries, breaks))
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION Spec\nINVARIANTS Truth Reported Healthy\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Saves = {%s}\n Tries = %d\n'
                    ' Verdicts = {"ok", "refuse", "before", "after", "fatal"}\n MaxBreaks = %d\n' % (', '.join(map(str, range(1, saves + 1))), tries, breaks))
        r = ctx.tlc('MCConnector', cfg=cfg, workers=4, heap='4g')
        if not r['ok']:
            raise CheckError('the specification violates its own property:\n' + r['out'][-3000:])
        ctx.cov['states'] += r['distinct']
        ctx.cov['transitions'] += r['states']


def run(ctx):
    with ThreadPoolExecutor(1) as pool:
        m = pool.submit(model, ctx)
        judge(ctx, scenarios(ctx, cases(ctx)))
        m.result()
