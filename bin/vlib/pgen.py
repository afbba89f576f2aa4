"""C25: the packet generator against scripted servers, judged by spec/PacketGenTrace."""
import collections, datetime, json, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from .core import CheckError

EPOCH = datetime.datetime(2010, 1, 1)
TOP = 0xffffffff


def pair(n):
    return [n & 0xffff, n >> 16]


def num(p):
    return p[0] + (p[1] << 16)


def time_text(rng, s):
    off = rng.choice([0, 0, 0, 180, -720, 840, 1, -1, 330])
    t = EPOCH + datetime.timedelta(seconds=s) + datetime.timedelta(minutes=off)
    zone = 'Z' if off == 0 and rng.random() < .8 else '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    return t.strftime('%Y-%m-%dT%H:%M:%S') + rng.choice(['', '', '', '.0', '.5', '.999']) + zone


def degrees(u, top):
    """a text for u units, close to the middle of the values that are transmitted as u"""
    x = Fraction(u) * top / TOP if u in (0, TOP) else (Fraction(2 * u + 1) / 2) * top / TOP
    return '%.13f' % float(x)


def coord(rng, u, neg, top):
    """the text of a coordinate and its units"""
    t = degrees(u, top)
    if rng.random() < .3:
        t = rng.choice(['%d', '%.1f', '%.4f', '%.6f', '%.7e']) % float(t)
        x = Fraction(t)
        if x > top:
            x, t = Fraction(top), str(top)
        u = int(x * TOP / top)
    return ('-' if neg else '') + t, u


def arg(rng, n, v):
    s = rng.random()
    d = rng.choice(['-', '--'])
    return ['%s%s=%s' % (d, n, v)] if s < .5 or str(v).startswith('-') else [d + n, str(v)]


def request(rng, q, timeout, fits=True, override=None, without=()):
    lat, u = coord(rng, num(q['lat']), q['laneg'], 90)
    lon, w = coord(rng, num(q['lon']), q['loneg'], 180)
    a = dict(pid=q['pid'], oid=num(q['oid']), time=time_text(rng, num(q['ntm'])), lat=lat, lon=lon, liquid=num(q['liq']), server='@ADDR@')
    if timeout:
        a['timeout'] = timeout
    q = dict(q, lat=pair(u), lon=pair(w))
    for n in ('lat', 'lon', 'liquid'):       # zero is what they are without the argument
        if float(a[n]) == 0 and rng.random() < .5:
            del a[n]
    a.update(override or {})
    for n in without:
        a.pop(n, None)
    args = []
    for n in rng.sample(sorted(a), len(a)):
        args += arg(rng, n, a[n])
    return dict(q, fits=fits), args


BAD = dict(pid=['0', '-1', '-65535', '65536', '65537', '131073', '4294967297', '18446744073709551617', 'x', '', '1.5', '1e3'],
           oid=['0', '-1', '4294967296', '4294967297', '-4294967295', '18446744073709551617', 'x', '', '1.5'],
           liquid=['-1', '4294967296', '4294967297', '18446744073709551616', 'x', '', '1.5'],
           lat=['90.0001', '-90.0001', '91', '180', '-1e9', 'NaN', 'Inf', '-Inf', 'x', '', '1e400'],
           lon=['180.0001', '-180.0001', '181', '360', '-1e9', 'NaN', '+Inf', 'x', '', '1e400'],
           time=['', 'x', '2009-12-31T23:59:59Z', '2010-01-01T02:59:59+03:00', '1970-01-01T00:00:00Z', '2146-02-07T06:28:16Z', '9999-12-31T23:59:59Z',
                 '2021-12-16 09:12:00', '2021-12-16T09:12:00', '2021-13-01T00:00:00Z', '2021-02-30T00:00:00Z', '2021-12-16', '1639645920'])


def scenarios(ctx):
    rng = random.Random(ctx.seed * 7919 + 25)
    out = ctx.path('pgen-cases.ndjson')
    r = ctx.tlc('GenPacketGen', env=dict(GEN_OUT=out, GEN_TIER=ctx.tier), workers=1)
    cs = [json.loads(l) for l in open(out)]
    if not r['ok'] or not cs:
        raise CheckError('no cases')
    ctx.cov['cases_generated'] = len(cs)
    scs = []

    def add(q, ans, plan, timeout, fits=True, override=None, without=(), noserver=False, server='', note=''):
        req, args = request(rng, q, timeout, fits, override, without)
        scs.append(dict(req=req, args=args, ans=bytes(ans).hex(), plan=plan, timeout=timeout or 5, noserver=noserver, server=server, note=note))
    for rep in range(1 if ctx.quick else 3):
        for c in cs:
            add(c['req'], c['ans'], c['plan'], c['timeout'])
    base = next(c for c in cs if c['timeout'] == 9 and len(c['plan']) == 1)
    good = base['ans']
    plan = [dict(o='send', n=len(good))]
    for n, vs in BAD.items():
        for v in vs:
            add(base['req'], good, plan, 2, fits=False, override={n: v}, note='bad %s' % n)
    for n in ('pid', 'oid', 'time'):
        add(base['req'], good, plan, 2, fits=False, without=[n], note='no %s' % n)
    add(base['req'], good, plan, 2, fits=False, override=dict(timeout='x'), note='bad timeout')
    for s in ('', '127.0.0.1', '127.0.0.1:x', '127.0.0.1:70000', 'no.such.host.invalid:5555'):
        add(base['req'], good, plan, 2, override=dict(server=s or ':0'), noserver=True, note='bad server')
    add(base['req'], good, plan, 2, noserver=True, note='no server')
    # requests that are not on a boundary, with the plain answer
    for i in range(60 if ctx.quick else 1500):
        p = rng.randrange(1, 65536)
        ans = bytearray(good)
        ans[11:13] = p.to_bytes(2, 'little')
        q = dict(base['req'], pid=p, oid=pair(rng.randrange(1, 1 << rng.choice([8, 16, 24, 31, 32]))), ntm=pair(rng.randrange(1 << 32)), liq=pair(rng.randrange(1 << rng.choice([7, 8, 15, 16, 24, 31, 32]))),
                 lat=pair(rng.randrange(1 << 32)), lon=pair(rng.randrange(1 << 32)), laneg=rng.random() < .5, loneg=rng.random() < .5)
        add(q, fit(ans), plan, 9)
    return scs


def fit(b):
    from .codec import rebody, body_of
    return rebody(bytes(b), body_of(bytes(b)))


def execute(ctx, scs):
    gen = ctx.path('packet-gen')
    ctx.go_build(gen, './cli/packet-gen')
    inp = ''.join(json.dumps(dict(ID=i, Args=s['args'], Answer=s['ans'], Plan=[dict(O=x['o'], N=x['n']) for x in s['plan']], Timeout=s['timeout'],
                                  NoServer=s['noserver'], Server=s['server'])) + '\n' for i, s in enumerate(scs))
    r = subprocess.run([ctx.driver(), 'pgen', gen], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    if r.returncode != 0:
        raise CheckError('driver: rc %d\n%s' % (r.returncode, r.stderr.decode(errors='replace')[-3000:]))
    res = [json.loads(l) for l in r.stdout.splitlines()]
    if len(res) != len(scs):
        raise CheckError('%d of %d runs' % (len(res), len(scs)))
    return res


def trace(s, r):
    evs = [dict(e, b=list(bytes.fromhex(e['b']))) if e['e'] == 'answer' else e for e in r['events']]
    return dict(req=s['req'], server=not s['noserver'], timeout=s['timeout'], sent=[list(bytes.fromhex(x)) for x in r['sent']], events=evs)


def validate(ctx, scs, results, shards=4):
    parts = [list(range(k, len(scs), shards)) for k in range(shards)] if len(scs) > 8 else [list(range(len(scs)))]

    def one(k):
        lines = [trace(scs[i], results[i]) for i in parts[k]]
        n, bads = 0, []
        todo = list(range(len(lines)))
        while True:
            p = ctx.path('pgtrace%d.ndjson' % k)
            with open(p, 'w') as f:
                for j in todo:
                    f.write(json.dumps(lines[j]) + '\n')
            r = ctx.tlc('PacketGenTrace', env=dict(TRACE=p), workers=2, heap='2g', timeout=600)
            n = sum(len(lines[j]['events']) + 1 for j in todo)
            if r['ok']:
                if r['distinct'] != n:
                    raise CheckError('%d of %d trace states were explored' % (r['distinct'], n))
                return bads, n
            st = re.findall(r'/\\ sc = (\d+)\n/\\ l = \d+\n/\\ fault = "(.*?)"', r['out'], re.S)
            if not st:
                raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
            a, f = st[-1]
            bads.append((parts[k][todo[int(a) - 1]], f))
            del todo[int(a) - 1]
            if len(bads) >= 3 or not todo:
                return bads, n
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    return [b for bs, _ in rs for b in bs], sum(n for _, n in rs)


def run(ctx):
    r = ctx.tlc('MCPacketGen', workers=2)
    if not r['ok']:
        raise CheckError('the specification violates its own property:\n' + r['out'][-3000:])
    ctx.cov['states'] += r['distinct']
    ctx.cov['transitions'] += r['states']
    scs = scenarios(ctx)
    results = execute(ctx, scs)
    ctx.log('%d runs' % len(scs))
    bads, n = validate(ctx, scs, results)
    for i, f in bads:
        # what time decides must show again on a quiet machine
        again = execute(ctx, [scs[i]])
        b2, _ = validate(ctx, [scs[i]], again)
        if not b2:
            ctx.cov['unconfirmed'] = ctx.cov.get('unconfirmed', 0) + 1
            continue
        ctx.violation('%s: packet-gen %s: %s' % (ctx.prop, ' '.join(scs[i]['args']), b2[0][1]),
                      dict(kind='packet-gen', fault=b2[0][1], scenario=scs[i], result=again[0]))
        return
    ctx.cov['traces_validated_against_impl'] += len(scs)
    ctx.cov['trace_events'] = n
    ctx.cov['succeeded'] = sum(1 for x in results for e in x['events'] if e['e'] == 'exit' and e['code'] == 0)
    for s, x in list(zip(scs, results))[:: max(1, len(scs) // 4)]:
        ctx.sample(dict(args=s['args'], sent=x['sent'], events=x['events'][:4]))
