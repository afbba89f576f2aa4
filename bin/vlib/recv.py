"""Receiver checks: schedules from the specification (and systematic ones) run against the real server; traces validated by TLC."""
import json, os, random, re, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

from .codec import crc8, crc16, generate, subs_req, SRT, KNOWN_TYPES
from .core import CheckError, limit_memory, recorded

UNKNOWN = [t for t in range(256) if t not in KNOWN_TYPES]


# ---- building streams ----------------------------------------------------------

def le(n, w):
    return int(n).to_bytes(w, 'little')


def sub(t, b):
    return bytes([t]) + le(len(b), 2) + bytes(b)


def record(rn, subs, oid=None, evid=None, tm=None, sst=2, rst=2, flags=0, rl=None):
    d = b''.join(subs)
    f = (flags & 0xF8) | (1 if oid is not None else 0) | (2 if evid is not None else 0) | (4 if tm is not None else 0)
    h = le(len(d) if rl is None else rl, 2) + le(rn, 2) + bytes([f])
    for x in (oid, evid, tm):
        if x is not None:
            h += le(x, 4)
    return h + bytes([sst, rst]) + d


def header(pid, fdl, pt=1, route=None, flags=0, hl=None, skid=0, he=0, prv=1, pad=b''):
    r = le(route[0], 2) + le(route[1], 2) + bytes([route[2]]) if route else b''
    h = bytes([prv, skid, flags | (0x20 if route else 0), hl if hl is not None else 11 + len(r) + len(pad), he]) + le(fdl, 2) + le(pid, 2) + bytes([pt]) + r
    return h + bytes([crc8(h)]) + pad


def packet(pid, body, **kw):
    return header(pid, len(body), **kw) + (body + le(crc16(body), 2) if body else b'')


class Pool:
    """Subrecords the specification generated, and fresh identifiers."""

    def __init__(self, ctx, n=48):
        self.rng = random.Random(ctx.seed * 7919 + 13)
        self.by = {}
        for g in generate(ctx, [subs_req(ctx, list(SRT), n)]):
            self.by.setdefault(g['kind'], []).append(g['b'])
        self.by['pos'] = [self.fixpos(b) for b in self.by['pos']]
        self.ntm = self.rng.randrange(1, 1 << 20)
        self.oid = self.rng.randrange(1, 1 << 31)
        self.rn = self.rng.randrange(1 << 16)

    @staticmethod
    def fixpos(b):
        b = bytearray(b)
        if b[14] & 0x80:
            b[15] %= 104          # a course below 360
        return bytes(b)

    def bits(self, kind):
        return self.rng.choice(self.by[kind])

    def sub(self, kind):
        return sub(SRT[kind], self.bits(kind))

    def pid(self):
        return self.rng.choice([0, 0, 1, 255, 256, 32768, 65535]) if self.rng.random() < .2 else self.rng.randrange(65536)

    def newoid(self):
        if self.rng.random() < .12:
            return self.rng.choice([0, 0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])
        self.oid += self.rng.choice([1, 7, 65536])
        return self.oid % (1 << 32)

    def newrn(self):
        self.rn = (self.rn + 1) % 65536 if self.rng.random() > .03 else self.rng.choice([0, 65534, 65535])
        return self.rn

    def pos(self):
        """a position with a time of its own: (subrecord, time)"""
        self.ntm += self.rng.choice([1, 2, 257, 65537])
        return sub(16, le(self.ntm, 4) + self.bits('pos')[4:]), self.ntm

    def unknown(self):
        return sub(self.rng.choice(UNKNOWN), bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 1, 5, 30]))))

    def extras(self, n=3, ident=False):
        """subrecords that go with a position, at most one ext"""
        ks = ['ad', 'cnt', 'absan', 'abscn', 'liq', 'state', 'unknown', 'module', 'plus', 'num', 'disp', 'result']
        r = [self.sub('ext')] if self.rng.random() < .5 else []
        for _ in range(self.rng.randrange(n + 1)):
            k = self.rng.choice(ks)
            if k == 'unknown':
                r.append(self.unknown())
            elif k == 'num':
                r.append(sub(25, bytes([self.rng.choice([110, 111])]) + le(self.rng.randrange(1 << 24), 3)))
            elif k == 'state':
                r.append(sub(self.rng.choice([20, 21]), self.bits('state')[:5]))
            else:
                r.append(self.sub(k))
        self.rng.shuffle(r)
        return r


class Packet:
    """bytes, the times of its records (None where there is no position), its kind, and how many replies it should get"""

    def __init__(self, b, times=(), kind=''):
        self.b, self.times, self.kind = bytes(b), list(times), kind


class Maker:
    def __init__(self, pool):
        self.p, self.rng = pool, pool.rng

    def hdr(self):
        r = self.rng
        kw = {}
        if r.random() < .25:
            kw['route'] = (r.randrange(65536), r.randrange(65536), r.randrange(256))
        if r.random() < .3:
            kw['flags'] = r.choice([1, 2, 3])
        return kw

    def rec(self, pos=True, oid=None, more=(), conf=False, extras=True, sst=None, rn=None):
        """one record: (bytes, time or None)"""
        p, r = self.p, self.rng
        subs, t = [], None
        if extras:
            subs += p.extras(3)
        if pos:
            s, t = p.pos()
            subs.insert(r.randrange(len(subs) + 1), s)
        subs += list(more)
        if conf:
            subs.insert(r.randrange(len(subs) + 1), p.sub('resp'))
        kw = dict(oid=oid, sst=sst if sst is not None else r.choice([2, 2, 2, 1, 4, 255]))
        if r.random() < .3:
            kw['evid'] = r.randrange(1 << 32)
        if r.random() < .3:
            kw['tm'] = r.randrange(1 << 32)
        if r.random() < .3:
            kw['flags'] = r.choice([0x08, 0x10, 0x20, 0x40, 0x80, 0xF8])
        return record(p.newrn() if rn is None else rn, subs, rst=r.choice([2, 1, 7]), **kw), t

    def data(self, recs, kind='data', pid=None, **kw):
        h = self.hdr()
        h.update(kw)
        return Packet(packet(self.p.pid() if pid is None else pid, b''.join(b for b, t in recs), **h), [t for b, t in recs], kind)

    def make(self, kind):
        p, r = self.p, self.rng
        if kind == 'pos':
            return self.data([self.rec()], kind)
        if kind == 'oid':
            return self.data([self.rec(oid=p.newoid()), self.rec()], kind)
        if kind == 'ident':
            return self.data([self.rec(pos=False, oid=p.newoid(), more=[sub(1, le(p.newoid(), 4) + p.bits('term')[4:])], sst=1), self.rec()], kind)
        if kind == 'identpos':      # identity and position in one record
            return self.data([self.rec(oid=r.choice([None, p.newoid()]), more=[sub(1, le(p.newoid(), 4) + p.bits('term')[4:])])], kind)
        if kind == 'auth':
            return self.data([self.rec(pos=False, more=[p.sub('auth')], sst=1)], kind)
        if kind == 'authconf':      # asks for authorisation but only confirms: no answer
            return self.data([self.rec(pos=False, conf=True, extras=False, more=[p.sub(r.choice(['auth', 'term']))])], kind)
        if kind == 'nopos':
            return self.data([self.rec(pos=False)], kind)
        if kind == 'noposoid':
            return self.data([self.rec(pos=False, oid=p.newoid())], kind)
        if kind == 'empty':
            return self.data([(record(p.newrn(), [], oid=r.choice([None, p.newoid()])), None)], kind)
        if kind == 'conf':
            return self.data([self.rec(pos=False, conf=True, extras=False)], kind)
        if kind == 'mixed':
            return self.data([self.rec(conf=True), self.rec(pos=False), self.rec()], kind)
        if kind == 'multi':
            n = r.choice([2, 3, 5, 8])
            return self.data([self.rec(pos=r.random() < .7, oid=r.choice([None, None, p.newoid()]), conf=r.random() < .15) for _ in range(n)], kind)
        if kind == 'samern':        # record numbers that repeat or wrap
            rn = r.choice([0, 65535, 7])
            return self.data([self.rec(rn=rn), self.rec(rn=rn), self.rec(rn=(rn + 1) % 65536)], kind)
        if kind == 'same':          # positions that repeat: a client that sends again what it may have sent
            s, t = p.pos()
            o = r.choice([None, p.newoid()])
            recs = [(record(p.newrn(), [s], oid=o), t) for _ in range(r.choice([2, 3]))]
            return self.data(recs + [self.rec()] + recs[:r.randrange(2)], kind)
        if kind == 'zeros':         # every field that can be is zero
            return self.data([(record(0, [sub(16, le(self.p.pos()[1], 4) + bytes(17))] + [sub(25, b'\x6e\0\0\0')] * r.randrange(2), oid=0, evid=0, tm=0, sst=r.choice([0, 2]), rst=r.choice([0, 2])), self.p.ntm)], kind, pid=0)
        if kind == 'resp':
            body = le(r.randrange(65536), 2) + bytes([r.choice([0, 0, 128])])
            if r.random() < .6:
                body += record(p.newrn(), [p.sub('resp')])
                if r.random() < .3:
                    body += self.rec()[0]
            return Packet(packet(p.pid(), body, pt=0, **self.hdr()), [], kind)
        if kind == 'bad':
            return self.bad()
        if kind == 'foreign':
            return self.foreign()
        raise KeyError(kind)

    DAMAGE = ['hcs', 'hdrbit', 'crc', 'bodybit', 'type', 'enc', 'body', 'hl', 'nodata', 'type20', 'encnokey', 'reclen', 'crcboth', 'typecrc']

    def bad(self, how=None):
        p, r = self.p, self.rng
        how = how or r.choice(self.DAMAGE)
        b = self.data([self.rec(oid=p.newoid(), more=[p.sub('term')] if r.random() < .3 else []) for _ in range(r.choice([1, 1, 2]))]).b
        n = 16 if b[2] & 0x20 else 11
        body = b[n:-2]
        pid = b[7:9]
        m = bytearray(b)
        if how == 'hcs':
            m[n - 1] ^= r.choice([1, 0x80, 0xFF])
        elif how == 'hdrbit':       # a header field that does not move the boundaries
            i = r.choice([1, 4, 7, 8] + ([10, 11, 12, 13, 14] if n == 16 else []))
            m[i] ^= 1 << r.randrange(8)
        elif how == 'crc':
            m[-1 - r.randrange(2)] ^= 1 << r.randrange(8)
        elif how == 'crcboth':
            m[-1], m[-2] = m[-2], m[-1]
            if m[-1] == m[-2]:
                m[-1] ^= 0x55
        elif how == 'bodybit':
            m[n + r.randrange(len(body))] ^= 1 << r.randrange(8)
        elif how in ('type', 'typecrc'):
            m[9] = r.choice([2, 3, 127, 255])
            m[n - 1] = crc8(m[:n - 1])
            if how == 'typecrc':
                m[-1] ^= 1
        elif how in ('enc', 'encnokey'):
            m[2] |= r.choice([8, 16, 24])
            m[n - 1] = crc8(m[:n - 1])
            if how == 'enc':
                m[-1] ^= 0x10
        elif how == 'body':         # a body that is no sequence of records, its checksum right
            cut = r.choice([body[:-1], body + b'\x01', body[:3], body[1:], bytes([255]) * 9, body[:len(body) // 2]])
            return Packet(packet(int.from_bytes(pid, 'little'), cut), [], 'bad:' + how)
        elif how == 'reclen':
            s, t = p.pos()
            d = record(1, [s], rl=len(s) + r.choice([1, 200, 60000]))
            return Packet(packet(int.from_bytes(pid, 'little'), d), [], 'bad:' + how)
        elif how == 'type20':
            d = self.rec()[0] + record(1, [sub(20, bytes(r.choice([0, 4, 6, 40])))])
            return Packet(packet(int.from_bytes(pid, 'little'), d), [], 'bad:' + how)
        elif how == 'hl':           # a header length that does not fit the flags: the frame is as long as it says
            hl = r.choice([12, 15, 16, 17, 64, 128, 255])
            body2 = body[:r.choice([len(body), 1, 20])]
            return Packet(header(int.from_bytes(pid, 'little'), len(body2), hl=hl, pad=bytes(hl - 11)) + body2 + le(crc16(body2), 2), [], 'bad:' + how)
        elif how == 'nodata':
            return Packet(header(int.from_bytes(pid, 'little'), 0, **self.hdr()), [], 'bad:' + how)
        return Packet(m, [], 'bad:' + how)

    def foreign(self, n=10, how=None):
        """n bytes that cannot begin a packet"""
        r = self.rng
        how = how or r.choice(['prv', 'hl'])
        b = bytearray(header(r.randrange(65536), r.choice([0, 5, 65535])))
        b = (b + bytes(r.randrange(256) for _ in range(n)))[:n]
        if how == 'prv':
            b[0] = r.choice([0, 2, 3, 0x47, 0x80, 0x81, 255])
        else:
            b[3] = r.choice([0, 1, 9, 10])
        return Packet(b, [], 'foreign')


# ---- scenarios -------------------------------------------------------------------

DRAIN = 15000


class Scenario:
    def __init__(self, note='', ttl=0, stores=2, delay=0, prestop=False):
        self.note, self.ttl, self.stores, self.delay, self.prestop = note, ttl, stores, delay, prestop
        self.streams, self.pk, self.steps, self.fails, self.ignore, self.blank = [], [], [], [], [], []
        self.repeat, self.quiet, self.files = {}, False, 0

    def conn(self, packets=(), tail=b''):
        self.pk.append(list(packets))
        self.streams.append(b''.join(p.b for p in packets) + tail)
        return len(self.streams)

    def add(self, op, c=0, n=0, ms=0):
        self.steps.append(dict(Op=op, C=c, N=n, Ms=ms))

    def par(self, branches):
        self.steps.append(dict(Op='par', Branches=branches))

    def fail(self, store, t):
        self.fails.append([store, t & 0xFFFF, t >> 16])

    def times(self):
        return {t for c in self.pk for p in c for t in p.times if t is not None}

    def job(self, i):
        return dict(ID=i, TTL=self.ttl, Stores=self.stores, Delay=self.delay, Prestop=self.prestop, Quiet=self.quiet, Files=self.files,
                    Streams=[s.hex() + '*%d' % self.repeat.get(c + 1, 1) for c, s in enumerate(self.streams)], Fails=self.fails, Steps=self.steps)


def op(o, c=0, n=0, ms=0):
    return dict(Op=o, C=c, N=n, Ms=ms)


def session(sc, c, sizes, gap=0, drain=DRAIN):
    """connect, send in pieces, half-close, read to the end"""
    r = [op('connect', c)]
    left = len(sc.streams[c - 1])
    for n in sizes:
        n = min(n, left)
        if n > 0:
            r.append(op('send', c, n))
            left -= n
            if gap:
                r.append(op('sleep', ms=gap))
    if left:
        r.append(op('send', c, left))
    return r + [op('half', c), op('drain', c, ms=drain)]


def sessions(sc, plans):
    sc.par([session(sc, c, sizes, gap) for c, sizes, gap in plans])
    return sc


def schedules(ctx, n, kinds, conns=2, packets=4, fails=2, stores=2, abort=True, depth=70, salt=0):
    """behaviours of the specification"""
    cfg = ctx.path('sim%d.cfg' % salt)
    with open(cfg, 'w') as f:
        f.write('INIT SInit\nNEXT SNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NoClient <- Nobody\n StatusOk = 0\n StatusFailed = 155\n'
                ' Stores = {%s}\n Conns = {%s}\n Kinds = {%s}\n MaxPackets = %d\n TTL = 0\n MaxTime = 0\n MaxFails = %d\n CanStop = FALSE\n CanAbort = %s\n Deaf = {}\n Room = 9\n Limit = 9\n Leaving = {}\n Depth = %d\n'
                % (', '.join(map(str, range(1, stores + 1))), ', '.join(map(str, range(1, conns + 1))), ', '.join('"%s"' % k for k in kinds),
                   packets, fails, 'TRUE' if abort else 'FALSE', depth))
    r = ctx.tlc('SimReceiver', cfg=cfg, workers=1, args=['-simulate', 'num=%d' % n, '-depth', str(depth + 1), '-seed', str(ctx.seed * 1000 + salt)])
    out = []
    for l in r['out'].splitlines():
        m = re.match(r'"SCHEDULE (.*)"$', l)
        if m:
            out.append(json.loads(m.group(1).replace('\\"', '"')))
    if not out:
        raise CheckError('no schedules:\n' + r['out'][-3000:])
    ctx.cov['behaviours_generated'] = ctx.cov.get('behaviours_generated', 0) + len(out)
    return out


def from_schedule(s, mk, note='schedule', delay=0, stores=2):
    """a behaviour of the specification as a scenario: packets of its kinds, its sends, reads and failures"""
    r = mk.rng
    sc = Scenario(note, delay=delay, stores=stores)
    units = []
    for ks in s['kinds']:
        ps = [mk.make(k) for k in ks]
        # two units a packet: the first ends somewhere inside
        u = []
        for p in ps:
            cut = r.choice([1, 9, 10, 11, len(p.b) - 1, r.randrange(1, len(p.b))])
            cut = max(1, min(cut, len(p.b) - 1))
            u += [cut, len(p.b) - cut]
        units.append(u)
        sc.conn(ps)
    done = {}
    reads = {}
    state = {}
    for x in s['trail']:
        c = x['c']
        if x['a'] == 'connect':
            sc.add('connect', c)
            state[c] = 'open'
        elif x['a'] == 'send':
            k = done.get(c, 0)
            n = sum(units[c - 1][k:k + x['n']])
            done[c] = k + x['n']
            sc.add('send', c, n)
            if r.random() < .5:
                sc.add('sleep', ms=r.choice([1, 3]))
        elif x['a'] == 'half':
            sc.add('half', c)
            state[c] = 'half'
        elif x['a'] == 'abort':
            sc.add('abort', c)
            state[c] = 'abort'
        elif x['a'] == 'recv':
            reads[c] = reads.get(c, 0) + 1
            sc.add('await', c, reads[c], 10000)
        elif x['a'] == 'fail':
            st, j, i = x['n']
            t = sc.pk[c - 1][j - 1].times[i - 1]
            if t is not None:
                sc.fail(st, t)
    for c, v in state.items():
        if v == 'open':
            sc.add('half', c)
        if v != 'abort':
            sc.add('drain', c, ms=DRAIN)
    return sc


# ---- running and validating --------------------------------------------------------

def execute(ctx, scs):
    drv = ctx.driver()
    inp = ''.join(json.dumps(s.job(i)) + '\n' for i, s in enumerate(scs)).encode()
    try:
        r = subprocess.run([drv, 'recv'], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
    except subprocess.TimeoutExpired:
        raise CheckError('the receiver driver exceeded its time')
    if r.returncode != 0:
        raise CheckError('receiver driver: rc %d %s' % (r.returncode, r.stderr.decode(errors='replace')[-3000:]))
    res = {}
    for l in r.stdout.decode().splitlines():
        d = json.loads(l)
        res[d['id']] = d
    if len(res) != len(scs):
        raise CheckError('%d of %d scenarios were run' % (len(res), len(scs)))
    for d in res.values():
        if d.get('error'):
            raise CheckError('scenario %d: %s' % (d['id'], d['error'][-2000:]))
    return [res[i] for i in range(len(scs))]


DROP = {'sent'}


def prepare(sc, res, focus):
    times = sc.times()
    evs = []
    for e in res['events']:
        if (e['e'] == 'sent' and 'close' not in focus) or (e.get('c') in sc.ignore and e['e'] not in ('flooded', 'stale')):
            continue
        if e['e'] == 'save':
            a, b = e['rec']['ntm']
            e['known'] = a >= 0 and (a | b << 16) in times
        if e['e'] == 'tail':
            e.pop('b', None)
        evs.append(e)
    # ignored streams only matter for the positions in them
    return dict(id=res['id'], ttl=sc.ttl, ignore=sc.ignore, streams=[[] if c + 1 in sc.blank else list(s) for c, s in enumerate(sc.streams)], events=evs)


def validate(ctx, scs, results, focus, stores=2, slack=60, grace=3000, shards=4):
    """index of the first scenario TLC refuses, with where and why; None if it accepts all"""
    order = sorted(range(len(scs)), key=lambda i: -sum(map(len, scs[i].streams)) - 200 * len(results[i]['events']))
    shards = max(1, min(shards, len(scs)))
    parts = [order[k::shards] for k in range(shards)]

    def one(k):
        trace, meta = ctx.path('rtrace%d.ndjson' % k), ctx.path('rmeta%d.json' % k)
        lines = [prepare(scs[i], results[i], focus) for i in parts[k]]
        with open(trace, 'w') as f:
            for l in lines:
                f.write(json.dumps(l) + '\n')
        with open(meta, 'w') as f:
            json.dump(dict(focus=focus, stores=stores, slack=slack, grace=grace), f)
        r = ctx.tlc('ReceiverTrace', env=dict(TRACE=trace, TRACE_META=meta), workers=2, heap='3g', timeout=700)
        n = sum(len(l['events']) + 1 for l in lines)
        if r['ok']:
            if r['distinct'] != n:
                raise CheckError('%d of %d trace states were explored' % (r['distinct'], n))
            return None, n
        st = re.findall(r'/\\ sc = (\d+)\n/\\ l = (\d+)\n/\\ fault = (\{.*?\})', r['out'], re.S)
        if not st:
            raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
        s, l, f = st[-1]
        return (parts[k][int(s) - 1], int(l), f, lines[int(s) - 1]['events']), n
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    for bad, n in rs:
        if bad:
            return bad, 0
    return None, sum(n for _, n in rs)


def judge(ctx, scs, focus, stores=2, confirm=True):
    results = execute(ctx, scs)
    ctx.log('%d scenarios executed, %d events' % (len(scs), sum(len(r['events']) for r in results)))
    bad, n = validate(ctx, scs, results, focus, stores)
    if bad and confirm:
        # once more, by itself: a machine too slow for a deadline must not look like a violation
        i, l, f, evs = bad
        ctx.log('scenario %d (%s) refused at event %d: %s; running it again' % (i, scs[i].note, l, f))
        again = None
        for _ in range(3):
            r2 = execute(ctx, [scs[i]])
            b2, _n = validate(ctx, [scs[i]], r2, focus, stores, shards=1)
            if b2:
                again = (b2, r2[0])
                break
        if again is None:
            if timing(f, scs[i].ttl):
                ctx.log('accepted when repeated: the machine was too slow')
                ctx.cov['deadlines_missed_once'] = ctx.cov.get('deadlines_missed_once', 0) + 1
                return judge(ctx, [s for j, s in enumerate(scs) if j != i], focus, stores) if len(scs) > 1 else None
        else:
            (_, l, f, evs), results[i] = again[0], again[1]
    if bad:
        ctx.violation('%s: scenario %d (%s): event %d is not allowed by the specification: %s' % (ctx.prop, i, scs[i].note, l, f),
                      dict(kind='receiver', scenario=scs[i].job(i), fault=f, event_index=l, events=evs[:l], stderr=results[i].get('stderr', '')[-3000:]))
        return
    ctx.cov['traces_validated_against_impl'] += len(scs)
    ctx.cov['trace_events'] = ctx.cov.get('trace_events', 0) + n
    for k in ('save', 'reply', 'closed', 'send', 'connect'):
        ctx.cov['events_' + k] = ctx.cov.get('events_' + k, 0) + sum(1 for r in results for e in r['events'] if e['e'] == k)
    for s, r in list(zip(scs, results))[:: max(1, len(scs) // 2)][:2]:
        ctx.sample(dict(note=s.note, steps=s.steps[:12], events=[{k: v for k, v in e.items() if k != 'b'} for e in r['events'][:12]]))


def timing(f, ttl):
    """faults that a machine too slow for a deadline could produce"""
    return any(x in f for x in ('unanswered', 'not closed', 'unsaved', 'did not return', 'refused', 'not released')) or (ttl > 0 and 'closed' in f)


# ---- scenario sets -----------------------------------------------------------------

ALLK = ['pos', 'oid', 'ident', 'auth', 'conf', 'mixed', 'bad', 'resp', 'foreign']
FULL = ['pos', 'oid', 'ident', 'identpos', 'auth', 'authconf', 'nopos', 'noposoid', 'empty', 'conf', 'mixed', 'multi', 'samern', 'same', 'zeros', 'bad', 'resp']
MULTI = ['identpos', 'nopos', 'noposoid', 'empty', 'multi', 'samern']


def from_schedules(ctx, mk, n, kinds, delay=0, **kw):
    out = []
    for s in schedules(ctx, n, kinds, **kw):
        # vary the concrete kinds behind the abstract ones where the shape does not matter
        out.append(from_schedule(s, mk, 'schedule of %s' % '/'.join(','.join(k) for k in s['kinds']), delay=delay))
    return out


def mixed_sessions(mk, n, conns, packets, kinds, note, gap=0, delay=0, stores=2, fail=0.0, last=None):
    """n scenarios of concurrent clients, each sending packets of random kinds in random pieces"""
    r = mk.rng
    out = []
    for _ in range(n):
        sc = Scenario(note, delay=delay, stores=stores)
        plans = []
        for _c in range(conns):
            ps = [mk.make(r.choice(kinds)) for _ in range(r.randrange(1, packets + 1))]
            if last and r.random() < .3:
                ps.append(mk.make(last))
            c = sc.conn(ps)
            total = len(sc.streams[c - 1])
            mode = r.randrange(4)
            if mode == 0:
                sizes = [total]
            elif mode == 1:
                sizes = [len(p.b) for p in ps]
            elif mode == 2:
                sizes = [r.randrange(1, 60) for _ in range(200)]
            else:
                sizes = [r.randrange(1, 400) for _ in range(200)]
            plans.append((c, sizes, gap))
            for p in ps:
                for t in p.times:
                    if t is not None and r.random() < fail:
                        sc.fail(r.randrange(1, stores + 1), t)
                        if r.random() < .3:
                            sc.fail(r.randrange(1, stores + 1), t)
        sessions(sc, plans)
        out.append(sc)
    return out


def big_packets(mk, count):
    """packets of the largest sizes the length fields can say"""
    r, p = mk.rng, mk.p
    out = []
    kinds = ['filler65535', 'records', 'fill-near', 'hl255', 'filler32768', 'confs']
    for k in kinds[:count]:
        sc = Scenario('large packets: ' + k)
        ps = [mk.make('pos')]
        if k.startswith('fill'):
            size = 65535 if k == 'filler65535' else 32768 if k == 'filler32768' else r.randrange(65400, 65535)
            s, t = p.pos()
            n = size - 7 - len(s) - 3
            ps.append(Packet(packet(r.randrange(65536), record(p.newrn(), [s, sub(r.choice(UNKNOWN), bytes(r.randrange(256) for _ in range(n)))])), [t], k))
        elif k == 'records':
            recs = []
            for i in range(400):
                s, t = p.pos()
                recs.append((record(p.newrn(), [s]), t))
            ps.append(mk.data(recs, k))
        elif k == 'confs':
            recs = [(record(p.newrn(), [sub(200, b'')], sst=2), None) for i in range(1500)]
            ps.append(mk.data(recs, k))
        else:
            body = mk.rec()[0]
            h = bytearray(header(r.randrange(65536), len(body), hl=255, pad=bytes(244)))
            ps.append(Packet(bytes(h) + body + le(crc16(body), 2), [], k))
        ps.append(mk.make('multi'))
        sc.conn(ps)
        cut = len(ps[0].b) + r.choice([3, 10, 11, 1000])
        sessions(sc, [(1, [cut, 1400, 1, 4096] + [65536] * 3, 1)])
        out.append(sc)
    return out


def sized(mk, bases, note='packets of every size about'):
    """packets whose length, or what is left of it after a header, is a round number, one after the other"""
    r, p = mk.rng, mk.p
    out = []
    for base in bases:
        sc = Scenario('%s %d' % (note, base))
        plans = []
        for route in (None, (5, 6, 7)):
            n = 16 if route else 11
            ps = []
            for total in sorted({base + d for d in (-1, 0, 1, 2, 9, 10, 11, n, n + 1, n + 2)}):
                body = total - n - 2
                s, t = p.pos()
                fill = body - 7 - len(s) - 3
                if fill < 0:
                    continue
                x = record(p.newrn(), [s, sub(r.choice(UNKNOWN), bytes(r.randrange(256) for _ in range(fill)))])
                ps.append(mk.data([(x, t)], 'sized', route=route))
            r.shuffle(ps)
            c = sc.conn(ps + [mk.make('pos')])
            plans.append((c, r.choice([[], [len(x.b) for x in ps], [base] * 40]), 1))
        sessions(sc, plans)
        out.append(sc)
    return out


def real(mk, n=12, note='recorded packets', **kw):
    """sessions of packets that real terminals sent"""
    r = mk.rng

    def pack(b):
        times, at, end = [], b[3], len(b) - 2
        while at < end:
            n, f = int.from_bytes(b[at:at + 2], 'little'), b[at + 4]
            at += 7 + 4 * bool(f & 1) + 4 * bool(f & 2) + 4 * bool(f & 4)
            k, t = at, None
            while k < at + n:
                if b[k] == 16:
                    t = int.from_bytes(b[k + 3:k + 7], 'little')
                k += 3 + int.from_bytes(b[k + 1:k + 3], 'little')
            times.append(t)
            at += n
        return Packet(b, times, 'recorded')
    ps = [pack(b) for b in recorded()]
    scs = []
    for o in range(0, len(ps), n):
        sc = Scenario(note, **kw)
        part = ps[o:o + n]
        c = sc.conn(part)
        scs.append(sessions(sc, [(c, [r.randrange(1, 700) for _ in range(60)], 0)]))
    return scs


def repeats(mk, n):
    """clients that send packets again, on the same connection and on the next: each is a packet like any other"""
    r = mk.rng
    out = []
    for _ in range(n):
        sc = Scenario('retransmitted packets')
        a, b, d = (mk.make(r.choice(['pos', 'multi', 'same', 'oid', 'mixed', 'zeros', 'identpos'])) for _ in range(3))
        for ps in ([a, a, b, a, b, b], [b, a, a], [d, d, d, a]):
            c = sc.conn(ps)
            sc.steps += session(sc, c, r.choice([[], [len(x.b) for x in ps]]), r.choice([0, 2]))
        out.append(sc)
    return out


def c01(ctx, mk):
    q, r = ctx.quick, mk.rng
    scs = from_schedules(ctx, mk, 60 if q else 600, ALLK, salt=1)
    # every way of cutting a stream in two, and one byte at a time
    for route in ([None, (1, 2, 3)] if q else [None, (1, 2, 3)] * 4):
        base = [mk.data([mk.rec(extras=False)], route=route), mk.bad('hcs'), mk.data([mk.rec(extras=False), mk.rec(pos=False, extras=False)])]
        total = sum(len(p.b) for p in base)
        for lo in range(0, total, 24):
            sc = Scenario('cut at %d..' % lo)
            plans = []
            for k in range(lo, min(total, lo + 24)):
                ps = [mk.data([mk.rec(extras=False)], **(dict(route=route) if route else {})), mk.bad('hcs'), mk.data([mk.rec(extras=False), mk.rec(pos=False, extras=False)])]
                plans.append((sc.conn(ps), [k], 4))
            sessions(sc, plans)
            scs.append(sc)
    for _ in range(2 if q else 8):
        sc = Scenario('byte by byte')
        sessions(sc, [(sc.conn([mk.make(k) for k in r.sample(FULL, 3)]), [1] * 2000, 1) for _c in range(8)])
        scs.append(sc)
    for _ in range(4 if q else 30):
        sc = Scenario('many packets at once')
        sessions(sc, [(sc.conn([mk.make(r.choice(FULL)) for _i in range(12)]), [], 0) for _c in range(4)])
        scs.append(sc)
    scs += mixed_sessions(mk, 10 if q else 100, 6, 6, FULL, 'random pieces', gap=1, last='foreign')
    scs += big_packets(mk, 6)
    scs += sized(mk, [64, 128, 256, 512, 1024, 1500, 2048, 4096] + ([] if q else [8192, 16384, 32768, 65000]))
    scs += repeats(mk, 3 if q else 20)
    return scs, ['saves', 'acks', 'crn', 'code', 'close']


def c02(ctx, mk):
    q = ctx.quick
    scs = from_schedules(ctx, mk, 60 if q else 600, ALLK, salt=2)
    scs += mixed_sessions(mk, 25 if q else 250, 6, 8, FULL, 'all kinds')
    scs += mixed_sessions(mk, 10 if q else 100, 4, 4, ['multi', 'samern', 'mixed', 'conf', 'empty', 'resp'], 'records and confirmations')
    scs += big_packets(mk, 6)
    scs += repeats(mk, 4 if q else 30) + real(mk)
    for pid in (0, 1, 32767, 32768, 65534, 65535):
        sc = Scenario('packet identifier %d' % pid)
        sessions(sc, [(sc.conn([mk.data([mk.rec(), mk.rec(rn=pid)], pid=pid), mk.data([mk.rec(rn=65535 - pid)], pid=pid)]), [], 0)])
        scs.append(sc)
    return scs, ['acks', 'crn', 'code']


def c03(ctx, mk):
    q, r = ctx.quick, mk.rng
    kinds = ['pos', 'oid', 'ident', 'mixed', 'bad', 'auth']
    scs = from_schedules(ctx, mk, 80 if q else 800, kinds, fails=3, abort=False, delay=12, salt=3)
    scs += mixed_sessions(mk, 20 if q else 200, 4, 4, ['pos', 'multi', 'mixed', 'samern', 'nopos', 'identpos'], 'failing stores', fail=.4, delay=5)
    scs += mixed_sessions(mk, 4 if q else 30, 2, 3, ['pos', 'multi'], 'slow stores', delay=120)
    # every record and store of one packet in turn
    for n in (1, 3):
        for st in (1, 2):
            for i in range(n):
                sc = Scenario('store %d refuses record %d of %d' % (st, i + 1, n), delay=10)
                p = mk.data([mk.rec() for _ in range(n)])
                sc.conn([p, mk.make('pos')])
                sc.fail(st, p.times[i])
                sc.steps = session(sc, 1, [len(p.b)])
                scs.append(sc)
    # stores slower than any patience: nothing may be confirmed meanwhile
    for st, ok in ((1, False), (2, False), (2, True)):
        sc = Scenario('store slower than patience', delay=7000 if q else 40000)
        p = mk.data([mk.rec()])
        sc.conn([p, mk.make('nopos')])
        if not ok:
            sc.fail(st, p.times[0])
        sc.steps = session(sc, 1, [], drain=200000)
        scs.append(sc)
    return scs, ['saves', 'acks', 'crn', 'status']


def c04(ctx, mk):
    q = ctx.quick
    scs = from_schedules(ctx, mk, 80 if q else 800, ALLK, fails=3, salt=4)
    scs += mixed_sessions(mk, 25 if q else 250, 6, 6, FULL, 'all kinds', fail=.3)
    scs += mixed_sessions(mk, 10 if q else 60, 3, 6, ['multi', 'mixed', 'bad', 'conf', 'resp', 'nopos', 'same'], 'slow stores', delay=4, fail=.2)
    scs += repeats(mk, 6 if q else 40) + real(mk)
    return scs, ['saves']


def c05(ctx, mk):
    q, r = ctx.quick, mk.rng
    p = mk.p
    scs = mixed_sessions(mk, 20 if q else 200, 6, 8, ['pos', 'multi', 'mixed', 'identpos', 'oid', 'samern', 'zeros', 'same'], 'records of all kinds')
    scs += real(mk)
    # each kind of subrecord by itself before and after the position, all values of the pool
    for k in ['ext', 'ad', 'absan', 'liq', 'abscn', 'cnt', 'state', 'plus', 'num110', 'num111', 'both', 'none']:
        sc = Scenario('position with ' + k)
        recs = []
        for i in range(24 if q else 120):
            s, t = p.pos()
            if k == 'none':
                x = []
            elif k == 'num110':
                x = [sub(25, b'\x6e' + le(r.choice([0, 1, 65536, 16777215, r.randrange(1 << 24)]), 3))]
            elif k == 'num111':
                x = [sub(25, b'\x6f' + le(r.choice([0, 1, 127, 128, 255, 256, 65535]), 3))]
            elif k == 'both':
                x = [sub(25, b'\x6e' + le(r.randrange(1 << 24), 3)), sub(25, b'\x6f' + le(r.randrange(256), 3))]
                r.shuffle(x)
            elif k == 'plus':
                x = [p.sub('plus')]
            else:
                b = p.by[k][i % len(p.by[k])]
                x = [sub(SRT[k], b[:5] if k == 'state' else b)] + ([p.sub(k)] if k in ('ad', 'absan', 'liq') and i % 3 == 0 else [])
            recs.append((record(p.newrn(), x + [s] if i % 2 else [s] + x), t))
            if i % 5 == 4:      # a record without position in between must not leak
                recs.append((record(p.newrn(), [p.sub('ext'), p.sub('ad'), p.sub('liq'), sub(25, b'\x6e\x01\x02\x03')]), None))
        sc.conn([mk.data(recs[i:i + 4]) for i in range(0, len(recs), 4)])
        sessions(sc, [(1, [300] * 100, 0)])
        scs.append(sc)
    # every flag of the position, every bit of its speed and course field, corner coordinates
    sc = Scenario('position fields')
    recs = []
    base = dict(lat=le(0x9AB10000, 4), lon=le(0x4AB10001, 4), fl=0, spd=0, dr=0)
    corner = [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]
    def one(**kw):
        v = dict(base, **kw)
        p.ntm += 1
        b = le(p.ntm, 4) + v['lat'] + v['lon'] + bytes([v['fl']]) + le(v['spd'], 2) + bytes([v['dr']]) + b'\x01\x02\x03\x04\x05' + (b'\x09\x08\x07' if v['fl'] & 0x80 else b'')
        recs.append((record(p.newrn(), [sub(16, b)]), p.ntm))
    for fl in range(256):
        one(fl=fl)
    for s in range(16):
        one(spd=1 << s)
    for s in (9, 10, 11, 16383, 16379, 16380):
        for hi in (0, 0x4000, 0x8000, 0xC000):
            one(spd=s | hi, dr=r.randrange(100))
    for d in range(0, 256, 3):
        one(dr=d)
        if d < 104:
            one(dr=d, spd=0x8000)
    for a in corner:
        for fl in (0, 0x20, 0x40, 0x60):
            one(lat=le(a, 4), lon=le(r.choice(corner), 4), fl=fl)
            one(lon=le(a, 4), lat=le(r.choice(corner), 4), fl=fl)
    sc.conn([mk.data(recs[i:i + 20]) for i in range(0, len(recs), 20)])
    sessions(sc, [(1, [], 0)])
    scs.append(sc)
    # corner times
    sc = Scenario('times')
    rs = []
    for t in (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
        rs.append((record(p.newrn(), [sub(16, le(t, 4) + p.bits('pos')[4:])]), t))
    sc.conn([mk.data(rs)])
    sessions(sc, [(1, [], 0)])
    scs.append(sc)
    # when it was received: pauses before, between and inside packets
    sc = Scenario('moment of reception')
    c = sc.conn([mk.make('pos'), mk.make('multi'), mk.make('pos')])
    a = [len(x.b) for x in sc.pk[0]]
    sc.steps = [op('connect', c), op('sleep', ms=2100), op('send', c, a[0]), op('sleep', ms=2100), op('send', c, a[1]), op('sleep', ms=2100), op('send', c, a[2]),
                op('half', c), op('drain', c, ms=DRAIN)]
    scs.append(sc)
    scs += from_schedules(ctx, mk, 30 if q else 300, ['pos', 'oid', 'mixed', 'ident', 'bad'], salt=5)
    return scs, ['saves', 'rec']


def c06(ctx, mk):
    q, r = ctx.quick, mk.rng
    kinds = ['pos', 'oid', 'ident', 'bad', 'auth', 'mixed']
    scs = from_schedules(ctx, mk, 80 if q else 800, kinds, packets=5, conns=3, depth=110, abort=True, salt=6)
    scs += mixed_sessions(mk, 25 if q else 250, 5, 10, ['pos', 'multi', 'identpos', 'ident', 'noposoid', 'oid', 'nopos', 'empty', 'bad', 'resp', 'mixed', 'zeros', 'same'], 'identifiers')
    scs += repeats(mk, 2 if q else 15)
    # one connection after the other, and two that take turns
    for _ in range(6 if q else 40):
        sc = Scenario('later connections')
        for c in range(1, 5):
            sc.conn([mk.make(k) for k in ([['pos', 'ident', 'pos'], ['pos', 'oid', 'pos'], ['identpos', 'pos'], ['nopos', 'pos', 'noposoid', 'pos']])[r.randrange(4)]])
            sc.steps += session(sc, c, [len(x.b) for x in sc.pk[-1]])
        scs.append(sc)
        sc = Scenario('taking turns')
        for c in (1, 2):
            sc.conn([mk.make(r.choice(['pos', 'ident', 'oid', 'noposoid', 'pos', 'identpos', 'bad'])) for _i in range(6)])
            sc.add('connect', c)
        for i in range(6):
            for c in (1, 2):
                sc.add('send', c, len(sc.pk[c - 1][i].b))
                sc.add('await', c, i + 1, 60)
        for c in (1, 2):
            sc.add('half', c)
            sc.add('drain', c, ms=DRAIN)
        scs.append(sc)
    # a damaged packet that would announce an identifier
    for how in Maker.DAMAGE:
        sc = Scenario('damaged: ' + how)
        sc.conn([mk.make('oid'), mk.bad(how), mk.make('pos')])
        sc.steps = session(sc, 1, [])
        scs.append(sc)
    return scs, ['saves', 'client']


def c07(ctx, mk):
    q, r = ctx.quick, mk.rng
    p = mk.p
    scs = from_schedules(ctx, mk, 60 if q else 600, ['pos', 'ident', 'auth', 'conf', 'bad', 'resp', 'mixed'], fails=3, salt=7)
    scs += mixed_sessions(mk, 20 if q else 200, 5, 8, ['ident', 'identpos', 'auth', 'authconf', 'pos', 'nopos', 'resp', 'conf', 'bad', 'multi'], 'authorisation', fail=.3)
    for t in range(256):        # each type of subrecord: only these two ask for it
        if t % 32 == 0:
            sc = Scenario('types %d..' % t)
            scs.append(sc)
            ps = []
        kind = [k for k, v in SRT.items() if v == t]
        b = p.bits(kind[0]) if kind else p.bits('state')[:5] if t == 20 else bytes([1, 2, 3])
        subs = [sub(t, b)]
        if t != 0:
            ps.append(mk.data([(record(p.newrn(), subs), None if t != 16 else int.from_bytes(b[:4], 'little'))]))
        if t % 32 == 31:
            sc.conn(ps)
            sessions(sc, [(1, [], 0)])
    for subs, note in (([1, 7], 'both'), ([7, 1], 'both'), ([1, 1], 'twice')):
        sc = Scenario('authorisation ' + note)
        sc.conn([mk.data([(record(p.newrn(), [p.sub('term') if s == 1 else p.sub('auth') for s in subs], sst=1), None)]),
                 mk.data([mk.rec(), (record(p.newrn(), [p.sub('auth')], sst=1), None), mk.rec()]), mk.make('pos')])
        for t in sc.times():
            if r.random() < .6:
                sc.fail(r.choice([1, 2]), t)
        sc.steps = session(sc, 1, [])
        scs.append(sc)
    return scs, ['acks', 'result']


def c08(ctx, mk):
    q, r = ctx.quick, mk.rng
    scs = from_schedules(ctx, mk, 60 if q else 600, ['pos', 'oid', 'bad', 'bad', 'ident'], packets=4, salt=8)
    for how in Maker.DAMAGE:
        for _ in range(2 if q else 16):
            sc = Scenario('damaged: ' + how)
            plans = []
            for _c in range(4):
                ps = [mk.make('oid'), mk.bad(how), mk.make('pos')] + ([mk.bad(), mk.bad(how), mk.make('pos')] if r.random() < .4 else [])
                if r.random() < .3:
                    ps = [mk.bad(how)] + ps
                plans.append((sc.conn(ps), r.choice([[], [len(x.b) for x in ps]]), 1))
            sessions(sc, plans)
            scs.append(sc)
    # all header bytes of a packet changed in turn, those that move no boundary
    sc = Scenario('header bytes')
    plans = []
    for route in (None, (7, 8, 9)):
        ps = []
        for i in [1, 2, 4, 7, 8, 9, 10] + ([11, 12, 13, 14, 15] if route else []):
            for x in (1, 0x10, 0x80):
                m = bytearray(mk.data([mk.rec(extras=False)], **(dict(route=route) if route else {})).b)
                m[i] ^= x
                ps.append(Packet(m))
        ps.append(mk.make('pos'))
        plans.append((sc.conn(ps), [], 0))
    sessions(sc, plans)
    scs.append(sc)
    return scs, ['saves', 'acks', 'code', 'crn', 'client']


def c09(ctx, mk):
    q, r = ctx.quick, mk.rng
    scs = from_schedules(ctx, mk, 40 if q else 400, ['pos', 'oid', 'bad', 'foreign'], packets=3, abort=False, salt=9)
    firsts = [('prv', v) for v in ([0, 2, 3, 15, 16, 17, 65, 71, 128, 129, 192, 255] if q else [x for x in range(256) if x != 1])] + [('hl', v) for v in range(11)]
    for k in range(0, len(firsts), 6):
        sc = Scenario('foreign bytes %s' % firsts[k:k + 6])
        br = []
        for what, v in firsts[k:k + 6]:
            for more in (0, 40):
                f = bytearray(mk.foreign(10 + more, what).b)
                f[0 if what == 'prv' else 3] = v
                follow = [mk.make('oid')] if more and r.random() < .5 else []
                ps = [mk.make('oid')] * 0 + [mk.make(x) for x in r.choice([[], ['oid'], ['pos', 'bad']])]
                c = sc.conn(ps + [Packet(f)] + follow)
                before = sum(len(x.b) for x in ps)
                n = sum(1 for x in ps)
                b = [op('connect', c)]
                if before:
                    b += [op('send', c, before), op('await', c, n, 8000)]
                # the client keeps its side open: the server has to close
                b += [op('send', c, 0)] if r.random() < .7 else [op('send', c, 10), op('sleep', ms=5), op('send', c, 0)]
                br.append(b + [op('drain', c, ms=8000)])
        sc.par(br)
        scs.append(sc)
    return scs, ['saves', 'acks', 'close']


def c10(ctx, mk):
    """clients that misbehave in every way, and well-behaved ones beside and after them"""
    q, r = ctx.quick, mk.rng
    p = mk.p
    scs = []

    def junk(k):
        if k == 'hl0':
            return bytes([1, 0, 0, r.randrange(11), 0]) + le(r.randrange(65536), 2) + bytes(20)
        if k == 'huge':
            return header(1, 65535)[:11] + bytes(r.randrange(3000))
        if k == 'random':
            return bytes(r.randrange(256) for _ in range(r.randrange(1, 400)))
        if k == 'egtsrandom':
            body = bytes(r.randrange(256) for _ in range(r.randrange(1, 200)))
            return b''.join(packet(r.randrange(65536), body[:r.randrange(1, len(body) + 1)], pt=r.randrange(3)) for _ in range(5))
        if k == 'mutated':
            out = b''
            for _ in range(6):
                x = mk.make(r.choice(FULL))
                n = 16 if x.b[2] & 0x20 else 11
                m = bytearray(x.b[n:-2])
                for _i in range(r.randrange(1, 4) if m else 0):
                    m[r.randrange(len(m))] = r.randrange(256)
                out += packet(r.randrange(65536), bytes(m), pt=x.b[9])
            return out
        if k == 'partial':
            x = mk.make('multi').b
            return x[:r.randrange(1, len(x))]
        if k == 'flags':
            return b''.join(packet(i, mk.rec()[0], pt=i % 256, flags=(i * 8) % 256 & 0xDF) for i in range(40))
        if k == 'shorthl':      # header lengths that do not fit
            return b''.join(header(i, 4, hl=h, pad=bytes(max(0, h - 11))) + bytes(6) for i, h in enumerate([11, 12, 15, 16, 17, 255]))
        if k == 'fdl0':
            return b''.join(header(i, 0, pt=i % 3) for i in range(20))
        if k == 'subs':         # every subrecord type with too little and odd data
            out = b''
            for t in range(256):
                out += packet(t, record(1, [sub(t, bytes(r.randrange(256) for _ in range(r.randrange(12))))]))
            return out
        raise KeyError(k)
    kinds = ['hl0', 'huge', 'random', 'egtsrandom', 'mutated', 'partial', 'flags', 'shorthl', 'fdl0', 'subs']
    for rep in range(2 if q else 20):
        for k in kinds:
            sc = Scenario('beside a client sending: ' + k)
            br = []
            for e in ('half', 'abort', 'close', 'stay'):
                c = sc.conn([], tail=junk(k))
                sc.ignore.append(c)
                b = [op('connect', c), op('send', c, r.choice([0, 5])), op('sleep', ms=r.choice([0, 3])), op('send', c, 0)]
                if e == 'half':
                    b += [op('half', c), op('drain', c, ms=300)]
                elif e in ('abort', 'close'):
                    b += [op('sleep', ms=r.choice([0, 10])), op(e, c)]
                else:
                    b += [op('sleep', ms=20)]
                br.append(b)
            good = [sc.conn([mk.make(x) for x in r.sample(FULL, 4)]) for _ in range(2)]
            br += [session(sc, c, [50] * 100, 1) for c in good]
            sc.par(br)
            c = sc.conn([mk.make('ident'), mk.make('pos')])
            sc.steps += session(sc, c, [])
            scs.append(sc)
    # clients that never read, in numbers; clients that only connect
    for rep in range(1 if q else 4):
        sc = Scenario('beside clients that do not read')
        sc.quiet = True
        br = []
        for i in range(3):      # as many answers as fill every buffer on the way
            c = sc.conn([], tail=packet(7, b''.join(record(j, []) for j in range(9000))))
            sc.ignore.append(c)
            sc.blank.append(c)
            sc.repeat[c] = 500
            br.append([op('connect', c, ms=[0, 1 << 13, 1 << 16][i]), op('noread', c), op('flood', c, 1, ms=1500)])
        for i in range(60):
            c = sc.conn([])
            sc.ignore.append(c)
            br.append([op('connect', c)] + ([op('abort', c)] if i % 2 else []))
        sc.par(br)
        for k in range(5):
            c = sc.conn([mk.make('ident'), mk.make('multi')])
            sc.steps += session(sc, c, [40] * 100) + [op('sleep', ms=600)]
        scs.append(sc)
    scs.append(crowd(mk))
    # beside many that are connected and silent
    sc = Scenario('beside clients that only connect')
    sc.add('idle', 0, 1300 if q else 5000)
    for k in range(2):
        c = sc.conn([mk.make('ident'), mk.make('multi')])
        sc.steps += session(sc, c, [])
    scs.append(sc)
    # everybody disconnects somewhere while stores are slow
    for rep in range(6 if q else 60):
        sc = Scenario('beside clients that vanish', delay=r.choice([0, 15]))
        br = []
        for i in range(8):
            c = sc.conn([mk.make(r.choice(FULL)) for _ in range(4)])
            sc.ignore.append(c)
            n = len(sc.streams[c - 1])
            br.append([op('connect', c), op('send', c, r.randrange(1, n + 1)), op('sleep', ms=r.choice([0, 1, 10, 30])), op(r.choice(['abort', 'close', 'half']), c)])
        good = [sc.conn([mk.make(x) for x in r.sample(FULL, 4)]) for _ in range(3)]
        br += [session(sc, c, [70] * 60, 1) for c in good]
        sc.par(br)
        c = sc.conn([mk.make('pos')])
        sc.steps += session(sc, c, [])
        scs.append(sc)
    # many at once, all well-behaved: nothing is mixed up
    for rep in range(2 if q else 10):
        sc = Scenario('forty clients')
        sc.par([session(sc, sc.conn([mk.make(x) for x in r.sample(FULL, 3)]), [100] * 40, 1) for _ in range(40)])
        scs.append(sc)
    return scs, ['saves', 'acks', 'crn', 'code', 'close', 'client', 'rec']


def c11(ctx, mk):
    q, r = ctx.quick, mk.rng
    scs = []
    idle = 500

    def at(name, n):
        """silence after n bytes of a stream of two packets"""
        sc = Scenario('silence ' + name, ttl=idle)
        c = sc.conn([mk.make('pos'), mk.make('pos')])
        ln = len(sc.pk[0][0].b)
        k = dict(start=0, inhdr=5, hdr=10, mid=ln - 3, between=ln, inhdr2=ln + 4, mid2=ln + 20)[n]
        sc.steps = [op('connect', c)] + ([op('send', c, k)] if k else []) + [op('drain', c, ms=idle + 4000)]
        return sc
    for n, name in (('start', 'before the first packet'), ('inhdr', 'inside the first header'), ('hdr', 'after the first header'), ('mid', 'inside the first body'),
                    ('between', 'between packets'), ('inhdr2', 'inside the second header'), ('mid2', 'inside the second body')):
        for _ in range(1 if q else 4):
            scs.append(at(name, n))
    # active well within the lifetime, for much longer than it
    for gap, ttl, count in ((600, 1500, 7), (300, 1200, 12)) if q else ((600, 1500, 20), (300, 1200, 30), (1400, 2500, 12)):
        sc = Scenario('active every %d of %d ms' % (gap, ttl), ttl=ttl)
        br = []
        for mode in ('whole', 'bad', 'split', 'burst', 'resp'):
            ks = ['pos' if mode in ('whole', 'split') or i % 2 else mode if mode != 'burst' else 'multi' for i in range(count)]
            c = sc.conn([mk.make(k) for k in ks])
            b = [op('connect', c)]
            for x in sc.pk[-1]:
                if mode == 'split':     # header, pause, body: silence never reaches the lifetime
                    b += [op('send', c, 10), op('sleep', ms=gap), op('send', c, len(x.b) - 10), op('sleep', ms=gap)]
                else:
                    b += [op('send', c, len(x.b)), op('sleep', ms=gap)]
            b += [op('drain', c, ms=ttl + 4000)]
            br.append(b)
        sc.par(br)
        scs.append(sc)
    # slow stores do not count as silence of the client
    sc = Scenario('slow stores', ttl=700, delay=450)
    c = sc.conn([mk.make('pos'), mk.make('pos')])
    sc.steps = [op('connect', c), op('send', c, len(sc.pk[0][0].b)), op('await', c, 1, 3000), op('send', c, 0), op('await', c, 2, 3000), op('drain', c, ms=5000)]
    scs.append(sc)
    # no lifetime: a silent connection stays open
    sc = Scenario('no lifetime', ttl=0)
    br = []
    for n in (0, 5, 30):
        c = sc.conn([mk.make('pos'), mk.make('oid'), mk.make('pos')])
        two = sum(len(x.b) for x in sc.pk[-1][:2])
        br.append([op('connect', c)] + ([op('send', c, n)] if n else []) + [op('sleep', ms=2500), op('send', c, two - n), op('await', c, 2, 8000),
                  op('sleep', ms=12000 if q else 70000), op('send', c, 0), op('half', c), op('drain', c, ms=8000)])
    sc.par(br)
    scs.append(sc)
    # the server cannot send its answers and does not read any more: silence as well
    for _ in range(2 if q else 6):
        sc = Scenario('not reading', ttl=1500)
        sc.quiet = True
        c = sc.conn([], tail=packet(7, b''.join(record(j, []) for j in range(r.choice([700, 3000, 9000])))))
        sc.ignore.append(c)
        sc.blank.append(c)
        sc.repeat[c] = 500 * 9000 * 7 // len(sc.streams[c - 1])
        sc.steps = [op('connect', c), op('noread', c), op('flood', c, ms=1500), op('stale', c, ms=1500 + 4000)]
        scs.append(sc)
    # half-closed by the client
    sc = Scenario('half-closed', ttl=idle)
    c = sc.conn([mk.make('pos')])
    sc.steps = session(sc, c, [])
    scs.append(sc)
    return scs, ['acks', 'close']


def c22(ctx, mk):
    q, r = ctx.quick, mk.rng
    scs = []
    for k in range(6 if q else 30):
        sc = Scenario('stop with sessions open', delay=r.choice([0, 30]), prestop=(k % 3 == 2))
        live = [sc.conn([mk.make(x) for x in ('ident', r.choice(FULL), 'pos')]) for _ in range(3)]
        late = [sc.conn([mk.make('pos')]) for _ in range(2)]
        for c in live:
            sc.add('connect', c)
            n = len(sc.pk[c - 1][0].b)
            sc.add('send', c, r.choice([n, n - 4, n + 6]) if c != live[0] else n)
        sc.add('await', live[0], 1, 8000)
        for _ in range(r.choice([1, 2, 3])):
            sc.add('stop')
        sc.add('waitret', ms=3000)
        for c in late:
            sc.add('connect', c)
        for c in live:
            sc.add('send', c, 0)
            sc.add('half', c)
        for c in live:
            sc.add('drain', c, ms=DRAIN)
        scs.append(sc)
    sc = Scenario('stop without sessions')
    sc.conn([])
    sc.add('stop')
    sc.add('waitret', ms=3000)
    sc.add('connect', 1)
    scs.append(sc)
    for _ in range(3 if q else 12):     # stopped while clients come and go
        sc = Scenario('stop among connecting clients')
        sc.conn([])
        sc.steps = [dict(Op='stop'), dict(Op='waitret', Ms=3000), dict(Op='storm', N=150 if q else 500, Ms=60000)]
        scs.append(sc)
    sc = Scenario('stop before start', prestop=True)
    c = sc.conn([mk.make('ident'), mk.make('pos')])
    sc.steps = session(sc, c, [])
    scs.append(sc)
    return scs, ['saves', 'acks', 'crn', 'stop', 'close']


def crowd(mk, n=45, files=30, stay=600):
    """more clients at once than the receiver has descriptors for: the others wait until some leave"""
    sc = Scenario('more clients than descriptors')
    sc.files = files
    br = []
    for i in range(n):
        c = sc.conn([mk.make(x) for x in ('ident', mk.rng.choice(FULL))])
        first = len(sc.pk[-1][0].b)
        br.append([op('connect', c), op('send', c, first), op('sleep', ms=stay if i % 3 else 20), op('send', c, 0), op('half', c), op('drain', c, ms=DRAIN)])
    sc.add('base')
    sc.par(br)
    sc.add('held', 0, 0, 4000)
    sc.steps += session(sc, sc.conn([mk.make('oid')]), [])
    return sc


def c28(ctx, mk):
    """connections that end in every way, in numbers; then nothing may be left of them"""
    q, r = ctx.quick, mk.rng
    scs = []

    def ending(how, c, sc):
        s = sc.streams[c - 1]
        b = [op('connect', c)]
        if how == 'half':
            b += [op('send', c, 0), op('half', c), op('drain', c, ms=DRAIN)]
        elif how == 'abort':
            b += [op('send', c, r.randrange(1, len(s) + 1)), op('sleep', ms=r.choice([0, 2, 10])), op('abort', c)]
        elif how == 'close':
            b += [op('send', c, 0), op('close', c)]
        elif how == 'unread':
            b += [op('noread', c), op('send', c, 0), op('sleep', ms=5), op('abort', c)]
        elif how == 'mid':
            b += [op('send', c, r.randrange(1, len(s))), op('half', c), op('drain', c, ms=DRAIN)]
        elif how == 'empty':
            b += [op('half', c), op('drain', c, ms=DRAIN)]
        elif how in ('foreign', 'silent'):
            b += [op('send', c, 0), op('drain', c, ms=DRAIN)]
        elif how == 'silentmid':
            b += [op('send', c, r.randrange(1, len(s))), op('drain', c, ms=DRAIN)]
        return b
    for how in ('half', 'abort', 'close', 'unread', 'mid', 'empty', 'foreign', 'silent', 'silentmid', 'failing'):
        for _ in range(1 if q else 4):
            sc = Scenario('forty clients ending: ' + how, ttl=500 if how.startswith('silent') else 0, delay=r.choice([0, 20]) if how in ('abort', 'close') else 0)
            sc.add('base')
            stay = sc.conn([mk.make('ident'), mk.make('pos')])
            if not sc.ttl:
                sc.steps += [op('connect', stay), op('send', stay, len(sc.pk[-1][0].b)), op('await', stay, 2, 8000)]
            br = []
            for i in range(40):
                ps = [mk.make(x) for x in r.sample(FULL, 3)]
                if how == 'foreign':
                    ps.append(mk.foreign(10))
                c = sc.conn(ps)
                if how == 'failing':
                    for t in {t for x in ps for t in x.times if t is not None}:
                        sc.fail(r.choice([1, 2]), t)
                br.append(ending('half' if how == 'failing' else how, c, sc))
            sc.par(br)
            if sc.ttl:
                sc.add('held', 0, 0, sc.ttl + 4000)
            else:
                sc.add('held', 0, 1, 4000)
                sc.steps += [op('send', stay, 0), op('half', stay), op('drain', stay, ms=DRAIN), op('held', 0, 0, 4000)]
            scs.append(sc)
    # clients that never read and then vanish
    sc = Scenario('forty clients ending: deaf')
    sc.quiet = True
    sc.add('base')
    br = []
    for i in range(12):
        c = sc.conn([], tail=packet(7, b''.join(record(j, []) for j in range(9000))))
        sc.ignore.append(c)
        sc.blank.append(c)
        sc.repeat[c] = 100
        br.append([op('connect', c), op('noread', c), op('flood', c, ms=700), op('abort', c)])
    sc.par(br)
    sc.add('held', 0, 0, 4000)
    scs.append(sc)
    for k in range(2 if q else 8):
        scs.append(crowd(mk, n=45 if k % 2 else 70))
    return scs, ['saves', 'acks', 'crn', 'close', 'client', 'held']


def c27(ctx, mk):
    q, r = ctx.quick, mk.rng
    p = mk.p
    scs = from_schedules(ctx, mk, 60 if q else 600, ALLK, salt=27)
    scs += mixed_sessions(mk, 20 if q else 200, 6, 8, FULL, 'all kinds', last='foreign')
    for st in ([0, 1, 2, 3, 4, 9, 23, 127, 128, 255] if q else range(256)):
        sc = Scenario('service %d' % st)
        sc.conn([mk.data([mk.rec(sst=st), mk.rec(sst=st, pos=False)]), mk.data([(record(p.newrn(), [p.sub('auth')], sst=st), None)])])
        sc.steps = session(sc, 1, [])
        scs.append(sc)
    scs += big_packets(mk, 6)
    # answers to many clients at the same moment
    for _ in range(4 if q else 30):
        sc = Scenario('all at once')
        for c in range(8):
            sc.conn([mk.make(r.choice(['auth', 'nopos', 'auth', 'bad'])) for _ in range(40)])
        sc.steps = [op('connect', c + 1) for c in range(8)]
        sc.par([[op('send', c + 1, 0), op('half', c + 1), op('drain', c + 1, ms=DRAIN)] for c in range(8)])
        scs.append(sc)
    # packet identifiers at their ends
    sc = Scenario('packet identifiers')
    sc.conn([mk.data([mk.rec(pos=False, more=[p.sub('auth')])], pid=x) for x in (0, 1, 255, 256, 65534, 65535)])
    sc.steps = session(sc, 1, [])
    scs.append(sc)
    return scs, ['acks', 'result', 'form', 'code', 'crn']


def c19(ctx, mk):
    """unknown subrecords everywhere: the same records must be stored and confirmed"""
    q, r = ctx.quick, mk.rng
    p = mk.p
    scs = []
    types = UNKNOWN if not q else r.sample(UNKNOWN, 120)
    for k in range(0, len(types), 30):
        sc = Scenario('unknown types')
        recs = []
        for t in types[k:k + 30]:
            s, tm = p.pos()
            n = r.choice([0, 1, 3, 21, 300])
            # content that looks like subrecords itself
            content = (r.choice([b'', p.pos()[0], p.sub('ext'), p.sub('term'), p.sub('resp')]) + bytes(r.randrange(256) for _ in range(n)))[:max(n, 1)] if n else b''
            subs = [s, p.sub('ext'), p.sub('ad')]
            subs.insert(r.randrange(4), sub(t, content))
            recs.append((record(p.newrn(), subs), tm))
            recs.append((record(p.newrn(), [sub(t, content)]), None))
        sc.conn([mk.data(recs[i:i + 6]) for i in range(0, len(recs), 6)])
        sessions(sc, [(1, [], 0)])
        scs.append(sc)
    return scs, ['saves', 'rec', 'client', 'acks', 'crn', 'result']


SETS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
        'C11': c11, 'C22': c22, 'C27': c27, 'C28': c28}


# ---- the model by itself -------------------------------------------------------------

ALL9 = ALLK
LIVE = ['AllAnswered', 'EndedCloses', 'ForeignCloses', 'StopReturns']
MC = {
    'one': dict(kinds=ALL9, mp=2),
    'ids': dict(kinds=['oid', 'ident', 'pos'], mp=2, fails=0, stores=1),
    'fails': dict(kinds=['mixed', 'pos', 'ident'], mp=2, fails=3),
    'two': dict(conns=2, kinds=['oid', 'bad'], mp=1),
    'twoids': dict(conns=2, kinds=['oid', 'ident', 'pos'], mp=1, stores=1, fails=0),
    'foreign': dict(conns=2, kinds=['oid', 'foreign'], mp=1, stores=1),
    'idle': dict(kinds=['pos', 'bad', 'foreign'], mp=2, ttl=2, mt=5, stores=1),
    'idle2': dict(conns=2, kinds=['pos'], mp=1, ttl=2, mt=4, stores=1, fails=0),
    'stop': dict(conns=2, kinds=['oid'], mp=1, stop=True, stores=1),
    'live': dict(kinds=['oid', 'ident', 'conf', 'bad', 'resp', 'foreign'], mp=2, live=LIVE),
    'live2': dict(conns=2, kinds=['oid', 'bad'], mp=1, stores=1, fails=0, live=LIVE),
    'livestop': dict(conns=2, kinds=['pos'], mp=1, stores=1, fails=0, stop=True, live=LIVE),
    'deaf': dict(conns=2, kinds=['oid', 'ident', 'bad'], mp=1, stores=1, fails=0, deaf=[1], room=1, live=LIVE),
    'deafidle': dict(kinds=['ident', 'bad', 'foreign'], mp=3, stores=1, fails=0, deaf=[1], room=2, ttl=2, mt=5),
    'full': dict(conns=2, kinds=['oid', 'bad', 'foreign'], mp=1, stores=1, fails=0, limit=1, leaving=[1, 2], live=LIVE + ['Served']),
    'fullidle': dict(conns=2, kinds=['pos'], mp=1, stores=1, fails=0, ttl=1, mt=4, limit=1),
    'fullstop': dict(conns=2, kinds=['pos'], mp=1, stores=1, fails=0, stop=True, limit=1, leaving=[1, 2], live=LIVE + ['Served']),
    # deeper
    'full3': dict(conns=3, kinds=['pos', 'foreign'], mp=1, stores=1, fails=0, limit=1, leaving=[1, 2, 3], live=LIVE + ['Served']),
    'full3b': dict(conns=3, kinds=['oid', 'foreign'], mp=1, stores=1, fails=0, limit=2),
    'deaf3': dict(conns=3, kinds=['ident', 'bad'], mp=1, stores=1, fails=0, deaf=[1, 2], room=1),
    'one3': dict(kinds=ALL9, mp=3),
    'one2s3': dict(kinds=ALL9, mp=2, fails=2, stores=3),
    'twomore': dict(conns=2, kinds=['pos', 'oid', 'ident', 'bad'], mp=1),
    'two2': dict(conns=2, kinds=['oid', 'bad'], mp=2, stores=1),
    'three': dict(conns=3, kinds=['oid', 'foreign'], mp=1, stores=1, fails=0),
    'idle3': dict(kinds=['pos', 'bad', 'ident'], mp=3, ttl=2, mt=6, stores=2),
    'live3': dict(kinds=ALL9, mp=2, stores=2, fails=2, live=LIVE),
}
MODELS = {  # quick, added by thorough
    'C01': (['one', 'live'], ['one3', 'live3']), 'C02': (['one', 'live'], ['one3', 'twomore']), 'C03': (['fails', 'two'], ['one2s3', 'one3']),
    'C04': (['fails', 'one'], ['one2s3', 'two2']), 'C05': (['one'], ['one3']), 'C06': (['ids', 'twoids'], ['twomore', 'one3']), 'C07': (['one'], ['one3']),
    'C08': (['one', 'live2'], ['two2', 'one3']), 'C09': (['foreign', 'live'], ['three', 'live3']), 'C10': (['two', 'live2', 'foreign', 'deaf'], ['three', 'two2', 'twomore', 'deaf3']),
    'C28': (['full', 'fullidle', 'fullstop'], ['full3', 'full3b']),
    'C11': (['idle', 'idle2', 'deafidle'], ['idle3']), 'C19': (['one'], []), 'C22': (['stop', 'livestop'], []), 'C27': (['one', 'two'], ['one3', 'two2']),
}


def model(ctx):
    """The specification has the properties by itself; a failure here is an error of the specification."""
    a, b = MODELS[ctx.prop]
    for name in a + ([] if ctx.quick else b):
        m = dict(stores=2, conns=1, ttl=0, mt=0, fails=1, stop=False, live=[], deaf=[], room=9, limit=9, leaving=[])
        m.update(MC[name])
        cfg = ctx.path('mc-%s.cfg' % name)
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NoClient <- Nobody\n StatusOk = 0\n StatusFailed = 155\n'
                    ' Stores = {%s}\n Conns = {%s}\n Kinds = {%s}\n MaxPackets = %d\n TTL = %d\n MaxTime = %d\n MaxFails = %d\n CanStop = %s\n CanAbort = TRUE\n Deaf = {%s}\n Room = %d\n Limit = %d\n Leaving = {%s}\n'
                    % (', '.join('"s%d"' % i for i in range(1, m['stores'] + 1)), ', '.join(map(str, range(1, m['conns'] + 1))), ', '.join('"%s"' % k for k in m['kinds']),
                       m['mp'], m['ttl'], m['mt'], m['fails'], str(m['stop']).upper(), ', '.join(map(str, m['deaf'])), m['room'], m['limit'], ', '.join(map(str, m['leaving']))))
            if m['live']:
                f.write('PROPERTIES %s\n' % ' '.join(m['live']))
        r = ctx.tlc('MCReceiver', cfg=cfg, workers=4, heap='4g')
        if not r['ok']:
            raise CheckError('the specification violates its own property in model %s:\n%s' % (name, r['out'][-3000:]))
        ctx.cov['states'] += r['distinct']
        ctx.cov['transitions'] += r['states']
        ctx.cov.setdefault('model', {})[name] = r['distinct']


def conform(ctx, make=None):
    pool = Pool(ctx, 48 if ctx.quick else 200)
    mk = Maker(pool)
    scs, focus = (make or SETS[ctx.prop])(ctx, mk)
    judge(ctx, scs, focus)


def run(ctx, make=None):
    with ThreadPoolExecutor(1) as pool:
        m = pool.submit(model, ctx)
        conform(ctx, make)
        m.result()

