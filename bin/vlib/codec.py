"""Codec checks: generate values with the specification, derive inputs, execute them, validate the recorded calls."""
import json, os, random, subprocess

from .core import CheckError, limit_memory, recorded

POS = ['pos', 'ext']
SENS = ['ad', 'cnt', 'absan', 'abscn', 'liq', 'state']
IDENT = ['term', 'module', 'disp', 'auth', 'resp', 'result']
ALL = IDENT + POS + SENS + ['plus']
SRT = dict(resp=0, term=1, module=2, disp=5, auth=7, result=9, plus=15, pos=16, ext=17, ad=18, cnt=19, state=21, absan=24, abscn=25, liq=27)
KNOWN_TYPES = set(SRT.values()) | {20}


def crc8(b):
    c = 0xFF
    for x in b:
        c ^= x
        for _ in range(8):
            c = ((c << 1) ^ 0x31) & 0xFF if c & 0x80 else (c << 1) & 0xFF
    return c


def crc16(b):
    c = 0xFFFF
    for x in b:
        c ^= x << 8
        for _ in range(8):
            c = ((c << 1) ^ 0x1021) & 0xFFFF if c & 0x8000 else (c << 1) & 0xFFFF
    return c


def hdr_len(b):
    return 16 if b[2] & 0x20 else 11


def rehdr(b):
    """b with a header checksum that fits"""
    b = bytearray(b)
    n = hdr_len(b)
    if len(b) >= n:
        b[n - 1] = crc8(b[:n - 1])
    return bytes(b)


def rebody(b, body):
    """the packet b with another body, lengths and checksums made to fit"""
    n = hdr_len(b)
    h = bytearray(b[:n])
    h[5:7] = len(body).to_bytes(2, 'little')
    h[n - 1] = crc8(h[:n - 1])
    return bytes(h) + body + crc16(body).to_bytes(2, 'little')


def body_of(b):
    n = hdr_len(b)
    return b[n:n + int.from_bytes(b[5:7], 'little')]


def generate(ctx, reqs):
    gin, gout = ctx.path('gen.in.json'), ctx.path('gen.out.ndjson')
    with open(gin, 'w') as f:
        json.dump(reqs, f)
    ctx.tlc('GenCodec', env=dict(GEN_IN=gin, GEN_OUT=gout), workers=1)
    with open(gout) as f:
        vals = [json.loads(l) for l in f]
    for v in vals:
        v['b'] = bytes(v['b'])
    return vals


def subs_req(ctx, kinds, n):
    return dict(what='subs', kinds=kinds, n=n, seed=ctx.seed % 40000)


def pkgs_req(ctx, n, kinds=ALL, pts=(0, 1), nrec=3, nsub=3, keys=None, ena=('01', '10', '11'), auto=False, salt=0):
    return dict(what='pkgs', n=n, seed=(ctx.seed * 31 + salt) % 40000, pts=list(pts), nrec=nrec, nsub=nsub, kinds=kinds,
                keys=keys or [dict(k='none')], ena=list(ena), auto=auto)


def dec(lv, b, kind='', key=None, note=''):
    return dict(op='dec', lv=lv, kind=kind, b=bytes(b).hex(), key=key or dict(k='none'), note=note)


def enc(lv, v, kind='', key=None, note=''):
    return dict(op='enc', lv=lv, kind=kind, v=v, key=key or dict(k='none'), note=note)


def as_calls(g, note=''):
    key = g.get('key')
    r = [enc(g['lv'], g['v'], g['kind'], key, note)]
    if g['lv'] == 'sub' or g['b']:
        r.append(dec(g['lv'], g['b'], g['kind'], key, note))
    return r


def element_calls(vals):
    """the bodies of generated packets as element-level calls"""
    r = []
    for g in vals:
        body = g['v']['body']
        if g['v']['PT'] == 1:
            r.append(enc('sds', dict(recs=body['recs'])))
        else:
            r.append(enc('ptresp', body))
        for rec in body['recs'][:1]:
            if rec['subs']:
                r.append(enc('rds', dict(subs=rec['subs'])))
        if g['key']['k'] == 'none' and g['b']:
            r.append(dec('sds' if g['v']['PT'] == 1 else 'ptresp', body_of(g['b'])))
    return r


def warm_calls(rng, vals, level=('pkg', 'sds')):
    """encodings of values that were encoded before and changed since: the first time without the last record,
    without the last subrecord, or with other data in a subrecord; lengths are left to the encoder"""
    r = []
    donors = {}
    for g in vals:
        for rec in g['v']['body']['recs']:
            for x in rec['subs']:
                donors.setdefault(x['v']['k'], []).append(x['v'])
    for g in vals:
        if not g['b'] or g['v']['nobody']:
            continue
        v = json.loads(json.dumps(g['v']))
        v['HL'] = 0
        for rec in v['body']['recs']:
            rec['RL'] = 0
            for x in rec['subs']:
                x['SRL'] = 0
        w = json.loads(json.dumps(v))
        recs = w['body']['recs']
        how = rng.randrange(4)
        if recs:
            i = rng.randrange(len(recs))
            if how == 0 and (v['PT'] == 1 or len(recs) > 1):
                recs.pop()
            elif how == 1 and recs[i]['subs']:
                recs[i]['subs'].pop()
            elif how == 2 and recs[i]['subs']:
                x = rng.choice(recs[i]['subs'])
                x['v'] = rng.choice(donors[x['v']['k']])
        if 'pkg' in level:
            r.append(dict(enc('pkg', v, '', g['key'], note='again'), warm=w))
        if 'sds' in level and v['PT'] == 1:
            r.append(dict(enc('sds', dict(recs=v['body']['recs']), note='again'), warm=dict(recs=recs)))
            if v['body']['recs'] and recs and recs[0]['subs']:
                r.append(dict(enc('rds', dict(subs=v['body']['recs'][0]['subs']), note='again'), warm=dict(subs=recs[0]['subs'])))
    return r


def rds_bytes(subs):
    return b''.join(bytes([SRT[s['kind']]]) + len(s['b']).to_bytes(2, 'little') + s['b'] for s in subs)


# ---- suites: each returns (calls, focus) ------------------------------------

def suite_totality(ctx):
    rng = random.Random(ctx.seed)
    q = ctx.quick
    vals = generate(ctx, [subs_req(ctx, ALL, 24 if q else 128), pkgs_req(ctx, 60 if q else 400)])
    subs = [g for g in vals if g['lv'] == 'sub']
    pkgs = [g for g in vals if g['lv'] == 'pkg']
    calls = []
    # every value of every header byte, with a header checksum that fits and one that does not
    for p in pkgs[:2 if q else 8]:
        for pos in range(hdr_len(p['b'])):
            for x in range(256):
                m = bytearray(p['b'])
                m[pos] = x
                calls.append(dec('pkg', rehdr(m), note='header byte'))
                if pos in (2, 3, 5, 6) and x % 4 == 0:
                    calls.append(dec('pkg', m, note='header byte'))
    # short inputs
    for p in pkgs[:6]:
        for n in range(min(len(p['b']), 24)):
            calls.append(dec('pkg', p['b'][:n], note='short'))
            if n >= 4:
                calls.append(dec('pkg', rehdr(p['b'][:n]), note='short'))
    # damaged bodies that pass the checksums
    for p in pkgs:
        b = body_of(p['b'])
        for _ in range(12 if q else 40):
            m = bytearray(b)
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                m[rng.randrange(len(m))] = rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)])
            if rng.random() < .3:
                m = m[:rng.randrange(1, len(m) + 1)]
            calls.append(dec('pkg', rebody(p['b'], bytes(m)), note='damaged body'))
            if p['v']['PT'] == 1:
                calls.append(dec('sds', m, note='damaged'))
            else:
                calls.append(dec('ptresp', m, note='damaged'))
    # packets of nothing but 00 or FF, and random ones, at all levels
    for n in list(range(0, 20)) + [64, 300]:
        for fill in (bytes(n), b'\xff' * n, bytes(rng.randrange(256) for _ in range(n))):
            for lv in ('pkg', 'sds', 'rds', 'ptresp'):
                calls.append(dec(lv, fill, note='random'))
            for k in ALL:
                calls.append(dec('sub', fill, k, note='random'))
            if n:
                calls.append(dec('pkg', rebody(pkgs[0]['b'][:11] if not pkgs[0]['b'][2] & 0x20 else pkgs[0]['b'][:16], fill), note='random body'))
    # every subrecord cut short and damaged
    for g in subs:
        for n in {0, 1, len(g['b']) - 1, rng.randrange(len(g['b']) + 1)}:
            if 0 <= n <= len(g['b']):
                calls.append(dec('sub', g['b'][:n], g['kind'], note='cut'))
        if g['b']:
            m = bytearray(g['b'])
            m[rng.randrange(len(m))] = rng.choice([0, 255, rng.randrange(256)])
            calls.append(dec('sub', m, g['kind'], note='damaged'))
            calls.append(dec('rds', rds_bytes([g])[:rng.randrange(len(g['b']) + 4)], note='cut'))
            for fill in (0, 32, 255):       # the same with a part of it blank
                a, z = sorted(rng.randrange(len(m) + 1) for _ in range(2))
                calls.append(dec('sub', g['b'][:a] + bytes([fill]) * (z - a) + g['b'][z:], g['kind'], note='blank'))
                a = rng.choice([1, 2, 3, 5, 7])
                calls.append(dec('sub', g['b'][:a] + bytes([fill]) * (len(g['b']) - a), g['kind'], note='blank'))
            t = bytes([SRT[g['kind']]]) + rng.choice([0, 1, 65535, rng.randrange(65536)]).to_bytes(2, 'little') + g['b']
            calls.append(dec('rds', t, note='length'))
    # every subrecord type with the shortest contents, declared and present
    for st in range(256):
        for n in (0, 1, 2, 3, 4, 5) if q else range(40):
            for k in {0, 1, n - 1, n, n + 1}:
                if k >= 0 and (k == n or st < 64 or k == 0):
                    d = bytes(rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(k))
                    s = bytes([st]) + n.to_bytes(2, 'little') + d
                    calls.append(dec('rds', s, note='type %d' % st))
                    if k == n and n < 2:
                        calls.append(dec('sds', len(s).to_bytes(2, 'little') + b'\x01\x00\x00\x02\x02' + s, note='type %d' % st))
    # encrypted packets with a key that misbehaves
    for p in pkgs[:10]:
        m = bytearray(p['b'])
        m[2] |= 0x08
        for k in (dict(k='pad', x=200), dict(k='err'), dict(k='xor', x=0)):
            calls.append(dec('pkg', rehdr(m), key=k, note='key'))
    return calls, ['crash']


def oversize(ctx):
    """values whose encoding exceeds, or just fits, the 16-bit length"""
    rec = lambda n: dict(RL=0, RN=1, SSOD='0', RSOD='0', GRP='0', RPP='00', TMFE='0', EVFE='0', OBFE='0', OID=[0, 0], EVID=[0, 0],
                         TM=[0, 0], SST=2, RST=2, subs=[dict(SRT=5, SRL=0, v=dict(k='disp', DT=1, DID=[1, 0], DSCR=[65] * n))])
    h = dict(PRV=1, SKID=0, PRF='00', RTE='0', ENA='00', CMP='0', PR='00', HL=0, HE=0, FDL=0, PID=7, PT=1, PRA=0, RCA=0, TTL=0, HCS=0, SFRCS=0, nobody=False)
    r = []
    for n in (32000, 32768):       # two records of 15 + n bytes
        r.append(enc('pkg', dict(h, body=dict(recs=[rec(n), rec(n)])), note='size'))
    r.append(enc('pkg', dict(h, body=dict(recs=[rec(65535 - 15)])), note='size'))
    r.append(enc('pkg', dict(h, body=dict(recs=[rec(65535 - 15 - 10), rec(0)])), note='size'))
    r.append(enc('pkg', dict(h, body=dict(recs=[rec(40000), rec(25505), rec(1)])), note='size'))
    return r


def suite_roundtrip(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    vals = generate(ctx, [pkgs_req(ctx, 350 if q else 3000, nrec=4, nsub=4), pkgs_req(ctx, 150 if q else 1500, auto=True, salt=1),
                          pkgs_req(ctx, 40 if q else 200, nrec=12, nsub=8, salt=2)])
    calls = [c for g in vals for c in as_calls(g)] + element_calls(vals[::2]) + oversize(ctx) + warm_calls(rng, vals[:120 if q else 1000], ('pkg',))
    calls += [dec('pkg', b, note='recorded') for b in recorded()]
    # fields that are not bits, of another width, or not set
    wide = ('PRF', 'ENA', 'PR', 'RPP', 'LLSVU')
    notbits = lambda f: rng.choice(['02', 'x1', '222', '1', '0', '110', '001', '', '']) if f in wide else rng.choice(['2', 'x', '21', '10', '00', '01', '-', '', ''])
    for g in vals[:60 if q else 400]:
        v = json.loads(json.dumps(g['v']))
        f = rng.choice(['PRF', 'RTE', 'ENA', 'CMP', 'PR'])
        v[f] = notbits(f)
        if f != 'ENA' or not v[f]:
            calls.append(enc('pkg', v, key=g['key'], note='flag ' + f))
        recs = [r for r in v['body']['recs']]
        if recs:
            v = json.loads(json.dumps(g['v']))
            r = v['body']['recs'][0]
            f = rng.choice(['SSOD', 'RSOD', 'GRP', 'RPP', 'TMFE', 'EVFE', 'OBFE'])
            r[f] = notbits(f)
            if v['PT'] == 1 or v['body']['sdr']:
                calls.append(enc('pkg', v, key=g['key'], note='flag ' + f))
    subs = generate(ctx, [subs_req(ctx, ['term', 'pos', 'ext', 'ad', 'cnt', 'state', 'liq'], 6)])
    flags = dict(term=['MNE', 'BSE', 'NIDE', 'SSRA', 'LNGCE', 'IMSIE', 'IMEIE', 'HDIDE'], pos=['ALTE', 'LOHS', 'LAHS', 'MV', 'BB', 'CS', 'FIX', 'VLD'],
                 ext=['NSFE', 'SFE', 'PFE', 'HFE', 'VFE'], ad=['DIOE%d' % i for i in range(1, 9)] + ['ASFE%d' % i for i in range(1, 9)],
                 cnt=['CFE%d' % i for i in range(1, 9)], state=['NMS', 'IBU', 'BBU'], liq=['LLSEF', 'LLSVU', 'RDF'])
    for g in subs:
        for f in flags[g['kind']]:
            v = dict(g['v'])
            v[f] = notbits(f)
            calls.append(enc('sub', v, g['kind'], note='flag ' + f))
        if g['kind'] == 'liq':
            calls.append(enc('sub', dict(g['v'], LLSN=rng.choice([8, 9, 15, 16, 255])), 'liq', note='sensor number'))
    # what cannot be encoded, deep inside a packet: its set, its records and the packet are refused too
    todo = [g for g in vals if g['v']['PT'] == 1 or g['v']['body']['sdr']]
    bad = []
    for g in todo:
        where = [(i, j) for i, r in enumerate(g['v']['body']['recs']) for j, x in enumerate(r['subs']) if x['v']['k'] in flags]
        if where:
            bad.append((g, rng.choice(where)))
    for n, (g, (i, j)) in enumerate(bad[:150 if q else 1000]):
        v = json.loads(json.dumps(g['v']))
        rec = v['body']['recs'][i]
        x = rec['subs'][j]
        f = rng.choice(flags[x['v']['k']])
        x['v'][f] = notbits(f)
        if n % 2:
            x['SRL'] = rec['RL'] = v['FDL'] = 0
        note = 'flag %s inside' % f
        calls.append(enc('rds', dict(subs=rec['subs']), note=note))
        if v['PT'] == 1:
            calls.append(enc('sds', dict(recs=v['body']['recs']), note=note))
        else:
            calls.append(enc('ptresp', v['body'], note=note))
        calls.append(enc('pkg', v, key=g['key'], note=note))
    return calls, ['enc', 'back', 'reenc', 'encaccept', 'encreject', 'value', 'reject']


def sub_suite(kinds):
    def suite(ctx):
        rng = random.Random(ctx.seed)
        vals = generate(ctx, [subs_req(ctx, kinds, 256 if ctx.quick else 2048)])
        calls = [c for g in vals for c in as_calls(g)]
        # bytes after the data, where the format leaves room for them
        for g in vals:
            if g['kind'] not in ('disp', 'auth', 'resp') and rng.random() < .25:
                calls.append(dec('sub', g['b'] + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6))), g['kind'], note='trailing'))
        # the same values inside records
        for g in vals[::8]:
            other = rng.choice(vals)
            calls.append(dec('rds', rds_bytes([g, other]), note='in record'))
            calls.append(enc('rds', dict(subs=[dict(SRT=SRT[x['kind']], SRL=len(x['b']), v=x['v']) for x in (g, other)]), note='in record'))
        if 'resp' in kinds:      # bodies of response packets
            pk = generate(ctx, [pkgs_req(ctx, 60 if ctx.quick else 600, kinds=['resp', 'result'], pts=(0,), nrec=2, nsub=2)])
            calls += [c for g in pk for c in as_calls(g)] + element_calls(pk)
        if 'state' in kinds:
            for g in vals:
                if g['kind'] == 'state' and rng.random() < .2:
                    calls.append(dec('rds', b'\x14\x05\x00' + g['b'], note='type 20'))
        return calls, ['value', 'reject', 'enc', 'back', 'reenc', 'encreject', 'len']
    return suite


def suite_corruption(ctx):
    rng = random.Random(ctx.seed)
    q = ctx.quick
    vals = generate(ctx, [pkgs_req(ctx, 24 if q else 120, nrec=3, nsub=2, kinds=['pos', 'ext', 'absan', 'result', 'liq', 'resp', 'state'])])
    vals.sort(key=lambda g: len(g['b']))
    calls = []
    small = vals[:5 if q else 20]
    for g in small:        # every single bit
        for i in range(len(g['b']) * 8):
            if i % 16 == 0:
                calls.append(dec('pkg', g['b'], note='intact'))
            m = bytearray(g['b'])
            m[i // 8] ^= 1 << (i % 8)
            calls.append(dec('pkg', m, note='bit %d' % i))
    for g in vals + [dict(b=b) for b in rng.sample(recorded(), 10 if q else 110)]:
        b, n = g['b'], len(g['b'])
        for _ in range(30 if q else 100):
            m = bytearray(b)
            kind = rng.randrange(4)
            if kind == 0:      # burst of up to 16 bits
                p, w = rng.randrange(n * 8), rng.randrange(2, 17)
                x = rng.getrandbits(w) | 1 | 1 << (w - 1)
                for j in range(w):
                    if x >> j & 1 and p + j < n * 8:
                        m[(p + j) // 8] ^= 0x80 >> ((p + j) % 8)
            elif kind == 1:    # two single bits
                for _ in range(2):
                    p = rng.randrange(n * 8)
                    m[p // 8] ^= 1 << (p % 8)
            elif kind == 2:    # a changed byte
                m[rng.randrange(n)] ^= rng.randrange(1, 256)
            else:              # two bytes exchanged
                p = rng.randrange(n - 1)
                m[p], m[p + 1] = m[p + 1], m[p]
            if bytes(m) != b:
                if rng.random() < .3:      # received intact just before
                    calls.append(dec('pkg', b, note='intact'))
                calls.append(dec('pkg', m, note='damage'))
        # checksums: each wrong value of the header checksum is refused; wrong body checksums
        h = hdr_len(b)
        for x in range(0, 256, 1 if not q else 5):
            m = bytearray(b)
            m[h - 1] = x
            calls.append(dec('pkg', m, note='header checksum'))
        for x in (0, 0xFF):
            m = bytearray(b)
            m[-2:] = bytes([x, x])
            calls.append(dec('pkg', m, note='body checksum'))
            m = bytearray(b)
            m[-1] = x
            calls.append(dec('pkg', m, note='body checksum'))
            m = bytearray(b)
            m[-2] = x
            calls.append(dec('pkg', m, note='body checksum'))
        m = bytearray(b)
        m[-2], m[-1] = m[-1], m[-2]
        calls.append(dec('pkg', m, note='body checksum bytes exchanged'))
        # header fields with a matching header checksum: unsupported type, wrong lengths, announced encryption
        for pos, xs in ((9, [2, 3, 255]), (3, [0, 10, 11, 12, 16, 17, 255]), (5, [b[5] - 1 & 255, b[5] + 1 & 255, 0]), (2, [b[2] ^ 0x20, b[2] ^ 0x08, b[2] ^ 0x10])):
            for x in xs:
                m = bytearray(b)
                m[pos] = x
                calls.append(dec('pkg', rehdr(m), note='header field %d' % pos))
    return calls, ['accept', 'code']


def suite_truncation(ctx):
    rng = random.Random(ctx.seed)
    q = ctx.quick
    vals = generate(ctx, [subs_req(ctx, ALL, 40 if q else 256), pkgs_req(ctx, 40 if q else 240)])
    subs = [g for g in vals if g['lv'] == 'sub']
    pkgs = [g for g in vals if g['lv'] == 'pkg']
    calls = []
    for g in subs:
        pts = range(len(g['b'])) if len(g['b']) <= 24 else sorted(rng.sample(range(len(g['b'])), 24))
        for n in pts:
            calls.append(dec('sub', g['b'][:n], g['kind'], note='cut'))
        n = rng.randrange(len(g['b']) + 1)
        cut = g['b'][:n]
        t = bytes([SRT[g['kind']]])
        calls.append(dec('rds', t + len(g['b']).to_bytes(2, 'little') + cut, note='cut subrecord'))
        calls.append(dec('rds', t + n.to_bytes(2, 'little') + cut, note='short subrecord'))
        calls.append(dec('rds', rds_bytes([g]) + t[:1] + b'\x05'[:rng.randrange(2)], note='cut subrecord header'))
    for g in pkgs:
        b = g['b']
        n = len(b)
        for k in (range(n) if n < 60 else sorted(set(list(range(20)) + [n - 1, n - 2, n - 3] + rng.sample(range(n), 15)))):
            calls.append(dec('pkg', b[:k], note='cut packet'))
        body = body_of(b)
        for k in (range(1, len(body)) if len(body) < 50 else sorted(rng.sample(range(1, len(body)), 40))):
            calls.append(dec('pkg', rebody(b, body[:k]), note='cut body'))
            calls.append(dec('sds' if g['v']['PT'] == 1 else 'ptresp', body[:k], note='cut records'))
        # record lengths beyond the data and in the middle of it
        if g['v']['PT'] == 1:
            rl = int.from_bytes(body[:2], 'little')
            for x in {rl + 1, rl + 256, 65535, max(rl - 1, 0), rl // 2}:
                if x < 65536 and x != rl:
                    m = x.to_bytes(2, 'little') + body[2:]
                    calls.append(dec('pkg', rebody(b, m), note='record length'))
                    calls.append(dec('sds', m, note='record length'))
        m = bytearray(b)      # frame length beyond the data
        x = min(len(body) + rng.choice([1, 2, 3, 100, 60000]), 65535)
        m[5:7] = x.to_bytes(2, 'little')
        calls.append(dec('pkg', rehdr(m), note='frame length'))
    for b in rng.sample(recorded(), 12 if q else 110):
        body = body_of(b)
        for k in rng.sample(range(len(b)), 12):
            calls.append(dec('pkg', b[:k], note='cut recorded'))
        for k in rng.sample(range(1, len(body)), 25):
            calls.append(dec('pkg', rebody(b, body[:k]), note='cut recorded body'))
    return calls, ['accept']


def suite_unknown(ctx):
    rng = random.Random(ctx.seed)
    q = ctx.quick
    vals = generate(ctx, [subs_req(ctx, [k for k in ALL if k not in ('disp', 'auth', 'resp')], 30 if q else 160)])
    unknown = [t for t in range(256) if t not in KNOWN_TYPES]
    calls = []
    hdr = bytes([1, 0, 0, 11, 0, 0, 0, 5, 0, 1, 0])

    def unk(t=None):
        n = rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 21, 40, 300])
        c = rng.choice([bytes(n), b'\xff' * n, bytes(rng.randrange(256) for _ in range(n)),
                        (b'\x10\x15\x00' + bytes(range(21)) + bytes(n))[:n]])     # looks like a subrecord header
        return bytes([rng.choice(unknown) if t is None else t]) + n.to_bytes(2, 'little') + c

    def record(data, rn):
        return len(data).to_bytes(2, 'little') + rn.to_bytes(2, 'little') + bytes([0, 2, 2]) + data

    for t in unknown:
        g = rng.choice(vals)
        calls.append(dec('rds', unk(t) + rds_bytes([g]), note='unknown first'))
        calls.append(dec('rds', rds_bytes([g]) + unk(t), note='unknown last'))
    for _ in range(500 if q else 3000):
        recs = []
        for r in range(rng.randrange(1, 4)):
            parts = [rds_bytes([rng.choice(vals)]) for _ in range(rng.randrange(0, 4))]
            for _ in range(rng.randrange(1, 3)):
                parts.insert(rng.randrange(len(parts) + 1), unk())
            recs.append(record(b''.join(parts), rng.randrange(65536)))
        calls.append(dec('pkg', rebody(hdr, b''.join(recs)), note='unknown in packet'))
    for b in recorded()[::3 if q else 1]:
        body = body_of(b)
        # unknown subrecords at the end of a record that was recorded
        n = int.from_bytes(body[:2], 'little')
        f = body[4]
        end = 7 + 4 * bool(f & 1) + 4 * bool(f & 2) + 4 * bool(f & 4) + n
        u = unk()
        calls.append(dec('pkg', rehdr(rebody(b, (n + len(u)).to_bytes(2, 'little') + body[2:end] + u + body[end:])), note='unknown in recorded'))
    return calls, ['value', 'reject', 'accept', 'crash']


def suite_auto(ctx):
    q = ctx.quick
    vals = generate(ctx, [subs_req(ctx, ALL, 100 if q else 800), pkgs_req(ctx, 300 if q else 2500, auto=True, nrec=3, nsub=4),
                          pkgs_req(ctx, 60, auto=True, nrec=2, nsub=2, keys=[dict(k='xor', x=90), dict(k='pad', x=3)], salt=5)])
    calls = []
    for g in vals:
        if g['lv'] == 'sub':
            calls.append(enc('sub', g['v'], g['kind']))
            for auto in range(4):
                calls.append(enc('rds', dict(subs=[dict(SRT=0 if auto & 1 else SRT[g['kind']], SRL=0 if auto & 2 else len(g['b']), v=g['v'])]), note='auto %d' % auto))
        else:
            calls.append(enc('pkg', g['v'], '', g['key']))
    calls += [c for c in element_calls([g for g in vals if g['lv'] == 'pkg']) if c['op'] == 'enc']
    calls += warm_calls(random.Random(ctx.seed), [g for g in vals if g['lv'] == 'pkg'])
    # a body at the upper end of the lengths
    calls += oversize(ctx)[:3:2]
    # a packet without a body
    h = dict(PRV=1, SKID=0, PRF='00', ENA='00', CMP='0', PR='00', HL=0, HE=0, FDL=77, PID=7, PT=1, PRA=3, RCA=4, TTL=5, HCS=0, SFRCS=0, nobody=True, body=dict(recs=[]))
    calls += [enc('pkg', dict(h, RTE='0'), note='no body'), enc('pkg', dict(h, RTE='1'), note='no body')]
    return calls, ['enc', 'len', 'encreject', 'back', 'nobody']


def suite_crypt(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    keys = [dict(k='xor', x=90), dict(k='pad', x=3), dict(k='pad', x=0), dict(k='xor', x=0), dict(k='pad', x=40)]
    kinds = ['result', 'absan', 'state', 'ext', 'resp', 'auth']
    vals = generate(ctx, [pkgs_req(ctx, 260 if q else 2500, keys=keys, kinds=kinds), pkgs_req(ctx, 60, kinds=kinds, salt=3)])
    calls = []
    for g in vals:
        calls += as_calls(g)
        b = g['b']
        for k in (dict(k='none'), dict(k='err'), rng.choice(keys)):
            calls.append(dec('pkg', b, key=k, note='other key'))
            calls.append(enc('pkg', g['v'], key=k, note='other key'))
        # announced encryption of any kind over a plain body
        if g['key']['k'] == 'none':
            for e in (0x08, 0x10, 0x18):
                m = bytearray(b)
                m[2] = m[2] & ~0x18 | e
                for k in (dict(k='none'), dict(k='err'), dict(k='xor', x=0)):
                    calls.append(dec('pkg', rehdr(m), key=k, note='flag'))
        else:   # ciphertext damaged
            m = bytearray(b)
            m[hdr_len(b) + rng.randrange(len(body_of(b)))] ^= 1 << rng.randrange(8)
            calls.append(dec('pkg', m, key=g['key'], note='damaged'))
    return calls, ['enc', 'back', 'reenc', 'accept', 'reject', 'code', 'value', 'key', 'encaccept', 'encreject']


def suite_plus(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    vals = generate(ctx, [subs_req(ctx, ['plus'], 300 if q else 2500), subs_req(ctx, ['absan', 'ext', 'result'], 20)])
    plus = [g for g in vals if g['kind'] == 'plus']
    other = [g for g in vals if g['kind'] != 'plus']
    calls = [c for g in plus for c in as_calls(g)]
    for g in plus:
        b = g['b']
        calls.append(dec('rds', rds_bytes([rng.choice(other), g, rng.choice(other)]), note='among others'))
        for _ in range(4):
            k = rng.randrange(6)
            m = bytearray(b)
            if k == 0:
                m = m[:rng.randrange(len(m) + 1)]
            elif k == 1:
                m[rng.randrange(len(m))] = rng.randrange(256)
            elif k == 2:        # unknown fields of every wire type in front or at the end
                u = rng.choice([b'\xf8\x01\x05', b'\xf9\x01' + bytes(8), b'\xfa\x01\x02ab', b'\xfb\x01\x08\x01\xfc\x01', b'\xfd\x01abcd', b'\xfb\x01\x08\x01', b'\xfe\x01'])
                m = u + m if rng.random() < .5 else m + u
            elif k == 3:        # without one of the required fields: drop the first tag(s)
                m = m[2:] if rng.random() < .5 else m[5:]
            elif k == 4:        # a required field once more, packed reasons
                m += rng.choice([b'\x08\x07', b'\x1a\x03\x01\x02\x03', b'\x15\x01\x02\x03\x04', b'\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01', b'\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\x02', b'\x00', b'\x0d\x01\x02\x03\x04'])
            else:
                m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
            calls.append(dec('sub', m, 'plus', note='variant'))
            if rng.random() < .3:
                calls.append(dec('rds', rds_bytes([rng.choice(other)]) + b'\x0f' + len(m).to_bytes(2, 'little') + bytes(m) + rds_bytes([rng.choice(other)]), note='variant'))
    for b in (b'', b'\x08\x01', b'\x08\x01\x15\x01\x00\x00\x00', b'\x08\x01\x15\x01\x00\x00\x00\x25\x00\x00\x00\x00'):
        calls.append(dec('sub', b, 'plus', note='required fields'))
    return calls, ['value', 'reject', 'accept', 'enc', 'back', 'reenc', 'encreject', 'len']


# ---- execution ---------------------------------------------------------------

def died(c, note):
    return json.dumps(dict(id=c['id'], op=c['op'], lv=c['lv'], kind=c['kind'], note=note, key=c['key'],
                      v=c.get('v', dict(k='none')), back=dict(k='none'), b=list(bytes.fromhex(c.get('b', ''))), reb=[], code=-1, pid=-1,
                      kcalls=0, len=-1, res='died', reres='none', backres='none'))


def execute(ctx, calls):
    """Runs the calls with the driver; a call that kills the driver is recorded as having died."""
    drv = ctx.driver()
    for i, c in enumerate(calls):
        c['id'] = i + 1
    lines, start, deaths = [], 0, 0
    while start < len(calls):
        inp = ''.join(json.dumps(c) + '\n' for c in calls[start:]).encode()
        try:
            r = subprocess.run([drv, 'codec'], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                               preexec_fn=limit_memory(12), env=dict(os.environ, GOMEMLIMIT='6GiB', GOMAXPROCS='4'))
        except subprocess.TimeoutExpired:
            raise CheckError('codec driver exceeded its time')
        got = [l for l in r.stdout.decode().split('\n') if l.strip()]
        if r.stdout and not r.stdout.endswith(b'\n'):
            got = got[:-1]
        lines += got
        start += len(got)
        if r.returncode == 0:
            break
        if start >= len(calls):          # all calls are recorded: killed while they were made at the same time
            err = r.stderr.decode(errors='replace')
            if 'concurrent' in err and ('fatal error' in err or 'panic' in err):
                c = calls[0]
                lines.append(died(c, 'concurrent'))
                break
            raise CheckError('codec driver ended with %d: %s' % (r.returncode, err[-2000:]))
        if r.returncode == 7:            # a call that never returned; it is recorded
            deaths += 1
        elif r.returncode == 3:
            raise CheckError('codec driver: ' + r.stderr.decode(errors='replace')[-2000:])
        else:                            # killed by the call after the last recorded one
            err = r.stderr.decode(errors='replace')
            if 'fatal error' not in err and 'panic' not in err:
                raise CheckError('codec driver ended with %d: %s' % (r.returncode, err[-2000:]))
            lines.append(died(calls[start], calls[start]['note']))
            start += 1
            deaths += 1
        if deaths > 3:
            break
    return lines


def validate(ctx, calls, lines, focus):
    trace, meta = ctx.path('trace.ndjson'), ctx.path('meta.json')
    with open(trace, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with open(meta, 'w') as f:
        json.dump(dict(focus=focus, stride=64), f)
    r = ctx.tlc('CodecTrace', env=dict(TRACE=trace, TRACE_META=meta))
    ctx.cov['calls_checked_states'] = r['distinct']
    if r['ok']:
        if r['distinct'] != len(lines):
            raise CheckError('only %d of %d calls were validated' % (r['distinct'], len(lines)))
        ctx.cov['traces_validated_against_impl'] += len(lines)
        return
    import re
    st = re.findall(r'/\\ i = (\d+)|/\\ faults = (\{[^}]*\})', r['out'])
    idx = [int(a) for a, b in st if a]
    fl = [b for a, b in st if b]
    if not idx:
        m = re.search(r'i = (\d+)', r['out'])
        if not m:
            raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
        idx = [int(m.group(1))]
    n = idx[-1] - 1
    rec = json.loads(lines[n])
    call = calls[rec['id'] - 1]
    ctx.violation('%s: call %d (%s %s %s %s) is not allowed by the specification: %s'
                  % (ctx.prop, rec['id'], call['op'], call['lv'], call['kind'], rec['note'], fl[-1] if fl else '?'),
                  dict(kind='codec', faults=fl[-1] if fl else '', call=call, recorded=rec))


SUITES = {
    'C12': suite_totality, 'C13': suite_roundtrip, 'C14': sub_suite(POS), 'C15': sub_suite(SENS), 'C16': sub_suite(IDENT),
    'C17': suite_corruption, 'C18': suite_truncation, 'C19': suite_unknown, 'C20': suite_auto, 'C21': suite_crypt, 'C26': suite_plus,
}


# model checking of the specification's own codec: (mode, quick bound, thorough bound, kinds)
MODELS = {
    'C12': [('trunc', 10, 120, [])],
    'C13': [('packet', 80, 2000, [])],
    'C14': [('round', 256, 4096, POS)],
    'C15': [('round', 256, 2048, SENS)],
    'C16': [('round', 256, 2048, IDENT)],
    'C17': [('corrupt', 8, 1, []), ('burst', 32, 256, [])],
    'C18': [('trunc', 20, 300, [])],
    'C19': [('unknown', 60, 1500, [])],
    'C20': [('auto', 60, 1500, [])],
    'C21': [('crypt', 40, 1000, [])],
    'C26': [('round', 256, 4096, ['plus'])],
}


def model(ctx):
    """The specification has the property by itself; a failure here is an error of the specification."""
    for mode, nq, nt, kinds in MODELS.get(ctx.prop, []):
        meta = ctx.path('mc-%s.json' % mode)
        with open(meta, 'w') as f:
            json.dump(dict(seed=ctx.seed % 40000, mode=mode, n=nq if ctx.quick else nt, kinds=kinds), f)
        r = ctx.tlc('MCWire', env=dict(MC_META=meta), workers=4, heap='3g')
        if not r['ok']:
            raise CheckError('the specification violates its own property in mode %s:\n%s' % (mode, r['out'][-3000:]))
        ctx.cov['states'] += r['distinct']
        ctx.cov['transitions'] += r['states']
        ctx.cov.setdefault('model', {})[mode] = r['distinct']


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as pool:
        m = pool.submit(model, ctx)
        conform(ctx)
        m.result()


def conform(ctx):
    calls, focus = SUITES[ctx.prop](ctx)
    ctx.log('%d calls' % len(calls))
    lines = execute(ctx, calls)
    ctx.log('%d calls executed' % len(lines))
    for l in lines[:: max(1, len(lines) // 3)][:3]:
        ctx.sample(json.loads(l) if len(l) < 3000 else l[:3000])
    notes = {}
    for l in lines:
        d = json.loads(l)
        k = '%s %s %s' % (d['op'], d['lv'], d['res'])
        notes[k] = notes.get(k, 0) + 1
    ctx.cov['calls_by_outcome'] = notes
    validate(ctx, calls, lines, focus)
