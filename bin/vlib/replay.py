"""C30: the replay tool tools/send_egts.py against scripted servers, judged by spec/ReplayTrace."""
import json, os, random, re, select, socket, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError, REPO, recorded
from .recv import packet

PIECE = 60000


def scenarios(ctx):
    rng = random.Random(ctx.seed * 104729 + 30)
    out = ctx.path('replay-cases.ndjson')
    r = ctx.tlc('GenReplay', env=dict(GEN_OUT=out, GEN_TIER=ctx.tier), workers=1)
    cs = [json.loads(l) for l in open(out)]
    if not r['ok'] or not cs:
        raise CheckError('no cases')
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.cov['cases_generated'] = len(cs)
    real = recorded()

    def content(size):
        if size == 'huge':
            return rng.randbytes(rng.choice([65535, 40000, 20000]))
        if size == 'long':
            return rng.randbytes(rng.randrange(1900, 5000))
        return rng.choice(real) if rng.random() < .4 else rng.randbytes(rng.randrange(1, 60))
    for c in cs:
        c['lines'], text = [], []
        sent = []
        for k in c['shape'] or []:
            b = b''
            if k == 'packet':
                b = rng.choice(sent) if sent and rng.random() < .25 else content(c['size'])
                sent.append(b)
            c['lines'].append(dict(k=k, b=list(b)))
            h = b.hex()
            text.append({'packet': h.upper() if rng.random() < .5 else h, 'blank': '' if c['size'] == 'short' and rng.random() < .6 else '  ',
                         'junk': rng.choice(['zz', '0x01', 'packet', '01g2'])}[k])
        c['text'] = '\n'.join(text) + ('\n' if c['last'] == 'newline' and text else '')
        c['answers'] = []
        for i in range(sum(x['k'] == 'packet' for x in c['lines'])):
            n = rng.randrange(2049, 6000) if c['manner'] == 'large' else rng.randrange(2, 80)
            c['answers'].append(packet(rng.randrange(65536), rng.randbytes(n), pt=0).hex())
    return cs


def lengths(c):
    out = []
    for x in c['lines']:
        if x['k'] == 'junk':
            break
        if x['k'] == 'packet':
            out.append(len(x['b']))
    return out


def serve(c, l, events):
    """answers as the manner says; the events are in the order in which the server did and saw them"""
    l.settimeout(20)
    try:
        s, _ = l.accept()
    except OSError:
        return
    ends, at = [], 0
    for n in lengths(c):
        at += n
        ends.append(at)
    m = c['manner']
    todo, got, k, buf = [], 0, 0, bytearray()       # todo: (when, bytes or None to close)

    def flush():
        if buf:
            events.append(dict(e='got', b=list(buf)))
            buf.clear()
    try:
        while True:
            while k < len(ends) and got >= ends[k]:
                a, now = bytes.fromhex(c['answers'][k]), time.time()
                if m == 'shut%d' % k:
                    todo.append((now + .05, None))
                elif m == 'pause':
                    todo.append((now + .4, a))
                elif m == 'long':
                    todo.append((now + (7 if k == 0 else .1), a))
                elif m == 'pieces':
                    todo += [(now, a[:len(a) // 2]), (now + .15, a[len(a) // 2:])]
                elif m == 'double':
                    todo += [(now, a), (now + .3, a[::-1])]
                else:
                    todo.append((now, a))
                k += 1
            todo.sort(key=lambda x: x[0])
            wait = max(0, todo[0][0] - time.time()) if todo else 5
            if select.select([s], [], [], wait)[0]:
                d = s.recv(65536)
                if not d:
                    break
                got += len(d)
                buf += d
                if len(buf) > PIECE or k >= len(ends) or got >= ends[k]:
                    flush()
                continue
            if todo and todo[0][0] <= time.time():
                flush()
                a = todo.pop(0)[1]
                if a is None:
                    events.append(dict(e='shut'))
                    break
                events.append(dict(e='gave', b=list(a)))
                s.sendall(a)
    except OSError:
        pass
    flush()
    s.close()


def play(ctx, i, c):
    events = []
    l = socket.socket()
    l.bind(('127.0.0.1', 0))
    if c['server']:
        l.listen(1)
    f = ctx.path('replay-%d.txt' % i)
    open(f, 'w').write(c['text'])
    t = threading.Thread(target=serve, args=(c, l, events), daemon=True)
    if c['server']:
        t.start()
    p = subprocess.Popen(['python3', os.path.join(REPO, 'tools/send_egts.py'), '-s', '127.0.0.1', '-p', str(l.getsockname()[1]), f],
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1'))
    try:
        out, err = p.communicate(timeout=30 + 3 * len(c['lines']))
        end = None
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        end = dict(e='hang')
    if c['server']:
        t.join(30)
    l.close()
    os.unlink(f)
    if end is None:
        text = out.decode(errors='replace')
        hexes = lambda w: [list(bytes.fromhex(x)) for x in re.findall(r'^%s: *((?:[0-9a-fA-F]{2})*)\s*$' % w, text, re.M)]
        end = dict(e='exit', code=p.returncode, sends=[x for x in hexes('send') if x], shown=hexes('received'))
    evs = list(events) + [end]
    return dict(lines=c['lines'], server=c['server'], events=evs, err=err.decode(errors='replace')[-400:])


def execute(ctx, cs):
    with ThreadPoolExecutor(40) as ex:
        return list(ex.map(lambda x: play(ctx, *x), enumerate(cs)))


def validate(ctx, cs, res):
    lines = [dict(lines=r['lines'], server=r['server'], events=r['events']) for r in res]
    bads, todo = [], list(range(len(lines)))
    while todo:
        p = ctx.path('replay-trace.ndjson')
        with open(p, 'w') as f:
            for j in todo:
                f.write(json.dumps(lines[j]) + '\n')
        r = ctx.tlc('ReplayTrace', env=dict(TRACE=p), workers=4, heap='4g', timeout=600)
        n = sum(len(lines[j]['events']) + 1 for j in todo)
        if r['ok']:
            if r['distinct'] != n:
                raise CheckError('%d of %d trace states were explored' % (r['distinct'], n))
            return bads, n
        st = re.findall(r'/\\ sc = (\d+)\n/\\ l = \d+\n/\\ fault = "(.*?)"', r['out'], re.S)
        if not st:
            raise CheckError('cannot read the counterexample:\n' + r['out'][-3000:])
        a, f = st[-1]
        bads.append((todo[int(a) - 1], f))
        del todo[int(a) - 1]
        if len(bads) >= 3:
            break
    return bads, 0


def run(ctx):
    r = ctx.tlc('MCReplay', workers=4)
    if not r['ok']:
        raise CheckError('the specification violates its own property:\n' + r['out'][-3000:])
    ctx.cov['states'] += r['distinct']
    ctx.cov['transitions'] += r['states']
    cs = scenarios(ctx)
    res = execute(ctx, cs)
    ctx.log('%d runs' % len(res))
    bads, n = validate(ctx, cs, res)
    for i, f in bads:
        b2 = again = None
        for _ in range(3):
            again = execute(ctx, [cs[i]])
            b2, _ = validate(ctx, [cs[i]], again)
            if b2:
                break
        if not b2:
            ctx.cov['unconfirmed'] = ctx.cov.get('unconfirmed', 0) + 1
            continue
        c = cs[i]
        ctx.violation('%s: a file of %s%s, server answering "%s": %s' % (ctx.prop, [k['k'] for k in c['lines']], '' if c['last'] == 'newline' else ' without a last newline',
                      c['manner'] if c['server'] else 'none', b2[0][1]), dict(kind='replay', fault=b2[0][1], text=c['text'], answers=c['answers'], manner=c['manner'], result=again[0]))
        return
    ctx.cov['traces_validated_against_impl'] += len(cs)
    ctx.cov['trace_events'] = n
    for c, x in list(zip(cs, res))[:: max(1, len(cs) // 3)][:3]:
        ctx.sample(dict(text=c['text'][:200], manner=c['manner'], events=str(x['events'])[:400]))
