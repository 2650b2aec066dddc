"""Checks of single components: a specification, its model, a harness, and a trace specification each."""
import concurrent.futures as cf
import json, os, random, time
from . import run as R, tour
from .common import Result, seed


class Unit:
    """One component.
    build(work) -> executable;  trace: trace module;  gen(rnd, tag, i, thorough) -> script lines
    models: list of dict(name, module, consts, inv, prop, edges, tier, view, workers)
    owner(mismatch) -> set of properties a mismatch is about"""
    def __init__(self, spec, build, trace, models, gen, owner=None, n=(200, 4000), steps=3000, assume=(), cfg='Trace.cfg', also=None):
        self.spec = spec
        self.build, self.trace, self.models, self.gen = build, trace, models, gen
        self.owner = owner or (lambda m: None)
        self.n, self.steps, self.assume, self.cfg, self.also = n, steps, list(assume), cfg, also


def cfg_text(m):
    t = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
    if m.get('consts'):
        t += 'CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in m['consts'].items())
    if m.get('view') and m.get('edges'):
        t += 'VIEW View\n'
    if m.get('inv') and not m.get('edges'):
        t += 'INVARIANTS ' + ' '.join(m['inv']) + '\n'
    if m.get('prop') and not m.get('edges'):
        t += 'PROPERTIES ' + ' '.join(m['prop']) + '\n'
    if m.get('constraint'):
        t += 'CONSTRAINT ' + m['constraint'] + '\n'
    return t


def run_model(work, m):
    cfg = work.path('mc-%s.cfg' % m['name'].replace('/', '-'))
    with open(cfg, 'w') as f:
        f.write(cfg_text(m))
    env = dict(EDGES='1' if m.get('edges') else '0')
    env.update(m.get('env', {}))
    t, g, d, rc = R.tlc(work, m['module'] + '.tla', cfg, env, workers=m.get('workers', 1), heap=m.get('heap', '3g'))
    if 'No error has been found' not in t:
        raise R.ToolError('the specification itself fails %s:\n%s' % (m['name'], '\n'.join(l for l in t.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting')))[:3500]))
    return t, g, d


def check(P, tier, u):
    res = Result(P, tier)
    S = seed()
    thorough = tier == 'thorough'
    work = R.Work()
    try:
        with cf.ThreadPoolExecutor(6) as ex:
            fexe = ex.submit(u.build, work)
            ms = [m for m in u.models(P) if thorough or not m.get('deep')]
            futs = [(m, ex.submit(run_model, work, m)) for m in ms]
            exe = fexe.result()
            scripts = []
            for m, f in futs:
                t, g, d = f.result()
                res.add_mc(m['name'], g, d)
                if m.get('edges'):
                    c, gr = tour.parse(t)
                    tr, cov, tot = tour.tour(c, gr, S, '%s-%s-' % (P, m['name']), None if thorough else m.get('steps', u.steps))
                    res.extra['model'][m['name']].update(replayed=cov, distinct_transitions=tot)
                    scripts += [t + m.get('post', []) for t in tr]
        tours = len(scripts)
        rounds = 4 if thorough else 1
        deadline = time.time() + (1500 if thorough else 100)
        for rnd in range(rounds):
            if rnd and (time.time() > deadline or res.violations):
                break
            for i in range(u.n[1] if thorough else u.n[0]):
                r = random.Random((S * 1000003 + rnd * 100000 + i) * 101 + sum(map(ord, P)))
                tag = '%s-r%d-%d' % (P, rnd, i)
                scripts.append(['T ' + tag] + u.gen(P, r, i, thorough))
            one(work, exe, P, u, scripts, res, 'r%d' % rnd)
            res.traces += len(scripts)
            if rnd == 0:
                res.samples = [s[:40] for s in ([scripts[0]] if tours else []) + [scripts[-1]]]
            scripts = []
        if u.also and not res.violations:
            u.also(work, P, S, thorough, res)
    finally:
        work.close()
    return res.finish(assumptions=u.assume)


def one(work, exe, P, u, scripts, res, tag):
    files = R.run_harness(exe, scripts, work.path('tr'), tag)
    v = R.validate(work, u.trace + '.tla', u.cfg, files)
    res.states += v['states']
    res.transitions += v['transitions']
    res.extra['records_validated'] = res.extra.get('records_validated', 0) + v['lines']
    for nt in v['notes']:
        res.findings[nt['what']] = res.findings.get(nt['what'], 0) + 1
    by = {s[0].split()[1]: s for s in scripts}

    def mine(m):
        m['rec'] = json.loads(open(m['file'], errors='replace').read().splitlines()[m['line'] - 1])
        o = None if 'unjudged' in m['bad'] else u.owner(m)
        return o is None or P in o
    cand = [m for m in v['mismatches'] if mine(m)]
    other = len(v['mismatches']) - len(cand)
    if other:
        res.extra['disagreements_about_other_properties'] = res.extra.get('disagreements_about_other_properties', 0) + other
    cand = cand[:8]
    if not cand:
        return
    again = [by[m['t']] for m in cand]
    v2 = R.validate(work, u.trace + '.tla', u.cfg, R.run_harness(exe, again, work.path('tr'), tag + 'again'))
    rep = {m['t']: m for m in v2['mismatches']}
    for m, s in zip(cand, again):
        r = rep.get(m['t'])
        if r is None or not mine(r):
            continue
        what = 'trace %s: the implementation disagrees with the specification in %s\n#  did    %s\n#  allows %s' % (m['t'], r['bad'], json.dumps(r['rec'])[:1500], json.dumps(r.get('want'))[:1500])
        res.violations.append((what, dict(kind='small', property=P, script=s, record=r['rec'], allows=r.get('want'), differs=r['bad'])))


# ------------------------------------------------------------------ P15
def ring_gen(P, r, i, thorough):
    cap = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 30, 63, 64, 100, 127, 128, 129, 200, 255, r.randrange(1, 256), r.randrange(1, 256)])
    out = ['N %d' % cap]
    v = 0
    n = r.choice([30, 120, 400, 700])
    mode = 0
    for k in range(n):
        if k % max(1, r.choice([cap, 2 * cap, 20])) == 0:
            mode = r.choice([.3, .5, .7, .9, .98])
        x = r.random()
        if x < .004:
            out.append('c')
        elif x < .05:
            out.append('k')
        elif x < .05 + .95 * mode:
            v += 1
            out.append('p %d' % v)
        else:
            out.append('g')
    return out


def ring_models(P):
    ms = []
    for cap in (1, 2, 3):
        ms.append(dict(name='RingMC/edges%d' % cap, module='RingMC', consts=dict(Cap=cap, MaxPuts=0), edges=True, view=True))
    for cap, puts, deep in ((1, 7, 0), (2, 7, 0), (3, 7, 0), (4, 9, 1), (3, 10, 1)):
        ms.append(dict(name='RingMC/%d-%d' % (cap, puts), module='RingMC', consts=dict(Cap=cap, MaxPuts=puts), deep=deep,
                       inv=['Accounted', 'Numbers'], prop=['OldestOnly', 'HighWater'], workers=2, heap='6g' if deep else '3g'))
    return ms


UNITS = {}
UNITS['P15'] = Unit('Ring.tla, RingMC', lambda w: R.build(w, 'ring', [], ['ring.cpp', 'arduino_env.cpp']), 'RingTrace', ring_models, ring_gen, n=(500, 1500),
                    assume=['entries are only popped when available() says there is one'])


# ------------------------------------------------------------------ P17 - P19
def hx(b):
    return ''.join('%02X' % x for x in b) or '-'


def crc16(m):
    """only to aim at matching and nearly matching checksums"""
    if not m:
        return 0
    c = 0xFFFF
    for b in m:
        for k in range(8):
            c = (c >> 1) ^ 0x8408 if (c ^ (b >> k)) & 1 else c >> 1
    c ^= 0xFFFF
    return ((c & 255) << 8) | (c >> 8)


def lm_bytes(r, n):
    k = r.random()
    if k < .3:
        return [r.choice([0, 0, 255, r.randrange(256)]) for _ in range(n)]
    return [r.randrange(256) for _ in range(n)]


def lm_frames(st, m, crc=0, flags=0, cut=False):
    fs = [[0xE9, st, 0, len(m) >> 8, len(m) & 255, crc >> 8, crc & 255, flags]]
    for k in range(0, len(m), 5):
        d = m[k:k + 5]
        fs.append([0xE9, st, (k // 5 + 1) & 255] + d + ([] if cut else [0] * (5 - len(d))))
    return fs


def lm_send(P, r, i, ex):
    out = ['N x 2 16 %d %d' % (r.choice([1, 2, 3, 4, 5]), r.randrange(2)) if ex else 'N b']
    if r.random() < .25:
        out.append('M %d' % (4294967295 - r.choice([10, 100, 500, 3000])))
    d = r.choice([20, 20, 1, 5, 50, 100, 200, 255])
    if d != 20 or r.random() < .3:
        out.append('D %d' % d)
    streams = r.sample(range(1, 256), r.choice([1, 2, 3, 6])) if ex else [1, 2, 77]
    big = i % 6 == 0
    budget = 700 if big else 220
    tried = 0
    while budget > 0 and tried < 12:
        n = r.choice([1, 2, 4, 5, 6, 9, 10, 11, 15, 16, 29, 60])
        if big and tried < 2:
            n = r.choice([1270, 1275, 1276, 1281, 1400, 2600 if i % 12 == 0 else 300])
        if i in (1, 2) and tried == 3:
            n = r.choice([32768, 40000, 65535])
            budget = 60
            run = 60
        out.append('Z %d %s' % (r.choice(streams), hx(lm_bytes(r, n))))
        tried += 1
        if r.random() < .3:
            out.append('Z %d %s' % (r.choice(streams), hx(lm_bytes(r, r.choice([1, 5, 7])))))
        if n <= 60 and r.random() < .35:
            # the next message right after the last fragment of this one
            for k in range((n + 4) // 5 + 1):
                out.append('W %d' % r.choice([d, d + 1]))
            out.append('Z %d %s' % (r.choice(streams), hx(lm_bytes(r, r.choice([1, 4, 6])))))
            out += ['P'] * r.choice([1, 2]) + ['W %d' % r.choice([1, d // 2, max(0, d - 1), d])] * 2
        run = r.choice([0, 1, 3, 10, 40, n // 5 + 3, (n // 5 + 3) * (4 if ex else 1)])
        w = r.choice([0, 1, d // 2, d, d, d + 1, d + 1, d + 5])
        for _ in range(min(run, budget)):
            if r.random() < .04:
                out.append('Z %d %s' % (r.choice(streams), hx(lm_bytes(r, 6))))
            out.append('P' if w == 0 or r.random() < .1 else 'W %d' % (w if r.random() < .9 else r.choice([0, d - 1, d + 1])))
            budget -= 1
    for _ in range(6):
        out.append('W %d' % (d + 1))
    out.append('Z %d %s' % (streams[0], hx(lm_bytes(r, 7))))
    for _ in range(12):
        out.append('W %d' % (d + 1))
    return out


def lm_recv(P, r, i, ex, thorough):
    blen = r.choice([4, 5, 6, 8, 16, 32, 64, 200])
    big = i % 6 == 0
    if big:
        blen = r.choice([1500, 3000, 1281]) if ex else r.choice([50, 1500, 7, 100])
    rctx = r.choice([1, 2, 3, 4])
    out = ['N x %d %d 2 %d' % (rctx, blen, r.randrange(2)) if ex else 'N b']
    if r.random() < .2:
        out.append('M %d' % (4294967295 - r.choice([1000, 6000, 100])))
    tmo = 5000
    if r.random() < .5:
        tmo = r.choice([50, 100, 1000, 10000])
        out.append('O %d' % tmo)
    subs = r.sample(range(0, 256), r.choice([1, 2, 3, 5]))
    out.append('U %d %s' % (blen, ' '.join(map(str, subs))))
    others = [x for x in range(256) if x not in subs][:2]
    queues = []
    if big and blen >= 1281:
        # sequence numbers wrap in one or two streams without mishap
        ms = [(st, lm_bytes(r, r.choice([1280, 1281] + ([1490, blen] if blen > 1400 else [])))) for st in subs[:r.choice([1, 1, 2]) if ex and rctx > 1 else 1]]
        fss = [lm_frames(st, m[:2600], crc16(m[:2600]) if ex else 0) for st, m in ms]
        while any(fss):
            fs = r.choice([x for x in fss if x])
            out.append('R %s' % hx(fs.pop(0)))
            if r.random() < .2:
                out.append('P')
    todo = 900 if big else 150
    while todo > 0:
        # several senders at work, each with its own sequence of frames and mishaps
        while len(queues) < r.choice([1, 1, 2, 3, 5]):
            st = r.choice(subs * 4 + others)
            if any(q[0][1] == st for q in queues) and r.random() < .9:
                if len(queues) >= len(subs):
                    break
                continue
            n = r.choice([1, 2, 4, 5, 6, 8, 10, 11, 16, 17, 30, blen, max(1, blen - 1), blen + 1, blen + 6])
            if big and r.random() < .5:
                n = r.choice([1270, 1275, 1276, 1280, 1285, 1300, 1400])
            n = max(1, min(n, 1500))
            m = lm_bytes(r, n)
            crc = r.choice([0, 0, crc16(m), crc16(m), crc16(m) ^ (1 << r.randrange(16)), crc16(m[:-1])]) if ex else r.choice([0, 0, 4711])
            fs = lm_frames(st, m, crc, 0 if r.random() < .93 else r.choice([1, 2, 128, 255]))
            x = r.random()
            k = r.randrange(len(fs))
            if x < .06:
                del fs[k]
            elif x < .12:
                fs.insert(k, fs[k])
            elif x < .17 and len(fs) > 1:
                k = r.randrange(len(fs) - 1)
                fs[k], fs[k + 1] = fs[k + 1], fs[k]
            elif x < .20:
                fs = fs[:k]
            elif x < .23 and k:
                fs[k] = fs[k][:2] + [r.choice([0, fs[k][2] ^ 128, (fs[k][2] + 1) & 255])] + fs[k][3:]
            elif x < .25 and len(fs) > 2:
                k = r.randrange(1, len(fs))
                fs[k:k] = [fs[0]]
            elif x < .29:
                # a longer message is announced than follows
                fs[0] = fs[0][:3] + [r.choice([0x80, 0x40, 0xFF, 0x7F, 1, 2])] + fs[0][4:]
            if fs:
                queues.append(fs)
        if not queues:
            continue
        q = r.choice(queues)
        f = q.pop(0)
        if not q:
            queues.remove(q)
        if len(f) < 8 and f[2] == 0:
            f = f + [0] * (8 - len(f))
        out.append('R %s' % hx(f))
        todo -= 1
        x = r.random()
        if x < .02:
            out.append('R %s' % hx(r.choice([[0x90, 0, 1, 0, 2], [0xE9 ^ 1] + f[1:], [0xB9, f[1], f[2], 1, 2, 3]])))
        if x < .35:
            out.append('P')
        elif x < .45:
            out.append('W %d' % r.choice([1, 5, tmo // 3]))
        elif x < .455:
            out.append('W %d' % r.choice([tmo - 1, tmo + 1, tmo + 50]))
    out.append('W %d' % (tmo + 1))
    for f in lm_frames(subs[0], lm_bytes(r, 6)):
        out.append('R %s' % hx(f))
    return out


def lm_gen(P, r, i, thorough):
    if P == 'P17':
        return lm_send(P, r, i, False)
    if P == 'P18':
        return lm_recv(P, r, i, False, thorough)
    if i % 2:
        return lm_send(P, r, i // 2, True)
    return lm_recv(P, r, i // 2, True, thorough)


def lm_owner(m):
    if m['ex']:
        return {'P19'}
    o = set()
    b = set(m['bad'])
    if b & {'accepted', 'header', 'fragment', 'starved', 'busy', 'crash', 'reply'} or b == {'quiet'}:
        o.add('P17')
    if b & {'callback', 'timeout', 'crash', 'reply', 'quiet'}:
        o.add('P18')
    return o


def lm_models(P):
    ms = []
    inv = ['Intact', 'Once', 'Beginning', 'Arrives', 'NotSubscribed', 'Noticed']

    def comp(name, ex, lens, msgs, faults, blen, streams, deep=0, pay=2, mod=4, workers=3):
        return dict(name='LongMsgMC/' + name, module='LongMsgMC', inv=inv, workers=workers, deep=deep, heap='6g' if deep else '3g',
                    consts=dict(Mod=mod, Pay=pay, Ex='TRUE' if ex else 'FALSE', Lens=lens, MaxMsgs=msgs, MaxFaults=faults, Blen=blen, Streams=streams))

    def edges(fam):
        return dict(name='LongMsgTour-' + fam, module='LongMsgTour', consts=dict(Mod=256, Pay=5), edges=True, env=dict(FAM=fam))
    if P == 'P17':
        ms += [edges('send'), comp('one', False, '{1, 2, 3, 9}', 2, 0, 20, '{1, 9}'), comp('deep', False, '{1, 2, 4, 5, 11}', 3, 0, 20, '{1, 9}', 1)]
    elif P == 'P18':
        ms += [edges('recv'), comp('fault', False, '{1, 3, 4}', 2, 1, 3, '{1, 2}'), comp('wrap', False, '{9}', 2, 1, 4, '{1}'),
               comp('deep', False, '{1, 3, 4, 9}', 3, 1, 3, '{1, 9}', 1), comp('deep2', False, '{1, 4, 5}', 3, 1, 4, '{1, 2, 9}', 1)]
    else:
        ms += [edges('exsend'), edges('exrecv'), comp('ex', True, '{1, 3}', 2, 1, 4, '{1, 2}'), comp('exwrap', True, '{9, 2}', 2, 0, 10, '{1, 2}'),
               comp('exdeep', True, '{1, 3, 6}', 3, 1, 5, '{1, 2, 9}', 1), comp('exdeep2', True, '{9, 2}', 2, 1, 10, '{1, 2}', 1)]
    return ms


LM = Unit('LongMsg.tla, LongMsgMC, LongMsgTour', lambda w: R.build(w, 'longmsg', ['Controller', 'Configuration', 'LongMessageService', 'Service'], ['longmsg.cpp', 'arduino_env.cpp']), 'LongMsgTrace', lm_models, lm_gen,
          owner=lm_owner, n=(180, 400), cfg='LongMsgTrace.cfg',
          assume=['messages have at least one byte', 'the transport accepts every frame', 'process() runs whenever time has passed', 'fragments carry five bytes (the last one padded), as the senders of the library send them'])
for _p in ('P17', 'P18', 'P19'):
    UNITS[_p] = LM


# ------------------------------------------------------------------ P25, P26
def ui_led(P, r):
    out = []
    if r.random() < .3:
        out.append('M %d' % (4294967295 - r.choice([10, 400, 3000, 20000])))
    out.append('N l')
    for _ in range(r.choice([10, 25, 60])):
        x = r.random()
        if x < .12:
            out.append('m %d' % r.randrange(3))
        elif x < .22:
            out.append('a')
            for _ in range(r.randrange(4)):
                out.append('b 0 %d' % r.choice([1, 2, 3, 4, 5, 6, 9]))
        elif x < .25:
            out.append('o %d' % r.choice([1, 3, 8, 20, 100, 700]))
        elif x < .32:
            # blink for a while
            for _ in range(r.choice([5, 20, 50])):
                out.append('b 0 %d' % r.choice([1, 10, 20, 49, 100]))
        elif x < .5:
            out.append('b 0 %d' % r.choice([0, 1, 7, 250, 499, 500, 5000]))
        else:
            d = r.choice([0, 1, 100, 498, 499, 500, 501, 998, 999, 1000, 1001, 1500, 1998, 1999, 2000, 2001, 3000, 3999, 4000, 4001, 4002, 6000, r.randrange(5000)])
            if r.random() < .08:
                d = r.choice([32768, 65536, 65536, 98304, 131072, 262144, 16777216]) + r.choice([0, 1, 200, 600, 1100, 2500])
            out.append('b 1 %d' % r.choice([0, 1, 30]))
            cuts = sorted(min(d, r.choice([3999, 4000, 4001])) if r.random() < .4 else r.randrange(d + 1) for _ in range(r.choice([0, 0, 1, 2, 5])))
            p = 0
            for c in cuts:
                out.append('b 1 %d' % (c - p))
                p = c
                if r.random() < .1:
                    out.append(r.choice(['a', 'm 2', 'm 0', 'p 3']))
            out.append('b 0 %d' % (d - p))
    return out


def ui_serial(P, r):
    out = ['N s %d %d %d' % (r.choice([0, 1, 10, 127, 255]), r.choice([0, 1, 20, 255]), r.choice([1, 2, 10]))]
    for _ in range(r.choice([3, 10])):
        n = r.choice([1, 1, 2, 3, 8, 20])
        cs = [r.choice([ord(r.choice('nevchymsss*\r\nSYN')), ord(r.choice('nevchymsss*\r\nSYN')), r.randrange(256)]) for _ in range(n)]
        while cs.count(115) > 8:
            cs.remove(115)
        out.append('c ' + hx(cs))
    return out


def ui_gen(P, r, i, thorough):
    if P == 'P25' and i % 3 == 0:
        if i == 0:
            return ['N s 10 20 2'] + ['c %02X' % k for k in range(256)] + ['c 2A', 'c 73', 'c 792A73']
        return ui_serial(P, r)
    return ui_led(P, r)


def ui_owner(m):
    b = set(m['bad'])
    o = set()
    if b & {'request', 'command', 'storage', 'crash'}:
        o.add('P25')
    if b & {'yellow', 'green', 'crash'}:
        o.add('P26')
    return o


def ui_models(P):
    fam = 'button' if P == 'P25' else 'led'
    inv = ['OneEach', 'Press', 'HeldShows', 'Steady'] + (['Blinks'] if P == 'P26' else [])
    return [dict(name='UiMC/%s-edges' % fam, module='UiMC', edges=True, view=True, env=dict(FAM=fam), constraint='Bound'),
            dict(name='UiMC/' + fam, module='UiMC', inv=inv, prop=['OnlyOnRelease', 'RightOne'], env=dict(FAM=fam), constraint='Bound', workers=2)]


UI = Unit('Ui.tla, UiMC', lambda w: R.build(w, 'ui', ['Controller', 'Configuration', 'Service', 'LED', 'Switch', 'LEDUserInterface', 'SerialUserInterface'],
                            ['ui.cpp', 'arduino_env.cpp'], defs=['-DVERIF_OWN_SERIAL']), 'UiTrace', ui_models, ui_gen, owner=ui_owner, n=(500, 1500),
          assume=['the main loop runs after each change of the button', 'the button is sampled without bouncing'])


def ui_node(work, P, S, thorough, res):
    from . import node
    if P == 'P26':
        node.explore(work, P, S, thorough, res, walks=None if thorough else 300)


UI.also = ui_node
UNITS['P25'] = UNITS['P26'] = UI


# ------------------------------------------------------------------ P27, P28
def gc_text(r, f):
    i, x, rt, d = f
    if x:
        s = ':X%02X%X%X%04X' % (i >> 21, (i >> 17) & 14, (i >> 16) & 3, i & 65535)
    else:
        s = ':S%04X' % (i << 5)
    return s + 'NR'[rt] + ''.join('%02X' % b for b in d) + ';'


def gc_frame(r):
    x = r.randrange(2)
    top = (1 << 29) - 1 if x else 2047
    return (r.choice([0, top, 1 << r.randrange(29 if x else 11), r.randrange(top + 1), r.randrange(top + 1)]), x, int(r.random() < .2), [r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(r.randrange(9))])


def gc_line(op, f, n=None):
    return '%s %d %d %d %d %s' % (op, f[0], f[1], f[2], len(f[3]) if n is None else n, hx(f[3]))


def gc_bad(r):
    """frames that cannot be encoded"""
    i, x, rt, d = gc_frame(r)
    if r.random() < .5:
        return gc_line('%s', (i, x, rt, d), r.choice([9, 10, 16, 64, 255]))
    return gc_line('%s', (r.choice([1 << 29, (1 << 29) + 5, (1 << 32) - 1, 1 << 31]) if x else r.choice([2048, 4095, 65535, 1 << 20, (1 << 32) - 1, 1 << 29]), x, rt, d))


def gc_mutate(r, s):
    s = list(s)
    if r.random() < .08:
        return ''.join(s) + chr(r.choice([10, 13, 32, 59, 58, 48, 127, 255, r.randrange(1, 256)]))
    for _ in range(r.choice([1, 1, 2])):
        if not s:
            break
        k = r.randrange(len(s))
        x = r.randrange(4)
        c = chr(r.choice([r.randrange(1, 256), ord(r.choice(':;SXNR0123456789ABCDEFGabcf \r\n'))]))
        if x == 0:
            s[k] = c
        elif x == 1:
            del s[k]
        elif x == 2:
            s.insert(k, c)
        else:
            s = s[:k]
    return ''.join(s)


def gc_hex(s):
    return ''.join('%02X' % (ord(c) & 255) for c in s) or '-'


def gc_gen(P, r, i, thorough):
    out = ['N']
    if P == 'P27':
        for _ in range(60):
            x = r.random()
            if x < .4:
                f = gc_frame(r)
                out += [gc_line('E', f), 'D ' + gc_hex(gc_text(r, f))]
            elif x < .5:
                out.append(gc_bad(r) % 'E')
            elif x < .9:
                out.append('D ' + gc_hex(gc_mutate(r, gc_text(r, gc_frame(r)))))
            elif x < .95:
                s = gc_text(r, gc_frame(r))
                out.append('D ' + gc_hex(s[:-1] + r.choice(['00' * r.randrange(1, 9), 'A', '']) + r.choice([';', ';;', ''])))
            else:
                out.append('D ' + gc_hex(''.join(chr(r.randrange(1, 256)) for _ in range(r.choice([0, 1, 2, 8, 30])))))
        return out
    stream = ''
    for _ in range(r.choice([5, 20, 40])):
        x = r.random()
        s = gc_text(r, gc_frame(r))
        if r.random() < .15:
            low = r.choice(['ABCDEF', 'ABCDEF', 'ABCDEFNRSX', 'N', 'NRSX'])
            s = ''.join(c.lower() if c in low else c for c in s)
        if x < .2:
            s = gc_mutate(r, s)
        elif x < .25:
            s = s[:-1] + ''.join(r.choice('0123456789ABCDEF') for _ in range(r.choice([1, 2, 12, 18, 20, 22, 30, 33, 70]))) + r.choice([';', '', ';;'])
        elif x < .3:
            s = ''.join(chr(r.choice([r.randrange(256), 59, 10, 13, 48])) for _ in range(r.choice([1, 5, 29, 40]))) + s
        elif x < .33:
            s = ':' * r.choice([1, 2, 31]) + s
        elif x < .36:
            s = s[:r.randrange(len(s))]
        elif x < .45:
            s += r.choice(['\r\n', '\n', ' ', ';'])
        stream += s
        if r.random() < .5:
            out += chunks(r, stream)
            stream = ''
            while r.random() < .4:
                out.append(gc_line('X', gc_frame(r)) if r.random() < .8 else gc_bad(r) % 'X')
            if r.random() < .05:
                out.append('Z')
    return out + chunks(r, stream)


def chunks(r, s):
    out = []
    n = r.choice([1, 3, 10, 1000])
    while s:
        k = r.randrange(1, n + 1)
        out.append('R ' + gc_hex(s[:k]))
        s = s[k:]
    return out


def gc_owner(m):
    b = set(m['bad'])
    o = set()
    if b & {'encode', 'decode', 'crash'}:
        o.add('P27')
    if b & {'received', 'counters', 'sent', 'crash'}:
        o.add('P28')
    return o


def gc_models(P):
    def m(name, fam, n=0, noise=0, **k):
        return dict(name='GridConnectMC/' + name, module='GridConnectMC', env=dict(FAM=fam), consts=dict(MaxLen=n, MaxNoise=noise), **k)
    if P == 'P27':
        inv = ['RoundTrip', 'Refuses']
        return [m('code', 'code', inv=inv, workers=3), m('std', 'std', inv=inv), m('code-edges', 'code', edges=True, steps=30000), m('std-edges', 'std', edges=True, steps=10000)]
    inv = ['Delivered', 'Counted']
    return [m('line', 'line', 22, 2, inv=inv, workers=4), m('line-deep', 'line', 32, 3, inv=inv, workers=6, deep=1, heap='8g'),
            m('line-edges', 'line', edges=True, view=True, constraint='Small')]


GC = Unit('GridConnect.tla, GridConnectMC', lambda w: R.build(w, 'gc', ['GridConnect', 'SerialGC'], ['gc.cpp', 'arduino_env.cpp'], defs=['-DVERIF_OWN_SERIAL']),
          'GridConnectTrace', gc_models, gc_gen, owner=gc_owner, n=(500, 2000),
          assume=['the main loop keeps calling available() until the serial input is used up'])
UNITS['P27'] = UNITS['P28'] = GC


# ------------------------------------------------------------------ P33
def can_gen(P, r, i, thorough):
    def frame():
        f = gc_frame(r)
        return '%d %d %d %s' % (f[0], f[1], f[2], hx(f[3]))

    def begin(code=0):
        x = r.random()
        return 'B %s %s %s %s %d' % (r.choice(['-', '0', '1', '1']), r.choice(['-', '-', '8000000', '20000000', '16000000', '10000000', '12000000']), r.choice(['- -', '53 3', '5 19', '15 4']),
                                     r.choice(['- -', '%d %d' % (r.choice([1, 2, 16, 64, 255]), r.choice([0, 1, 4, 32]))]), code)
    out = ['N']
    if r.random() < .2:
        out.append(begin(r.choice([1, 2, 4, 256, 512, 1024, 65535])))
    out.append(begin())
    many = r.random()
    for _ in range(r.choice([20, 60, 120])):
        x = r.random()
        if x < .4:
            out += ['F ' + frame() for _ in range(r.choice([1, 1, 2, 5]) if many < .95 else 30)]
        elif x < .6:
            out.append('L')
        elif x < .7:
            out.append('G')
        elif x < .9:
            out += ['S %s %d' % (frame(), r.random() < .7) for _ in range(r.choice([1, 1, 3]) if many < .95 else 30)]
        elif x < .95:
            out.append('E %d %d %d' % (r.randrange(256), r.randrange(256), r.randrange(256)))
        elif x < .98:
            if r.random() < .2:
                out += ['Z %d' % r.choice([1, 256])] + ['L', 'G', 'Z 0']
            else:
                out.append('Z 0')
    return out + ['L', 'F ' + frame(), 'L']


def can_models(P):
    def m(name, a, s, z, **k):
        return dict(name='CanDriverMC/' + name, module='CanDriverMC', consts=dict(MaxArrive=a, MaxSend=s, MaxReset=z), **k)
    inv = ['Whole', 'Counted', 'Served']
    return [m('driver', 5, 3, 3, inv=inv, workers=4), m('driver-deep', 7, 4, 4, inv=inv, workers=6, deep=1, heap='8g'), m('edges', 1, 1, 1, edges=True, view=True, steps=3000)]


UNITS['P33'] = Unit('CanDriver.tla, CanDriverMC', lambda w: R.build(w, 'can', ['CAN2515'], ['can2515.cpp', 'arduino_env.cpp']), 'CanDriverTrace', can_models, can_gen, n=(500, 2000),
                    assume=['the ACAN2515 library behaves as its interface says: interrupt routine or poll() fetch what the controller received, receive() returns the oldest frame'])


# ------------------------------------------------------------------ P29
def storage_build(w):
    def src(kind, cls, flags):
        fl = flags + (['-D%s=%s%s' % (cls, cls, kind)] if kind else [])
        return [(cls, cls + kind, fl), ('CreateDefaultStorageForPlatform', 'create' + cls + kind, fl + ['-DcreateDefaultStorageForPlatform=storage' + (kind or 'Int')])]
    due = src('Due', 'DueEepromEmulationStorage', ['-D__SAM3X8E__', '-I' + R.H + '/dev'])
    fl = src('Flash', 'FlashStorage', ['-DDXCORE', '-I' + R.H + '/dev'])
    return R.build(w, 'storage', src('', 'EepromInternalStorage', []) + src('Rp', 'EepromInternalStorage', ['-DARDUINO_ARCH_RP2040', '-I' + R.H + '/rp']) + fl + due + ['EepromExternalStorage'],
                   ['storage.cpp', 'arduino_env.cpp'])


def storage_gen(P, r, i, thorough):
    kind = ['int', 'rp', 'ext', 'flash', 'due'][i % 5]
    size = 2048 if kind == 'flash' else 4096
    page = 512 if kind == 'flash' else 64
    out = ['N ' + kind]
    beyond = kind == 'ext' and r.random() < .3
    if beyond:
        size = 8192
    hot = [r.randrange(0, size // page + 1) * page for _ in range(3)]
    for _ in range(r.choice([10, 30, 60])):
        n = r.choice([1, 2, 4, 4, 4, 7, 16])
        a = r.choice([r.randrange(size), r.choice(hot) + r.randrange(-n, 3), r.randrange(12), r.randrange(min(size, 400)), size - n, size - 1])
        a = max(0, min(a, size - 1))
        x = r.random()
        if x < .35:
            out.append('W %d %d' % (a, r.choice([0, 255, r.randrange(256), r.randrange(256)])))
        elif x < .65:
            a = min(a, size - n)
            out.append('w %d %s' % (a, hx([r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(n)])))
        elif x < .75:
            out.append('r %d' % a)
        elif x < .88:
            out.append('R %d %d' % (min(a, size - n), n))
        elif x < .93:
            out.append('Z')
        else:
            out.append('X')
    return out + ['X']


def storage_models(P):
    def m(kind, page, pages, n, **k):
        return dict(name='StorageMC/%s-%dx%d%s' % (kind, page, pages, '-edges' if k.get('edges') else ''), module='StorageMC', env=dict(KIND=kind), consts=dict(Page=page, Pages=pages, MaxLen=n), **k)
    inv = ['Refines', 'CacheTrue']
    return [m('ext', 4, 2, 5, inv=inv), m('ext', 2, 4, 5, inv=inv), m('flash', 2, 3, 4, inv=inv, workers=3), m('commit', 4, 2, 3, inv=inv),
            m('flash', 3, 3, 5, inv=inv, workers=6, deep=1, heap='8g'), m('ext', 4, 3, 6, inv=inv, workers=6, deep=1, heap='8g')] + [
        m(k, 1, 1, 1, edges=True, view=True, steps=700) for k in ('flash', 'ext', 'int', 'rp', 'due')]


UNITS['P29'] = Unit('Storage.tla, StorageMC', storage_build, 'StorageTrace', storage_models, storage_gen, n=(500, 1500),
                    assume=['simulated devices: I2C EEPROM with 64 byte pages that is busy for 5 ms after a write, AVR-Dx flash whose pages are erased whole, RP2040 EEPROM copy with commit, Due flash',
                            'multi-byte accesses of at most 16 bytes'])


# ------------------------------------------------------------------ P30, P31
def bus_gen(P, r, i, thorough):
    n = r.choice([2, 2, 3, 3, 4])
    out = []
    for k in range(n):
        out.append('C nvs=0 maxev=%d evs=1 prod=%d ch=1 ph=1 crash=0 multi=1 svcs=%s' % (r.choice([1, 3]), r.choice([0, 1]), r.choice(['M,C,U', 'M,C,P,T,U', 'MD,CD,E,U', 'M,C,U', 'C,M,L,N,U'])))
        fresh = r.random() < .4 if P == 'P30' else 0 < k == n - 1 and r.random() < .4
        if not fresh:
            canid = r.choice([0, 1, 1, 2, 2, 3, 5, 99, 127]) if P == 'P31' else r.choice([k + 1, r.randrange(0, 4)])
            out.append('S 0 01%02X%04X%02X00' % (canid, 10 + k if P == 'P31' or r.random() < .8 else r.choice([0, 256, 65535]), r.choice([0, 0, 1])))
    out += ['B', 'G 1']
    g = lambda: 'G %d' % r.randrange(1 << 30)
    some = lambda: r.randrange(1, n + 1)

    def stir():
        return [r.choice(['V %d', 'D %d', 'D %d']) % some() for _ in range(r.choice([0, 0, 1, 2, 4, 8]))]
    if P == 'P30':
        for _ in range(r.choice([6, 15, 30])):
            x = r.random()
            if x < .55:
                out += ['n %d' % some(), 'A %d' % r.choice([0, 0, 1, 1, 1, 2])] + stir()
            elif x < .7:
                out += stir()
            elif x < .8:
                out += [g(), 'H 1535 0 0 42%04X' % r.choice([300 + r.randrange(99), 10, 256])] + stir() + [g()]
            elif x < .88:
                out += [g(), 'w %d' % r.choice([1, 99, 100, 150, 400, 6000])]
            elif x < .91:
                out += [g(), 'n %d' % some(), 'X']
            elif x < .94:
                out += ['H 1535 0 0 %s' % r.choice(['10', '0D', '11', '76%04X%02X' % (10 + r.randrange(n), r.choice([0, 1, 8, 255])), '4E000A', '50%04X' % r.randrange(1, 400), '5D%04X' % (10 + r.randrange(n))])]
            else:
                out.append(g())
        return out + [g(), 'w 200', g()]

    def turns():
        o = []
        for k in r.sample(range(n + (new > 0)), n + (new > 0)):
            nn = 10 + k if k < n else new
            o += ['H 1535 0 0 ' + ('73%04X%02X' % (nn, r.randrange(1, 20)) if nn < 1000 else '10'), g(), 'w %d' % r.choice([100, 101, 130, 250]), g()]
        return o + ['U']
    new = 0
    if fresh:
        # the last module is new: it takes part once it has been told to
        n -= 1
        if r.random() < .3:
            out += turns()
        out += ['n %d' % (n + 1), 'A 0', g(), 'w %d' % r.choice([100, 150]), g()]
        new = 1000                  # (it will answer RQNP)
        if r.random() < .3:
            out += ['n %d' % (n + 1), 'A 2', g(), 'w 150', g()]
        if r.random() < .2:
            out += ['H 1535 0 0 42%04X' % 300, g()]
            new = 300
    for _ in range(r.choice([2, 4])):
        x = r.random()
        for _ in range(r.choice([0, 1, 3])):
            x = r.random()
            k = r.randrange(n)
            if x < .1:
                # its node number is asked for again, and the request is withdrawn
                out += ['n %d' % (k + 1), 'A 1'] + stir() + ['n %d' % (k + 1), 'A 1', g(), 'w 150', g()]
            elif x < .3:
                out += ['n %d' % (k + 1), 'A 2'] + stir() + (['w %d' % r.choice([1, 50, 90])] if r.random() < .3 else []) + [g(), 'w %d' % r.choice([100, 101, 150]), g()]
            elif x < .45:
                out += ['H 1535 0 0 5D%04X' % (10 + k)] + stir() + [g(), 'w 101', g()]
            elif x < .6:
                out += ['H 1535 0 0 75%04X%02X' % (10 + k, r.choice([1, 2, 3, 99, 50])), g()]
            elif x < .75:
                out += ['n %d' % (k + 1), 'A 2'] + stir() + ['n %d' % some(), 'A 2'] + stir() + [g(), 'w 150', g()]
            elif x < .85:
                out += ['n %d' % (k + 1), 'X']
            else:
                out += ['H 1535 0 0 0D'] + stir() + [g(), 'w 150', g()]
        out += turns()
        for _ in range(r.choice([0, 1, 2])):
            out += r.choice([['H 1535 0 0 0D', g(), 'w 200', g(), 'U'], ['n %d' % some(), 'A 2', g(), 'w 100', g(), 'U'], ['n %d' % some(), 'X', g(), 'U'], ['w 6000', g(), 'w 200', g(), 'U']])
    return out


def bus_owner(m):
    b = set(m['bad'])
    o = set()
    if b & {'knocked', 'setup', 'taken', 'crash'}:
        o.add('P30')
    if b & {'adopted', 'conflict', 'distinct', 'crash'}:
        o.add('P31')
    return o


def bus_models(P):
    def m(name, fam, can, n, p, a, **k):
        return dict(name='NodeBus/' + name, module='NodeBus', env=dict(FAM=fam, CAN='1' if can else '0'), consts=dict(N=n, MaxPress=p, MaxAsk=a), **k)
    if P == 'P30':
        pr = dict(inv=['OneSetup', 'OneTaker'], prop=['KnockedOut'])
        return [m('setup-2', 'setup', False, 2, 4, 2, workers=2, **pr), m('setup-3', 'setup', False, 3, 2, 1, workers=4, **pr), m('setup-2-can', 'setup', True, 2, 2, 1, workers=2, **pr),
                m('setup-3-deep', 'setup', False, 3, 3, 1, workers=6, heap='10g', deep=1, **pr), m('setup-4-deep', 'setup', False, 4, 2, 1, workers=6, heap='10g', deep=1, **pr),
                m('edges', 'setup', True, 2, 1, 1, edges=True, view=True, constraint='Small', steps=20000, post=['G 7', 'w 100', 'G 8'])]
    pr = dict(inv=['Resolved'], prop=['Adopts', 'Notices'])
    return [m('canid-2', 'canid', True, 2, 2, 3, workers=2, **pr), m('canid-3', 'canid', True, 3, 0, 3, workers=4, **pr),
            m('canid-3-deep', 'canid', True, 3, 1, 4, workers=6, heap='10g', deep=1, **pr),
            m('edges', 'canid', True, 3, 1, 1, edges=True, view=True, constraint='Small', steps=5000, post=['G 7', 'w 100', 'G 8'])]


BUS = Unit('NodeBus.tla (Node.tla, Bus.tla)', R.build_node, 'BusTrace', bus_models, bus_gen, owner=bus_owner, n=(500, 2000),
           assume=['frames are neither lost nor duplicated, and all nodes see them in the same order', 'replies to an enumeration request are delivered within 100 ms'])
UNITS['P30'] = UNITS['P31'] = BUS


# ------------------------------------------------------------------ P34
EV_SVCS = ['M,C,T,P,E', 'M,C,T,P,E', 'MD,CD,N,ED,PD,TD', 'M,C,E,T', 'E,T,P,C,M', 'M,C,P,T', 'M,C,T,P,E,O', 'P,E,TD,MD,CD,U', 'M,C,ED,TD,L']


def ev_gen(P, r, i, thorough):
    n = r.choice([2, 2, 3, 3, 4])
    out, cfg = [], []
    b2 = lambda x: '%04X' % x
    base = r.choice([10, 10, 250, 0x0101, 0x7F00, r.randrange(1, 60000)])
    nns = r.sample(range(base, base + 8), n) if r.random() < .8 else r.sample([1, 256, 257, 0x0102, 0x0201, 0xFFFE, 0x8000], n)
    # events: of the modules themselves, short ones, and some that differ little from those
    ens = r.sample([1, 2, 3, 255, 256, 257, 0x0100, 0x8000, r.randrange(65536)], 3)
    pairs = [(nn, r.choice(ens)) for nn in nns] + [(0, e) for e in ens[:2]] + [(nns[0] ^ 0x0101, ens[0]), (nns[0], ens[0] ^ 1), (nns[0] ^ 1, ens[0] ^ 1)]
    pairs = [p for p in pairs if p != (65535, 65535)]
    for k in range(n):
        maxev, evs, prod = r.choice([2, 3, 5, 9]), r.choice([1, 1, 2, 3]), r.choice([0, 0, 1, 2])
        sv = r.choice(EV_SVCS)
        cfg.append((maxev, evs, sv.split(',')))
        out.append('C nvs=2 maxev=%d evs=%d prod=%d ch=%d ph=%d crash=0 multi=1 svcs=%s' % (maxev, evs, prod, r.random() < .95, r.random() < .5, sv))
        if r.random() < .12:
            continue                                   # a new module
        out.append('S 0 01%02X%s%02X00' % (k + 1 if r.random() < .85 else r.randrange(0, 4), b2(nns[k]), r.choice([0, 0, 1])))
        have, slots = r.sample(pairs, min(len(pairs), r.randrange(0, maxev + 1))), r.sample(range(maxev), maxev)
        for x, p in zip(slots, have):
            if r.random() < .35:
                p = (r.choice([nns[k], nns[k], 0]), p[1])
            out.append('S %d %s%s%s' % (12 + x * (4 + evs), b2(p[0]), b2(p[1]), ''.join('%02X' % r.choice([0, 1, 1, 2, 2, 3, 255]) for _ in range(evs))))
    out += ['B', 'G 1']
    some = lambda: r.randrange(1, n + 1)
    g = lambda: 'G %d %d' % (r.randrange(1 << 30), r.choice([1, 1, 2, 5]))
    H = lambda h: 'H %d 0 0 %s' % (r.choice([1535, 1535, 1535, 1407, 511, 1408]), h)

    def stir():
        return [r.choice(['V %d', 'V %d', 'D %d', 'D %d', 'D %d 3']) % some() for _ in range(r.choice([0, 0, 1, 2, 4, 8]))]

    def produce():
        k = some()
        nd = r.choice([0, 0, 1, 2, 3])
        return ['n %d' % k, 'A 3 %d %d %d %s' % (r.randrange(2), r.choice([1, 1, 1, 2, 2, 3, 4, 255]), nd, ' '.join(str(r.randrange(256)) for _ in range(nd)))]

    def teach():
        k = r.randrange(n)
        o = [H('53' + b2(nns[k]) if r.random() < .8 else '76%s08' % b2(nns[k]))] + stir()
        for _ in range(r.choice([1, 1, 2, 4])):
            p = r.choice(pairs)
            x = r.random()
            if x < .7:
                o.append(H('D2%s%s%02X%02X' % (b2(p[0]), b2(p[1]), r.choice([1, 1, 1, 2, cfg[k][1]]), r.choice([0, 0, 1, 2, 3, 9, 255]))))
            elif x < .85:
                o.append(H('95%s%s' % (b2(p[0]), b2(p[1]))))
            elif x < .92:
                o.append(H('F5%s%s%02X01%02X' % (b2(p[0]), b2(p[1]), r.randrange(cfg[k][0]), r.choice([0, 1, 2]))))
            elif x < .94:
                o.append(H('55' + b2(nns[k])))
            else:
                o += produce()
            o += stir()
        if r.random() < .8:
            o += [H('54' + b2(nns[k]) if r.random() < .8 else '76%s09' % b2(nns[k]))] + stir()
        return o

    def toolevent():
        p = r.choice(pairs)
        op = r.choice([0x90, 0x91, 0xB0, 0xD1, 0xF0, 0x98, 0x99, 0xB8, 0xF9, 0x93, 0x94, 0x92, 0x9A, 0xB3, 0x9D])
        nn = r.choice(nns + [0, 77]) if op in (0x98, 0x99, 0xB8, 0xF9, 0x9A, 0x9D) else p[0]
        return [H('%02X%s%s%s' % (op, b2(nn), b2(p[1]), ''.join('%02X' % r.randrange(256) for _ in range((op >> 5) - 4 if op >= 0xA0 else 0))))]
    for _ in range(r.choice([6, 15, 30, 40])):
        x = r.random()
        k = r.randrange(n)
        if x < .45:
            out += produce() + stir()
        elif x < .62:
            out += teach()
        elif x < .72:
            out += toolevent() + stir()
        elif x < .8:
            out += [H(r.choice(['0D', '58', '56', '57', '9C%02X00' % r.randrange(4), '7302', '7800', '870100', 'B2', '71%02X' % r.randrange(3), '960105', '760C', '760D', '5D']))]
            h = out[-1].split()[-1]
            if h not in ('0D', 'B2'):
                out[-1] = out[-1][:-len(h)] + h[:2] + b2(nns[k]) + h[2:]
            elif h == 'B2':
                p = r.choice(pairs)
                out[-1] += b2(p[0]) + b2(p[1]) + '00'
            out += stir()
        elif x < .85:
            out.append('w %d' % r.choice([1, 50, 100, 101, 6000]))
        elif x < .88:
            out += ['n %d' % (k + 1), r.choice(['A 2', 'A 1', 'A 1', 'A 0', 'X', 'A 4 1 %d 0' % r.randrange(9)])] + stir()
            if out[-1] == 'A 0' or r.random() < .3:
                out += [g(), 'w 100', H('42' + b2(nns[k])), g()]
        else:
            out.append(g())
    return out + [g(), 'w 200', g()]


def ev_models(P):
    def m(name, n, made, taught, q, **k):
        return dict(name='EventBus/' + name, module='EventBus', consts=dict(N=n, MaxMade=made, MaxTaught=taught, MaxQueue=q), **k)
    pr = dict(inv=['OnceInOrder', 'Reaches', 'NotItself', 'OneLearner'], prop=['OnlyLearners'])
    return [m('2-2-1', 2, 2, 1, 99, workers=3, **pr), m('3-1-1', 3, 1, 1, 3, workers=4, constraint='Small', **pr), m('2-1-2', 2, 1, 2, 3, workers=3, constraint='Small', **pr),
            m('2-1-2-deep', 2, 1, 2, 99, workers=6, heap='10g', deep=1, **pr), m('2-2-2-deep', 2, 2, 2, 99, workers=6, heap='10g', deep=1, **pr), m('3-1-2-deep', 3, 1, 2, 99, workers=6, heap='10g', deep=1, **pr),
            m('2-2-3-deep', 2, 2, 3, 99, workers=6, heap='10g', deep=1, **pr), m('3-2-2-deep', 3, 2, 2, 99, workers=6, heap='10g', deep=1, **pr),
            m('edges', 2, 1, 1, 2, edges=True, view=True, constraint='Small', steps=20000, post=['G 7'])]


UNITS['P34'] = Unit('EventBus.tla (Node.tla)', R.build_node, 'EventTrace', ev_models, ev_gen, owner=lambda m: {'P34'}, n=(500, 3000), cfg='EventTrace.cfg',
                    assume=['frames are neither lost nor duplicated, and all nodes see them in the same order'])


# ------------------------------------------------------------------ P35
def parts_gen(P, r, i, thorough):
    out = ['M %d' % r.choice([0, 1, 499, 500, 1000, 70000, 123456789])]
    kinds = {}
    for o in range(r.randrange(1, 5)):
        kinds[o] = r.choice('sl')
    order = list(kinds)
    r.shuffle(order)
    for o in order:
        if kinds[o] == 's':
            if r.random() < .2:
                out.append('h %d' % o)
            out.append('N %d s %d' % (o, r.choice([0, 0, 1])))
        else:
            out.append('N %d l' % o)
    every = r.random() < .6          # the application runs everything each time round
    steps = r.choice([[1, 2, 4, 5, 6], [1, 5, 100, 250, 499, 500, 501], [250, 500, 999, 1000, 4000, 4001], [3, 50, 497, 502, 65536, 100000]])
    for k in range(r.choice([20, 60, 150])):
        o = r.choice(order)
        x = r.random()
        if x < .35:
            out.append('p %d' % r.choice(steps))
        elif x < .6 and not every or x < .45:
            out.append('r %d' % o)
        elif kinds[o] == 's':
            out.append('%s %d' % (r.choices(['h', 'f', 'R', 'd'], [6, 6, .5, .7])[0], o))
        else:
            out.append('%s %d' % (r.choices(['1', '0', 't', 'b', 'u'], [1, 1.3, 1, 2, 2])[0], o))
        if every and r.random() < .9:
            out += ['r %d' % q for q in order]
    return out


def parts_models(P):
    S, B, U = '{"r", "R", "d", "h", "f"}', '{"r", "1", "0", "t", "b"}', '{"r", "1", "0", "t", "u"}'
    ms = []
    for ps in (0, 1):
        ms.append(dict(name='PartsMC/edges-s%d' % ps, module='PartsMC', consts=dict(Kind='"s"', Ps=ps, Ops=S, Steps='{1, 3}', AgeCap=5, MaxTime=0, MaxOps=0), edges=True, view=True))
    ms.append(dict(name='PartsMC/edges-blink', module='PartsMC', consts=dict(Kind='"l"', Ps=0, Ops=B, Steps='{100, 250, 499}', AgeCap=500, MaxTime=0, MaxOps=0), edges=True, view=True))
    ms.append(dict(name='PartsMC/edges-pulse', module='PartsMC', consts=dict(Kind='"l"', Ps=0, Ops=U, Steps='{1, 4}', AgeCap=500, MaxTime=0, MaxOps=0), edges=True, view=True))
    for deep in (0, 1):
        x = '-deep' if deep else ''
        ms.append(dict(name='PartsMC/button' + x, module='PartsMC', consts=dict(Kind='"s"', Ps=0, Ops=S, Steps='{1, 3}', AgeCap=0, MaxTime=10 if not deep else 14, MaxOps=10 if not deep else 13), deep=deep,
                       inv=['EveryChangeOnce', 'Alternate', 'Ages'], prop=['Lasted'], constraint='Bound', workers=2))
        ms.append(dict(name='PartsMC/lamp' + x, module='PartsMC', consts=dict(Kind='"l"', Ps=0, Ops='{"r", "1", "0", "t", "b", "u"}', Steps='{4, 5, 496, 500}', AgeCap=0, MaxTime=1600, MaxOps=8 if not deep else 10), deep=deep,
                       inv=['Regular', 'Lit', 'Bright'], prop=['Steady', 'Driven'], constraint='Bound', workers=2))
    return ms


UNITS['P35'] = Unit('Parts.tla, PartsMC', lambda w: R.build(w, 'parts', ['Switch', 'LED'], ['parts.cpp', 'arduino_env.cpp']), 'PartsTrace', parts_models, parts_gen, n=(600, 3000), steps=6000,
                    assume=['time is a simulated millisecond clock', 'a free button leaves its pin at the level the pull-up (or the board, for buttons that connect to the supply) gives it'])
