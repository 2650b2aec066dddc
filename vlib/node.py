"""Checks of the module properties: Node.tla (model checked as NodeMC, bound to the code by NodeTrace)."""
import concurrent.futures as cf
import json, os, random, re, time
from . import run as R, tour
from .gen import G, FULL, EVENT_OPS, b2

LIFE = dict(change=3, reneg=3, snn=4, snnshort=.4, rqnn=1.5, modecmd=3, modeset=2)
NVS = dict(nvrd=4, nvset=5, nvsetrd=4, nvshort=1)
TEACH = dict(evlrn=6, evlrnfresh=5, evlrni=4, evuln=3, learnown=2, unlearnown=.5, learnother=.4, nnclr=.4)
QUERY = dict(nerd=1, nenrd=2, rqevn=1, nnevn=1, reval=3, reqev=3, teachshort=.7, queryshort=.7)
CONSUME = dict(event=8, shortevent=3)
PRODUCE = dict(send=6, respond=3, areq=4, asrq=4)
DISC = dict(rqsd=2, rqnpn=3, rqnp=1, rqmn=1, qnn=1, discshort=.5)
DIAG = dict(rdgn=4, rdgnbad=1, rdgnall=.4, discshort=.5, transport=1)
CAN = dict(rtr=1, extframe=1, empty=1, canidcmd=2, canidshort=.5, enum=1, clash=1.5)
WAITS = dict(w105=2, wshort=1)
JUNK = dict(junk=3, truncated=3, unknown=1)


def mix(*ds, **kw):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    o.update(kw)
    return o


def part(d, f):
    return {k: v * f for k, v in d.items()}


# property -> (families of the exhaustive check quick, more in thorough, weights, options)
PROFILE = {
    'P01': dict(fam=['life'], more=['def', 'enum'], w=mix(LIFE, WAITS, part(CAN, .3), rqnp=.5, power=.5, restart=.5, learnown=.5, send=.5, rqnpn=1), virgin=.6),
    'P02': dict(fam=['life', 'hb'], more=['def', 'prod', 'teach'], w=mix(LIFE, NVS, TEACH, CAN, WAITS, CONSUME, part(QUERY, .4), part(PRODUCE, .5), rqnpn=1, hbcmd=2, ack=2, whb=1, power=7, restart=3, reset=.2), virgin=.4),
    'P03': dict(fam=['life', 'disc'], more=['nv', 'teach', 'hb'], w=mix(part(LIFE, .3), part(TEACH, .5), part(NVS, .2), WAITS, hbcmd=.5, foreign=20, unlearnother=1, learnother=1, rqnpn=.5, nerd=.5), virgin=.2),
    'P04': dict(fam=['nv'], more=[], w=mix(NVS, part(LIFE, .08), power=.4, foreign=.6, nvrd=6), virgin=.2, nvs=[0, 1, 2, 4, 9, 20, 28, 40, 255], maxev=[1, 2, 5]),
    'P05': dict(fam=['teach'], more=['teach2', 'teach3', 'prod'], w=mix(TEACH, part(QUERY, 2), part(CONSUME, .3), part(PRODUCE, .2), power=.6, nvset=.2), maxev=[1, 2, 3, 5, 9, 20, 28, 40, 100]),
    'P06': dict(fam=['life', 'teach'], more=['teach2', 'def'], w=mix(part(TEACH, .7), part(QUERY, .7), part(LIFE, .2), learnown=3, learnother=4, unlearnown=3, unlearnother=2, modecmd=1, rqnpn=1, power=.5, restart=.3, nnclr=2, foreign=1), nolearn=1),
    'P07': dict(fam=['teach2'], more=['teach', 'teach3'], w=mix(TEACH, reval=8, reqev=8, nerd=.3, power=.6, nvset=.3, evuln=4, nnclr=.8, send=.3), evs=[1, 2, 3, 8, 20], maxev=[1, 2, 3, 5, 9]),
    'P08': dict(fam=['teach'], more=['teach2', 'own'], w=mix(part(TEACH, .7), CONSUME, part(CONSUME, .7), learnown=1, areq=.5, power=.6, evuln=1.5, evlrni=2, nnclr=.2, unknown=.5), maxev=[1, 2, 3, 5, 9, 20, 40], ch=[1, 1, 1, 0]),
    'P09': dict(fam=['prod'], more=['prod3', 'own'], w=mix(PRODUCE, part(TEACH, .8), send=10, nerd=1, power=.5, reneg=.3, snn=.5, change=.1, learnown=1), maxev=[1, 2, 3, 5, 9], prod=[0, 1, 2, 3]),
    'P10': dict(fam=['prod'], more=['prod3'], w=mix(part(PRODUCE, .6), TEACH, areq=8, asrq=9, respond=8, power=.5, event=1, unknown=.3), ph=[1, 1, 1, 0], maxev=[1, 2, 3, 5, 9], prod=[0, 1, 3]),
    'P11': dict(fam=['def'], more=['prod'], w=mix(part(LIFE, 1.5), part(TEACH, .8), part(QUERY, .4), WAITS, send=1, power=1.5, restart=.5, reset=1, event=.5), virgin=.8, maxev=[1, 2, 3, 5, 9], prod=[0, 1, 2, 3, 5], steps=45),
    'P12': dict(fam=['own', 'prod'], more=['prod3'], w=mix(PRODUCE, part(TEACH, .8), part(CONSUME, .5), send=9, power=.3, rdgn=1, nerd=.3, hbon=.2), own=.75, maxev=[1, 2, 3, 5], prod=[0, 1, 2, 3]),
    'P13': dict(fam=['enum'], more=['life'], w=mix(part(LIFE, .7), part(CAN, .6), w105=6, wshort=4, enum=3, enumact=3, clash=2, answers=8, empty=3, power=.4, canidcmd=.5, rqnpn=.3, qnn=.5), virgin=.5, steps=50),
    'P14': dict(fam=['enum'], more=['life'], w=mix(part(LIFE, .3), CAN, part(NVS, .3), part(CONSUME, .4), WAITS, rtr=4, extframe=5, canidcmd=5, empty=3, clash=4, send=.7, qnn=1, learnown=.5), virgin=.3),
    'P20': dict(fam=['hb'], more=['life'], w=mix(part(LIFE, .5), ack=.5, hbcmd=3, hbon=2, whb=14, wlong=2, power=1, restart=.5, w105=.5, foreign=.5, rqnpn=.2, qnn=.3), virgin=.3),
    'P21': dict(params=.7, fam=['disc', 'life'], more=['def', 'own'], w=mix(part(LIFE, .5), DISC, rqnpn=5, learnown=1, unlearnown=1, learnother=.5, power=.3, nvset=.3, foreign=.5), virgin=.4, own=.3),
    'P22': dict(fam=['disc'], more=['life'], w=mix(part(LIFE, .3), part(TEACH, .5), part(CONSUME, .6), part(PRODUCE, .3), DIAG, part(JUNK, .1), rdgn=7, wlong=1, power=.3, restart=.2, rqsd=.5), own=.2),
    'P23': dict(fam=['life', 'nv'], more=['def', 'prod'], w=mix(part(LIFE, .5), part(TEACH, .6), part(NVS, .6), part(QUERY, .3), part(CONSUME, .3), WAITS, ack=.5, hbcmd=1, reset=2, restart=2, foreign=1, power=.5, canidcmd=.5, rqnpn=.5, truncated=.5), virgin=.5, nvs=[0, 1, 4, 9, 20, 127, 128, 129, 255]),
    'P24': dict(fam=['nv', 'teach', 'life'], more=['teach2', 'prod', 'def'], w=mix(part(LIFE, .6), part(TEACH, 1.2), NVS, part(CAN, .5), part(PRODUCE, .3), part(QUERY, .5), WAITS, ack=.5, hbcmd=1, reset=.15, restart=.3, power=1, event=1), virgin=.3, crash=1, cut=.12, maxev=[1, 2, 3, 5, 9], nvs=[0, 1, 4, 9, 20, 130]),
    'P32': dict(fam=['life'], more=['teach', 'nv', 'enum', 'disc'], w=mix(JUNK, part(JUNK, 2), part(LIFE, .2), part(TEACH, .2), part(QUERY, .2), part(NVS, .2), part(CAN, .4), part(CONSUME, .2), part(DISC, .1), part(DIAG, .1), WAITS, foreign=.4, send=.2), virgin=.4, own=.2, long=.4),
    'P26': dict(fam=['life'], more=['def', 'enum'], prop='P01', w=mix(LIFE, WAITS, part(CAN, .3), power=1, restart=.5, send=1, rqnpn=.5, nvrd=.5, hbon=.3, w105=1), virgin=.5),
    'P16': dict(prop='P04', fam=['nv'], more=['own', 'prod'], w=mix(part(NVS, .5), part(TEACH, .5), part(QUERY, .5), part(CONSUME, .5), part(PRODUCE, .6), power=.2), burst=.5, own=.3),
}

SERVED = {0x10, 0x11, 0x0D, 0x42, 0x4F, 0x50, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x5D, 0x5E, 0x71, 0x72, 0x73, 0x75, 0x76, 0x78, 0x87, 0x8E, 0x96, 0x92, 0x9A, 0x95, 0x9C, 0xB2, 0xD2, 0xF5}
ADDR = {0x4F, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x5D, 0x5E, 0x71, 0x72, 0x73, 0x75, 0x76, 0x78, 0x87, 0x8E, 0x96, 0x9C}
NEED = {0x71: 4, 0x72: 4, 0x73: 4, 0x75: 4, 0x76: 4, 0x78: 4, 0x87: 5, 0x8E: 5, 0x95: 5, 0x96: 5, 0x9C: 5, 0xB2: 6, 0xD2: 7, 0xF5: 8, 0x10: 1, 0x11: 1, 0x0D: 1, 0x50: 1}
RESERVED_EV = {'P05', 'P07'}


def families(rec, m):
    """the properties that a disagreement between record and specification concerns"""
    o = families1(rec, m)
    return o | {'P26'} if set(m['bad']) & {'ac', 'md'} else o


def families1(rec, m):
    bad = set(m['bad'])
    k = rec['k']
    out = set()
    if 'crash' in bad:
        return {'P32', 'ALL'}
    if 'unjudged' in bad:
        return {'ALL'}
    if 'virgin' in bad:
        return {'P23'}
    if 'cp' in bad:
        out.add('P24')
    if rec.get('cut'):
        return {'P24'} if 'cp' in bad else {'P24', 'P02'}
    if k == 'Q' or k in ('pf', 'pa', 'pp'):
        out.add('P16')
        if 'cb' in bad:
            out |= {'P12'}
        return out
    if k in ('X', 'B'):
        out.add('P02')
        if 'fl' in bad:
            out |= {'P21', 'P06'}
        if 'ev' in bad:
            out.add('P11')
        if 'hb' in bad:
            out.add('P20')
        if 'md' in bad:
            out.add('P01')
        return out
    stim = set()
    if k == 'F':
        f, d = rec['f'], rec['f']['d']
        if f['x'] or f['r'] or not d:
            stim = {'P14', 'P13'} if not f['x'] and not f['r'] else {'P14'}
        else:
            op = d[0]
            p = (d + [0] * 8)[:8]
            own = p[1] * 256 + p[2] == m['own']
            if op in ADDR and not own:
                stim.add('P03')
                if op == 0x53 or (op == 0x76 and p[3] in (8, 9)):
                    stim.add('P06')
                if op in (0x4F, 0x5E):
                    stim.add('P23')
            elif op == 0x76:
                if p[3] in (8, 9):
                    stim |= {'P06'}
                    if 'tx' in bad or 'md' in bad:
                        stim.add('P01')
                elif p[3] in (12, 13):
                    stim |= {'P20'}
                    if 'tx' in bad or 'md' in bad:
                        stim.add('P01')
                else:
                    stim |= {'P01'}
            elif op in (0x42, 0x50):
                stim |= {'P01'}
                if op == 0x42 and 'ev' in bad:
                    stim.add('P11')
            elif op in (0x4F, 0x5E):
                stim |= {'P23'}
                if op == 0x5E and bad & {'lv', 'dk', 'nv', 'ev', 'fl', 'md', 'hb', 'rm', 'im'}:
                    stim.add('P02')
            elif op == 0x75:
                stim |= {'P14'}
            elif op == 0x5D:
                stim |= {'P13'}
            elif op in (0x71, 0x8E, 0x96):
                stim |= {'P04'}
            elif op in (0xD2, 0xF5, 0x95, 0x55):
                stim |= {'P05'}
                if op in (0xD2, 0xF5) or 'ev' in bad or 'cp' in bad:
                    stim.add('P07')
                if not m['learn']:
                    stim = {'P06'}
            elif op in (0xB2, 0x9C):
                stim |= {'P07', 'P05'}
                if op == 0xB2 and not m['learn']:
                    stim = {'P06'}
            elif op in (0x53, 0x54):
                stim |= {'P06'}
            elif op in (0x56, 0x57, 0x58, 0x72):
                stim |= {'P05'}
            elif op in EVENT_OPS:
                stim |= {'P08'}
            elif op in (0x92, 0x9A):
                stim |= {'P10'}
            elif op in (0x10, 0x11, 0x0D, 0x73, 0x78):
                stim |= {'P21'}
            elif op == 0x87:
                stim |= {'P22'}
            else:
                stim |= {'P32'}
                if 'cb' in bad:
                    stim |= {'P08', 'P10'}
            if len(d) < NEED.get(op, 3) and op in SERVED | set(EVENT_OPS):
                stim.add('P32')
            if f['id'] % 128 == rec_canid(rec, m) and ('dx' in bad or 'dxh' in bad):
                stim |= {'P14', 'P13', 'P31'}
    elif k == 'A':
        a = rec['a'][0]
        stim = {0: {'P01'}, 1: {'P01'}, 2: {'P13'}, 3: {'P09'}, 4: {'P10'}, 5: {'P02'}, 9: set()}[a]
        if 'cb' in bad:
            stim = {'P12'} | (stim if bad - {'cb'} else set())
        elif m.get('ownsvc'):
            stim = stim | {'P12'}
        if a == 3 and m.get('un'):
            stim = stim | {'P11'}
    elif k == 'W':
        if bad & {'tx', 'dx', 'dxh', 'lv', 'dk', 'hdr'}:
            stim |= {'P13'}
        if 'ev' in bad:
            stim.add('P11')
        if 'md' in bad:
            stim.add('P01')
        if 'cb' in bad:
            stim |= {'P08', 'P12'}
        if 'hb' in bad:
            stim.add('P20')
    # what differs, whatever the stimulus
    more = set()
    if 'hb' in bad:
        more.add('P20')
    if bad & {'hdr', 'dxh'}:
        more.add('P14')
    if bad & {'dx'}:
        more |= {'P13', 'P14'}
    if 'fl' in bad:
        x = rec['fl'] ^ m['want']['fl']
        more.add('P21')
        if 'P03' in stim:
            more.add('P03')
        if x & 4:
            more.add('P01')
        if x & 32:
            more.add('P06')
    if bad & {'lv', 'dk'}:
        g, w = rec['dk'], m['want']['dk']
        gl, wl = rec['lv'], m['want']['lv']
        if g[1] != w[1] or gl[1] != wl[1]:
            more |= {'P13', 'P14'} if k in ('W', 'F') else {'P13'}
        if g[0] != w[0] or g[2] != w[2] or gl[0] != wl[0] or gl[2] != wl[2]:
            more |= {'P01'}
        if (g[3] ^ w[3] | gl[3] ^ wl[3]) & 1:
            more |= {'P20'}
        if (g[3] ^ w[3] | gl[3] ^ wl[3]) & 2:
            more |= {'P02'}
        if g[:4] != gl:
            more |= {'P02'}
        if g[4] != w[4]:
            more |= {'P23'}
    if 'nv' in bad and k != 'X':
        more.add('P04')
    if 'ev' in bad and k != 'X':
        more.add('P05')
        if not (stim & {'P05', 'P07', 'P09', 'P11'}):
            more.add('P06')
        if m.get('un') and 'P03' not in stim:
            more.add('P11')
        # an event of the module's own appears that nobody taught
        d = rec['f']['d'] if k == 'F' else []
        pair = [d[1] * 256 + d[2], d[3] * 256 + d[4]] if len(d) > 4 and d[0] in (0xD2, 0xF5) else None
        if k in ('F', 'W', 'A') and stim & {'P05', 'P06'} and any(len(e) > 3 and e[1] == m['own'] and 1 <= e[3] <= 10 and e[1:3] != pair for e in rec['ev']):
            more.add('P11')
    if 'rb' in bad:
        more.add('P23')
    if 'md' in bad:
        more.add('P01')
    if bad & {'rm', 'sw'}:
        more |= {'P32', 'P02', 'P05'}
    if 'cb' in bad and not stim & {'P08', 'P10', 'P12', 'P03'}:
        more |= {'P08'}
    only = bad - {'hb', 'ac', 'cp', 'fl', 'hdr'}
    return out | more | (stim if only or not (more or 'ac' in bad) else set())


def rec_canid(rec, m):
    return m['want']['lv'][1] if isinstance(m.get('want'), dict) else -1


def config(r, o, tid, seed):
    sv = list(FULL)
    if r.random() < o.get('own', .08):
        sv.append('O')
    if r.random() < o.get('long', .05):
        sv.append('L')
    if r.random() < .1:
        for x in r.sample(['N', 'ED', 'PD', 'TD'], r.choice([1, 1, 2, 3])):
            sv.remove(x)
    if r.random() < .35:
        r.shuffle(sv)
    if r.random() < .3:
        sv = [x[0] if x in ('MD', 'CD', 'ED', 'PD', 'TD') and r.random() < .6 else x for x in sv]
    for _ in range(40):
        evs = r.choice(o.get('evs', [1, 2, 3, 8]))
        maxev = r.choice(o.get('maxev', [1, 2, 5, 9, 20]))
        nvs = r.choice(o.get('nvs', [0, 1, 4, 9, 20]))
        if nvs + maxev * (4 + evs) <= 3900:
            break
    kw = dict(nvs=nvs, maxev=maxev, evs=evs, prod=r.choice(o.get('prod', [0, 1, 2, 3])), svcs=sv, crash=o.get('crash', 0))
    if r.random() < .3:
        kw['nvstart'] = r.choice([10, 12, 20])
    if r.random() < .3:
        kw['evstart'] = kw.get('nvstart', 10) + nvs + r.choice([0, 1, 7])
    kw['ch'] = r.choice(o.get('ch', [1]))
    kw['ph'] = r.choice(o.get('ph', [1]))
    full = o.get('params', .3)
    if r.random() < full:
        kw.update(maj=r.randrange(256), min=r.randrange(256), beta=r.choice([0, 1, 255]), manu=r.choice([0, 13, 165, 255]), mtyp=r.choice([0, 8, 255]))
        kw['name'] = ''.join(r.choice('ABCXYZ019_') for _ in range(7))
        if r.random() < max(.5, full):
            kw.update(cpu='%d,%d' % (r.choice([1, 2, 255]), r.choice([0, 50, 255])), cpuname=''.join(r.choice('PQRS78') for _ in range(4)))
    g = G(seed, tid, **kw)
    g.config()
    return g


def random_table(g, r):
    c = g.cfg
    g.makepairs()
    n = r.choice([0, 0, 1, 2, c['maxev'] // 2, c['maxev'], c['maxev'] - 1])
    idx = r.sample(range(c['maxev']), max(0, min(n, c['maxev'])))
    t = {}
    ps = g.pairs[:]
    r.shuffle(ps)
    for i in idx:
        if ps and r.random() < .85:
            p = ps.pop()
        elif r.random() < .15:
            p = r.choice(g.pairs)
        else:
            p = (r.randrange(65536), r.randrange(65535))
        t[i] = [p[0], p[1]] + [r.choice([0, 1, 2, 3, 255, r.randrange(256)]) for _ in range(c['evs'])]
    return t


def walk(P, seed, tid, thorough=False):
    o = PROFILE[P]
    r = random.Random('%s/%s' % (P, seed))
    g = config(r, o, tid, seed)
    g.r = r
    g.cuts = bool(o.get('cut'))
    x = r.random()
    if x < o.get('virgin', .25):
        g.boot_virgin()
        if r.random() < .6:
            g.to_normal(g.newnn())
    else:
        g.nn = g.newnn()
        g.boot_normal(g.nn, canid=r.choice([1, 5, 99, 127, r.randrange(1, 128)]), hb=r.choice([0, 0, 1, 1, 2, 3]), reset=r.choice([0, 0, 1]),
                      nvs=[r.randrange(256) for _ in range(g.cfg['nvs'])] if r.random() < .5 else None,
                      events=random_table(g, r) if r.random() < .6 else None)
    w = dict(o['w'])
    # every walk concentrates on some of its operations
    for n in list(w):
        if r.random() < .25:
            w[n] *= r.choice([0, .2, 4])
    if not any(w.values()):
        w = dict(o['w'])
    steps = r.choice([o.get('steps', 60)] * 4 + [25, 140 if not thorough else 300])
    names, ws = list(w), list(w.values())
    for _ in range(steps):
        if r.random() < o.get('cut', 0):
            g.L.append('K %d' % r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20]))
        if o.get('burst') and r.random() < o['burst']:
            burst(g, r)
            continue
        n = r.choices(names, ws)[0]
        if n in ('evlrn', 'evlrnfresh', 'evlrni', 'evuln', 'reqev', 'nnclr') and not o.get('nolearn'):
            g.ensure_learn()
        g.op(n)
    if o.get('cut'):
        # whatever was interrupted: it can be asked for again
        for n in ('learnown', 'nerd', 'rqevn', 'nvrd'):
            g.op(n)
    return g.L


def burst(g, r):
    """several messages and actions at once, before the node runs"""
    datas, acts = [], []
    save = g.L
    budget = r.choice([4, 8, 14, 22, 27])
    n = 0
    producer = any(s in ('P', 'PD') for s in g.cfg['svcs'])
    own = 'O' in g.cfg['svcs']
    if producer and r.random() < .6:
        for _ in range(r.randrange(1, 4)):
            g.L = []
            g.op_send()
            acts.append([int(x) for x in g.L[0].split()[1:]])
            n += 3
    while n < budget:
        g.L = []
        k = r.choices(['nvrd1', 'nvset', 'nvsetrd', 'event', 'shortevent', 'evlrnfresh', 'evuln', 'reval1', 'rqevn', 'nnevn', 'nenrd', 'areq', 'qnn', 'learnown', 'unlearnown', 'learnother', 'foreign', 'unknown'],
                      [4, 4, 3, 6, 2, 4, 2, 3, 1, 1, 2, 2, 1, 2, .6, .4, 1, 1])[0]
        if k == 'nvrd1':
            g.F([0x71] + g.own() + [r.randrange(1, 1 + max(1, g.cfg['nvs']))])
        elif k == 'reval1':
            g.F([0x9C] + g.own() + [r.randrange(g.cfg['maxev']), r.randrange(1, g.cfg['evs'] + 1)])
        else:
            g.op(k)
        line = g.L[0].split()
        d = [] if line[4] == '-' else [int(line[4][i:i + 2], 16) for i in range(0, len(line[4]), 2)]
        datas.append(d)
        n += 5                     # activity + message + up to two replies and their activity
        if len(datas) >= 14:
            break
    g.L = save
    if r.random() < .5:
        g.burst(datas, acts)
    else:
        # the same through the main loop: arrivals interleaved with single runs of process()
        for a in acts:
            g.mirror_a(a)
        items = ['A ' + ' '.join(map(str, a)) for a in acts] + [g.item(d) for d in datas]
        g.L.append('Q ' + ';'.join(items))
    g.W(1)


def proc_walk(seed, tid):
    """stimuli arriving between single runs of the main loop (judged by QueueTrace)"""
    r = random.Random('proc/%s' % seed)
    o = dict(PROFILE['P16'], maxev=[3, 5, 9], nvs=[4, 9], evs=[1, 2], own=0)
    g = config(r, o, tid, seed)
    g.r = r
    g.nn = g.newnn()
    c = g.cfg
    c['prod'] = 0
    tab = {}
    for i in range(c['maxev']):
        if i < 3 or r.random() < .6:
            tab[i] = [r.choice([0, g.nn, r.randrange(65535)]), 1 + i * r.choice([1, 256]), i + 1] + [r.randrange(256) for _ in range(c['evs'] - 1)]
    g.boot_normal(g.nn, canid=5, nvs=[r.randrange(256) for _ in range(c['nvs'])], events=tab)
    rows = list(tab.values())
    kind = r.choice(['strict', 'strict', 'lossy', 'mixed', 'mixed', 'users'])
    mode = kind
    producer = any(s in ('P', 'PD') for s in c['svcs'])

    def user():
        n = r.randrange(4)
        g.L.append('a 3 %d %d %d %s' % (r.randrange(2), r.choice(rows)[2], n, ' '.join(str(r.randrange(256)) for _ in range(n))))

    def frame():
        k = r.randrange(9)
        e = r.choice(rows)
        d = [[0x71] + b2(g.nn) + [r.randrange(1, c['nvs'] + 1)], [0x71] + b2(g.nn) + [r.randrange(1, c['nvs'] + 1)],
             [r.choice([0x90, 0x91])] + b2(e[0]) + b2(e[1]), [0xB0] + b2(e[0]) + b2(e[1]) + [r.randrange(256)], [0x99, 1, 2] + b2(e[1]),
             [0x9C] + b2(g.nn) + [r.choice(list(tab)), 1], [0x58] + b2(g.nn), [0x92] + b2(e[0]) + b2(e[1]), [0x72] + b2(g.nn) + [r.choice(list(tab))]][k]
        if mode == 'strict' and 'C' in c['svcs'] and r.random() < .12:
            d = [0x75] + b2(g.nn) + [r.choice([0, 1, 9, 99, 100, 127])]
        elif mode == 'strict' and r.random() < .35:
            d = [r.choice([0x96, 0x8E])] + b2(g.nn) + [r.randrange(1, c['nvs'] + 1), r.randrange(256)]
        g.L.append('f 1418 0 0 ' + ''.join('%02X' % x for x in d))
    for _ in range(r.randrange(6, 14)):
        if kind == 'mixed':
            mode = r.choice(['strict', 'lossy', 'lossy'])
        if mode == 'users' and producer:
            for _ in range(r.choice([1, 29, 30, 31, 32, 45, 61, r.randrange(1, 70)])):
                user()
            g.L.append('p 400')
            continue
        load = 0
        room = 30 if mode == 'strict' else r.choice([40, 80, 150] + ([600, 900] if kind == 'mixed' and r.random() < .2 else []))
        while True:
            if producer and r.random() < .35:
                load += 2
                if load > room:
                    break
                user()
            else:
                load += 4
                if load > room:
                    break
                frame()
            if r.random() < .4:
                g.L.append('p %d' % r.choice([1, 1, 2, 3, 5]))
        g.L.append('p %d' % (400 if room < 400 else 2000))
    return g.L


# ---------------------------------------------------------------- special sequences
def specials(P, seed, n):
    """a few hand-shaped executions the random walks would rarely produce"""
    out = []
    r = random.Random('special %s %s' % (P, seed))
    for i in range(n):
        tid = '%s-s%d' % (P, i)
        if P == 'P20':
            # sequence number wraps; millis() wraps
            g = config(r, PROFILE[P], tid, i)
            g.r = r
            big = i % 2 == 1
            if big:
                g.L[-1] += ' base=%d' % r.choice([4294967295 - 12000, 4294967295 - 3000, 4294967295 - 26000])
            g.boot_normal(g.newnn(), hb=1)
            for _ in range(12 if big else 270):
                g.W(r.choice([5001, 5001, 2600, 7000, 4990] if big else [5001, 5002, 6000]))
            out.append(g.L)
        elif P == 'P13':
            g = config(r, PROFILE[P], tid, i)
            g.r = r
            if i % 3 == 1:
                g.L[-1] += ' base=%d' % (4294967295 - r.choice([20, 50, 99, 150]))
            g.boot_normal(g.newnn(), canid=r.choice([1, 7, 8, 127]))
            for _ in range(8):
                g.L.append(r.choice(['A 2', 'F 1418 0 0 5D%04X' % g.nn, 'F %d 0 0 90000100FF' % (1408 + r.randrange(1, 128))]))
                g.op_answers()
                g.W(r.choice([60, 99]))
                if r.random() < .5:
                    g.op_answers()
                g.W(r.choice([60, 105]))
                g.op_qnn()
            out.append(g.L)
        elif P == 'P22':
            # counts beyond one byte, uptimes beyond one word
            o = dict(PROFILE[P], maxev=[3, 5], evs=[1, 2], prod=[3], own=0)
            g = config(r, o, tid, i)
            g.r = r
            if i % 2:
                g.L[-1] += ' base=%d' % r.choice([65536000 - 3000, 66000000, 131072000 - 10, 655360000, 2000000000, r.randrange(2000000000)])
            g.nn = g.newnn()
            nn = g.nn
            svs = [k + 1 for k, x in enumerate(g.cfg['svcs']) if x in ('MD', 'CD', 'ED', 'PD', 'TD')]
            g.boot_normal(nn, canid=5, events={0: [300, 7] + [9] * g.cfg['evs'], 1: [nn, 11, 1] + [0] * (g.cfg['evs'] - 1)})
            producer = any(s in ('P', 'PD') for s in g.cfg['svcs'])
            kinds = [[0x90, 1, 44, 0, 7], [0x91, 1, 44, 0, 7]]
            what = ['c', 'c', 'p', 't'][i % 4] if producer else ['c', 't'][i % 2]
            if what == 't':
                g.op_learnown()
            total = r.choice([256, 260, 300, 515]) if what != 't' else r.choice([258, 300])
            done = 0
            while done < total:
                k = min(12, total - done)
                done += k
                if what == 'c':
                    g.burst([r.choice(kinds) for _ in range(k)])
                elif what == 't':
                    g.burst([[0xD2] + b2(300) + b2(7) + [1, r.randrange(256)] for _ in range(k)])
                else:
                    g.burst([], [[3, r.randrange(2), 1, 0] for _ in range(k)])
                if done > 250 and r.random() < .3 or done >= total or r.random() < .03:
                    for sv in svs:
                        g.F([0x87] + b2(nn) + [sv, r.choice([0, 1])])
            out.append(g.L)
        elif P in ('P05', 'P08', 'P07', 'P10') and i % 3 == 2:
            # a large table in which many events share one internal hash
            n = r.choice([24, 40, 60, 100, 254, 255])
            o = dict(PROFILE[P], maxev=[n], evs=[1, 2], ch=[1], ph=[1], own=0)
            g = config(r, o, tid, i)
            g.r = r
            g.nn = g.newnn()
            nn, en = r.choice([(g.nn, 1), (0, r.randrange(1, 65536)), (r.randrange(65536), r.randrange(65536))])
            same = [(nn ^ (x * 257), en ^ (y * 257)) for x in range(256) for y in (0, 0, 1, 128)]
            same = [p for p in dict.fromkeys(same) if p != (0xFFFF, 0xFFFF)]
            r.shuffle(same)
            rows = {}
            for k in range(n):
                if r.random() < .95:
                    rows[k] = list(same[k]) + [r.choice([0, r.randrange(256)]) for _ in range(g.cfg['evs'])]
            g.boot_normal(g.nn, canid=5, events=rows)
            g.makepairs()
            for _ in range(45):
                k = r.choice([0, 1, 19, 20, 21, n - 1, n - 2, n // 2, r.randrange(n), r.randrange(n)])
                p = same[k % len(same)] if r.random() < .9 else same[(n + k) % len(same)]
                x = r.randrange(10)
                if x < 4:
                    g.F([r.choice([0x90, 0x91, 0xB0, 0xD1])] + b2(p[0]) + b2(p[1]) + [1, 2])
                elif x == 4:
                    g.F([r.choice([0x92, 0x9A])] + b2(p[0]) + b2(p[1]))
                elif x == 5:
                    g.op_learnown()
                    g.F([0xB2] + b2(p[0]) + b2(p[1]) + [1])
                elif x == 6:
                    g.op_learnown()
                    g.F([0xD2] + b2(p[0]) + b2(p[1]) + [1, r.randrange(256)])
                elif x == 7 and r.random() < .5:
                    g.op_learnown()
                    g.F([0x95] + b2(p[0]) + b2(p[1]))
                elif x == 8:
                    g.F([0x9C] + g.own() + [k, 1])
                else:
                    g.op_areq()
            out.append(g.L)
        elif P in ('P05', 'P07', 'P08', 'P24'):
            # remove and re-use entries: nothing of the old event may remain
            o = dict(PROFILE[P], maxev=[1, 2, 3], evs=[2, 3, 8])
            g = config(r, o, tid, i)
            g.r = r
            g.boot_normal(g.newnn(), canid=5)
            g.makepairs(5)
            g.op_learnown()
            for _ in range(30):
                nn, en = r.choice(g.pairs)
                x = r.randrange(6)
                if x <= 2:
                    g.F([0xD2] + b2(nn) + b2(en) + [r.randrange(1, g.cfg['evs'] + 1), r.choice([0, 7, 255, r.randrange(256)])])
                elif x == 3:
                    g.F([0x95] + b2(nn) + b2(en))
                elif x == 4:
                    g.F(r.choice([[0x90] + b2(nn) + b2(en), [0x98] + b2(r.choice([0, nn])) + b2(en), [0xB2] + b2(nn) + b2(en) + [0]]))
                else:
                    g.F([0x9C] + g.own() + [r.randrange(g.cfg['maxev']), 0])
                if r.random() < .05:
                    g.op_nnclr()
                if r.random() < .06:
                    g.X()
                    g.op_learnown()
            out.append(g.L)
    return out


# ---------------------------------------------------------------- running
def mc(work, P, fam, edges):
    cfg = work.path('mc-%s.cfg' % fam)
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nPROPERTIES %s\n' % P)
    t, g, d, rc = R.tlc(work, 'NodeMC.tla', cfg, dict(FAM=fam, EDGES='1' if edges else '0'), workers=1 if edges else 2, heap='3g')
    if 'No error has been found' not in t:
        raise R.ToolError('the specification itself breaks %s in family %s:\n%s' % (P, fam, t[-3000:]))
    return t, g, d


def trace_scripts(scripts):
    return {s[0].split()[1]: s for s in scripts}


def classify(P, m):
    lines = open(m['file'], errors='replace').read().splitlines()
    rec = json.loads(lines[m['line'] - 1])
    m['rec'] = rec
    try:
        fams = families(rec, m)
    except (KeyError, IndexError, TypeError):
        return True                   # a record that does not even have the expected shape
    return P in fams or 'ALL' in fams and P != 'P26'


def shorten(script, m, files):
    """drop what comes after the record that disagrees"""
    lines = open(m['file'], errors='replace').read().splitlines()
    tid = m['t']
    idx = [i for i, l in enumerate(lines) if l.startswith('{"t":"%s"' % tid)]
    rec = m['line'] - 1 - idx[0]          # 0-based among the records of the trace
    out, n = [], 0
    for l in script:
        out.append(l)
        k = l.split()[0]
        if k in ('C', 'F', 'A', 'Q', 'W', 'X', 'O', 'p', 'f', 'a'):
            n += 1
        elif k == 'B':
            n += 2                        # (single-node traces)
        elif k in ('G', 'V', 'D', 'w', 'H'):
            return script
        if n > rec:
            return out
    return script


QUICK_STEPS = 8000


def check(P, tier):
    from .common import Result, seed
    res = Result(P, tier)
    work = R.Work()
    try:
        explore(work, P, seed(), tier == 'thorough', res)
    finally:
        work.close()
    return res.finish(assumptions=ASSUME)


ASSUME = ['the transport stub of the harness delivers and accepts CAN frames in order and without loss',
          'time is what millis() returns; the harness moves it only between main-loop runs']


def explore(work, P, S, thorough, res, walks=None):
    o = PROFILE[P]
    with cf.ThreadPoolExecutor(8) as ex:
        fexe = ex.submit(R.build_node, work)
        fams = o['fam'] + (o['more'] if thorough else [])
        prop = o.get('prop', P)
        mcs = {f: ex.submit(mc, work, prop, f, True) for f in fams if f != 'prod3'}
        if 'prod3' in fams:
            mcs['prod3'] = ex.submit(mc, work, prop, 'prod3', False)
        exe = fexe.result()
        rounds = 6 if thorough else 1
        deadline = time.time() + (1500 if thorough else 100)
        scripts = []
        for f in fams:
            t, g, d = mcs[f].result()
            res.add_mc('NodeMC/' + f, g, d)
            if f == 'prod3':
                continue
            c, gr = tour.parse(t)
            tr, cov, tot = tour.tour(c, gr, S, '%s-%s' % (P, f), None if thorough else QUICK_STEPS // len(fams))
            res.extra['model'][f'NodeMC/{f}'].update(replayed=cov, distinct_transitions=tot)
            scripts += tr
        n = walks or (1500 if thorough else 800)
        scripts += specials(P, S, 24 if thorough else 12)
        scripts += [walk(P, S * 1000003 + i, '%s-w%d' % (P, i), thorough) for i in range(n)]
    for rnd in range(rounds):
        if rnd:
            if time.time() > deadline or res.violations:
                break
            scripts = [walk(P, S * 1000003 + rnd * 100000 + i, '%s-r%dw%d' % (P, rnd, i), True) for i in range(2500)]
        one(work, exe, P, scripts, res, 'n%d' % rnd)
        res.traces += len(scripts)
        res.samples += [s[:40] for s in (scripts[0], scripts[-1])]
    if P == 'P16' and not res.violations:
        queue(work, exe, S, thorough, res)


def one(work, exe, P, scripts, res, tag):
    files = R.run_harness(exe, scripts, work.path('tr'), tag)
    v = R.validate(work, 'NodeTrace.tla', 'NodeTrace.cfg', files)
    res.states += v['states']
    res.transitions += v['transitions']
    res.extra['records_validated'] = res.extra.get('records_validated', 0) + v['lines']
    by = trace_scripts(scripts)
    for nt in v['notes']:
        rec = json.loads(open(nt['file']).read().splitlines()[nt['line'] - 1])
        if rec['k'] == 'F' and P in families(rec, dict(bad=['tx'], own=rec['lv'][2], learn=True, want={'lv': rec['lv'], 'dk': rec['dk'], 'fl': rec['fl']})):
            res.findings['more-than-30-replies'] = res.findings.get('more-than-30-replies', 0) + 1
    other = 0
    cand = []
    for m in v['mismatches']:
        if classify(P, m):
            cand.append(m)
        else:
            other += 1
    if other:
        res.extra['disagreements_about_other_properties'] = res.extra.get('disagreements_about_other_properties', 0) + other
    cand = cand[:12]
    if not cand:
        return
    again = [shorten(by[m['t']], m, files) for m in cand]
    f2 = R.run_harness(exe, again, work.path('tr'), tag + 'again')
    v2 = R.validate(work, 'NodeTrace.tla', 'NodeTrace.cfg', f2)
    rep = {m['t']: m for m in v2['mismatches']}
    apart = {}
    if P == 'P16':
        # the same stimuli one at a time: what is wrong then as well is not about order
        split = [unbatch(s) for s in again]
        f3 = R.run_harness(exe, split, work.path('tr'), tag + 'split')
        apart = {m['t'] for m in R.validate(work, 'NodeTrace.tla', 'NodeTrace.cfg', f3)['mismatches']}
    for m, s in zip(cand, again):
        r = rep.get(m['t'])
        if r is None or not classify(P, r) or m['t'] in apart:
            continue
        what = 'trace %s: the implementation disagrees with the specification in %s\n#  did    %s\n#  allows %s' % (
            m['t'], r['bad'], json.dumps(r['rec']), json.dumps(r.get('want')))
        res.violations.append((what, dict(kind='node', script=s, record=r['rec'], allows=r.get('want'), differs=r['bad'])))


def queue(work, exe, S, thorough, res):
    for name, items, rep in [('q2', 5 if thorough else 4, 2), ('q1', 6 if thorough else 4, 1)]:
        cfg = work.path(name + '.cfg')
        open(cfg, 'w').write(open(os.path.join(R.SPEC, 'Queue.cfg')).read().replace('MaxItems = 5', 'MaxItems = %d' % items).replace('MaxReplies = 2', 'MaxReplies = %d' % rep))
        t, g, d, rc = R.tlc(work, 'Queue.tla', cfg, workers=4, heap='6g')
        if 'No error has been found' not in t:
            raise R.ToolError('Queue.tla breaks its own properties:\n' + t[-3000:])
        res.add_mc('Queue/' + name, g, d)
    scripts = [proc_walk(S * 7919 + i, 'P16-p%d' % i) for i in range(1500 if thorough else 200)]
    by = trace_scripts(scripts)
    files = R.run_harness(exe, scripts, work.path('tr'), 'q')
    v = R.validate(work, 'QueueTrace.tla', 'QueueTrace.cfg', files)
    res.states += v['states']
    res.transitions += v['transitions']
    res.traces += len(scripts)
    res.extra['records_validated'] = res.extra.get('records_validated', 0) + v['lines']
    cand = v['mismatches'][:8]
    if not cand:
        return
    again = [by[m['t']] for m in cand]
    rep = {m['t'] for m in R.validate(work, 'QueueTrace.tla', 'QueueTrace.cfg', R.run_harness(exe, again, work.path('tr'), 'qagain'))['mismatches']}
    # the same stimuli one at a time
    split = [[l[0].upper() + l[1:] if l[0] in 'fa' else l for l in s if not l.startswith('p ')] for s in again]
    apart = {m['t'] for m in R.validate(work, 'NodeTrace.tla', 'NodeTrace.cfg', R.run_harness(exe, split, work.path('tr'), 'qsplit'))['mismatches']}
    for m, s in zip(cand, again):
        if m['t'] not in rep or m['t'] in apart:
            continue
        rec = json.loads(open(m['file']).read().splitlines()[m['line'] - 1])
        res.violations.append(('trace %s: main loop executions disagree with the queue specification: %s\n#  did    %s\n#  allows %s' % (m['t'], m['bad'], json.dumps(rec), json.dumps(m['want'])),
                               dict(kind='queue', script=s, record=rec, allows=m['want'], differs=m['bad'])))


def unbatch(s):
    out = []
    for l in s:
        if l.startswith('Q '):
            out += [x.strip() for x in l[2:].split(';')]
        else:
            out.append(l)
    return out
