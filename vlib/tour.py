"""From the transition graph TLC prints to executions that cover its transitions."""
import collections, json, random
from . import run as R


def hexs(d): return ''.join('%02X' % x for x in d) or '-'


def line_of(st):
    if isinstance(st, str):
        return st
    k = st['k']
    if k == 'F':
        f = st['f']
        return 'F %d %d %d %s' % (f['id'], f['x'], f['r'], hexs(f['d']))
    if k == 'A':
        return 'A ' + ' '.join(str(x) for x in st['a'])
    if k == 'W':
        return 'W %d' % st['dt']
    return 'X'


def config_lines(cfg):
    if 'pre' in cfg:
        return list(cfg['pre'])
    c = cfg['c']
    out = ['C nvs=%d maxev=%d evs=%d prod=%d ch=%d ph=%d crash=%d svcs=%s maj=%d min=%d beta=%d manu=%d mtyp=%d' %
           (c['nvs'], c['maxev'], c['evs'], c['prod'], c['ch'], c['ph'], c['crash'], ','.join(c['sv']), c['maj'], c['min'], c['beta'], c['manu'], c['mtyp'])]
    mode, canid, nn = cfg['dk']
    if mode == 1:
        out.append('S 0 01%02X%04X0000' % (canid, nn))
        if c['nvs']:
            out.append('S 10 ' + '00' * c['nvs'])
    return out + ['B']


def parse(text):
    """edges: state -> {stimulus line: target}"""
    cfg, g = None, {}
    for line in text.splitlines():
        e = R._unq(line, 'EDGE')
        if e:
            g.setdefault(e[0], {})[line_of(e[1])] = e[2]
            g.setdefault(e[2], {})
            continue
        c = R._unq(line, 'CONFIG')
        if c:
            cfg = c
    return cfg, g


def tour(cfg, g, seed, tag, limit=None, length=160):
    """executions covering all transitions, or about `limit` steps of them chosen by the seed"""
    rnd = random.Random(seed)
    start = cfg['s']
    todo = {s: list(es.items()) for s, es in g.items()}
    for v in todo.values():
        rnd.shuffle(v)
    left = sum(len(v) for v in todo.values())
    total = left
    pre = config_lines(cfg)
    succ = {s: list({t: l for l, t in es.items() if t != s}.items()) for s, es in g.items()}
    traces, used = [], 0

    def nearest(s):
        seen, dq = {s: None}, collections.deque([s])
        while dq:
            u = dq.popleft()
            if todo[u]:
                path = []
                while seen[u]:
                    u, l = seen[u]
                    path.append(l)
                return path[::-1]
            n = succ[u][:]
            rnd.shuffle(n)
            for t, l in n:
                if t not in seen:
                    seen[t] = (u, l)
                    dq.append(t)
        return None
    steps = 0
    while left and (limit is None or steps < limit):
        cur, ls = start, []
        while left and len(ls) < length:
            # in a sample, do not stay in one place
            if todo[cur] and (limit is None or rnd.random() < .9 or not succ[cur]):
                l, t = todo[cur].pop()
                left -= 1
                ls.append(l)
                cur = t
                continue
            if succ[cur] and (todo[cur] or limit is not None and rnd.random() < .3):
                t, l = rnd.choice(succ[cur])
                ls.append(l)
                cur = t
                continue
            p = nearest(cur)
            if p is None:
                break
            for l in p:
                ls.append(l)
                cur = g[cur][l]
        if not ls:
            break
        steps += len(ls)
        traces.append(['T %s%d' % (tag, len(traces))] + pre + ls)
    return traces, total - left, total
