"""Stimulus generator for the node harness: random walks over weighted operations, with a light mirror of the
node's identity so that most stimuli are meaningful.  The specification, not this file, says what must happen."""
import random

FULL = ['MD', 'U', 'CD', 'N', 'ED', 'PD', 'TD']
EVENT_OPS = [0x90, 0x91, 0xB0, 0xB1, 0xD0, 0xD1, 0xF0, 0xF1, 0x98, 0x99, 0xB8, 0xB9, 0xD8, 0xD9, 0xF8, 0xF9, 0x93, 0x94]
NEAR_OPS = [0x92, 0x9A, 0x9D, 0x9E, 0xB3, 0xB4, 0xD4, 0xD5, 0xF3, 0xF4, 0xBD, 0xBE, 0xDD, 0xDE, 0xFD, 0xFE, 0xD3, 0xB2, 0xF2]
# opcodes addressed by node number: (opcode, full length)
ADDRESSED = [(0x4F, 3), (0x53, 3), (0x54, 3), (0x55, 3), (0x56, 3), (0x57, 3), (0x58, 3), (0x5D, 3), (0x5E, 3), (0x71, 4), (0x72, 4),
             (0x73, 4), (0x75, 4), (0x76, 4), (0x78, 4), (0x87, 5), (0x8E, 5), (0x96, 5), (0x9C, 5)]


def b2(n): return [(n >> 8) & 255, n & 255]


class G:
    def __init__(self, seed, tid, **cfg):
        self.r = random.Random(seed)
        self.tid = tid
        self.L = ['T %s' % tid]
        self.cfg = dict(nvs=4, maxev=5, evs=2, prod=0, svcs=list(FULL))
        self.cfg.update(cfg)
        self.nn = 0
        self.cur = 255
        self.mode = 255
        self.learn = False
        self.hbon = False
        self.pairs = []
        self.ownlow = 0
        self.cuts = False

    # -------------------------------------------------- set-up
    def config(self):
        c = dict(self.cfg)
        c['svcs'] = ','.join(c['svcs'])
        self.L.append('C ' + ' '.join('%s=%s' % (k, v) for k, v in c.items()))

    def store(self, addr, data):
        for i in range(0, len(data), 100):
            self.L.append('S %d %s' % (addr + i, ''.join('%02X' % x for x in data[i:i + 100])))

    def boot_normal(self, nn, canid=5, hb=0, reset=0, nvs=None, events=None):
        """power up a module that was Normal before; events: {index: [nn,en,evs..]}"""
        c = self.cfg
        nvstart = c.get('nvstart', 10)
        self.store(0, [1, canid] + b2(nn) + [hb, reset])
        self.store(nvstart, nvs if nvs is not None else [0] * c['nvs'])
        ev0 = c.get('evstart', 0) or nvstart + c['nvs']
        for i, e in (events or {}).items():
            self.store(ev0 + i * (4 + c['evs']), b2(e[0]) + b2(e[1]) + e[2:])
        self.L.append('B')
        self.nn, self.cur, self.mode, self.learn, self.hbon = nn, 1, 1, False, bool(hb & 1)

    def boot_virgin(self):
        self.L.append('B')
        self.nn, self.cur, self.mode, self.learn, self.hbon = 0, 255, 255, False, False

    def to_normal(self, nn):
        self.A(0)
        self.W(105)
        self.snn(nn)

    # -------------------------------------------------- primitives
    def F(self, data, canid=None, ext=0, rtr=0, fid=None):
        if fid is None and canid is None and self.r.random() < .03:
            fid = self.r.choice([2047, 2047, 0, 128, 1920])
        if fid is None:
            # any sender, any priority
            fid = (self.r.choice([0, 15, self.r.randrange(16)]) if self.r.random() < .15 else 11) * 128 + (canid if canid is not None else self.r.choice([0, 1, 5, 127, 127, 127, self.r.randrange(128)]) if self.r.random() < .08 else 10)
        if not ext and not rtr:
            data = self.longer(data)
        self.L.append('F %d %d %d %s' % (fid, ext, rtr, ''.join('%02X' % x for x in data) or '-'))
        self.mirror(data, ext, rtr)

    def longer(self, data):
        """now and then a complete message has more bytes than its opcode needs"""
        n = (data[0] >> 5) + 1 if data else 9
        if len(data) >= n and n < 8 and self.r.random() < (.08 if data[0] in EVENT_OPS else .03):
            return list(data) + [self.r.randrange(256) for _ in range(self.r.randrange(len(data), 9) - len(data))]
        return data

    def item(self, data, canid=10):
        data = self.longer(data)
        self.mirror(data, 0, 0)
        return 'F %d 0 0 %s' % ((self.r.choice([0, 7, 15, 11, 11, 11, 11, 11]) << 7) + canid, ''.join('%02X' % x for x in data) or '-')

    def mirror(self, d, ext, rtr):
        if ext or rtr or not d:
            return
        op = d[0]
        dd = list(d) + [0] * 8
        nn = dd[1] * 256 + dd[2]
        own = nn == self.nn
        if op == 0x42 and self.cur == 0 and len(d) >= 3:
            self.cur = self.mode = 1
            self.nn = nn
        elif op == 0x50 and self.cur == 0:
            self.cur = self.mode
        elif op == 0x53:
            self.learn = own
        elif op == 0x54 and own:
            self.learn = False
        elif op == 0x76 and own and len(d) >= 4:
            if dd[3] == 255 and self.cur in (0, 1):
                self.uninit()
            elif dd[3] == 0 and self.cur == 1:
                self.cur = 0
            elif dd[3] in (8, 9):
                self.learn = dd[3] == 8
            elif dd[3] in (12, 13):
                self.hbon = dd[3] == 12
        elif op == 0x4F and own and len(d) >= 3:
            self.uninit()
            self.learn = False
            self.hbon = False
        elif op == 0x5E and own and len(d) >= 3:
            self.cur = self.mode
            self.learn = False

    def uninit(self):
        self.cur = self.mode = 255
        self.nn = 0

    def A(self, *a):
        self.L.append('A ' + ' '.join(map(str, a)))
        self.mirror_a(a)

    def mirror_a(self, a):
        if a[0] == 0:
            if self.cur == 255:
                self.cur = 0
            else:
                self.uninit()
        elif a[0] == 1:
            if self.cur == 0:
                self.cur = self.mode
            elif self.cur == 1:
                self.cur = 0

    def W(self, ms): self.L.append('W %d' % ms)

    def X(self):
        self.L.append('X')
        self.cur = self.mode
        self.learn = False

    def snn(self, nn): self.F([0x42] + b2(nn))

    # -------------------------------------------------- values
    def near(self, nn):
        r = self.r
        k = r.randrange(8)
        x = [nn ^ (1 << r.randrange(8)), nn ^ (256 << r.randrange(8)), (nn >> 8) | ((nn & 255) << 8), nn & 255, nn & 0xFF00, 0, 0xFFFF, (nn + 256) & 0xFFFF][k]
        return x if x != nn else nn ^ 0x0101

    def newnn(self): return self.r.choice([1, 255, 256, 257, 0x0104, 0x0401, 0x7FFF, 0x8000, 0xFFFE, self.r.randrange(1, 0xFFFF)])

    def makepairs(self, k=8):
        r = self.r
        ps = []
        base = (r.choice([self.nn, 0x0102, 0x0A05, r.randrange(1, 0xFFFF)]), r.choice([1, 2, 0x0100, r.randrange(0, 0xFFFF)]))
        ps.append(base)
        while len(ps) < k:
            nn, en = r.choice(ps)
            m = r.randrange(10)
            if m == 0:
                x = r.randrange(1, 256)
                p = (nn ^ (x * 257), en)                      # same xor of bytes: same internal hash
            elif m == 1:
                x = r.randrange(1, 256)
                p = (nn, en ^ (x * 257))
            elif m == 2:
                p = (nn ^ (1 << r.randrange(16)), en)
            elif m == 3:
                p = (nn, en ^ (1 << r.randrange(16)))
            elif m == 4:
                p = (en, nn)
            elif m == 5:
                p = (0, en)
            elif m == 6:
                p = (self.nn, en)
            elif m == 7:
                p = (nn, en ^ 0x0080)                         # equal modulo the hash length
            elif m == 8:
                p = (r.choice([0xFFFF, 0xFF00, 0x00FF, 1]), en)
            else:
                p = (nn, r.choice([0xFFFF, 0xFF00, 0, 0x00FF]))
            if p != (0xFFFF, 0xFFFF) and p not in ps:
                ps.append(p)
        self.pairs = ps

    def pair(self):
        nn, en = self.anypair()
        # an identity half replaced by one that starts with FF may look like a free entry: not decided by the specification
        return (nn & 0xFEFF, en) if self.cuts and nn >= 0xFF00 else (nn, en)

    def anypair(self):
        if not self.pairs:
            self.makepairs()
            self.ownlow = self.r.choice([0, 0, .1, .4])
        if self.r.random() < self.ownlow:                     # the numbers a module picks for events of its own
            return (self.nn, self.r.randrange(1, self.cfg['maxev'] + 3))
        if self.r.random() < 0.06:
            p = (self.r.randrange(65536), self.r.randrange(65535))
            return p
        return self.r.choice(self.pairs)

    def idx(self, n):
        """an index around 0..n"""
        r = self.r
        return r.choice([0, 1, n - 1, n, n + 1, 255, 127, 128, r.randrange(0, 256), r.randrange(0, max(1, n)), r.randrange(0, max(1, n))]) % 256

    def val(self): return self.r.choice([0, 1, 2, 3, 127, 128, 254, 255, self.r.randrange(256)])

    def own(self): return b2(self.nn)

    # -------------------------------------------------- operations
    def op(self, name): getattr(self, 'op_' + name)()

    def op_change(self): self.A(0)
    def op_reneg(self): self.A(1)
    def op_enumact(self): self.A(2)
    def op_snn(self): self.snn(self.newnn() if self.r.random() < .8 else self.r.choice([self.nn, self.nn, 0]))
    def op_snnshort(self): self.F([0x42] + [self.r.randrange(256) for _ in range(self.r.randrange(2))])
    def op_rqnn(self): self.F([0x50] + b2(self.r.choice([0, self.nn, self.newnn()])))
    def op_modecmd(self): self.F([0x76] + self.own() + [self.r.choice([255, 255, 0, 0, 0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 16, 254])])
    def op_modeset(self): self.F([0x76] + self.own() + [self.r.choice([0, 0, 0, 255, 1])])
    def op_power(self): self.X()
    def op_restart(self): self.F([0x5E] + self.own())
    def op_reset(self): self.F([0x4F] + self.own())
    def op_w105(self): self.W(105)
    def op_wshort(self): self.W(self.r.choice([1, 10, 40, 50]))
    def op_wlong(self): self.W(self.r.choice([1000, 2500, 4990, 5010, 6000, 30000]))
    def op_whb(self): self.W(self.r.choice([4990, 5010, 5010, 2495, 2515, 12, 10050, 1]))
    def op_hbcmd(self): self.F([0x76] + self.own() + [self.r.choice([12, 13])])
    def op_ack(self): self.A(5, self.r.choice([0, 1, 1]))
    def op_hbon(self): self.F([0x76] + self.own() + [12])
    def op_rqnp(self): self.F([0x10])
    def op_rqmn(self): self.F([0x11])
    def op_qnn(self): self.F([0x0D])

    def op_learnown(self): self.F([0x53] + self.own() if self.r.random() < .6 else [0x76] + self.own() + [8])
    def op_learnother(self): self.F([0x53] + b2(self.near(self.nn)) if self.r.random() < .7 else [0x76] + b2(self.near(self.nn)) + [8])
    def op_unlearnown(self): self.F([0x54] + self.own() if self.r.random() < .6 else [0x76] + self.own() + [9])
    def op_unlearnother(self): self.F([0x54] + b2(self.near(self.nn)) if self.r.random() < .7 else [0x76] + b2(self.near(self.nn)) + [9])

    def ensure_learn(self, p=0.85):
        if not self.learn and self.r.random() < p:
            self.op_learnown()

    def evn(self): return self.r.choice([1, 1, 2, self.cfg['evs'], self.r.randrange(1, max(2, self.cfg['evs'] + 1)), self.r.choice([0, self.cfg['evs'] + 1, 255, 128])]) & 255

    def op_evlrn(self):
        nn, en = self.pair()
        k = self.evn()
        v = self.val() if k != 1 else self.r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 200, 255, self.r.randrange(256)])
        self.F([0xD2] + b2(nn) + b2(en) + [k, v])

    def op_evlrnfresh(self):
        nn, en = self.pair()
        self.F([0xD2] + b2(nn) + b2(en) + [self.r.choice([1, 1, self.evn()]), self.r.choice([0, self.r.randrange(1, 256)])])

    def op_evlrni(self):
        nn, en = self.pair()
        self.F([0xF5] + b2(nn) + b2(en) + [self.idx(self.cfg['maxev']) if self.r.random() < .4 else self.r.randrange(max(1, self.cfg['maxev'])), self.evn(), self.val()])

    def op_evuln(self):
        nn, en = self.pair()
        self.F([0x95] + b2(nn) + b2(en))

    def op_nnclr(self): self.F([0x55] + self.own())
    def op_nerd(self): self.F([0x57] + self.own())
    def op_nenrd(self): self.F([0x72] + self.own() + [self.idx(self.cfg['maxev'])])
    def op_rqevn(self): self.F([0x58] + self.own())
    def op_nnevn(self): self.F([0x56] + self.own())
    def op_reval(self): self.F([0x9C] + self.own() + [self.idx(self.cfg['maxev']), self.r.choice([0, self.evn()])])

    def op_reqev(self):
        nn, en = self.pair()
        self.F([0xB2] + b2(nn) + b2(en) + [self.r.choice([0, self.evn()])])

    def op_teachshort(self):
        op, n = self.r.choice([(0xD2, 7), (0xF5, 8), (0x95, 5), (0xB2, 6)])
        nn, en = self.pair()
        self.F(([op] + b2(nn) + b2(en) + [1, 1, 1])[:self.r.randrange(1, n)])

    def op_queryshort(self):
        op, n = self.r.choice([(0x9C, 5), (0x55, 3), (0x72, 4)])
        self.F(([op] + self.own() + [0, 1])[:self.r.randrange(1, n)])

    def op_nvrd(self): self.F([0x71] + self.own() + [self.idx(self.cfg['nvs'])])
    def op_nvset(self): self.F([0x96] + self.own() + [self.idx(self.cfg['nvs']), self.val()])
    def op_nvsetrd(self): self.F([0x8E] + self.own() + [self.idx(self.cfg['nvs']), self.val()])

    def op_nvshort(self):
        op, n = self.r.choice([(0x71, 4), (0x96, 5), (0x8E, 5)])
        self.F(([op] + self.own() + [1, 1])[:self.r.randrange(1, n)])

    def evmsg(self):
        r = self.r
        nn, en = self.pair()
        if r.random() < .25:
            nn, en = (nn ^ (1 << r.randrange(16)), en) if r.random() < .5 else (nn, en ^ (1 << r.randrange(16)))
        op = r.choice(EVENT_OPS) if r.random() < .85 else r.choice(NEAR_OPS)
        n = (op >> 5) - 4 if op >= 0xA0 else 0
        return [op] + b2(nn) + b2(en) + [r.randrange(256) for _ in range(max(0, n))]

    def op_event(self): self.F(self.evmsg())

    def op_shortevent(self):
        nn, en = self.pair()
        op = self.r.choice([0x98, 0x99, 0xB8, 0xD9, 0xF8])
        self.F([op] + b2(self.r.choice([nn, self.newnn(), 0])) + b2(en) + [self.r.randrange(256) for _ in range((op >> 5) - 4)])

    def op_areq(self):
        nn, en = self.pair()
        self.F([0x92] + b2(nn) + b2(en))

    def op_asrq(self):
        nn, en = self.pair()
        self.F([0x9A] + b2(self.r.choice([0, self.nn, self.nn, nn, self.near(self.nn)])) + b2(en))

    def op_send(self):
        n = self.r.randrange(4)
        v = self.r.choice([1, 2, 3, self.cfg['prod'], self.cfg['prod'] + 1, self.r.randrange(1, 255), 255]) or 1
        self.A(3, self.r.randrange(2), v, n, *[self.r.randrange(256) for _ in range(n)])

    def op_respond(self):
        n = self.r.randrange(4)
        self.A(4, self.r.randrange(2), self.r.randrange(self.cfg['maxev']), n, *[self.r.randrange(256) for _ in range(n)])

    def op_rqsd(self): self.F([0x78] + self.own() + [self.r.choice([0, self.r.randrange(0, len(self.cfg['svcs']) + 2), 255, 128])])
    def op_rqnpn(self): self.F([0x73] + self.own() + [self.r.choice([0, 20, 21, 22, 255, 128, self.r.randrange(0, 22), self.r.randrange(0, 22), self.r.randrange(9, 21), 8])])
    def op_rdgn(self): self.F([0x87] + self.own() + [self.r.randrange(1, len(self.cfg['svcs']) + 1), self.r.choice([0, self.r.randrange(0, 20), 1, 2, 5, 6, 7, 255])])
    def op_rdgnbad(self): self.F([0x87] + self.own() + [self.r.choice([len(self.cfg['svcs']) + 1, 255, 128, 1]), self.r.choice([0, 1, 255, 19])])
    def op_rdgnall(self): self.F([0x87] + self.own() + [0, self.r.choice([0, 1])])
    def op_discshort(self):
        op, n = self.r.choice([(0x78, 4), (0x73, 4), (0x87, 5), (0x76, 4)])
        self.F(([op] + self.own() + [1])[:self.r.randrange(1, n)])

    def op_transport(self): self.L.append('O ' + ' '.join(str(self.r.choice([0, 1, 255, 256, 257, 0x1234, 65535, self.r.randrange(65536)])) for _ in range(5)))

    def op_rtr(self): self.F([], canid=self.r.randrange(128), rtr=1)
    def op_extframe(self): self.F([self.r.randrange(256) for _ in range(self.r.randrange(9))], fid=self.r.choice([self.r.randrange(1 << 29), 1408 + 5]), ext=1, rtr=self.r.choice([0, 0, 1]))
    def op_empty(self): self.F([], canid=self.r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 126, 127, self.r.randrange(128)]))
    def op_canidcmd(self): self.F([0x75] + self.own() + [self.r.choice([0, 1, 2, 98, 99, 100, 127, 128, 255, self.r.randrange(1, 100)])])
    def op_canidshort(self): self.F(([0x75] + self.own())[:self.r.randrange(1, 3)])
    def op_enum(self): self.F([0x5D] + self.own())
    def op_clash(self): self.safe([self.r.choice([0x90, 0xB6, 0x0D, 0x71, 0xAB, 0x50, 0x42, 0x10, 0x5D, 0x00, self.r.randrange(256), self.r.randrange(256)])] + b2(self.newnn()) + b2(1), canid=self.r.choice([0, 1, 2, 3, 5, 5, self.r.randrange(128)]))

    def op_answers(self):
        """somebody answers an enumeration: a dense prefix of CANIDs, so that the lowest free one is interesting"""
        r = self.r
        k = r.choice([0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 30, 31, 63, 64, 119, 120, 126, 127])
        skip = r.choice([0, 0, 0, r.randrange(1, 128)])
        ids = [i for i in range(1, k + 1) if i != skip]
        r.shuffle(ids)
        if r.random() < .3:
            ids.append(0)
        for i in ids:
            self.F([], canid=i)

    def op_foreign(self):
        r = self.r
        op, n = r.choice(ADDRESSED)
        d = [op] + b2(self.near(self.nn)) + [r.choice([0, 1, 8, 9, 12, 13, 255, r.randrange(256)]), r.randrange(256)]
        if r.random() < .15:
            n = r.randrange(3, 9)
        self.F((d + [r.randrange(256) for _ in range(3)])[:n])

    def op_junk(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
        d = [r.randrange(256) for _ in range(n)]
        if n >= 3 and r.random() < .5:
            d[1:3] = self.own()
        if d and d[0] == 0x42 and self.cur == 0 and d[1:3] == [255, 255]:
            d[1] = 1
        self.safe(d)

    def op_truncated(self):
        r = self.r
        op = r.choice([0x10, 0x11, 0x0D, 0x42, 0x4F, 0x50, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x5D, 0x5E, 0x71, 0x72, 0x73, 0x75, 0x76, 0x78, 0x87, 0x8E, 0x96,
                       0x92, 0x9A, 0x95, 0x9C, 0xB2, 0xD2, 0xF5] + EVENT_OPS)
        self.safe(([op] + self.own() + [r.randrange(256) for _ in range(5)])[:r.randrange(1, 7)])

    def op_unknown(self):
        r = self.r
        known = {0x10, 0x11, 0x0D, 0x42, 0x4F, 0x50, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x5D, 0x5E, 0x71, 0x72, 0x73, 0x75, 0x76, 0x78, 0x87, 0x8E, 0x96, 0x92, 0x9A, 0x95, 0x9C, 0xB2, 0xD2, 0xF5} | set(EVENT_OPS)
        op = r.choice([x for x in range(256) if x not in known])
        self.F(([op] + self.own() + [r.randrange(256) for _ in range(5)])[:r.randrange(1, 9)])

    def safe(self, d, **kw):
        """avoid the few inputs the specification does not define: a stored pair FFFF:FFFF, node number FFFF"""
        p = (d + [0] * 8)[:8]
        if p[0] in (0xD2, 0xF5) and p[1:5] == [255, 255, 255, 255]:
            d[1] = 1
        if p[0] == 0x42 and p[1:3] == [255, 255]:
            d[1] = 1
        self.F(d, **kw)

    def walk(self, steps, weights):
        names = list(weights)
        w = [weights[n] for n in names]
        for _ in range(steps):
            self.op(self.r.choices(names, w)[0])

    def burst(self, datas, acts=()):
        items = []
        for a in acts:
            self.mirror_a(a)
            items.append('A ' + ' '.join(map(str, a)))
        for d in datas:
            items.append(self.item(d))
        self.L.append('Q ' + ';'.join(items))
