"""What the server holds on to: the same thing over and over, with measurements in between."""
from . import jt808 as J
from .scenario import Scenario
from .trace import Recorder

KINDS = ["connect", "leave", "leave", "expire", "refused", "stranger", "pieces", "move", "web", "busy", "crowd", "stuck", "endless", "broken", "asked"]


class ResRecorder(Recorder):
    """Operations are played but not judged one by one; the measurements are the steps of the trace."""
    MODULE = "ResourceTrace"

    def __init__(self, drv):
        super().__init__(drv)
        self.t = 0

    def do(self, op, meta=None):
        op = dict(op)
        if op["op"] != "measure":
            op["nosnap"] = True
        self.ops.append([op, meta or {}])
        obs = self.drv.op(op)
        self.t = obs["t"]
        if op["op"] == "measure":
            r, devs = obs["res"], obs.get("devs")
            self.steps.append(dict(meta, gor=r["gor"], objs=r["objs"], kib=r["bytes"] // 1024, kept=r["kept"], open=r["open"],
                                   regs=len(devs) if isinstance(devs, list) else 0))
        return obs


class ResScenario(ResRecorder, Scenario):

    def __init__(self, drv, rng, **kw):
        Scenario.__init__(self, drv, rng, **kw)
        self.t = 0
        self.cycles = self.k = self.beaten = 0
        self.stay = {}            # terminals that stay: name -> connection
        self.settle = 0

    # ---- pieces ------------------------------------------------------------
    def fresh(self, c=None):
        self.k += 1
        name = "%s%d_" % (c or "c", self.k)
        self.open(name)
        return name

    def newp(self):
        self.k += 1
        return "t%d" % self.k

    def drop(self, p):
        """Nothing more is needed of a terminal here."""
        self.terms.pop(p, None)
        self.plates.pop(p, None)
        self.frags = {}

    def end(self, c):
        if c in self.conns:
            self.gone(c, self.rng.random() < .4)

    def beat(self):
        self.beaten = self.t
        for p, c in self.stay.items():
            self.raw(c, self.frame(p, J.HEART))

    def joined(self, auth=True):
        p, c = self.newp(), self.fresh()
        self.raw(c, self.frame(p, J.REG, l=p))
        if auth:
            self.raw(c, self.frame(p, J.AUTH, "right"))
        return p, c

    def unfinished(self, p, c):
        r = self.rng
        for mid in r.sample([J.LOC, J.AUTH, J.HEART, 0x0700, 0x0801, J.REG], r.choice([1, 2, 3])):
            total = r.choice([2, 3, 9, 65535])
            for i in range(1, r.choice([1, min(2, total - 1)]) + 1):
                self.raw(c, self.frame(p, mid, frag=(total, i), body=self.bytes(r.choice([0, 20, 200]))))

    # ---- cycles ------------------------------------------------------------
    def cy_connect(self):
        c = self.fresh()
        if self.rng.random() < .5:
            self.raw(c, self.junk() + self.rng.choice([b"", b"\x7e", b"\x7e\x01\x02"]))
        self.end(c)

    def cy_leave(self):
        r = self.rng
        p, c = self.joined(r.random() < .7)
        for _ in range(r.choice([0, 1, 3])):
            self.raw(c, self.frame(p, J.LOC, acc=r.randrange(2)))
        if r.random() < .5:
            self.unfinished(p, c)
        if r.random() < .3:
            self.http(r.choice(["geo", "pq", "ps"]), p)
        if r.random() < .3:
            self.end(c)
            c = self.fresh()
        self.raw(c, self.frame(p, r.choice([J.DEREG, J.AUTH]), "wrong"))
        self.end(c)
        self.drop(p)

    def cy_asked(self):
        """A terminal the outside asks about, sends things to, and that goes."""
        r = self.rng
        p, c = self.joined(r.random() < .7)
        for k in r.sample(["geo", "pq", "ps", "loc", "gone"], r.choice([1, 2, 3])):
            if k == "loc":
                self.raw(c, self.frame(p, J.LOC, acc=1))
            elif k == "gone":
                self.end(c)
                c = self.fresh()
            else:
                self.http(k, p)
        self.raw(c, self.frame(p, r.choice([J.DEREG, J.AUTH]), "wrong"))
        self.end(c)
        self.drop(p)

    def cy_expire(self):
        r = self.rng
        ps = []
        for _ in range(10):
            p, c = self.joined(r.random() < .7)
            if r.random() < .5:
                self.raw(c, self.frame(p, J.LOC, acc=r.randrange(2)))
            if r.random() < .3:
                self.unfinished(p, c)
            how = r.random()
            if how < .3:
                self.end(c)
            elif how < .5:
                c2 = self.fresh()
                self.raw(c2, self.frame(p, J.AUTH, "right"))
                self.end(c)
                c = c2
            ps.append((p, c))
        self.cycles += 9
        for _ in range(5):
            self.sleep(40000)
            self.beat()
        for p, c in ps:
            if c in self.conns:      # closed by the server
                self.gone(c)
            self.drop(p)

    def cy_refused(self):
        """Registrations for a number or plate somebody has."""
        r = self.rng
        p, c = self.newp(), self.fresh()
        s = r.choice(sorted(self.stay))
        self.raw(c, self.frame(s, J.REG, l=p) if r.random() < .5 else self.frame(p, J.REG, l=s))
        self.end(c)
        self.drop(p)

    def cy_stranger(self):
        r = self.rng
        p, c = self.newp(), self.fresh()
        if r.random() < .6:
            self.raw(c, self.frame(p, r.choice([J.HEART, J.LOC, J.DEREG, J.AUTH, 0x0700, 0x8001, J.PLIST, J.TREPLY]), "wrong"), 1)
        else:
            self.raw(c, self.frame(p, J.REG, l=p, badsum=3), 1)
        self.end(c)
        self.drop(p)

    def cy_pieces(self):
        """Fragments from numbers nobody has registered."""
        p, c = self.newp(), self.fresh()
        r = self.rng
        mid = r.choice([J.LOC, J.HEART, J.REG, 0x0700, 0x0801, J.PLIST, J.MLIST])
        self.raw(c, self.frame(p, mid, frag=(r.choice([2, 3, 40]), 1), body=self.bytes(r.choice([0, 30, 300]))), 1)
        self.end(c)
        self.drop(p)

    def cy_move(self):
        """A terminal that stays comes back on another connection."""
        p = self.rng.choice(sorted(self.stay))
        old, c = self.stay[p], self.fresh()
        self.raw(c, self.frame(p, J.AUTH, "right"))
        self.stay[p] = c
        self.end(old)

    def cy_web(self):
        r = self.rng
        self.k += 1
        phone = "9%011d" % self.k
        kind = r.choice(["geo", "pq", "invalid", "ps"])
        if r.random() < .5:
            self.http(kind, r.choice(sorted(self.stay)))
        else:
            self.http(kind, phone)

    def cy_busy(self):
        """Many messages of a terminal that stays."""
        r = self.rng
        p = r.choice(sorted(self.stay))
        mid = r.choice([J.HEART, J.LOC, J.LOC, J.TREPLY, "frag", "again", "restart", J.PLIST, J.MLIST])
        slow = mid in (J.PLIST, J.MLIST)        # the server may pause after each of these
        n, data = 8 if slow else 60, b""
        for _ in range(n):
            if mid == "frag":
                b = self.loc_body(1)
                data += self.frame(p, J.LOC, frag=(2, 1), body=b[:9]) + self.frame(p, J.LOC, frag=(2, 2), body=b[9:])
            elif mid == "restart":       # begun over and over, never finished
                for i in range(1, r.choice([2, 3])):
                    data += self.frame(p, r.choice([J.LOC, J.AUTH, J.HEART]), frag=(r.choice([3, 5]), i), body=self.bytes(40))
            elif mid == "again":
                data += self.frame(p, J.AUTH, "right")
            else:
                data += self.frame(p, mid, acc=r.randrange(2))
        self.cycles += n - 1
        self.do({"op": "send", "conn": self.conns[self.stay[p]], "chunks": [data.hex()], "settle": 1100 * n if slow else 0})

    def cy_crowd(self):
        """Several at once: connect, say something, vanish."""
        cs = [self.fresh() for _ in range(8)]
        ps = []
        for c in cs:
            p = self.newp()
            ps.append(p)
            if self.rng.random() < .5:
                self.raw(c, self.frame(p, J.REG, l=p) + self.frame(p, J.DEREG))
        for c in cs:
            self.end(c)
        for p in ps:
            self.drop(p)
        self.cycles += 7

    def cy_stuck(self):
        """A peer that does not read its replies, and then goes."""
        p, c = self.joined()
        self.do({"op": "stall", "conn": self.conns[c]})
        self.raw(c, self.frame(p, J.HEART) + self.frame(p, J.LOC))
        self.do({"op": "reset", "conn": self.conns[c], "settle": 2500})
        del self.conns[c]
        c = self.fresh()
        self.raw(c, self.frame(p, J.DEREG))
        self.end(c)
        self.drop(p)

    def cy_endless(self):
        """Data that never ends its frame, that is no frame, or damaged frames, on connections that stay."""
        first = "e0" not in self.conns
        for i in range(3):
            if first:
                self.open("e%d" % i)
            z = bytes(self.rng.choice([1, 2, 0x41, 0xff, 0x7d]) for _ in range(50)) * 20 + b"\x03"
            data = [b"\x7e" + z if first else z, b"\x7e" + z + b"\x7e", z][i]
            self.do({"op": "send", "conn": self.conns["e%d" % i], "chunks": [data.hex()], "settle": 1100 if i == 1 else 0})

    def cy_broken(self):
        """Bodies cut short, on a connection of their own; what they do to the terminal does not matter, it is removed."""
        r = self.rng
        p, c = self.joined()
        mid = r.choice([J.REG, J.AUTH, J.LOC, J.TREPLY, J.PLIST, J.MLIST, 0x8103])
        body = self.body(self.term(p), mid, "right", l=p, acc=1) if mid != 0x8103 else self.bytes(9)
        self.raw(c, self.frame(p, mid, body=body[:r.randrange(len(body) + 1)]), 1)
        self.end(c)
        c = self.fresh()
        self.raw(c, self.frame(p, J.DEREG))
        self.end(c)
        self.drop(p)

    # ---- the whole ---------------------------------------------------------
    def quiet(self):
        self.beat()
        for _ in range(7):
            self.sleep(45000)
            self.beat()
        self.do({"op": "forget"})
        self.freed = []
        self.used = set()

    def play(self, kind, warm, n, times):
        for _ in range(3 if kind in ("refused", "move", "web", "busy") else self.rng.choice([0, 2])):
            p, c = self.joined()
            self.stay[p] = c
        cyc = getattr(self, "cy_" + kind)
        for want in [warm + i * n for i in range(times + 1)]:
            last = self.cycles
            while self.cycles < want:
                cyc()
                self.cycles += 1
                if self.t - self.beaten > 20000:
                    self.beat()
                if self.cycles - last >= 40:
                    self.do({"op": "forget"})
                    last = self.cycles
            self.quiet()
            self.do({"op": "measure"}, {"cycles": self.cycles, "conns": len(self.conns), "terms": len(self.stay)})
        return self
