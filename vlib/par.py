"""Concurrent situations: several requests at the same moment, with scheduling points explored at random."""
from . import jt808 as J
from .scenario import Scenario


class ParScenario(Scenario):
    """Adds a pool of terminals with their own connections and concurrent steps."""

    def __init__(self, drv, rng, yields=35, **kw):
        super().__init__(drv, rng, **kw)
        self.yields = yields
        self.n = 0

    def fresh(self):
        """A new connection; returns its script name."""
        self.n += 1
        c = "k%d_" % self.n
        self.open(c)
        return c

    def newterm(self, auth=True, plate=None):
        """A terminal registered (and authenticated) on its own connection."""
        self.n += 1
        p = "t%d" % self.n
        c = self.fresh()
        self.raw(c, self.frame(p, J.REG, l=plate or p))
        if auth:
            self.raw(c, self.frame(p, J.AUTH, "right"))
        return p, c

    def unit_send(self, c, data, at=0):
        return {"op": "send", "conn": self.conns[c], "chunks": [x.hex() for x in self.chunks(data)], "at": at}, {}

    def unit_http(self, kind, p, at=0, **kw):
        op, m = self.http_op(kind, p, **kw)
        op["at"] = at
        return op, m

    def unit_end(self, c, kind, at=0):
        n = self.conns.pop(c)
        self.freed.append(self.addrs[n])
        return {"op": kind, "conn": n, "at": at}, {}

    def par(self, units, fin=(), settle=30):
        self.flush()
        r = self.rng
        ops = [u[0] for u in units]
        meta = {"subs": [u[1] for u in units], "fin": [self.http_op("geo", p) for p in fin]}
        if r.random() < .3:      # everything a little uncertain
            how = {"yield": r.choice([self.yields, 10, 60]), "hold": r.choice([0, 20, 50, 100]), "places": 0, "jitter": r.choice([0, 0, 1000])}
        else:                    # a few long stops
            how = {"yield": 1, "hold": 0, "places": r.choice([1, 2, 2, 3]), "jitter": r.choice([0, 0, 1500, 3000])}
        obs = self.do(dict({"op": "par", "ops": ops, "seed": r.randrange(1 << 30), "settle": settle}, **how), meta)
        self.learn(obs)
        return obs

    # ---- situations --------------------------------------------------------
    def race_register(self):
        """Several registrations for the same plate and/or phone at once."""
        r = self.rng
        kind = r.choice(["plate", "phone", "both", "mixed"])
        units, ps = [], []
        self.n += 1
        base = "r%d" % self.n
        for i in range(r.choice([2, 2, 3, 4])):
            c = self.fresh()
            p = base + ("" if kind in ("phone", "both") or (kind == "mixed" and r.random() < .5) else "_%d" % i)
            l = base + ("" if kind in ("plate", "both") or (kind == "mixed" and r.random() < .5) else "_%d" % i)
            units.append(self.unit_send(c, self.frame(p, J.REG, l=l)))
            ps.append((p, c))
        if r.random() < .5:
            units.append(self.unit_http("list", ps[0][0]))
        self.par(units)
        for p, c in ps:      # free them again, checks that nothing is left over
            if r.random() < .7 and c in self.conns:
                self.raw(c, self.frame(p, J.DEREG))

    def race_remove(self):
        """A removal against other messages of the same terminal on another connection, and a re-registration."""
        r = self.rng
        p, c = self.newterm(auth=r.random() < .8)
        if r.random() < .6:
            self.raw(c, self.frame(p, J.LOC, acc=r.randrange(2)))
        c2, c3 = self.fresh(), self.fresh()
        rem = self.frame(p, J.DEREG) if r.random() < .6 else self.frame(p, J.AUTH, "wrong")
        units = [self.unit_send(c, rem)]
        other = {"heart": lambda: self.frame(p, J.HEART), "loc": lambda: self.frame(p, J.LOC, acc=r.randrange(2)),
                 "auth": lambda: self.frame(p, J.AUTH, "right"), "reg": lambda: self.frame(p, J.REG, l=p),
                 "dereg": lambda: self.frame(p, J.DEREG)}
        for k in (c2, c3)[:r.choice([1, 2, 2])]:
            data = b"".join(other[r.choice(list(other))]() for _ in range(r.choice([1, 1, 2])))
            units.append(self.unit_send(k, data))
        if r.random() < .6:
            units.append(self.unit_http(r.choice(["list", "geo", "pq"]), p))
        self.par(units, fin=[p])
        if r.random() < .5:
            c4 = self.fresh()
            self.raw(c4, self.frame(p, J.REG, l=p))
            self.http("geo", p)
            self.raw(c4, self.frame(p, J.DEREG))

    def race_command(self):
        """Commands to terminals while they authenticate on new connections, disconnect, or answer."""
        r = self.rng
        p, c = self.newterm()
        q, d = self.newterm(auth=r.random() < .5)
        units = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(["pq", "ps", "pq", "invalid"])
            units.append(self.unit_http(k, r.choice([p, p, q])))
        what = r.choice(["move", "close", "reset", "busy", "dereg"])
        if what == "move":
            c2 = self.fresh()
            units.append(self.unit_send(c2, self.frame(p, J.AUTH, "right")))
        elif what in ("close", "reset"):
            units.append(self.unit_end(c, what))
        elif what == "dereg":
            units.append(self.unit_send(c, self.frame(p, J.DEREG)))
        else:
            units.append(self.unit_send(c, self.frame(p, J.HEART) + self.frame(p, J.LOC, acc=1)))
        if r.random() < .5:
            units.append(self.unit_send(d, self.frame(q, J.HEART)))
        self.par(units, settle=2600 if what == "reset" else 30)
        if r.random() < .6:
            c3 = self.fresh()     # maybe on the same address again
            self.http("pq", p)
            self.raw(c3, self.frame(q, J.HEART))

    def race_write(self):
        """Many frames for one connection at once: replies to its requests and commands from HTTP."""
        r = self.rng
        p, c = self.newterm()
        for _ in range(r.choice([1, 2])):
            units = []
            for _ in range(r.choice([2, 3, 4])):
                units.append(self.unit_http(r.choice(["pq", "ps", "ps"]), p))
            k = 0 if len(units) > 3 else r.choice([1, 2])
            msgs = b""
            for _ in range(k):
                msgs += self.frame(p, r.choice([J.HEART, J.LOC]), acc=1)
            if msgs:
                units.append(self.unit_send(c, msgs))
            self.par(units)

    def pieces(self, p, mid, how="right", l=None, acc=1, n=None):
        """A message in fragments, or whole."""
        r = self.rng
        n = n or r.choice([1, 2, 2, 3])
        if n == 1:
            return [self.frame(p, mid, how, l=l, acc=acc)]
        body = self.body(self.term(p), mid, how, l, acc)
        at = sorted(r.randrange(len(body) + 1) for _ in range(n - 1))
        return [self.frame(p, mid, frag=(n, i + 1), body=body[a:b]) for i, (a, b) in enumerate(zip([0] + at, at + [len(body)]))]

    def race_streams(self):
        """Several terminals send at once, in frames cut into pieces; damaged frames and noise between them."""
        r = self.rng
        units, ps, old = [], [], self.cut
        pauses = 0
        new = 0
        for _ in range(r.choice([2, 3, 3, 4])):
            if r.random() < .6:
                p, c = self.newterm(auth=r.random() < .7)
                data = [self.frame(p, r.choice([J.LOC, J.LOC, J.HEART, J.AUTH]), "right", acc=r.randrange(2)) for _ in range(r.choice([1, 2, 2]))]
            else:
                self.n += 1
                p, c = "s%d" % self.n, self.fresh()
                data = [self.frame(p, J.REG, l=p)] + [self.frame(p, J.LOC, acc=1)] * (r.random() < .5)
                new += 1
            if r.random() < .3:
                data.insert(r.randrange(len(data) + 1), r.choice([self.frame(p, J.DEREG, badsum=r.choice([1, 0x7E])), self.frame(p, J.LOC, acc=0, badsum=3)]))
                pauses += 1
            if r.random() < .3:
                data.insert(r.randrange(len(data) + 1), r.choice([b"\x7e\x7e", self.junk()]))
            self.cut = r.choice(["whole", "rand", "bytes"])
            units.append(self.unit_send(c, b"".join(data)))
            self.cut = old
            ps.append((p, c))
        self.par(units, fin=[p for p, _ in ps], settle=30 + 1200 * pauses)
        for p, c in ps:
            if c in self.conns and r.random() < .8:
                self.raw(c, self.frame(p, J.DEREG))

    def race_pieces(self):
        """Messages in fragments from several terminals at once, and of one terminal on two connections."""
        r = self.rng
        units, ps = [], []
        for _ in range(r.choice([1, 2, 3])):
            p, c = self.newterm()
            mids = r.sample([J.LOC, J.LOC, J.AUTH, J.HEART], 2)
            data = self.pieces(p, mids[0], acc=r.randrange(2))
            if r.random() < .3:
                data += self.pieces(p, mids[0], acc=1)
            units.append(self.unit_send(c, b"".join(data)))
            if r.random() < .4 and mids[0] != mids[1]:      # the same terminal, another kind of message, from elsewhere
                units.append(self.unit_send(self.fresh(), b"".join(self.pieces(p, mids[1], acc=r.randrange(2)))))
            ps.append((p, c))
        if r.random() < .4:
            self.n += 1
            p, c = "f%d" % self.n, self.fresh()
            units.append(self.unit_send(c, b"".join(self.pieces(p, J.REG, l=p, n=1))))
            ps.append((p, c))
        self.par(units[:5], fin=[p for p, _ in ps])
        for p, c in ps:
            if c in self.conns:
                self.raw(c, self.frame(p, J.DEREG))

    def race_strangers(self):
        """Terminals nobody knows next to known ones."""
        r = self.rng
        good = [self.newterm() for _ in range(r.choice([1, 2]))]
        units = [self.unit_send(c, self.frame(p, r.choice([J.HEART, J.LOC]), acc=r.randrange(2))) for p, c in good]
        for _ in range(r.choice([1, 2])):
            self.n += 1
            p = "z%d" % self.n
            mid = r.choice([J.HEART, J.LOC, J.DEREG, J.AUTH])
            if r.random() < .3:
                data = self.frame(p, mid, frag=(r.choice([2, 3]), r.choice([1, 1, 2])), body=self.bytes(r.randrange(9)))
            else:
                data = self.frame(p, mid, "wrong", acc=1)
            units.append(self.unit_send(self.fresh(), data + (self.frame(p, J.HEART) if r.random() < .3 else b"")))
        if r.random() < .5:
            units.append(self.unit_http(r.choice(["list", "geo"]), good[0][0]))
        self.par(units, fin=[p for p, _ in good])
        for p, c in good:
            if c in self.conns:
                self.raw(c, self.frame(p, J.DEREG))

    def race_serials(self):
        """Commands only: the numbers they carry."""
        r = self.rng
        p, c = self.newterm()
        for _ in range(3):
            units = [self.unit_http(r.choice(["pq", "ps"]), p) for _ in range(r.choice([1, 2, 4, 6]))]
            if r.random() < .6:      # acknowledgements of fragments take numbers too
                n = r.choice([2, 4, 8])
                mid = r.choice([J.LOC, J.TREPLY, J.AUTH])
                units.append(self.unit_send(c, b"".join(self.frame(p, mid, frag=(n + 1, i + 1), body=self.bytes(r.randrange(5))) for i in range(n))))
            self.par(units)
            if r.random() < .3:
                self.http("oversize", p)
                self.http("pq", p)

    def race_query(self):
        """Queries while the list changes."""
        r = self.rng
        ts = [self.newterm(auth=r.random() < .7) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .5:
            p, c = ts[0]
            self.raw(c, self.frame(p, J.LOC, acc=1))
        units = [self.unit_http("list", ts[0][0])]
        touched = []
        for p, c in ts[:2]:
            touched.append(p)
            k = r.choice(["auth", "loc", "dereg", "wrong", "heart", "loc"])
            f = {"auth": lambda: self.frame(p, J.AUTH, "right"), "loc": lambda: self.frame(p, J.LOC, acc=r.randrange(2)),
                 "dereg": lambda: self.frame(p, J.DEREG), "wrong": lambda: self.frame(p, J.AUTH, "wrong"),
                 "heart": lambda: self.frame(p, J.HEART)}[k]()
            units.append(self.unit_send(c, f))
        if r.random() < .6:
            n = "n%d" % self.n
            units.append(self.unit_send(self.fresh(), self.frame(n, J.REG, l=r.choice([n, ts[0][0]]))))
        units.append(self.unit_http("geo", ts[0][0]))
        if r.random() < .5:
            units.append(self.unit_http("list", ts[0][0]))
        self.par(units[:6], fin=touched)
        for p, c in ts:
            if r.random() < .5 and c in self.conns:
                self.raw(c, self.frame(p, J.DEREG))

    def race_chain(self):
        """One connection sends a whole chain of messages while others look at what becomes of it."""
        r = self.rng
        kind = r.choice(["rereg", "multi", "multi", "first"])
        if kind == "rereg":
            p, c = self.newterm(auth=r.random() < .5)
            if r.random() < .3:
                self.raw(c, self.frame(p, J.LOC, acc=1))
            data = self.frame(p, J.LOC, acc=r.randrange(2)) + self.frame(p, r.choice([J.DEREG, J.DEREG, J.AUTH]), "wrong")
            data += self.frame(p, J.REG, l=p)
            if r.random() < .6:
                data += self.frame(p, J.LOC, acc=r.randrange(2))
            units = [self.unit_send(c, data)]
            if r.random() < .3:
                units.append(self.unit_send(self.fresh(), self.frame(p, J.LOC, acc=r.randrange(2))))
            for _ in range(r.choice([1, 2, 2])):
                units.append(self.unit_http(r.choice(["geo", "geo", "list"]), p))
            self.par(units, fin=[p])
            self.http("geo", p)
            self.raw(c, self.frame(p, J.DEREG))
        elif kind == "first":
            p, c = self.newterm(auth=False)
            data = self.frame(p, J.AUTH, "right") if r.random() < .7 else b""
            for _ in range(r.choice([1, 1, 2])):
                data += self.frame(p, J.LOC, acc=r.choice([0, 0, 1]))
                if r.random() < .3:
                    data += self.frame(p, J.AUTH, "right")
            units = [self.unit_send(c, data)] + [self.unit_http(r.choice(["geo", "geo", "list"]), p) for _ in range(r.choice([1, 2, 3]))]
            self.par(units, fin=[p])
            if r.random() < .5:
                self.raw(c, self.frame(p, J.DEREG))
        else:
            c = self.fresh()
            ps = []
            for _ in range(r.choice([2, 3, 4])):
                self.n += 1
                ps.append("t%d" % self.n)
                self.raw(c, self.frame(ps[-1], J.REG, l=ps[-1]))
            data = b""
            out = set()
            for _ in range(r.choice([2, 4, 5])):
                p = r.choice([x for x in ps if x not in out] or ps)
                k = r.choice(["auth", "auth", "loc", "loc", "dereg", "reg"])
                if p in out:
                    k = "reg"
                if k == "dereg":
                    out.add(p)
                elif k == "reg":
                    out.discard(p)
                data += {"auth": lambda: self.frame(p, J.AUTH, "right"), "loc": lambda: self.frame(p, J.LOC, acc=0),
                         "dereg": lambda: self.frame(p, J.DEREG), "reg": lambda: self.frame(p, J.REG, l=p)}[k]()
            units = [self.unit_send(c, data)] + [self.unit_http(r.choice(["list", "list", "list", "geo"]), ps[0]) for _ in range(r.choice([1, 2, 3]))]
            self.par(units, fin=ps[:2])
            for p in ps:
                if p not in out and c in self.conns and r.random() < .7:
                    self.raw(c, self.frame(p, J.DEREG))

    def race_rejoin(self):
        """A terminal leaves and comes back at the very moment an expiry check of its old registration runs; then silence."""
        r = self.rng
        self.n += 1
        p = "y%d" % self.n
        c = self.fresh()
        t0 = self.raw(c, self.frame(p, J.REG, l=p))["t0"]
        k = 1
        if r.random() < .7:
            self.raw(c, self.frame(p, J.AUTH, "right"))
            k = r.choice([1, 1, 2])
        lead = r.choice([0, 1, 5])
        self.sleep(t0 // 1000 * 1000 + 60000 * k - lead - self.steps[-1]["t"])
        data = self.frame(p, J.DEREG) + self.frame(p, J.REG, l=p)
        units = [self.unit_send(c, data, at=lead)]
        if r.random() < .5:
            units.append(self.unit_http(r.choice(["list", "geo"]), p, at=lead))
        self.par(units, fin=[p])
        if r.random() < .3 and c in self.conns:
            self.raw(c, self.frame(p, J.AUTH, "right"))
        for _ in range(8):
            self.sleep(25000)
        self.http("geo", p)

    def race_expiry(self):
        """Messages at the very moment an expiry check runs."""
        r = self.rng
        self.n += 1
        p = "x%d" % self.n
        c = self.fresh()
        t0 = self.raw(c, self.frame(p, J.REG, l=p))["t0"]
        auth = r.random() < .7
        if auth:
            t = self.raw(c, self.frame(p, J.AUTH, "right"))["t"]
            if r.random() < .3:
                t = self.raw(c, self.frame(p, J.LOC, acc=0))["t"]
        c2 = self.fresh()
        # checks run every 60 s after the registration, on whole seconds
        k = r.choice([2, 3]) if auth else r.choice([1, 2])
        due = t0 // 1000 * 1000 + 60000 * k
        now = self.steps[-1]["t"]
        lead = r.choice([0, 1, 5])
        self.sleep(due - lead - now)
        at = lead
        kinds = {"heart": lambda: self.frame(p, J.HEART), "auth": lambda: self.frame(p, J.AUTH, "right"),
                 "loc": lambda: self.frame(p, J.LOC, acc=0), "reg": lambda: self.frame(p, J.REG, l=p), "dereg": lambda: self.frame(p, J.DEREG)}
        units = []
        for k in (c, c2)[:r.choice([1, 2])]:
            units.append(self.unit_send(k, kinds[r.choice(list(kinds))](), at=at))
        if r.random() < .5:
            units.append(self.unit_http(r.choice(["list", "geo"]), p, at=at))
        self.par(units, fin=[p], settle=20)
        c3 = self.fresh()
        self.raw(c3, self.frame(p, J.REG, l=p))
        self.raw(c3, self.frame(p, J.AUTH, "right"))
        for _ in range(4):
            self.sleep(r.choice([59000, 30000, 59900]))
            self.raw(c3, self.frame(p, J.HEART))
        self.raw(c3, self.frame(p, J.DEREG))

    def race_hostile(self):
        """Bad peers at the same moment as good ones."""
        r = self.rng
        good = [self.newterm() for _ in range(2)]
        units = []
        for p, c in good:
            units.append(self.unit_send(c, self.frame(p, J.HEART) + self.frame(p, J.LOC, acc=1)))
        b = self.fresh()
        units.append(self.unit_end(b, r.choice(["close", "reset"])))
        if r.random() < .5:
            units.append(self.unit_send(self.fresh(), self.frame("stranger", r.choice([J.HEART, J.LOC, J.DEREG]), acc=1)))
        else:
            units.append(self.unit_http("list", good[0][0]))
        self.par(units, fin=[g[0] for g in good], settle=2600)
        for p, c in good:
            self.raw(c, self.frame(p, J.DEREG))

    def play(self, kinds, rounds):
        for _ in range(rounds):
            getattr(self, "race_" + self.rng.choice(kinds))()
        self.flush()
        return self
