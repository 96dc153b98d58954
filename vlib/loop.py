"""The closed loop: the real server and the real simulated terminal, in two processes, joined by relaying their bytes."""
import json

from .sut import Driver
from .term import TermScenario, device


class LoopScenario(TermScenario):
    def __init__(self, drv, exe, work, rng):
        super().__init__(drv, rng)
        self.srv = Driver(exe, work)
        self.sent, self.reg, self.gone = {}, set(), set()

    def close(self):
        self.srv.close()

    def server(self, op):
        obs = self.srv.op(op)
        self.back = {c: bytes.fromhex(h) for c, h in obs["out"].items()}
        return obs

    def relay(self, obs, srvobs=None):
        """Carry bytes both ways until nothing is under way."""
        up = {c: bytes.fromhex(h) for c, h in obs["out"].items()} if obs else {}
        down = {c: bytes.fromhex(h) for c, h in srvobs["out"].items()} if srvobs else {}
        for _ in range(40):
            if not up and not down:
                break
            nup, ndown = {}, dict(down)
            for c, b in up.items():
                if c not in self.gone:
                    o = self.srv.op({"op": "send", "conn": c, "chunks": self.cut(b)})
                    for k, h in o["out"].items():
                        ndown[k] = ndown.get(k, b"") + bytes.fromhex(h)
            for c, b in ndown.items():
                o = self.do({"op": "send", "conn": c, "chunks": self.cut(b)})
                for k, h in o["out"].items():
                    nup[k] = nup.get(k, b"") + bytes.fromhex(h)
            up, down = nup, {}

    def look(self):
        """A step at which nothing is under way: what the platform shows of every terminal."""
        o = self.srv.op({"op": "sleep", "ms": 1})
        by = {d.get("phone"): d for d in (o.get("devs") or []) if isinstance(d, dict)}
        peer = []
        for c, ph in self.phones.items():
            if c in self.gone:
                continue
            d = by.get(ph)
            geo = sent = []
            if c in self.sent and d is not None:
                r = self.srv.op({"op": "http", "method": "GET", "path": "/device/%s/geo" % ph})["http"][0]
                try:
                    g = json.loads(r["body"])["gis"]
                    geo = [round(g["location"]["latitude"] * 1e6), round(g["location"]["longitude"] * 1e6), g["location"]["altitude"],
                           round(g["drive"]["speed"] * 10), g["drive"]["direction"]]
                except (ValueError, KeyError, TypeError):
                    geo = [-1]
                sent = self.sent[c]
            peer.append({"conn": c, "status": d["status"] if d else 0, "geo": geo, "sent": sent})
        self.do({"op": "sleep", "ms": 1}, {"peer": peer})

    def join(self, same=None):
        n = len(self.phones)
        dev = device(self.rng, n)
        if same:
            dev["plate"] = self.dev[same]["plate"]
        self.srv.op({"op": "open", "conn": "t%d" % n, "addr": "10.9.0.%d:1" % (n + 1)})
        c = "t%d" % n
        o = self.do({"op": "cliopen", "conn": c, "addr": "10.9.0.%d:1" % (n + 1), "dev": dev, "kind": "register"})
        self.relay(o)
        return c

    def loop(self, n):
        r = self.rng
        live = [self.join()]
        self.look()
        for _ in range(n):
            x = r.random()
            c = r.choice(live)
            ph = self.phones[c]
            if x < .12:
                live.append(self.join())
            elif x < .17:
                d = self.join(same=c)          # refused: the plate is taken
                self.look()
                self.gone.add(d)
            elif x < .3:
                self.relay(self.do({"op": "clisend", "conn": c, "kind": "0002"}))
            elif x < .5:
                w = [r.getrandbits(32), r.getrandbits(32) | 1, r.randrange(90000001), r.randrange(180000001), r.getrandbits(16), r.randrange(3000), r.randrange(361)]
                o = self.do({"op": "clisend", "conn": c, "kind": "0200", "words": w, "body": self.time6().hex()})
                self.sent[c] = w[2:]
                self.relay(o)
            elif x < .7:
                self.relay(None, self.srv.op({"op": "http", "method": "GET", "path": "/device/%s/params" % ph}))
            else:
                self.relay(None, self.srv.op({"op": "http", "method": "PUT", "path": "/device/%s/params" % ph, "body": self.jparams()}))
            if r.random() < .4:
                self.look()
        self.look()

    def jparams(self):
        r = self.rng
        ps = []
        for _ in range(r.choice([1, 2, 5])):
            i, v = r.choice([(1, r.getrandbits(32)), (0x31, r.getrandbits(16)), (0x84, r.getrandbits(8)), (0x13, "中心" + str(r.randrange(999))),
                             (0x83, "京A%05d" % r.randrange(99999)), (0x32, r.randbytes(4).hex()), (0x110, "ABC"), (0x29, r.choice([0, 1, 3600]))])
            ps.append({"paramId": i, "paramLen": 0, "paramValue": v})
        return json.dumps({"paramCnt": len(ps), "params": ps})
