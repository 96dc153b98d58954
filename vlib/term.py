"""The real simulated terminal, driven from the platform's side and recorded for TerminalTrace.tla."""
import string

from . import jt808 as J
from .trace import gbk, nibs, text

# kind of each parameter, for choosing values (what is right is decided by Params.tla)
NUM = {4: list(range(1, 8)) + [24, 25, 27, 28, 32, 33, 34, 39, 40, 41, 44, 45, 46, 47, 48, 69, 70, 71] + list(range(80, 91))
       + [100, 101] + list(range(112, 117)) + [128, 147, 149, 256, 258],
       2: [49, 91, 92, 93, 94, 129, 130, 257, 259], 1: [132, 144, 145, 146, 148]}
TXT = list(range(16, 24)) + [26, 29] + list(range(35, 39)) + list(range(64, 69)) + [72, 73, 131]
RAW = [50, 117, 118, 119, 121, 122, 123, 124]
PLAIN = [272]
PLATES = "京沪粤津渝冀晋辽"


class TermRecorder:
    """One process with simulated terminals, recorded."""
    MODULE = "TerminalTrace"

    def __init__(self, drv, rng=None):
        self.drv, self.ops, self.steps, self.rng = drv, [], [], rng
        self.phones = {}       # connection -> phone digits
        self.dev = {}

    def do(self, op, meta=None):
        meta = meta or {}
        self.ops.append([op, meta])
        obs = self.drv.op(op)
        st = {"opens": [], "ins": [], "cmds": [], "enc": [], "out": [[c, list(bytes.fromhex(h))] for c, h in sorted(obs["out"].items())],
              "alive": [[c, a] for c, a in sorted((obs.get("alive") or {}).items())], "status": [], "snap": obs.get("devs") is not None, "peer": meta.get("peer", [])}
        if op["op"] == "cliopen":
            d = op["dev"]
            v19 = d["ver"] == "2019"
            self.dev[op["conn"]] = d
            self.phones[op["conn"]] = d["phone"].rjust(20 if v19 else 12, "0")
            st["opens"].append({"conn": op["conn"], "phone": nibs(self.phones[op["conn"]]), "v19": v19, "imei": text(d["imei"]), "sw": text(d["sw"])})
            if op.get("kind") == "register":
                st["cmds"].append([op["conn"], [{"id": J.REG, "body": [], "plate": gbk(d["plate"]), "did": text(d["id"])}]])
        elif op["op"] == "send":
            st["ins"].append([op["conn"], list(b"".join(bytes.fromhex(h) for h in op["chunks"]))])
        elif op["op"] == "clisend":
            body = b""
            if op["kind"] == "0200":
                w = op["words"]
                body = J.loc_body(w[0], w[1] & 0x7FFF3F, w[2], w[3], w[4], w[5], w[6], bytes.fromhex(op["body"]))
            st["cmds"].append([op["conn"], [{"id": int(op["kind"], 16), "body": list(body), "plate": [], "did": []}]])
        elif op["op"] == "geoenc":
            st["enc"] = [[list(a.to_bytes(4, "big")), list(b.to_bytes(4, "big"))] for a, b in zip(op["words"], obs.get("ints") or [])]
        by = {tuple(nibs(d.get("phone", ""))): d.get("status", -1) for d in (obs.get("devs") or []) if isinstance(d, dict)}
        st["status"] = [[c, by.get(tuple(nibs(p)), -1)] for c, p in sorted(self.phones.items())]
        self.steps.append(st)
        return obs


def device(rng, n):
    """A random terminal identity."""
    v = rng.choice(["2013", "2019", "2013", "2019", "2011"])
    width = 20 if v == "2019" else 12
    s = lambda k: "".join(rng.choice(string.ascii_uppercase + string.digits) for _ in range(k))
    digits = "%d" % (n + 1) + "".join(rng.choice(string.digits) for _ in range(rng.choice([3, 10, width - 1]) if rng.random() < .4 else width - 1))
    return {"phone": digits[:width], "id": s(rng.choice([7, 7, 3, 6]) if v != "2019" else rng.choice([7, 30, 12])),
            "plate": rng.choice(PLATES) + s(rng.choice([6, 7])), "imei": "".join(rng.choice(string.digits) for _ in range(rng.choice([15, 15, 12, 0]))),
            "sw": s(rng.choice([0, 5, 19, 20])), "ver": v}


class TermScenario(TermRecorder):
    def open(self, kind="", dev=None):
        n = len(self.phones)
        c = "t%d" % n
        self.do({"op": "cliopen", "conn": c, "addr": "10.9.0.%d:1" % (n + 1), "dev": dev or device(self.rng, n), "kind": kind})
        return c

    def frame(self, c, mid, body, badsum=0):
        v19 = self.dev[c]["ver"] == "2019"
        return J.frame(mid, self.phones[c], body, self.rng.choice([0, 1, 65535, 0x7E7D, self.rng.randrange(65536)]), v19, 1, None, badsum)

    def value(self, i):
        r = self.rng
        for k, ids in NUM.items():
            if i in ids:
                return r.choice([b"\0" * k, b"\xff" * k, b"\x7e" * k, r.randbytes(k), r.randbytes(k)])
        if i in TXT:
            t = "".join(r.choice(string.ascii_letters + "终端参数测试0123") for _ in range(r.choice([0, 1, 5, 16, 40])))
            return t.encode("gbk")
        if i in PLAIN:
            return "".join(r.choice(string.ascii_letters) for _ in range(r.choice([1, 8, 30]))).encode()
        return r.randbytes(r.choice([0, 1, 4, 15, 60]))

    def params(self, few):
        """A parameter list; ids may repeat, some are unknown to the terminal."""
        r = self.rng
        known = [i for ids in NUM.values() for i in ids] + TXT + RAW + PLAIN
        n = r.choice([0, 1, 1, 2, 3, 5]) if few else r.randrange(12, 24)
        pool = r.sample(known, 4) if r.random() < .4 else known
        items, size = [], 1
        for _ in range(n):
            i = r.choice(pool) if r.random() > .1 else r.choice([8, 0x99, 0x7D7E, 0xF001, 0xFFFFFFFF])
            v = self.value(i)
            if size + 5 + len(v) <= (300 if few else 700):
                items.append(i.to_bytes(4, "big") + bytes([len(v)]) + v)
                size += 5 + len(v)
        return bytes([len(items)]) + b"".join(items)

    def time6(self):
        r = self.rng
        return bytes.fromhex("%02d%02d%02d%02d%02d%02d" % (r.choice([0, 23, 68, r.randrange(69)]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)))

    def code(self, c):
        r = self.rng
        n = r.choice([0, 1, 8, 15, 64, 255, r.randrange(256)] + ([900] if self.dev[c]["ver"] != "2019" else []))
        return r.choice([r.randbytes(n), bytes(n), ("%0*d" % (n, 7)).encode()[:n], b"\x7e\x7d" * (n // 2)])

    def message(self, c, kind):
        r = self.rng
        ser = lambda: r.randrange(65536).to_bytes(2, "big")
        if kind == "regok":
            return self.frame(c, J.RREPLY, ser() + b"\0" + self.code(c))
        if kind == "regno":
            return self.frame(c, J.RREPLY, ser() + bytes([r.choice([1, 2, 3, 4])]) + r.choice([b"", b"CODE"]))
        if kind == "ok":
            return self.frame(c, J.GREPLY, ser() + r.choice([b"\x01\x02", b"\x00\x02", b"\x02\x00"]) + b"\0")
        if kind == "no":
            return self.frame(c, J.GREPLY, ser() + r.choice([b"\x01\x02", b"\x00\x02"]) + bytes([r.choice([1, 2, 3, 4])]))
        if kind == "set":
            return self.frame(c, J.PSET, self.params(True))
        if kind == "setmany":
            return self.frame(c, J.PSET, self.params(False))
        if kind == "query":
            return self.frame(c, J.PQUERY, b"")
        if kind == "media":
            return self.frame(c, J.MQUERY, bytes([r.randrange(256)]) + self.time6() + self.time6() + r.randbytes(11))
        if kind == "bad":
            return self.frame(c, r.choice([J.GREPLY, J.RREPLY, J.PSET]), ser() + b"\0" + b"\0\0", badsum=r.randrange(1, 256))
        if kind == "unsup":
            return self.frame(c, r.choice([0x8003, 0x8300, 0x9999]), r.randbytes(r.randrange(20)))
        raise KeyError(kind)

    def cut(self, data):
        r = self.rng
        k = r.choice([1, 1, 2, 3, 6])
        pts = sorted(r.randrange(len(data) + 1) for _ in range(k - 1))
        return [data[a:b].hex() for a, b in zip([0] + pts, pts + [len(data)]) if b > a]

    def give(self, c, kinds):
        """Messages to a terminal in one go, with at most one that makes it pause for a second, which is then waited for."""
        n = next((i for i, k in enumerate(kinds) if k in ("bad", "unsup")), len(kinds))
        m = next((i for i, k in enumerate(kinds) if k in ("bad", "unsup") and i > n), len(kinds))
        self.do({"op": "send", "conn": c, "chunks": self.cut(b"".join(self.message(c, k) for k in kinds[:m]))})
        if n < len(kinds):
            self.do({"op": "sleep", "ms": 1500})
        if m < len(kinds):
            self.give(c, kinds[m:])

    def play(self, terms, steps):
        r = self.rng
        cs = [self.open(kind=r.choice(["register", "register", ""])) for _ in range(terms)]
        kinds = ["regok"] * 4 + ["ok"] * 3 + ["no"] * 3 + ["set"] * 6 + ["setmany"] + ["query"] * 6 + ["media"] * 3 + ["bad"] * 2 + ["unsup"]
        for _ in range(steps):
            c = r.choice(cs)
            x = r.random()
            if x < .08:
                self.do({"op": "clisend", "conn": c, "kind": "0002"})
            elif x < .18:
                self.location(c, r.getrandbits(32))
            elif x < .2 and len(cs) > 1:
                self.give(c, ["regno"] + ([r.choice(kinds)] if r.random() < .5 else []))
                self.give(c, [r.choice(kinds)])
                cs.remove(c)
            elif x < .22:
                cs.append(self.open(kind="register"))
            else:
                self.give(c, [r.choice(kinds) for _ in range(r.choice([1, 1, 1, 2, 4]))])
        for c in cs:
            self.give(c, ["query"])

    def location(self, c, word):
        r = self.rng
        self.do({"op": "clisend", "conn": c, "kind": "0200", "words": [r.getrandbits(32), word, r.randrange(90000001), r.randrange(180000001), r.getrandbits(16),
                 r.randrange(3000), r.randrange(361)], "body": self.time6().hex()})

    def flags(self, n):
        """Status words through the terminal's encoder: every single bit, every pair, random words."""
        r = self.rng
        words = [0, 0xFFFFFFFF] + [1 << i for i in range(32)] + [(1 << i) | (1 << j) for i in range(32) for j in range(i)]
        words += [0xFFFFFFFF ^ (1 << i) for i in range(32)] + [r.getrandbits(32) for _ in range(n)]
        for k in range(0, len(words), 400):
            self.do({"op": "geoenc", "words": words[k:k + 400]})
        c = self.open()
        for w in [0, 0xFFFFFFFF] + [1 << i for i in range(32)] + [r.getrandbits(32) for _ in range(20)]:
            self.location(c, w)

    def params_round(self, n):
        """Settings and queries only."""
        r = self.rng
        cs = [self.open() for _ in range(2)]
        for _ in range(n):
            c = r.choice(cs)
            self.give(c, r.choice([["set"], ["set", "query"], ["query"], ["set", "set", "query"], ["setmany", "query"]]))
        for c in cs:
            self.give(c, ["query"])
