"""Turning abstract scripts (from the specification's generator) into concrete stimuli with varied content."""
import datetime
import json

from . import jt808 as J
from .trace import Recorder

PLATE_CHARS = "京沪粤苏浙鲁豫川渝贵ABCDEFGHJKLMNPQRSTUVWXYZabcz0123456789}~{|^-_ .学警港澳"
ASCII = "".join(chr(c) for c in range(32, 127))
DWORD = list(range(1, 8)) + [0x18, 0x19, 0x1B, 0x1C, 0x20, 0x21, 0x22, 0x27, 0x28, 0x29, 0x2C, 0x2D, 0x2E, 0x2F, 0x30, 0x45, 0x46, 0x47] + \
    list(range(0x50, 0x5B)) + [0x64, 0x65, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x93, 0x95, 0x100, 0x102]
WORD = [0x31, 0x5B, 0x5C, 0x5D, 0x5E, 0x81, 0x82, 0x101, 0x103]
BYTE = [0x84, 0x90, 0x91, 0x92, 0x94]
GBK = list(range(0x10, 0x18)) + [0x1A, 0x1D, 0x23, 0x24, 0x25, 0x26, 0x40, 0x41, 0x42, 0x43, 0x44, 0x48, 0x49, 0x83]
TEXT = [0x110]
HEX = [0x32, 0x75, 0x76, 0x77, 0x79, 0x7A, 0x7B, 0x7C]
UNKNOWN = [0, 0x08, 0x0F, 0x1E, 0x33, 0x4A, 0x78, 0x7D, 0x7E, 0x96, 0x104, 0x111, 0xF000, 0x10001, 0x80000001, 0xFFFFFFFF]
BAD_JSON = ["", "{", "[]", '{"paramCnt":"x"}', '{"paramCnt":1,"params":[{"paramId":"a"}]}', '{"params":{"a":1}}', '{"paramCnt":300}',
            '{"paramCnt":-1}', '{"params":[1]}', "\x00\x01", '{"paramCnt":1,"params":[{"paramId":-1,"paramLen":1,"paramValue":1}]}',
            '{"paramCnt":1,"params":[{"paramId":4294967296,"paramLen":1,"paramValue":1}]}']


class Terminal:
    def __init__(self, rng, ver, digits):
        self.ver, self.v19, self.digits = ver, ver == "2019", digits
        self.pver = rng.choice([1, 1, 2, 0x7D, 0x7E, 255, rng.randrange(256)]) if self.v19 else 0
        self.ser = rng.choice([0, 1, 0x7D7E, 0xFFFE, rng.randrange(65536)])
        self.code = None
        self.old = []

    def next(self):
        self.ser = (self.ser + 1) & 0xFFFF
        return self.ser


class Scenario(Recorder):
    def __init__(self, drv, rng, versions=("2011", "2013", "2019"), cut="whole", batch=0.0, reuse=0.3, noise=0.0, settle=20):
        super().__init__(drv)
        self.rng, self.versions, self.cut, self.batch, self.reuse, self.noise, self.settle = rng, versions, cut, batch, reuse, noise, settle
        self.terms, self.plates, self.conns, self.addrs, self.freed = {}, {}, {}, {}, []
        self.nconn = 0
        self.frags = {}
        self.pend = None   # [conn, bytes, npause]
        self.used = set()
        self.fixedbits = None
        self.clock = self.lastloc = None

    # ---- content -----------------------------------------------------------
    def digits(self, ver):
        r = self.rng
        while True:
            n = r.choice([12, 12, 11, 11, 10, 9, 8, 3, 1]) if ver != "2019" else r.choice([20, 20, 19, 18, 16, 12, 11, 11, 10, 4])
            d = "".join(r.choice("0123456789") for _ in range(n))
            if r.random() < 0.3:
                d = "0" * r.randrange(1, 4) + d[3:] if len(d) > 6 else d
                d = d[:n].rjust(n, "1")
            if self.used and r.random() < 0.3:      # almost like another one
                o = r.choice(sorted(self.used))
                d = r.choice(["0" + o, o + "0", o[1:], o[:-1], o[::-1], o.lstrip("0"), "86" + o])
                d = d[-20:] if ver == "2019" else d[-12:]
            if d and d not in self.used:
                self.used.add(d)
                return d

    def term(self, p):
        if p not in self.terms:
            v = self.rng.choice(self.versions)
            self.terms[p] = Terminal(self.rng, v, self.digits(v))
        return self.terms[p]

    def plate(self, l):
        if l not in self.plates:
            while True:
                s = "".join(self.rng.choice(PLATE_CHARS) for _ in range(self.rng.choice([7, 7, 7, 6, 8, 1, 9, 0])))
                if self.plates and self.rng.random() < 0.4:      # almost like another one
                    o = self.rng.choice(sorted(self.plates.values()))
                    s = self.rng.choice([o + " ", " " + o, o.swapcase(), o[:-1], o + "0", o[::-1], o[1:] + o[:1]]) or s
                    s = s if 0 < len(s.encode("gbk")) <= 20 else "A"
                if s not in self.plates.values():
                    break
            self.plates[l] = s
        return self.plates[l]

    def bytes(self, n):
        r = self.rng
        return bytes(r.choice([0x7E, 0x7D, 0x01, 0x02, 0x00, 0xFF]) if r.random() < 0.35 else r.randrange(256) for _ in range(n))

    def word(self, n):
        return int.from_bytes(self.bytes(n), "big")

    def asc(self, n):
        """Printable text; now and then with blanks at its ends."""
        b = bytearray(self.rng.choice(ASCII).encode()[0] for _ in range(n))
        if n > 1 and self.rng.random() < 0.2:
            b[self.rng.choice([0, -1])] = 32
        return bytes(b)

    def reg_body(self, t, l):
        r = self.rng
        ver = t.ver if t.v19 else r.choice([v for v in self.versions if v != "2019"] or [t.ver])
        w = {"2011": 7, "2013": 7, "2019": 30}[ver]
        plate = self.plate(l).encode("gbk")
        if ver == "2013" and not plate:            # would be read as 2011
            ver = "2011"
        if ver == "2011" and len(plate) > 12:      # a longer body would be read as 2013
            ver = "2013"
        # what distinguishes 2011 from 2013 is the length: 2013 has at least one plate byte beyond 33
        return J.reg_body(ver, self.word(2), self.word(2), self.asc(r.randrange(6)), self.asc(r.randrange(9)),
                          self.asc(r.choice([w, w - 1, r.randrange(1, w + 1)])), r.randrange(10), plate)

    def auth_body(self, t, how):
        r = self.rng
        cur = t.code if t.code is not None else b"?"
        if how == "right":
            code = cur
        else:
            opts = [cur[:-1], cur + b"0", b"", b"AuthCode", cur[::-1], cur.swapcase(), b"\0" + cur, cur[1:], b"0", t.digits.encode(), cur + b"\0",
                    b"0" + cur, b" " + cur, cur + b" ", b"+" + cur, cur + b".0", cur + cur, b"%08x" % int(cur or 0) if cur.isdigit() else b"z"]
            if cur:
                i = r.randrange(len(cur))
                opts += [cur[:i] + bytes([cur[i] ^ r.choice([1, 2, 3, 0x10, 0x80])]) + cur[i + 1:]] * 4
                if cur.isdigit():
                    opts += [b"%d" % (int(cur) + r.choice([1, -1, 2**32, 2**16, -2**16, 2**31]))] * 3
            opts += t.old + [x.code for x in self.terms.values() if x.code and x is not t]
            opts = [o for o in opts if o != cur and len(o) < 250] or [b"x"]
            code = r.choice(opts)
        sw = self.asc(r.choice([20, 19, r.randrange(1, 20)]))
        imei = self.asc(15) if r.random() < 0.5 else "".join(r.choice("0123456789") for _ in range(15)).encode()
        return J.auth_body(t.ver, code, imei, sw)

    def time6(self):
        r = self.rng
        if self.clock is not None and r.random() < .6:      # shortly after, at, or before the last one
            d = r.choice([0, 1, 1, 30, 3600, 86400, -1, -1, -30, -600, -3600, -7200, -86400])
            t = self.clock + datetime.timedelta(seconds=d)
        else:
            t = datetime.datetime(2000 + r.randint(0, 68), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        if t.day > 28 or not 2000 <= t.year <= 2068:
            t = t.replace(day=1, year=2024)
        self.clock = t
        return bytes.fromhex(t.strftime("%y%m%d%H%M%S"))

    def loc_body(self, acc):
        r = self.rng
        st = self.word(4)
        if self.fixedbits is not None:
            st = self.fixedbits()
        st = (st & ~1) | (acc & 1)
        extra = b""
        for _ in range(r.choice([0, 0, 0, 1, 3])):
            n = r.randrange(1, 9)
            extra += bytes([r.choice([1, 2, 3, 4, 0x25, 0x30, 0x31]), n]) + self.bytes(n)
        f = [self.word(4), st, self.word(4), self.word(4), self.word(2), self.word(2), r.randrange(360) if r.random() < .7 else self.word(2), self.time6()]
        if self.lastloc and r.random() < .25:      # like the last one but for a field or two
            keep = set(r.sample(range(8), r.choice([5, 6, 7])))
            f = [self.lastloc[i] if i in keep else f[i] for i in range(8)]
            f[1] = (f[1] & ~1) | (acc & 1)
        elif r.random() < .1:                      # standing still, or nowhere
            for i in r.sample([0, 2, 3, 4, 5, 6], r.choice([1, 2, 4])):
                f[i] = 0
        if self.fixedbits is not None:
            f[1] = st
        self.lastloc = f
        return J.loc_body(*f, extra)

    def plist_body(self):
        r = self.rng
        n = r.randrange(0, 4)
        b = self.word(2).to_bytes(2, "big") + bytes([n])
        for _ in range(n):
            b += r.choice(DWORD).to_bytes(4, "big") + b"\x04" + self.bytes(4)
        return b

    def body(self, t, mid, how="", l=None, acc=1):
        if mid == J.REG:
            return self.reg_body(t, l)
        if mid == J.AUTH:
            return self.auth_body(t, how)
        if mid == J.LOC:
            return self.loc_body(acc)
        if mid == J.TREPLY:
            return self.bytes(4) + bytes([self.rng.randrange(5)])
        if mid == J.PLIST:
            return self.plist_body()
        if mid == J.MLIST:
            return self.bytes(2) + (1).to_bytes(4, "big") + bytes([1]) + self.time6() + self.time6() + self.bytes(15)
        if mid in (J.HEART, J.DEREG):
            return b""
        if mid == J.RREPLY:
            return self.bytes(2) + b"\0" + self.asc(6)
        if mid == J.GREPLY:
            return self.bytes(2) + self.rng.choice([J.AUTH, J.REG, J.HEART]).to_bytes(2, "big") + bytes([self.rng.choice([0, 0, 1])])
        return b"" if mid == J.PQUERY else b"\0"

    def frame(self, p, mid, how="", l=None, acc=1, badsum=0, frag=None, body=None):
        t = self.term(p)
        if body is None:
            body = self.body(t, mid, how, l, acc)
        return J.frame(mid, t.digits, body, t.next(), t.v19, t.pver, frag, badsum)

    # ---- operations --------------------------------------------------------
    def open(self, c, addr=None):
        self.flush()
        self.nconn += 1
        name = "%s%d" % (c, self.nconn)
        if addr is None:
            if self.freed and self.rng.random() < self.reuse:
                addr = self.freed.pop(self.rng.randrange(len(self.freed)))
            else:
                addr = "10.%d.%d.%d:%d" % (self.rng.randrange(1, 250), self.nconn % 250, self.rng.randrange(1, 250), self.rng.randrange(1024, 65000))
        self.conns[c], self.addrs[name] = name, addr
        self.do({"op": "open", "conn": name, "addr": addr})
        return name

    def gone(self, c, rst=False):
        self.flush()
        n = self.conns.get(c)
        if n is None:
            return
        # a reset keeps the server's session for a second
        self.do({"op": "reset" if rst else "close", "conn": n, "settle": 2500 if rst else 50})
        self.freed.append(self.addrs[n])
        del self.conns[c]

    def chunks(self, data):
        r = self.rng
        if self.cut == "whole" or len(data) < 2:
            return [data]
        if self.cut == "bytes":
            return [data[i:i + 1] for i in range(len(data))]
        k = r.choice([1, 2, 3, 5, 8])
        at = sorted(r.sample(range(1, len(data)), min(k, len(data) - 1)))
        # cuts next to delimiters and escapes are the interesting ones
        hot = [i for i in range(1, len(data)) if data[i] in (0x7E, 0x7D) or data[i - 1] in (0x7E, 0x7D)]
        if hot and r.random() < 0.7:
            at = sorted(set(at) | set(r.sample(hot, min(len(hot), r.randrange(1, 4)))))
        return [data[a:b] for a, b in zip([0] + at, at + [len(data)])]

    def raw(self, c, data, pauses=0, gap=None):
        """Send bytes now (flushes anything pending on other connections)."""
        n = self.conns.get(c)
        if n is None:
            return None
        ch = self.chunks(data)
        if gap is None:
            gap = self.rng.choice([0, 0, 1, 7]) if len(ch) > 1 else 0
        op = {"op": "send", "conn": n, "chunks": [x.hex() for x in ch], "gap": gap, "settle": self.settle + 1100 * pauses}
        obs = self.do(op, {"late": bool(gap or pauses)})
        self.learn(obs)
        return obs

    def bulk(self, c, data):
        """Send a lot at once; only the serial numbers of the frames written back are recorded."""
        self.flush()
        op = {"op": "send", "conn": self.conns[c], "chunks": [data.hex()], "settle": self.settle, "nosnap": True}
        return self.do(op, {"bulk": True})

    def junk(self):
        r = self.rng
        return bytes(b for b in self.bytes(r.randrange(0, 12)) if b != 0x7E)

    def send(self, c, data, pauses=0):
        """Send a frame, possibly merged with the following ones on the same connection."""
        if self.noise and self.rng.random() < self.noise:
            data = self.rng.choice([self.junk() + data, data + self.junk(), b"\x7e" * self.rng.randrange(1, 4) + data, data])
        if self.pend and self.pend[0] != c:
            self.flush()
        if self.pend:
            self.pend[1] += data
            self.pend[2] += pauses
        else:
            self.pend = [c, data, pauses]
        if not (self.batch and self.rng.random() < self.batch):
            self.flush()

    def flush(self):
        if self.pend:
            c, d, n = self.pend
            self.pend = None
            self.raw(c, d, n)

    def learn(self, obs):
        for h in obs["out"].values():
            for mid, phone, _, body in J.parse_stream(bytes.fromhex(h)):
                if mid == J.RREPLY and len(body) > 3 and body[2] == 0:
                    for t in self.terms.values():
                        if t.digits == phone:
                            if t.code is not None:
                                t.old.append(t.code)
                            t.code = body[3:]

    def sleep(self, ms):
        self.flush()
        self.do({"op": "sleep", "ms": ms})

    def http_op(self, kind, p, params=None, body=None):
        phone = p if isinstance(p, str) and p not in self.terms else self.term(p).digits
        if kind == "list":
            return {"op": "http", "method": "GET", "path": "/device"}, {"m": "list"}
        if kind == "geo":
            return {"op": "http", "method": "GET", "path": "/device/%s/geo" % phone}, {"m": "geo", "phone": phone}
        if kind == "pq":
            return {"op": "http", "method": "GET", "path": "/device/%s/params" % phone}, {"m": "pq", "phone": phone, "valid": True}
        if kind == "invalid":
            return ({"op": "http", "method": "PUT", "path": "/device/%s/params" % phone, "body": body if body is not None else self.rng.choice(BAD_JSON)},
                    {"m": "ps", "phone": phone, "valid": False})
        if params is None:
            params = {"ps": self.params, "oversize": self.oversize, "mistyped": self.mistyped}[kind]()
        cnt = self.rng.choice([len(params) % 256, 0, self.rng.randrange(256)])
        return ({"op": "http", "method": "PUT", "path": "/device/%s/params" % phone, "body": json.dumps({"paramCnt": cnt, "params": params})},
                {"m": "ps", "phone": phone, "valid": True, "params": params})

    def http(self, kind, p, **kw):
        self.flush()
        op, meta = self.http_op(kind, p, **kw)
        op["settle"] = 5
        return self.do(op, meta)

    # ---- parameters --------------------------------------------------------
    def pvalue(self, pid):
        r = self.rng
        odd = r.random() < 0.25
        if pid in DWORD:
            return r.choice([2**32, -1, 1.5, 2**40, 1e10]) if odd else r.choice([0, 1, 255, 256, 0x7D7E7D7E, 2**31, 2**32 - 1, r.randrange(2**32)])
        if pid in WORD:
            return r.choice([65536, -1, 0.5, 2**33]) if odd else r.choice([0, 1, 0x7E7D, 65535, r.randrange(65536)])
        if pid in BYTE:
            return r.choice([256, -1, 3.25]) if odd else r.choice([0, 0x7E, 0x7D, 255, r.randrange(256)])
        if pid in GBK:
            if odd:
                return r.choice(["\U0001F697", "ü€ğ", "x" * 256, "京" * 128])
            return "".join(r.choice(PLATE_CHARS + ".:/_ ") for _ in range(r.choice([0, 1, 12, r.randrange(1, 40), 127])))
        if pid in TEXT:
            return "y" * 256 if odd else "".join(r.choice(ASCII + "京ü") for _ in range(r.choice([0, 3, 20, 80, 255])))
        if pid in HEX:
            return r.choice(["zz", "abc", "0g", "7" * 600]) if odd else self.bytes(r.choice([0, 1, 4, 20])).hex()
        return r.choice([1, "x", 2**20, ""])

    def params(self):
        r = self.rng
        res = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            pid = r.choice(r.choice([DWORD, WORD, BYTE, GBK, TEXT, HEX, UNKNOWN]))
            res.append({"paramId": pid, "paramLen": r.randrange(256), "paramValue": self.pvalue(pid)})
        while self.psize(res) > 1000:
            res.pop()
        return res

    @staticmethod
    def psize(ps):
        return 1 + sum(5 + (2 * len(p["paramValue"]) if isinstance(p["paramValue"], str) else 4) for p in ps)

    def oversize(self):
        r = self.rng
        n = r.choice([4, 5, 6])
        return [{"paramId": r.choice(GBK), "paramLen": 1, "paramValue": "z" * r.choice([250, 255])} for _ in range(n)] + \
               [{"paramId": r.choice(DWORD), "paramLen": 4, "paramValue": 1} for _ in range(r.randrange(40))]

    def mistyped(self):
        r = self.rng
        pid = r.choice(DWORD + WORD + BYTE + GBK + TEXT + HEX)
        v = "12" if pid in DWORD + WORD + BYTE else 12
        if r.random() < 0.3:
            v = r.choice([None, True, [1], {"a": 1}])
        res = self.params()[:2]
        res.insert(r.randrange(len(res) + 1), {"paramId": pid, "paramLen": 4, "paramValue": v})
        return res

    # ---- scripts -----------------------------------------------------------
    def frag_piece(self, p, mid, total, index):
        r = self.rng
        t = self.term(p)
        if index == 1:
            body = self.body(t, mid, "right", l=p, acc=r.randrange(2)) if mid in (J.AUTH, J.LOC, J.HEART, J.REG) else self.bytes(9)
            k = max(total, 1)
            at = sorted(r.randrange(len(body) + 1) for _ in range(k - 1))
            self.frags[(p, mid)] = [body[a:b] for a, b in zip([0] + at, at + [len(body)])]
        pieces = self.frags.get((p, mid), [])
        return pieces[index - 1] if 0 < index <= len(pieces) else self.bytes(r.randrange(0, 9))

    def act(self, e):
        a, r = e["a"], self.rng
        if a == "open":
            self.open(e["c"])
        elif a in ("close", "reset"):
            self.gone(e["c"], a == "reset")
        elif a == "msg":
            quiet = e["id"] >= 0x8000 or e["id"] == 1792
            mid = e["id"]
            if mid == 1792:
                mid = r.choice([0x0700, 0x0000, 0x0004, 0x0101, 0x0103, 0x0201, 0x0704, 0x1206, 0x7FFF])
            self.send(e["c"], self.frame(e["p"], mid, e["how"], e["l"], e["acc"]), 1 if quiet else 0)
            if e["id"] == J.REG:
                self.flush()
        elif a == "bad":
            if r.random() < 0.5:
                f = self.frame(e["p"], e["id"], "right", e["l"], r.randrange(2), badsum=r.choice([1, 2, 0x80, 0x7E, r.randrange(1, 256)]))
            else:
                t = self.term(e["p"])
                b = self.body(t, e["id"], "right", e["l"], r.randrange(2))
                if e["id"] == J.LOC and r.random() < 0.4:
                    b += b"\x30\xff" + self.bytes(255) + b"\x30\xff" + self.bytes(255) + b"\x30\xff" + self.bytes(255)
                c = bytearray(J.content(e["id"], t.digits, b, t.next(), t.v19, t.pver))
                k = J.xor(bytes(c))
                c[r.randrange(len(c))] ^= r.choice([1, 0x10, r.randrange(1, 256)])
                f = b"\x7e" + J.escape(bytes(c) + bytes([k])) + b"\x7e"
            self.send(e["c"], f, 1)
        elif a == "frag":
            mid = e["id"]
            piece = self.frag_piece(e["p"], mid, e["total"], e["index"])
            self.send(e["c"], self.frame(e["p"], mid, frag=(e["total"], e["index"]), body=piece), 1 if mid == 1792 else 0)
        elif a in ("geo", "pq", "ps", "invalid", "oversize", "mistyped"):
            self.http(a, e["p"])
        elif a == "tick":
            self.sleep(e["ms"])
        else:
            raise ValueError(a)

    def run(self, script):
        for e in script:
            self.act(e)
        self.flush()
        return self
