"""Messages through the real codec, recorded for MessagesTrace.tla."""
import json
import random
import string

from . import jt808 as J
from .term import NUM, PLAIN, RAW, TXT
from .trace import gbk, items, nibs, text

QTIME, RTIME = 0x0004, 0x8004
MEDIA = [("logicChannelId", 1), ("startTime", "t"), ("endTime", "t"), ("alarmSign", 4), ("alarmSignExt", 4), ("mediaType", 1), ("streamType", 1), ("storageType", 1)]
GENERAL = [("answerSerialNumber", 2), ("answerMessageId", 2), ("result", 1)]
# message -> its fields in the order of the protocol's tables: name in JSON, width of a number or kind of a text
FIELDS = {
    J.TREPLY: GENERAL, J.GREPLY: GENERAL, J.HEART: [], J.DEREG: [], QTIME: [], J.PQUERY: [],
    J.REG: [("provinceId", 2), ("cityId", 2), ("manufacturerId", "s"), ("deviceMode", "s"), ("deviceId", "s"), ("plateColor", 1), ("plateNumber", "g")],
    J.AUTH: [("authCode", "s"), ("imei", "s"), ("softwareVersion", "s")],
    J.PLIST: [("answerSerialNumber", 2), ("", "l")],
    J.LOC: [("alarmSign", 4), ("statusSign", 4), ("latitude", 4), ("longitude", 4), ("altitude", 2), ("speed", 2), ("direction", 2), ("time", "b")],
    J.MLIST: [("answerSerialNumber", 2), ("mediaCount", 4)] + MEDIA + [("Size", 4)],
    J.RREPLY: [("answerSerialNumber", 2), ("result", 1), ("authCode", "s")],
    RTIME: [("serverTime", "t")], J.PSET: [("", "l")], J.MQUERY: MEDIA,
}
DESC = {"2011": 0, "2013": 1, "2019": 2}
WRONG = [256]


def fields(mid, ver):
    return FIELDS[mid][:1] if mid == J.AUTH and ver != "2019" else FIELDS[mid]


def to_bytes(v, kind):
    """A field's value as seen in JSON, as the bytes it stands for."""
    try:
        if isinstance(kind, int):
            return list(v.to_bytes(kind, "big")) if isinstance(v, int) and not isinstance(v, bool) else WRONG
        if kind == "s":
            return text(v)
        if kind == "g":
            return gbk(v)
        if kind == "b":
            return list(bytes.fromhex(v))
        if kind == "t":                                       # 2023-01-02T03:04:05Z
            return list(bytes.fromhex(v[2:4] + v[5:7] + v[8:10] + v[11:13] + v[14:16] + v[17:19]))
        return []
    except (OverflowError, ValueError, TypeError, AttributeError):
        return WRONG


def to_json(b, kind):
    if isinstance(kind, int):
        return int.from_bytes(b, "big")
    if kind == "s":
        return b.decode()
    if kind == "g":
        return b.decode("gbk")
    if kind == "b":
        return b.hex()
    d = b.hex()
    return "%s%s-%s-%sT%s:%s:%sZ" % ("20" if d[:2] < "69" else "19", d[:2], d[2:4], d[4:6], d[6:8], d[8:10], d[10:12])


def head(h):
    num = lambda v: v if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2**31 else -9
    try:
        a, f = h["attr"], h.get("frag")
        return {"id": num(h["msgID"]), "enc": num(a["encryption"]), "v19": a["versionDesc"] == 2, "ext": num(a["extra"]), "pver": num(h["protocolVersion"]),
                "phone": nibs(h["phoneNumber"]), "ser": num(h["serialNumber"]), "frag": [num(f["total"]), num(f["index"])] if f else []}, num(a["bodyLength"])
    except (KeyError, TypeError):
        return {"id": -9, "enc": 0, "v19": False, "ext": 0, "pver": 0, "phone": [], "ser": 0, "frag": []}, -9


def params(m):
    p = m.get("parameters") if isinstance(m, dict) else None
    try:
        return items((p or {}).get("params") or [])
    except (KeyError, TypeError, AttributeError, OverflowError):
        return [{"id": WRONG, "v": {}}]


class CodecRecorder:
    MODULE = "MessagesTrace"

    def __init__(self, drv, rng=None):
        self.drv, self.ops, self.steps = drv, [], []
        self.rng = rng or random.Random(0)

    def do(self, op, meta=None):
        meta = meta or {}
        self.ops.append([op, meta])
        obs = self.drv.op(op)
        res = obs.get("codec") or []
        st = {"read": [], "write": [], "heads": []}
        for k, r in enumerate(res):
            err, out, m = bool(r.get("err")), list(bytes.fromhex(r.get("bytes", ""))), r.get("msg")
            if op["op"] == "msgread":
                mid, ver = op["words"][k], meta["vers"][k]
                h, n = head((m or {}).get("header") or {})
                st["read"].append({"frame": list(bytes.fromhex(op["chunks"][k])), "id": mid, "err": err, "h": h, "len": n, "items": params(m),
                                   "vals": [to_bytes((m or {}).get(f), kind) for f, kind in fields(mid, ver)], "again": out})
            elif op["op"] == "msgwrite":
                st["write"].append(dict(meta["msgs"][k], err=err, out=out))
            elif op["op"] == "msghead":
                h, n = head(m or {})
                st["heads"].append({"raw": list(bytes.fromhex(op["chunks"][k])), "err": err, "h": h, "len": n, "again": out})
        self.steps.append(st)
        return obs


class CodecScenario(CodecRecorder):
    def word(self, n):
        r = self.rng
        return r.choice([bytes(n), b"\xff" * n, bytes(n - 1) + b"\x01", b"\x80" + bytes(n - 1), bytes([0x7E, 0x7D] * n)[:n], r.randbytes(n), r.randbytes(n), r.randbytes(n)])

    def str(self, n, exact=False):
        """Text of at most n bytes (UTF-8), not ending in a zero byte."""
        r = self.rng
        k = n if exact else r.choice([0, 1, n - 1, n, n, r.randrange(n + 1)]) if n else 0
        t = "".join(r.choice(string.ascii_letters + string.digits + "}~}~\x01\x02 \x00-./") for _ in range(max(k, 0)))
        if r.random() < .15 and k >= 3:
            t = t[:k - 3] + r.choice("京端é\x7fx")
        t = t.encode()[:k].decode("utf-8", "ignore")
        return (t.rstrip("\0") + "Z" * (k - len(t.rstrip("\0").encode())) if exact else t.rstrip("\0")).encode()

    def gbk(self, n):
        r = self.rng
        return "".join(r.choice(string.ascii_uppercase + "京沪粤津渝冀晋辽警学挂领使一丂腻鸟~}" + string.digits) for _ in range(r.randrange(n + 1))).encode("gbk")

    def time6(self):
        r = self.rng
        y = r.choice([0, 1, 23, 68, 69, 70, 99, r.randrange(100)])
        mo = r.randrange(1, 13)
        full = 2000 + y if y < 69 else 1900 + y
        last = 31 if mo in (1, 3, 5, 7, 8, 10, 12) else 30 if mo != 2 else 29 if full % 4 == 0 else 28
        return bytes.fromhex("%02d%02d%02d%02d%02d%02d" % (y, mo, r.choice([1, last, r.randrange(1, last + 1)]), r.choice([0, 9, 12, 23, r.randrange(24)]),
                                                           r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)])))

    def value(self, i):
        r = self.rng
        for k, ids in NUM.items():
            if i in ids:
                return self.word(k)
        if i in TXT:
            return "".join(r.choice(string.ascii_letters + "终端参数测试0123}~") for _ in range(r.choice([0, 1, 5, 16, 60, 127]))).encode("gbk")
        if i in PLAIN:
            return "".join(r.choice(string.ascii_letters + "}~") for _ in range(r.choice([1, 8, 30, 255]))).encode()
        return r.randbytes(r.choice([0, 1, 4, 15, 60, 255]))

    def plist(self, room, unknown=True):
        r = self.rng
        known = [i for ids in NUM.values() for i in ids] + TXT + RAW + PLAIN
        res = []
        for _ in range(r.choice([0, 1, 1, 2, 5, 12, 40])):
            i = r.choice(known) if not unknown or r.random() < .93 else r.choice([8, 0x99, 0x7D7E, 0xF001, 0xFFFFFFFF])
            v = self.value(i)
            if room >= 5 + len(v):
                res.append((i, v))
                room -= 5 + len(v)
        return res

    def json_value(self, i, v):
        if any(i in ids for ids in NUM.values()):
            return int.from_bytes(v, "big")
        return v.decode("gbk") if i in TXT else v.decode() if i in PLAIN else v.hex().upper()

    def values(self, mid, ver, wide=False, edge=False):
        """Field values that fit (wide: identities may be longer than their fields; edge: also messages just too long)."""
        r = self.rng
        pads = {"2011": (5, 8, 7), "2013": (5, 20, 7), "2019": (11, 30, 30)}[ver]
        res = []
        for k, (_, kind) in enumerate(fields(mid, ver)):
            if isinstance(kind, int):
                res.append(self.word(kind))
            elif kind in ("t", "b"):
                res.append(self.time6())
            elif kind == "g":
                res.append(self.gbk({"2011": 5}.get(ver, 9)) if not wide else self.gbk(60))
            elif mid == J.REG:
                res.append(self.str(pads[k - 2] + (r.choice([0, 0, 1, 9]) if wide else 0)))
            elif mid == J.AUTH and k == 0:
                res.append(self.str((300 if wide else 255) if ver == "2019" else r.choice([0, 8, 900, 1023] + ([1024, 1025] if edge else [])), r.random() < .5))
            elif mid == J.AUTH:
                res.append(self.str(15, True) if k == 1 and not wide else self.str([15, 20][k - 1] + (r.choice([0, 1, 9]) if wide else 0), k == 1))
            elif mid == J.RREPLY:
                res.append(self.str(r.choice([0, 8, 36, 900, 1020] + ([1021, 1022] if edge else [])), r.random() < .5))
            else:
                res.append(b"")
        if mid == J.REG and not wide and ver == "2013" and not res[-1]:
            res[-1] = b"A"                        # without a plate it would be as short as a 2011 one
        return res

    def phone(self, v19):
        r = self.rng
        n = 20 if v19 else 12
        d = "".join(r.choice(string.digits) for _ in range(n))
        return r.choice([d, d, d, "0" * (n - 11) + d[:11], d[:n - 1], d[:n // 2], d[:1], "0" * n])

    def body(self, mid, ver, vals, lst):
        if mid == J.REG:
            return J.reg_body(ver, *[int.from_bytes(v, "big") if k in (0, 1, 5) else v for k, v in enumerate(vals)])
        if mid == J.AUTH:
            return J.auth_body(ver, *vals)
        b = b""
        for (name, kind), v in zip(fields(mid, ver), vals):
            b += v if kind != "l" else bytes([len(lst)]) + b"".join(i.to_bytes(4, "big") + bytes([len(x)]) + x for i, x in lst)
        return b

    def reads(self, n):
        r = self.rng
        op, vers = {"op": "msgread", "chunks": [], "words": [], "nosnap": True}, []
        for _ in range(n):
            mid = r.choice(list(FIELDS))
            v19 = r.random() < .5
            ver = "2019" if v19 else r.choice(["2013", "2011"]) if mid == J.REG else "2013"
            body = self.body(mid, ver, self.values(mid, ver), self.plist(r.choice([40, 400, 1000])))
            if mid in (J.LOC, J.TREPLY) and r.random() < .2:
                body += r.randbytes(r.choice([1, 6, 30]))        # more than the table has: additional items
            op["chunks"].append(J.frame(mid, self.phone(v19), body, r.choice([0, 1, 255, 256, 65535, 0x7E7D, r.randrange(65536)]), v19, r.choice([0, 1, 2, 255])).hex())
            op["words"].append(mid)
            vers.append(ver)
        self.do(op, {"vers": vers})

    def writes(self, n):
        r = self.rng
        op, msgs = {"op": "msgwrite", "chunks": [], "words": [], "nosnap": True}, []
        for _ in range(n):
            mid, ver = r.choice(list(FIELDS)), r.choice(list(DESC))
            v19 = ver == "2019"
            vals = self.values(mid, ver, wide=mid in (J.REG, J.AUTH) and r.random() < .3, edge=True)
            lst = self.plist(r.choice([40, 400, 1000, 1500]), unknown=False)
            ps = [{"paramId": i, "paramLen": len(v), "paramValue": self.json_value(i, v)} for i, v in lst]
            h = {"id": mid, "enc": r.choice([0, 0, 1, 7]), "v19": v19, "ext": r.choice([0, 0, 1]), "pver": r.choice([0, 1, 255]) if v19 else 0,
                 "phone": self.phone(v19), "ser": r.choice([0, 255, 256, 65535, 0x7E7D, r.randrange(65536)]), "frag": []}
            m = {name: to_json(v, kind) for (name, kind), v in zip(fields(mid, ver), vals) if kind != "l"}
            if mid in (J.PLIST, J.PSET):
                m["parameters"] = {"params": ps}
            m["header"] = {"msgID": mid, "attr": {"bodyLength": r.choice([0, 5, 1023]), "encryption": h["enc"], "packetFragmented": 0, "versionSign": int(v19), "extra": h["ext"],
                           "versionDesc": DESC[ver]}, "protocolVersion": h["pver"], "phoneNumber": h["phone"], "serialNumber": h["ser"]}
            op["chunks"].append(json.dumps(m))
            op["words"].append(mid)
            msgs.append({"h": dict(h, phone=nibs(h["phone"])), "ver": ver, "vals": [list(v) for v in vals], "items": items(ps) if mid in (J.PLIST, J.PSET) else []})
        self.do(op, {"msgs": msgs})

    def heads(self, n):
        r = self.rng
        op = {"op": "msghead", "chunks": [], "nosnap": True}
        for _ in range(n):
            v19 = r.random() < .5
            raw = bytearray(J.header(r.choice([0x0200, 0x7E7D, r.randrange(65536)]), self.phone(v19), r.choice([0, 1, 255, 256, 1023, r.randrange(1024)]), r.randrange(65536), v19,
                                     r.randrange(256), r.choice([None, (1, 1), (65535, 256), (r.randrange(65536), r.randrange(65536))])))
            raw[2] |= r.choice([0, 0, 4, 8, 16, 28, 128, 156])
            op["chunks"].append(bytes(raw).hex())
        self.do(op)

    def play(self, n):
        for _ in range(n):
            self.reads(15)
            self.writes(15)
            self.heads(10)
