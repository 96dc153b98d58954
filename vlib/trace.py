"""Executing stimuli on the real server and recording what was seen, in the vocabulary of the specification.

Nothing here judges: the step records written here are validated by TLC (PlatformTrace.tla).
"""
import json
import struct
from datetime import datetime, timezone

from .jt808 import parse_stream

EPOCH = datetime(2000, 1, 1, tzinfo=timezone.utc)
FLAGS = ["accStatus", "locationStatus", "latitudeType", "longitudeType", "operatingStatus", "geoEncryptionStatus", "loadStatus",
         "FuelSystemStatus", "AlternatorSystemStatus", "DoorLockedStatus", "frontDoorStatus", "midDoorStatus", "backDoorStatus",
         "driverDoorStatus", "customDoorStatus", "gpsLocationStatus", "beidouLocationStatus", "glonassLocationStatus",
         "galileoLocationStatus", "drivingStatus"]
NOGEO = {"lat": [], "lon": [], "alt": -1, "spd": -1, "dir": -1, "time": [], "flags": []}


def nibs(phone):
    return [int(c, 16) if c in "0123456789abcdefABCDEF" else 99 for c in phone]


def text(s):
    return list(s.encode("utf-8", "surrogatepass"))


def gbk(s):
    try:
        return list(s.encode("gbk"))
    except UnicodeEncodeError:
        return [256] + text(s)


def millis(s):
    """RFC 3339 time -> ms since the bubble's epoch."""
    try:
        base, frac = s, 0
        if "." in s:
            base, rest = s.split(".")
            digits = ""
            while rest and rest[0].isdigit():
                digits, rest = digits + rest[0], rest[1:]
            base, frac = base + rest, int((digits + "000")[:3])
        t = datetime.fromisoformat(base.replace("Z", "+00:00"))
        v = int((t - EPOCH).total_seconds()) * 1000 + frac
        return v if -2**31 < v < 2**31 else -1
    except (ValueError, TypeError, AttributeError):
        return -1


VERS = {0: "2011", 1: "2013", 2: "2019"}


def device(d, keys):
    g = lambda k, z: d.get(keys.get(k, k), z)
    num = lambda v: v if isinstance(v, int) and not isinstance(v, bool) and -2**31 < v < 2**31 else -9
    s = lambda v: v if isinstance(v, str) else ""
    return {"phone": nibs(s(g("phone", ""))), "plate": gbk(s(g("plate", ""))), "did": text(s(g("id", ""))),
            "ver": VERS.get(g("versionDesc", -1), "?"), "pver": num(g("protocolVersion", -1)), "imei": text(s(g("imei", ""))),
            "sw": text(s(g("softwareVersion", ""))), "status": num(g("status", -1)), "addr": s(g("sessionId", "")),
            "last": millis(g("lastComTime", ""))}


GONAMES = {"phone": "Phone", "plate": "Plate", "id": "ID", "versionDesc": "VersionDesc", "protocolVersion": "ProtocolVersion",
           "imei": "IMEI", "softwareVersion": "SoftwareVersion", "status": "Status", "sessionId": "SessionID",
           "lastComTime": "LastestComTime"}


def devices(lst):
    return [device(d, {}) for d in lst] if isinstance(lst, list) else []


def fixed(x, scale, width):
    if not isinstance(x, (int, float)) or isinstance(x, bool):
        return []
    v = round(x * scale)
    if abs(x * scale - v) > 0.01 or not 0 <= v < 256 ** width:
        return []
    return list(v.to_bytes(width, "big"))


def geo(body):
    """(has, geo record, [device]) of a location answer."""
    if not body:
        return False, NOGEO, []
    try:
        r = json.loads(body)
        if not isinstance(r, dict) or "gis" not in r:
            return False, NOGEO, []
        g = r["gis"]
        if g is None:
            return True, NOGEO, []
        spd = fixed(g["drive"]["speed"], 10, 2)
        t = datetime.fromisoformat(g["time"].replace("Z", "+00:00"))
        rec = {"lat": fixed(g["location"]["latitude"], 1e6, 4), "lon": fixed(g["location"]["longitude"], 1e6, 4),
               "alt": g["location"]["altitude"], "spd": int.from_bytes(bytes(spd), "big") if spd else -1,
               "dir": g["drive"]["direction"], "time": list(bytes.fromhex(t.strftime("%y%m%d%H%M%S"))),
               "flags": [g["gis"].get(k, -1) for k in FLAGS]}
        return True, rec, [dict(device(r, GONAMES), last=-2)] if "Phone" in r else []
    except (ValueError, KeyError, TypeError, AttributeError):
        return True, NOGEO, []


def value(v):
    """A JSON parameter value for the specification."""
    z = {"t": "other", "b": [0] * 8, "int": False, "utf8": [], "gbk": [], "gbkOk": False, "hex": [], "hexOk": False}
    if isinstance(v, bool) or v is None or isinstance(v, (list, dict)):
        return z
    if isinstance(v, (int, float)):
        ok = v == int(v) and 0 <= v < 2**53
        return dict(z, t="num", int=ok, b=list(struct.pack(">Q", int(v))) if ok else [0] * 8)
    g = gbk(v)
    try:
        h, hok = list(bytes.fromhex(v)) if " " not in v else [], " " not in v
    except ValueError:
        h, hok = [], False
    gok = not (g and g[0] == 256)
    return dict(z, t="str", utf8=text(v), gbk=g if gok else [], gbkOk=gok, hex=h, hexOk=hok)


def items(params):
    return [{"id": list(p["paramId"].to_bytes(4, "big")), "v": value(p["paramValue"])} for p in params]


def http(meta, res):
    r = {"m": meta["m"], "phone": nibs(meta.get("phone", "")), "code": res.get("code", 0) if not res.get("err") else 0,
         "valid": meta.get("valid", False), "items": items(meta.get("params", [])), "has": False, "geo": NOGEO, "devs": [], "dev": []}
    if meta["m"] == "geo" and r["code"] == 200:
        r["has"], r["geo"], r["dev"] = geo(res.get("body", ""))
    elif meta["m"] == "geo":
        r["has"] = '"gis"' in res.get("body", "")
    elif meta["m"] == "list" and r["code"] == 200:
        try:
            r["devs"] = devices(json.loads(res.get("body", "")))
        except ValueError:
            r["code"] = 599
    return r


def step(op, meta, obs):
    """The step record of one operation and its observation."""
    st = {"par": op["op"] == "par", "t0": obs["t0"], "t": obs["t"], "ins": [], "opens": [], "ends": [], "http": [],
          "out": [[c, list(bytes.fromhex(h))] for c, h in sorted(obs["out"].items())], "closed": obs["closed"],
          "devs": devices(obs.get("devs") or []), "snap": obs.get("devs") is not None, "late": bool(meta.get("late")), "fin": [],
          "mute": meta.get("mute", [])}
    subs = op["ops"] if op["op"] == "par" else [op]
    metas = meta.get("subs", [{}] * len(subs)) if op["op"] == "par" else [meta]
    k = 0
    ins = {}
    for o, m in zip(subs, metas):
        if o["op"] == "open":
            st["opens"].append([o["conn"], o["addr"]])
        elif o["op"] == "send":
            ins.setdefault(o["conn"], b"")
            ins[o["conn"]] += b"".join(bytes.fromhex(h) for h in o["chunks"])
        elif o["op"] in ("close", "reset"):
            st["ends"].append([o["conn"], o["op"]])
        elif o["op"] in ("http", "httpleave"):
            st["http"].append(http(m, obs["http"][k]))
            k += 1
    st["ins"] = [[c, list(b)] for c, b in ins.items()]
    st["bulk"] = []
    if meta.get("bulk"):
        st["bulk"] = [[c, [s for _, _, s, _ in parse_stream(bytes.fromhex(h))]] for c, h in sorted(obs["out"].items())]
        st["ins"], st["out"] = [], []
    return st


class Recorder:
    """One execution of the real server, recorded."""

    def __init__(self, drv):
        self.drv, self.ops, self.steps = drv, [], []

    def do(self, op, meta=None):
        meta = meta or {}
        self.ops.append([op, meta])
        obs = self.drv.op(op)
        if obs.get("err"):
            # the device list could not be read: an unanswered HTTP request
            obs.setdefault("devs", None)
        st = step(op, meta, obs)
        for o, m in meta.get("fin", []):     # location queries right after a concurrent step, part of its observation
            r = self.drv.op(o)
            st["fin"].append(http(m, r["http"][0]))
            st["t"] = r["t"]
            st["closed"] = st["closed"] + r["closed"]
        if obs.get("err"):
            st["http"].append(http({"m": "list"}, {"err": obs["err"]}))
        self.steps.append(st)
        return obs
