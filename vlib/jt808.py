"""An independent JT/T 808 encoder for the stimuli (and a small decoder to learn issued codes)."""

TREPLY, HEART, DEREG, REG, AUTH, PLIST, LOC, MLIST = 0x0001, 0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205
GREPLY, RREPLY, PSET, PQUERY, MQUERY = 0x8001, 0x8100, 0x8103, 0x8104, 0x9205


def escape(b):
    out = bytearray()
    for x in b:
        if x == 0x7E:
            out += b"\x7d\x02"
        elif x == 0x7D:
            out += b"\x7d\x01"
        else:
            out.append(x)
    return bytes(out)


def unescape(b):
    out, i = bytearray(), 0
    while i < len(b):
        if b[i] == 0x7D and i + 1 < len(b) and b[i + 1] in (1, 2):
            out.append(0x7D if b[i + 1] == 1 else 0x7E)
            i += 2
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def xor(b):
    r = 0
    for x in b:
        r ^= x
    return r


def bcd(digits):
    return bytes(int(digits[i:i + 2], 16) for i in range(0, len(digits), 2))


def header(mid, phone, n, ser, v19=False, pver=1, frag=None):
    """phone: the digits as they are on the wire without F padding; padded here to the header's width."""
    attr = (n & 0x3FF) | (0x2000 if frag else 0) | (0x4000 if v19 else 0)
    h = mid.to_bytes(2, "big") + attr.to_bytes(2, "big")
    if v19:
        h += bytes([pver])
    h += bcd(phone.rjust(20 if v19 else 12, "F"))
    h += (ser & 0xFFFF).to_bytes(2, "big")
    if frag:
        h += frag[0].to_bytes(2, "big") + frag[1].to_bytes(2, "big")
    return h


def content(mid, phone, body, ser, v19=False, pver=1, frag=None):
    return header(mid, phone, len(body), ser, v19, pver, frag) + body


def wrap(c, badsum=0):
    return b"\x7e" + escape(c + bytes([xor(c) ^ badsum])) + b"\x7e"


def frame(mid, phone, body, ser, v19=False, pver=1, frag=None, badsum=0):
    return wrap(content(mid, phone, body, ser, v19, pver, frag), badsum)


def reg_body(ver, province, city, manu, model, did, color, plate):
    a, b, c = {"2011": (5, 8, 7), "2013": (5, 20, 7), "2019": (11, 30, 30)}[ver]
    return (province.to_bytes(2, "big") + city.to_bytes(2, "big") + manu.ljust(a, b"\0")[:a] + model.ljust(b, b"\0")[:b]
            + did.ljust(c, b"\0")[:c] + bytes([color]) + plate)


def auth_body(ver, code, imei=b"", sw=b""):
    if ver != "2019":
        return code
    return bytes([len(code)]) + code + imei.ljust(15, b"\0")[:15] + sw.ljust(20, b"\0")[:20]


def loc_body(alarm, status, lat, lon, alt, spd, dire, time6, extra=b""):
    return (alarm.to_bytes(4, "big") + status.to_bytes(4, "big") + lat.to_bytes(4, "big") + lon.to_bytes(4, "big")
            + alt.to_bytes(2, "big") + spd.to_bytes(2, "big") + dire.to_bytes(2, "big") + time6 + extra)


def parse_stream(data):
    """Best effort: [(mid, phone, ser, body)] of the frames in data."""
    res = []
    for part in data.split(b"\x7e"):
        if not part:
            continue
        raw = unescape(part)
        if len(raw) < 13 or xor(raw) != 0:
            continue
        attr = int.from_bytes(raw[2:4], "big")
        v19, frag = attr & 0x4000, attr & 0x2000
        p = 5 if v19 else 4
        n = 10 if v19 else 6
        h = p + n + 2 + (4 if frag else 0)
        if len(raw) < h + 1:
            continue
        phone = raw[p:p + n].hex().upper()
        phone = phone[phone.rfind("F") + 1:]
        res.append((int.from_bytes(raw[:2], "big"), phone, int.from_bytes(raw[p + n:p + n + 2], "big"), raw[h:-1]))
    return res
