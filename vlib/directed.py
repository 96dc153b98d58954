"""Long or dense situations that random scripts hardly reach.  As always, nothing is judged here."""
from . import jt808 as J
from .scenario import (BYTE, DWORD, GBK, HEX, TEXT, UNKNOWN, WORD, ASCII, PLATE_CHARS)


def join(sc, p, c, auth=True, plate=None):
    sc.open(c)
    sc.raw(c, sc.frame(p, J.REG, l=plate or p))
    if auth:
        sc.raw(c, sc.frame(p, J.AUTH, "right"))


def big_loc(sc, n, hot=True):
    """A location body of n bytes (n >= 28), full of bytes that need escaping."""
    r = sc.rng
    b = sc.loc_body(1)[:28]
    while len(b) < n:
        k = min(255, n - len(b) - 2)
        if k < 0:
            b += b"\0"
            continue
        b += bytes([r.choice([0x30, 0x7E, 0x7D]), k]) + (bytes(r.choice([0x7E, 0x7D, 1, 2]) for _ in range(k)) if hot else sc.bytes(k))
    return b[:n]


def framing_big(sc, rounds):
    """Long frames, cut anywhere, many in one read."""
    r = sc.rng
    join(sc, "p", "a")
    join(sc, "q", "b")
    for _ in range(rounds):
        data = b""
        for _ in range(r.choice([1, 1, 2, 4, 9])):
            p = r.choice(["p", "p", "q"])
            n = r.choice([28, 100, 500, 1000, 1022, 1023])
            data += sc.frame(p, J.LOC, body=big_loc(sc, n)) if r.random() < .7 else sc.frame(p, J.HEART)
            if r.random() < .3:
                data += r.choice([b"\x7e", b"\x7e\x7e", sc.junk(), sc.junk() + b"\x7e"])
        if r.random() < .3:      # as long as a frame can get: nearly every byte is escaped
            t = sc.term("p")
            t.ser = r.choice([0x7E7D, 0x7D7C, 0x7D7D])
            f = (r.choice([0x7E7E, 0x7D7D]), r.choice([0x7E7E, 0x7D7E, 2, 1])) if r.random() < .7 else None
            b = bytes(r.choice([0x7D, 0x7E]) for _ in range(1023))
            data += sc.frame("p", J.LOC, frag=f, body=b) if f or r.random() < .5 else sc.frame("p", J.LOC, body=b[:22] + sc.time6() + b[:995])
            data += sc.frame("p", J.HEART)
        over = r.random() < .25
        tiny = not over and r.random() < .25
        if tiny:      # too short to be a frame, and then something else
            data += b"\x7e" + bytes(r.choice([0x41, 0x00, 0x7d, 0x02]) for _ in range(r.choice([1, 1, 2, 3]))) + b"\x7e"
            data += r.choice([b"", sc.junk(), sc.junk()]) + sc.frame("p", J.HEART) + sc.frame("p", J.LOC, body=big_loc(sc, 60))
            over = True
        elif over:      # more than any frame can be
            data += b"\x7e" + bytes(r.choice([1, 2, 0x7d, 0x41, 0xff]) for _ in range(r.choice([2080, 2100, 2500, 4096, 9000]))) + b"\x7e"
            data += sc.frame("p", J.LOC, body=big_loc(sc, 60))
        sc.cut = r.choice(["whole", "rand", "rand", "bytes"]) if len(data) < 1500 else r.choice(["whole", "rand"])
        if r.random() < .3:      # cut at a size buffers like
            k = r.choice([1, 2, 511, 512, 1024, 4095, 4096, 4097])
            parts = [data[i:i + k] for i in range(0, len(data), k)]
            if len(parts) < 3000:
                sc.do({"op": "send", "conn": sc.conns["a"], "chunks": [x.hex() for x in parts], "settle": 1120 if over else 20}, {"late": over})
                continue
        sc.raw("a", data, int(over))
        sc.http("geo", r.choice(["p", "q"]))


def framing_interleaved(sc, rounds):
    """Streams of several connections in pieces, taking turns, with pauses in the middle of frames."""
    r = sc.rng
    names = ["a", "b", "d"]
    for p, c in zip("pqs", names):
        join(sc, p, c)
    sc.cut = "whole"
    for _ in range(rounds):
        rest = {}
        for p, c in zip("pqs", names):
            data = b""
            for _ in range(r.choice([1, 2, 3])):
                k = r.choice([J.HEART, J.LOC, J.LOC, J.AUTH])
                data += sc.frame(p, k, "right", acc=1)
                if r.random() < .3:
                    data += r.choice([sc.junk(), b"\x7e", b""])
            rest[c] = data
        while rest:
            c = r.choice(sorted(rest))
            k = r.choice([1, 2, 3, 7, 20, len(rest[c])])
            sc.raw(c, rest[c][:k])
            rest[c] = rest[c][k:]
            if not rest[c]:
                del rest[c]
            if r.random() < .15:
                sc.sleep(r.choice([1, 100, 1500, 4000]))
    sc.http("geo", "p")


def framing_slow(sc, rounds):
    """Long pauses in the middle of frames."""
    r = sc.rng
    sc.settle = 0
    sc.cut = "whole"
    for k in range(rounds):
        p, c = "p%d" % k, "c%d_" % k
        sc.open(c)
        f = sc.frame(p, J.REG, l=p)
        i = r.randrange(1, len(f))
        sc.raw(c, f[:i])                                   # before it is registered a terminal may take any time
        sc.sleep(r.choice([2000, 31000, 61000, 121000, 700000]))
        sc.raw(c, f[i:])
        sc.raw(c, sc.frame(p, J.AUTH, "right"))
        for _ in range(r.choice([1, 2, 3])):
            f = sc.frame(p, r.choice([J.HEART, J.HEART, J.LOC]), acc=0)
            f = sc.frame(p, J.LOC, acc=1) + f if r.random() < .4 else f
            at = sorted(r.sample(range(1, len(f)), r.choice([1, 1, 2, 4])))
            left = 59000
            for a, b in zip([0] + at, at + [len(f)]):
                if a:
                    g = r.choice([1000, 10000, 31000, left])
                    g = min(g, left)
                    left -= g
                    if g:
                        sc.sleep(g)
                sc.raw(c, f[a:b])
        sc.raw(c, sc.frame(p, J.HEART))
        sc.http("geo", p)


def flips(sc, rounds):
    """Every single-bit corruption of a frame, one after another, with good frames between."""
    r = sc.rng
    join(sc, "p", "a")
    sc.open("b")
    for _ in range(rounds):
        kind = r.choice(["heart", "dereg", "auth", "loc", "reg", "frag", "wrong", "bigloc"])
        t = sc.term("p")
        mk = {"heart": (J.HEART, b""), "dereg": (J.DEREG, b""), "loc": (J.LOC, sc.loc_body(r.randrange(2))),
              "auth": (J.AUTH, sc.auth_body(t, "right")), "wrong": (J.AUTH, sc.auth_body(t, "wrong")), "frag": (J.LOC, sc.loc_body(1)[:9]),
              "bigloc": (J.LOC, big_loc(sc, r.choice([300, 700, 1023]), r.random() < .5))}
        if kind == "reg":
            mid, body, p = J.REG, sc.reg_body(sc.term("n"), "n"), "n"
        else:
            mid, body = mk[kind]
            p = "p"
        t = sc.term(p)
        c = J.content(mid, t.digits, body, t.next(), t.v19, t.pver, (2, 1) if kind == "frag" else None)
        raw = c + bytes([J.xor(c)])
        bits = list(range(len(raw) * 8))
        r.shuffle(bits)
        for i in range(0, min(len(bits), 120), 12):
            data = b""
            for k in bits[i:i + 12]:
                x = bytearray(raw)
                x[k // 8] ^= 1 << (k % 8)
                data += b"\x7e" + J.escape(bytes(x)) + b"\x7e"
            conn = "a" if r.random() < .6 else "b"
            sc.raw(conn, data, pauses=13)
            if conn == "a" or r.random() < .5:
                sc.raw("a", sc.frame("p", J.HEART))
            if r.random() < .4:
                sc.http("geo", "p")


def sums(sc, rounds):
    """Frames of every length with a check code that is wrong in a particular way."""
    r = sc.rng
    join(sc, "p", "c")
    t = sc.term("p")
    for _ in range(rounds):
        data, n = b"", 0
        for _ in range(r.choice([1, 2])):
            k = r.choice([0, 28, 28, 40, 200, 300, 511, 700, 985, 1000, 1010, 1023])
            b = b"" if k == 0 else sc.loc_body(r.randrange(2))[:28] + sc.bytes(max(0, k - 28))
            f = (r.choice([2, 3]), 1) if r.random() < .2 else None
            raw = J.content(J.LOC if k else J.HEART, t.digits, b, t.next(), t.v19, t.pver, f)
            if r.random() < .3 and k > 28 and not f:      # the right one is zero
                raw = raw[:-1] + bytes([raw[-1] ^ J.xor(raw)])
            x = J.xor(raw)
            wrong = r.choice([0, 0, 0xFF, 0x7E, 0x7D, x ^ 1, x ^ 0x80, x ^ 0xFF, J.xor(raw[1:]), J.xor(raw[:-1]), J.xor(b), sum(raw) & 0xFF,
                              x ^ 0x7E, (x + 1) & 0xFF, raw[-1], r.randrange(256)])
            data += b"\x7e" + J.escape(raw + bytes([wrong])) + b"\x7e"
            n += 1
        sc.raw("c", data, pauses=n)
        sc.http("geo", "p")
        sc.raw("c", sc.frame("p", J.HEART))


def torn(sc, rounds):
    """Damaged frames between the fragments of a message: the fragments that arrived stay."""
    r = sc.rng
    join(sc, "p", "a")
    join(sc, "q", "b")
    for _ in range(rounds):
        p, c = r.choice([("p", "a"), ("q", "b")])
        t = sc.term(p)
        mid = r.choice([J.LOC, J.LOC, J.AUTH, J.HEART])
        body = sc.body(t, mid, "right", acc=r.randrange(2))
        n = r.choice([2, 2, 3, 4])
        at = sorted(r.randrange(len(body) + 1) for _ in range(n - 1))
        pieces = [body[a:b] for a, b in zip([0] + at, at + [len(body)])]
        for i, x in enumerate(pieces):
            for _ in range(r.choice([0, 1, 1, 2])):      # something damaged, of the same or another message or terminal
                o = r.choice([p, p, p, "p", "q"])
                u = sc.term(o)
                k = r.choice([i + 1, i + 1, 1, i, i + 2, n])
                what = r.choice(["piece", "piece", "piece", "other", "whole"])
                m, b, f = {"piece": (mid, r.choice([x, sc.bytes(r.randrange(30))]), (r.choice([n, n, n + 1]), max(1, k))),
                           "other": (r.choice([J.LOC, J.AUTH, J.HEART, J.REG]), sc.bytes(r.randrange(30)), (2, r.choice([1, 2]))),
                           "whole": (J.LOC, sc.loc_body(1), None)}[what]
                raw = bytearray(J.content(m, u.digits, b, u.next(), u.v19, u.pver, f))
                raw += bytes([J.xor(bytes(raw)) ^ r.choice([1, 2, 0x80, r.randrange(1, 256)])])
                if r.random() < .4:
                    raw[-1] = J.xor(bytes(raw[:-1]))
                    # damage in what the header says about fragments, or in the body
                    raw[r.choice([2, 3, len(raw) - 2, r.randrange(len(raw))])] ^= r.choice([0x20, 0x40, 1, 2])
                sc.raw(r.choice([c, c, "a", "b"]), b"\x7e" + J.escape(bytes(raw)) + b"\x7e", pauses=1)
            sc.raw(c, sc.frame(p, mid, frag=(n, i + 1), body=x))
        sc.http("geo", p)
        if r.random() < .5:
            sc.raw("a", sc.frame("p", J.HEART))
            sc.raw("b", sc.frame("q", J.HEART))


def checksums(sc, rounds):
    """Outgoing frames whose check code takes every value."""
    r = sc.rng
    for k in range(rounds):
        p, c = "p%d" % k, "c%d_" % k
        join(sc, p, c)
        t = sc.term(p)
        for v in range(256):
            if v % 4 == 0:
                sc.http("ps", p, params=[{"paramId": r.choice(BYTE), "paramLen": 1, "paramValue": v}])
            else:
                sc.http("pq", p)
            if v % 50 == 49:
                sc.raw(c, sc.frame(p, J.HEART))
        for _ in range(20):
            t.ser = r.choice([0x7E7D, 0x7D7E, 0x007E, 0x7D00, 0x7C7C]) - 1
            sc.raw(c, sc.frame(p, r.choice([J.HEART, J.LOC]), acc=1))
        sc.gone(c)


def identities(sc, rounds):
    """Registrations with fields of every length, then authentication."""
    r = sc.rng
    for k in range(rounds):
        p, c = "p%d" % k, "c%d_" % k
        t = sc.term(p)
        sc.open(c)
        ver = t.ver
        w = {"2011": 7, "2013": 7, "2019": 30}[ver]
        n = r.choice([1, 2, 3, 7, 8, 9, 12])
        while True:
            plate = "".join(r.choice(PLATE_CHARS) for _ in range(n)).encode("gbk")
            if ver != "2011" or len(plate) <= 12:
                break
            n -= 1
        did = bytearray(sc.asc(r.choice([w, w, w - 1, 1, r.randrange(1, w + 1)])))
        if len(did) > 2 and r.random() < .15:      # only zeros at the end are padding
            did[r.choice([0, len(did) // 2])] = 0
        did = bytes(did)
        manu, model = sc.asc(r.choice([5, 11, 0])), sc.asc(r.choice([8, 20, 30, 0, 3]))
        a, b = {"2011": (5, 8), "2013": (5, 20), "2019": (11, 30)}[ver]
        body = J.reg_body(ver, sc.word(2), sc.word(2), manu[:a], model[:b], did, r.randrange(256), plate)
        sc.plates["id%d" % k] = plate.decode("gbk")
        sc.raw(c, sc.frame(p, J.REG, body=body))
        sc.raw(c, sc.frame(p, J.AUTH, "right"))
        if r.random() < .3:
            sc.raw(c, sc.frame(p, J.AUTH, "right"))
        if t.v19 and t.code is not None and r.random() < .3:
            sw = bytearray(sc.asc(r.choice([20, 19, 3])))
            sw[r.choice([0, 0, 1])] = 0
            sc.raw(c, sc.frame(p, J.AUTH, body=J.auth_body("2019", t.code, sc.asc(15), bytes(sw))))
        if r.random() < .5:
            sc.raw(c, sc.frame(p, J.DEREG))
        else:
            sc.raw(c, sc.frame(p, J.HEART))


def keeps(sc, beats):
    """Terminals that keep in touch, on the edge of what is allowed, while others come and go."""
    r = sc.rng
    sc.settle = 0
    good = {}
    now = lambda: sc.steps[-1]["t"] if sc.steps else 0
    for k in range(r.choice([1, 2, 3])):
        p, c = "g%d" % k, "c%d_" % k
        join(sc, p, c)
        if r.random() < .3:
            sc.raw(c, sc.frame(p, J.LOC, acc=0))
        good[p] = [c, now(), r.choice([60000, 60000, 59999, 45000, 0])]
        sc.sleep(r.choice([1, 10, 7000, 29999, 30000]))
    n = 0
    others = {}
    for _ in range(beats):
        # next contact due
        p = min(good, key=lambda q: good[q][1] + (good[q][2] or 60000))
        c, last, per = good[p]
        due = last + (per or r.choice([1, 1000, 59000, 59999, 60000, 60000]))
        for q in good:       # never let another one miss its time
            due = min(due, good[q][1] + 60000)
        if due > now():
            sc.sleep(due - now())
        late = [q for q in good if now() - good[q][1] >= 60000]
        for q in late + [p]:
            c = good[q][0]
            what = r.random()
            if what < .82:
                sc.raw(c, sc.frame(q, J.HEART))
            elif what < .87:
                sc.raw(c, sc.frame(q, J.AUTH, "right"))
            elif what < .90:
                sc.raw(c, sc.frame(q, J.LOC, acc=0))
            elif what < .95:      # move to a new connection
                n += 1
                d = "m%d_" % n
                sc.open(d)
                sc.raw(d, sc.frame(q, J.AUTH, "right"))
                if r.random() < .7:
                    sc.gone(c)
                good[q][0] = d
            else:                 # leave and register anew
                sc.raw(c, sc.frame(q, J.DEREG))
                if r.random() < .5:
                    sc.sleep(r.choice([1, 500]))
                sc.raw(c, sc.frame(q, J.REG, l=q))
                sc.raw(c, sc.frame(q, J.AUTH, "right"))
            good[q][1] = now()
            if r.random() < .2:
                sc.raw(good[q][0], sc.frame(q, J.LOC, acc=1))
        if r.random() < .15:      # somebody else, who then falls silent, leaves, or fails
            n += 1
            o, d = "o%d" % n, "d%d_" % n
            join(sc, o, d, auth=r.random() < .5)
            others[o] = d
            x = r.random()
            if x < .3:
                sc.raw(d, sc.frame(o, r.choice([J.DEREG, J.HEART])))
            elif x < .5:
                sc.gone(d)


def silence(sc, rounds):
    """Terminals fall silent at various moments; the list is watched closely."""
    r = sc.rng
    sc.settle = 0
    n = 0
    for _ in range(rounds):
        cs = []
        for _ in range(r.choice([1, 2, 3])):
            n += 1
            p, c = "p%d" % n, "c%d_" % n
            join(sc, p, c, auth=r.random() < .8)
            cs.append((p, c))
            for _ in range(r.choice([0, 0, 1, 2])):
                sc.sleep(r.choice([1, 999, 20000, 40000, 59999]))
                k = r.choice([J.HEART, J.LOC, J.LOC, J.AUTH])
                sc.raw(c, sc.frame(p, k, "right", acc=r.randrange(2)))
            if r.random() < .2:
                sc.gone(c, r.random() < .3)
        left = 200000
        step = r.choice([500, 1000, 2500, 5000])
        while left > 0:
            k = r.choice([step, step, 1, 100])
            sc.sleep(k)
            left -= k
            if r.random() < .03:
                p, c = r.choice(cs)
                if c in sc.conns and r.random() < .5:
                    sc.raw(c, sc.frame(p, J.LOC, acc=1))
            if r.random() < .05:
                sc.http("geo", r.choice(cs)[0])
        for p, _ in cs:
            sc.http("geo", p)


def reports(sc, n):
    """Many reports, queried after each; several terminals."""
    r = sc.rng
    ps = ["p", "q", "s"][:r.choice([1, 2, 3])]
    for p in ps:
        join(sc, p, "c" + p)
    base = r.choice([0, 0, 0, 1])
    for i in range(n):
        p = ps[0] if base else r.choice(ps)
        if r.random() < .04:
            sc.raw("c" + p, sc.frame(p, J.DEREG))
            sc.http("geo", p)
            sc.raw("c" + p, sc.frame(p, J.REG, l=p))
            sc.http("geo", p)
        sc.raw("c" + p, sc.frame(p, J.LOC, acc=r.randrange(2)))
        sc.http("geo", p)
        if r.random() < .2:
            sc.http("geo", r.choice(ps))
        if r.random() < .1:
            for q in ps:
                sc.raw("c" + q, sc.frame(q, J.HEART))


def leaving(sc, rounds):
    """Terminals with a long history of reports are removed in every way and come back; so do their neighbours."""
    r = sc.rng
    sc.settle = 0
    for k in range(rounds):
        p, q, c = "p%d" % k, "q%d" % k, "c%d_" % k
        join(sc, p, c)
        sc.open("d" + c)
        sc.raw("d" + c, sc.frame(q, J.REG, l=q))
        n = r.choice([1, 3, 99, 100, 101, 130, 205])
        while n > 0:
            m = min(n, 25)
            sc.raw(c, b"".join(sc.frame(p, J.LOC, acc=r.randrange(2)) for _ in range(m)))
            n -= m
        sc.raw("d" + c, sc.frame(q, J.LOC, acc=1))
        sc.http("geo", p)
        how = r.choice(["dereg", "wrong", "silence"])
        if how == "silence":
            for _ in range(8):
                sc.sleep(25000)
            if r.random() < .5:
                sc.http("geo", p)
            sc.conns.pop(c, None)
            sc.conns.pop("d" + c, None)
            c = "e" + c
            sc.open(c)
        else:
            sc.raw(c, sc.frame(p, J.DEREG if how == "dereg" else J.AUTH, "wrong"))
            if r.random() < .5:
                sc.http("geo", p)
        for _ in range(r.choice([1, 2])):
            sc.raw(c, sc.frame(p, J.REG, l=p))
            sc.http("geo", p)
            if r.random() < .5:
                sc.raw(c, sc.frame(p, J.AUTH, "right"))
                sc.http("geo", p)
            sc.raw(c, sc.frame(p, J.DEREG))


def leftover(sc, rounds):
    """Fragments from before a registration (of the old one, or of nobody) are followed by the rest of them after it."""
    r = sc.rng
    sc.settle = 0
    for k in range(rounds):
        p, c, o = "p%d" % k, "c%d_" % k, "o%d_" % k
        mid = r.choice([J.LOC, J.AUTH, J.DEREG, J.HEART])
        total = r.choice([2, 2, 3, 5])
        body = sc.body(sc.term(p), mid, "wrong") if mid == J.AUTH else big_loc(sc, r.choice([28, 90]), False) if mid == J.LOC else b""
        at = sorted(r.randrange(len(body) + 1) for _ in range(total - 1))
        cut = [body[a:b] for a, b in zip([0] + at, at + [len(body)])]
        piece = lambda i: sc.frame(p, mid, frag=(total, i + 1), body=cut[i])
        upto = r.randrange(1, total)
        near = None
        if r.random() < .5:               # a neighbour with almost the same number is in the middle of a message all the while
            d = sc.term(p).digits
            q = sc.term("n%d" % k)
            alike = [x for x in (d + "0", d + "12", d[:-1], "1" + d, d[1:], d[:-2]) if x and x not in sc.used and len(x) <= (20 if q.v19 else 12)]
            if alike:
                q.digits = r.choice(alike)
                sc.used.add(q.digits)
            near = (sc.loc_body(1), r.randrange(1, 20))
            join(sc, "n%d" % k, "n%d_" % k)
            sc.raw("n%d_" % k, sc.frame("n%d" % k, J.LOC, frag=(2, 1), body=near[0][:near[1]]))
        where = r.choice(["old", "old", "stranger", "same"])
        if where != "stranger":
            join(sc, p, c, auth=r.random() < .5)
            if where == "old":
                sc.raw(c, b"".join(piece(i) for i in range(upto)))
            how = r.choice(["dereg", "wrong", "silence"])
            if how == "silence":
                for _ in range(5):
                    sc.sleep(40000)
                    if near:
                        sc.raw("n%d_" % k, sc.frame("n%d" % k, J.HEART))
                sc.conns.pop(c, None)
                c = "e" + c
                sc.open(c)
            else:
                sc.raw(c, sc.frame(p, J.DEREG if how == "dereg" else J.AUTH, "wrong"))
        else:
            sc.open(o)                    # a fragment for a number nobody has: cut off, and forgotten
            sc.raw(o, piece(0))
            upto = 1
            sc.open(c)
        sc.raw(c, sc.frame(p, J.REG, l=p))
        if where == "same":               # of this registration: to be put together
            sc.raw(c, b"".join(piece(i) for i in range(upto)))
        if r.random() < .6:
            sc.raw(c, sc.frame(p, J.AUTH, "right"))
        sc.raw(c, b"".join(piece(i) for i in range(upto, total)))
        sc.http("geo", p)
        sc.raw(c, sc.frame(p, J.HEART))
        if near:
            sc.raw("n%d_" % k, sc.frame("n%d" % k, J.LOC, frag=(2, 2), body=near[0][near[1]:]))
            sc.http("geo", "n%d" % k)
            sc.raw("n%d_" % k, sc.frame("n%d" % k, J.DEREG))


def bits(sc, n):
    """Walking ones and zeros, pairs, and random status words."""
    r = sc.rng
    join(sc, "p", "c")
    words = [0, 0xFFFFFFFF] + [1 << i for i in range(32)] + [0xFFFFFFFF ^ (1 << i) for i in range(32)]
    words += [(1 << r.randrange(32)) | (1 << r.randrange(32)) for _ in range(n)] + [r.getrandbits(32) for _ in range(n)]
    r.shuffle(words)
    for w in words:
        b = J.loc_body(sc.word(4), w, sc.word(4), sc.word(4), sc.word(2), sc.word(2), sc.word(2), sc.time6())
        sc.raw("c", sc.frame("p", J.LOC, body=b))
        sc.http("geo", "p")
        if r.random() < .1:
            sc.raw("c", sc.frame("p", J.HEART))


def fragments(sc, rounds):
    """Long fragmented messages, several at a time, with repeats and interruptions."""
    r = sc.rng
    ps = ["p", "q"]
    for p in ps:
        join(sc, p, "c" + p)
    k = 0
    for _ in range(rounds):
        flows = []
        for p in ps:
            for mid in r.sample([J.LOC, J.AUTH, J.HEART, J.TREPLY], r.choice([1, 2])):
                total = r.choice([1, 2, 3, 5, 9, 30, 255, 256, 300] if mid == J.LOC else [1, 2, 3, 5])
                body = big_loc(sc, r.choice([28, 60, 400, 3000]), False) if mid == J.LOC else sc.body(sc.term(p), mid, "right")
                at = sorted(r.randrange(len(body) + 1) for _ in range(total - 1))
                cut = [body[a:b] for a, b in zip([0] + at, at + [len(body)])]
                if any(len(x) > 1023 for x in cut):
                    continue
                flows.append([p, mid, total, cut, 1])
        while flows:
            f = r.choice(flows)
            p, mid, total, cut, i = f
            c = r.choice(["c" + p] * 5 + ["cp", "cq"])
            run = r.choice([1, 1, 2, 40])
            data = b""
            for _ in range(run):
                data += sc.frame(p, mid, frag=(total, i), body=cut[i - 1])
                if r.random() < .05:      # sent again
                    data += sc.frame(p, mid, frag=(total, i), body=cut[i - 1]) if i < total else b""
                i += 1
                if i > total:
                    break
            x = r.random()
            if x < .03 and i > 2:
                data += sc.frame(p, mid, frag=(total, r.choice([0, 1, i + 1, total + 1, 65535])), body=sc.bytes(3))
                i = total + 1             # given up
            elif x < .05 and i <= total:
                i = 1                     # starts over
            sc.raw(c, data)
            f[4] = i
            if i > total:
                flows.remove(f)
                sc.http("geo", p)
            if r.random() < .1:
                sc.raw("c" + p, sc.frame(p, r.choice([J.HEART, J.LOC]), acc=1))
            k += 1
            if k % 15 == 0:
                for q in ps:
                    sc.raw("c" + q, sc.frame(q, J.HEART))


def longauth(sc, rounds):
    """Authentications in pieces; some are longer than one frame can be and begin with the right code."""
    r = sc.rng
    for k in range(rounds):
        p, c = "p%d" % k, "c%d_" % k
        sc.open(c)
        sc.raw(c, sc.frame(p, J.REG, l=p))
        t = sc.term(p)
        if t.code is None:
            continue
        body = sc.body(t, J.AUTH, "right")
        if not t.v19 and k % 2:
            body += sc.bytes(r.choice([1024, 1024, 2048, 256, 1023, 1]))
        total = len(body) // 1023 + r.choice([1, 2])
        at = [i * len(body) // total for i in range(total + 1)]
        for i in range(total):
            sc.raw(c, sc.frame(p, J.AUTH, frag=(total, i + 1), body=body[at[i]:at[i + 1]]))
        sc.raw(c, sc.frame(p, J.HEART))


def gaps(sc, rounds):
    """A few fragments, then one that does not follow (by any distance, or of another total), up to the last: nothing is handled."""
    r = sc.rng
    join(sc, "p", "c")
    for _ in range(rounds):
        mid = r.choice([J.LOC, J.LOC, J.DEREG, J.HEART])
        body = sc.loc_body(1) if mid == J.LOC else b""
        n = r.choice([1, 1, 2, 3])                       # fragments in order
        d = r.choice([2, 2, 3, 10, 128, 129, 255, 256, 257, 258, 512, 513, 32769])
        last = n + d
        total = r.choice([last, last, last, last + 1, last + 256])
        k = r.randrange(len(body) + 1)
        data = [sc.frame("p", mid, frag=(total, i + 1), body=body[:k] if i == 0 else b"") for i in range(n)]
        t2 = total if r.random() < .7 else max(1, total + r.choice([256, -256, 1, -1]))
        data.append(sc.frame("p", mid, frag=(t2, last), body=body[k:]))
        for i in range(last + 1, min(total, last + 2) + 1):
            data.append(sc.frame("p", mid, frag=(total, i), body=b""))
        if r.random() < .3:
            sc.raw("c", b"".join(data))
        else:
            for x in data:
                sc.raw("c", x)
        sc.http("geo", "p")
        sc.raw("c", sc.frame("p", r.choice([J.HEART, J.LOC]), acc=1))


def each_param(sc, n):
    """Every parameter on its own and among others, at the edges of its range."""
    r = sc.rng
    join(sc, "p", "c")
    ids = DWORD + WORD + BYTE + GBK + TEXT + HEX + UNKNOWN
    r.shuffle(ids)
    for i, pid in enumerate(ids[:n]):
        if pid in DWORD:
            vs = [0, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -1, 0.5, 0x7E7D7E7D]
        elif pid in WORD:
            vs = [0, 255, 256, 32768, 65535, 65536, -1, 2**32, 0x7E7D]
        elif pid in BYTE:
            vs = [0, 0x7E, 127, 128, 255, 256, -1, 65536]
        elif pid in GBK:
            vs = ["", "a", "京A12345", "中" * 127, "x" * 255, "x" * 256, "中" * 128, "a\U0001F697"]
        elif pid in TEXT:
            vs = ["", "a", "y" * 255, "y" * 256, "京A", "é" * 127, "é" * 128]
        elif pid in HEX:
            vs = ["", "00", "7e7d", "ff" * 255, "ff" * 256, "f", "zz", "AbCd"]
        else:
            vs = [1, "x"]
        for v in r.sample(vs, min(len(vs), 4)):
            ps = [{"paramId": pid, "paramLen": r.randrange(256), "paramValue": v}]
            if r.random() < .5:
                ps = [{"paramId": 1, "paramLen": 4, "paramValue": r.randrange(2**32)}] + ps
            if r.random() < .5:
                ps = ps + [{"paramId": 0x31, "paramLen": 2, "paramValue": r.randrange(65536)}]
            sc.http("ps", "p", params=ps)
        if i % 5 == 4:
            sc.raw("c", sc.frame("p", J.HEART))


def many_params(sc, n):
    """Lists around the size limit of a message, and of more than 255 items."""
    r = sc.rng
    join(sc, "p", "c")
    for i in range(n):
        x = r.random()
        if x < .3:        # exactly around 1023: 1 + 9 k + (5 + m)
            k = r.randrange(0, 80)
            m = 1023 - 1 - 9 * k - 5 + r.choice([-1, 0, 0, 1, 2])
            ps = [{"paramId": r.choice(DWORD), "paramLen": 4, "paramValue": r.randrange(2**32)} for _ in range(k)]
            while m > 255:
                z = min(255, m - 5)
                ps.append({"paramId": r.choice(GBK), "paramLen": 0, "paramValue": "k" * z})
                m -= z + 5
            if m >= 0:
                ps.append({"paramId": r.choice(TEXT), "paramLen": 0, "paramValue": "t" * m})
            r.shuffle(ps)
        elif x < .5:      # many items that are left out
            ps = [{"paramId": r.choice(UNKNOWN), "paramLen": 4, "paramValue": 1} for _ in range(r.choice([250, 255, 256, 300]))]
            ps += [{"paramId": r.choice(BYTE), "paramLen": 1, "paramValue": 9}]
            r.shuffle(ps)
        else:
            ps = [{"paramId": r.choice(BYTE), "paramLen": 1, "paramValue": r.randrange(256)} for _ in range(r.choice([100, 170, 171]))]
        sc.http("ps", "p", params=ps)
        if i % 8 == 7:
            sc.raw("c", sc.frame("p", J.HEART))


def long_frames(sc, n):
    """Outgoing frames of every length, short to the limit, with much to escape in them."""
    r = sc.rng
    join(sc, "p", "c")
    for i in range(n):
        left = r.choice([r.randrange(10, 1023), 1022, 1022, 511, 510, 255, r.randrange(500, 1023)])
        ps = []
        while left >= 5:
            z = min(255, left - 5)
            if z > 40 and r.random() < .3:
                z = r.randrange(z)
            if r.random() < .5:
                ps.append({"paramId": r.choice(HEX), "paramLen": 0, "paramValue": (bytes(r.choice([0x7E, 0x7D]) for _ in range(z)) if r.random() < .3 else sc.bytes(z)).hex()})
            else:
                ps.append({"paramId": r.choice(GBK), "paramLen": 0, "paramValue": "".join(r.choice("~}ab") for _ in range(z))})
            left -= z + 5
        sc.http("ps", "p", params=ps)
        if i % 8 == 7:
            sc.raw("c", sc.frame("p", J.HEART))


def moves(sc, rounds):
    """Terminals moving between connections that share network addresses, with commands all the time."""
    r = sc.rng
    ps = ["p", "q", "s"]
    sc.reuse = 1.0
    addrs = ["10.0.0.%d:%d" % (i, 1000 + i) for i in (1, 2, 3)] + ["10.0.0.11:1001", "10.0.0.1:10001"]
    inuse = {}
    n = 0
    for _ in range(rounds):
        x = r.random()
        live = [c for c in sc.conns]
        if x < .25 and len(live) < 5:
            n += 1
            free = [a for a in addrs if a not in inuse.values()]
            c = "c%d_" % n
            if free:
                inuse[c] = r.choice(free)
                sc.open(c, inuse[c])
        elif x < .35 and live:
            c = r.choice(live)
            if r.random() < .5:
                sc.gone(c, r.random() < .3)
                inuse.pop(c, None)
                continue
            # a reset; the same address is back before the server has let go of the old connection
            n += 1
            d = "c%d_" % n
            sc.do({"op": "reset", "conn": sc.conns.pop(c), "settle": r.choice([0, 1, 300, 900])})
            inuse[d] = inuse.pop(c)
            sc.open(d, inuse[d])
            p = r.choice(ps)
            o = None
            for k in r.choice([[J.REG], [J.AUTH], [J.REG, J.AUTH], [J.REG, J.AUTH]]):
                o = sc.raw(d, sc.frame(p, k, "right", l=p))
                if o and d in sc.conns and sc.conns[d] in o["closed"]:
                    del sc.conns[d]
                    inuse.pop(d, None)
            if r.random() < .5:
                sc.http("pq", p)
            sc.sleep(r.choice([500, 1500, 2500]))
            for q in r.sample(ps, 2) + [p]:
                sc.http("pq", q)
        elif x < .7 and live:
            c, p = r.choice(live), r.choice(ps)
            t = sc.term(p)
            k = r.choice([J.REG, J.AUTH, J.AUTH, J.HEART, J.HEART, J.DEREG]) if r.random() < .8 else J.REG
            o = sc.raw(c, sc.frame(p, k, "right", l=p))
            if o and sc.conns[c] in o["closed"]:
                del sc.conns[c]
                inuse.pop(c, None)
        else:
            sc.http(r.choice(["pq", "pq", "ps", "geo", "invalid"]), r.choice(ps))


def wrap(sc, n):
    """Enough fragment acknowledgements on one connection for the serial numbers to wrap."""
    join(sc, "p", "c")
    t = sc.term("p")
    one = lambda k: sc.frame("p", J.LOC, frag=(3, 1), body=b"\x01\x02")
    left = n
    while left > 0:
        k = min(2000, left)
        sc.bulk("c", b"".join(one(i) for i in range(k)))
        left -= k
    for _ in range(6):
        sc.http("pq", "p")
        sc.raw("c", one(0) + one(0))


def hostile(sc, rounds):
    """Bytes no terminal should send, on their own connections, next to well-behaved terminals."""
    r = sc.rng
    join(sc, "p", "cp")
    join(sc, "q", "cq")
    n = 0
    bads = []
    beat = 0
    plate = r.randrange(1 << 30)
    for _ in range(rounds):
        if not bads or r.random() < .2:
            n += 1
            sc.open("h%d_" % n)
            bads.append("h%d_" % n)
        c = r.choice(bads)
        ver = r.choice(["2011", "2013", "2019"])
        v19 = ver == "2019"
        phone = "".join(r.choice("0123456789") for _ in range(r.choice([12, 12, 20 if v19 else 11])))[:20 if v19 else 12]
        known = r.choice(["h0", "h1", "h2"])
        t = sc.term(known)
        x = r.random()
        mid = r.choice([J.REG, J.AUTH, J.HEART, J.DEREG, J.LOC, J.TREPLY, J.PLIST, J.MLIST, J.GREPLY, J.RREPLY, J.PSET, J.PQUERY, J.MQUERY, r.randrange(65536)])
        if x < .25:      # anything
            data = sc.bytes(r.choice([1, 3, 15, 60, 400]))
            if r.random() < .5:
                data = b"\x7e" + data + b"\x7e"
        elif x < .65:     # a valid envelope around a body of any length and content
            body = sc.bytes(r.choice([0, 1, 2, 3, 4, 5, 8, 17, 27, 28, 29, 37, 40, 45, 76, 77, 200]))
            if r.random() < .4:
                plate += 1
                body = sc.body(t, mid, "wrong", l="hp%d" % plate, acc=r.randrange(2))
                body = body[:r.randrange(len(body) + 1)]
            data = J.frame(mid, t.digits if r.random() < .5 else phone, body, r.randrange(65536), t.v19 if r.random() < .7 else v19, r.randrange(256),
                           frag=r.choice([None, None, (0, 0), (1, 1), (65535, 1), (2, 2), (3, 0), (1, 2), (2, 1)]))
        elif x < .85:     # headers with any bits
            c0 = mid.to_bytes(2, "big") + r.randrange(65536).to_bytes(2, "big") + sc.bytes(r.choice([0, 1, 5, 8, 9, 13, 20, 40]))
            data = J.wrap(c0)
        else:             # register properly, to have something to disturb
            plate += 1
            data = sc.frame(known, r.choice([J.REG, J.AUTH, J.LOC]), "right", l="hp%d" % plate, acc=0)
        o = sc.raw(c, data, pauses=data.count(0x7E) // 2 + 1)
        if sc.steps[-1]["t"] - beat > 25000:
            for p in "pq":
                sc.raw("c" + p, sc.frame(p, J.HEART))
            beat = sc.steps[-1]["t"]
        if o and sc.conns[c] in o["closed"]:
            del sc.conns[c]
            bads.remove(c)
        elif r.random() < .15:
            sc.gone(c, r.random() < .5)
            bads.remove(c)
        if r.random() < .4:
            p = r.choice(["p", "q"])
            sc.raw("c" + p, sc.frame(p, r.choice([J.HEART, J.LOC]), acc=1))
            if r.random() < .4:
                sc.http("geo", p)
        if r.random() < .1:
            sc.sleep(r.choice([100, 1100, 5000]))
        if r.random() < .02:      # connections that cannot be accepted
            sc.do({"op": "nofile", "n": r.choice([1, 2, 6]), "settle": 2000}, {"late": True})
        if r.random() < .1:
            sc.http(r.choice(["pq", "geo", "ps", "invalid"]), r.choice([known, "p", phone]))
    for p in "pq":
        sc.raw("c" + p, sc.frame(p, J.HEART))
    sc.open("last")
    sc.raw("last", sc.frame("fresh", J.REG, l="fresh"))


def unread(sc, rounds):
    """Peers that stop reading what the server writes to them, next to well-behaved terminals."""
    r = sc.rng
    join(sc, "p", "cp")
    join(sc, "q", "cq")
    n = 0
    now = lambda: sc.steps[-1]["t"]
    beat = now()

    def good():
        p = r.choice(["p", "q"])
        x = r.random()
        if x < .4:
            sc.raw("c" + p, sc.frame(p, r.choice([J.HEART, J.LOC]), acc=1))
        elif x < .7:
            sc.http(r.choice(["geo", "pq", "ps"]), p)
        elif x < .85:
            d = "n%d_" % len(sc.steps)
            sc.open(d)
            sc.raw(d, sc.frame(d, J.REG, l=d))
            sc.raw(d, sc.frame(d, J.DEREG))
            sc.gone(d)
        else:
            sc.sleep(r.choice([100, 1000, 8000]))

    for _ in range(rounds):
        n += 1
        x, h = "x%d" % n, "h%d_" % n
        join(sc, x, h, auth=r.random() < .7)
        name = sc.conns[h]
        sc.do({"op": "stall", "conn": name})
        phone = sc.term(x).digits
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .6:
                sc.do({"op": "httpleave", "method": "GET", "path": "/device/%s/params" % phone}, {"m": "any"})
            if r.random() < .5:
                good()
        if r.random() < .7:
            f = sc.frame(x, r.choice([J.HEART, J.LOC, J.AUTH, J.REG]), "right", l=x, acc=r.randrange(2))
            sc.do({"op": "send", "conn": name, "chunks": [f.hex()], "settle": 20}, {"mute": [name]})
        for _ in range(r.choice([3, 8])):
            good()
            if now() - beat > 20000:
                for p in "pq":
                    sc.raw("c" + p, sc.frame(p, J.HEART))
                beat = now()
        if r.random() < .5:      # until it expires
            for _ in range(7):
                sc.sleep(30000)
                for p in "pq":
                    sc.raw("c" + p, sc.frame(p, J.HEART))
            beat = now()
        else:
            sc.do({"op": "reset", "conn": name, "settle": 3500})
        sc.conns.pop(h, None)
        good()


def web(sc, rounds):
    """HTTP requests of all sorts, next to well-behaved terminals."""
    r = sc.rng
    join(sc, "p", "cp")
    sc.raw("cp", sc.frame("p", J.LOC, acc=1))
    deep = "[" * 5000 + "]" * 5000
    for i in range(rounds):
        ph = r.choice([sc.term("p").digits, "", "%20", "..%2f..", "a" * 3000, "%00", "%E4%BA%AC", "-1", "'\"", sc.term("p").digits + "0"])
        path = r.choice(["/device", "/device/", "/device/%s" % ph, "/device/%s/geo" % ph, "/device/%s/params" % ph, "/", "/x", "/device/%s/params/" % ph,
                         "/device/%s/geo?x=%%zz" % ph, "//device", "/device//geo"])
        body = r.choice(["", "null", "{}", deep, '{"params":' + deep + "}", '{"paramCnt":1e400}', '{"paramCnt":255,"params":null}',
                         '{"paramCnt":1,"params":[null]}', '{"paramCnt":1,"params":[{}]}', "\xff\xfe", "x" * 70000,
                         '{"params":[{"paramId":1,"paramLen":4,"paramValue":1e308}]}', '{"params":[{"paramId":49,"paramLen":4,"paramValue":"' + "z" * 9000 + '"}]}',
                         '{"params":[{"paramId":%d,"paramLen":0,"paramValue":null}]}' % r.choice(DWORD + WORD + BYTE + GBK + HEX),
                         '{"params":[{"paramId":%d,"paramLen":0}]}' % r.choice(DWORD + WORD + BYTE + GBK + HEX)])
        method = r.choice(["GET", "PUT", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH", "BREW"])
        sc.flush()
        op = {"op": "http", "method": method, "path": path, "body": body, "ctype": r.choice(["", "text/plain", "application/xml", "application/json"]), "settle": 5}
        sc.do(op, {"m": "any"})
        if i % 4 == 3:
            sc.raw("cp", sc.frame("p", r.choice([J.HEART, J.LOC]), acc=1))
            sc.http(r.choice(["geo", "pq"]), "p")
