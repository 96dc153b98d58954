"""The server program under its configurations: one run per step (see spec/ProgramTrace.tla)."""
import glob
import json
import os
import re
import shutil
import socket
import time

from . import jt808 as J
from . import real, sut
from .sut import CheckError
from .trace import EPOCH

LEVELS = ["DEBUG", "INFO", "WARN", "ERROR", "FATAL"]
PLAIN = re.compile(r"^\d{4}-\d\d-\d\dT\S+ \| ([A-Z]+) *\| ")
DEFAULT = dict(tcp=8080, http=8008, level=0, console=True, file=True, json=False, size=50, backups=128, age=7, banner=True)
FIELDS = [["maxSizeOfRolling", "many"], ["consoleEnable", "[1]"], ["concurrency", "many"], ["enable", "{a: 1}"], ["maxAgeOfRolling", "[]"]]
BANNER = "~~ a banner of its own ~~"


def tally(text):
    """Log entries per level; entries as JSON; as text."""
    n, js, plain = [0] * 5, 0, 0
    for l in text.splitlines():
        m = PLAIN.match(l)
        if m:
            plain, lv = plain + 1, m.group(1)
        elif l.startswith("{"):
            try:
                lv = json.loads(l).get("level", "").upper()
                js += 1
            except ValueError:
                continue
        else:
            continue
        if lv in LEVELS:
            n[LEVELS.index(lv)] += 1
    return n, js, plain


class Bench:
    """Stands in for the driver: the executable and a place to run it."""

    def __init__(self, exe, work, **_):
        with sut.Driver.lock:
            sut.Driver.counter += 1
            n = sut.Driver.counter
        self.exe, self.dir = exe, os.path.join(work, "prog%d_%d" % (os.getpid(), n))
        self.stopfile = os.path.join(work, sut.STOP)
        os.makedirs(self.dir)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def port_free(p):
    with socket.socket() as s:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("0.0.0.0", p))
            return True
        except OSError:
            return False


class ProgRecorder:
    MODULE = "ProgramTrace"

    def __init__(self, drv, **_):
        self.drv, self.ops, self.steps, self.seen = drv, [], [], None

    def do(self, op, meta=None):
        self.ops.append([op, meta or {}])
        for attempt in range(6):
            if os.path.exists(self.drv.stopfile):
                raise CheckError("no longer needed")
            st = self.run(op)
            # a port taken by a stranger meanwhile is none of the program's doing
            if st and (not st["ended"] or st["env"]["taken"] or not st["env"]["readable"]):
                break
            if op.get("fixed") and not (st and port_free(DEFAULT["tcp"]) and port_free(DEFAULT["http"])):
                st = None
                break
        if st is None:
            self.ops.pop()
        else:
            self.steps.append(st)
        return st

    # ---- one run -----------------------------------------------------------
    def run(self, op):
        d = os.path.join(self.drv.dir, "run")
        if not op.get("again"):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        tcp, http, other = real.free_ports(3)
        c = dict(op["conf"], tcp=tcp, http=http)
        if op.get("fixed"):
            c = dict(DEFAULT)
            if not (port_free(c["tcp"]) and port_free(c["http"])):
                return None
            args, log = [], os.path.join(d, "logs", "jt808-server-go.log")
        else:
            logs = os.path.join(d, op.get("dir", "logs"))
            log = os.path.join(logs, "server.log")
            bp = os.path.join(d, "banner.txt")
            if op.get("bannerfile", True):
                with open(bp, "w") as f:
                    f.write(BANNER + "\n")
            path = os.path.join(d, "server.yaml")
            text = real.conf_text(dict(c, level=LEVELS[c["level"]], dir=logs, name="server.log", udp=other, bannerpath=bp))
            how = op.get("config", "good")
            if how == "malformed":
                text = text.replace("server:", "server: [", 1)
            elif how == "type":
                f, v = op.get("field", ["maxSizeOfRolling", "many"])
                text = re.sub(r"\b%s: .*" % f, "%s: %s" % (f, v), text) if f in text else text + "client:\n  %s: %s\n" % (f, v)
            if os.path.isdir(path):
                os.rmdir(path)
            if how == "missing":
                path += ".none"
            elif how == "directory":
                os.makedirs(path)
            else:
                with open(path, "w") as f:
                    f.write(text)
            args = ["-c", path]
        env = {"readable": op.get("config", "good") == "good", "taken": []}
        before = self.entries(log)
        old = None
        if op.get("old"):
            os.makedirs(os.path.dirname(log), exist_ok=True)
            t = time.localtime(time.time() - op["old"] * 86400 - 3600)
            old = log[:-4] + time.strftime("-%Y-%m-%dT%H-%M-%S.000", t) + ".log"
            with open(old, "w") as f:
                f.write("old\n")
        held = []
        prog = None
        try:
            for k in op.get("taken", []):
                s = socket.socket()
                held.append(s)
                s.bind(("0.0.0.0", c[k]))
                s.listen(1)
                env["taken"].append(c[k])
            prog = real.Program(self.drv.exe, d, args)
            st = self.watch(op, c, env, prog, log)
            if st is None:
                return None
            if not st["ended"]:
                prog.rest()
            out, err = prog.text(prog.out), prog.text(prog.err)
            if op.get("roll"):      # old files are removed in the background
                self.wait(lambda: len(self.files(log)) <= c["backups"] + 1 and (op["old"] <= c["age"] or not os.path.exists(old)), 15)
                prog.rest()
                err = prog.text(prog.err)
            b = tally(before)
            for k in range(6):
                names = self.files(log)
                text = "".join(open(f, errors="replace").read() for f in names if f != old)
                st["con"], _, _ = tally(err)
                st["fil"], st["json"], st["plain"] = tally(text)
                st["fil"] = [x - y for x, y in zip(st["fil"], b[0])]
                st["json"], st["plain"] = st["json"] - b[1], st["plain"] - b[2]
                if st["con"] == st["fil"] or op.get("roll") or not (c["console"] and c["file"]):
                    break
                time.sleep(.3)      # an entry may just have been written (there is one every ten seconds)
                err = prog.text(prog.err)
            if c["level"] == 0 and c["console"] and not st["ended"] and self.seen is None:
                self.seen = [lv for lv in range(5) if st["con"][lv]]
            st["seen"] = self.seen or []
            st["kept"] = text.startswith(before)
            st["made"] = os.path.exists(log)
            st["banner"] = BANNER in out
            st["roll"] = len(err) // 1024 if op.get("roll") else 0
            st["files"], st["largest"] = len(names), max([os.path.getsize(f) // 1024 for f in names] or [0])
            st["old"], st["oldage"] = bool(old) and os.path.exists(old), op.get("old", 0)
            return st
        finally:
            if prog is not None:
                prog.stop()
            for s in held:
                s.close()

    def entries(self, log):
        try:
            return open(log, errors="replace").read()
        except OSError:
            return ""

    def files(self, log):
        return sorted(glob.glob(log[:-4] + "-*.log")) + ([log] if os.path.exists(log) else [])

    def wait(self, cond, limit):
        end = time.time() + limit
        while time.time() < end:
            if cond():
                return True
            time.sleep(.01)
        return cond()

    def watch(self, op, c, env, prog, log):
        conf = {k: c[k] for k in ("tcp", "http", "level", "console", "file", "json", "size", "backups", "age", "banner")}
        conf["bannerfile"] = bool(op.get("bannerfile", True)) and not op.get("fixed")
        st = {"conf": conf, "env": env, "answers": False, "web": False, "again": bool(op.get("again")), "empty": True}
        serves = env["readable"] and not env["taken"]
        self.wait(lambda: prog.p.poll() is not None or (serves and set(prog.listens()) >= {c["tcp"], c["http"]}), 30 if serves else 15)
        st["ended"], st["code"] = prog.p.poll() is not None, prog.p.poll() or 0
        st["listens"], st["everywhere"] = prog.listens(), prog.everywhere()
        if st["ended"]:
            return st
        if serves:
            st["empty"] = self.devices(c["http"]) == []
            phone = "13900001%04d" % op.get("n", 0)
            st["answers"] = self.speak(prog, c["tcp"], phone, op.get("beats", 3))
            lst = self.devices(c["http"])
            st["web"] = isinstance(lst, list) and [x.get("phone") for x in lst] == [phone]
        return st

    def devices(self, port):
        import http.client
        h = http.client.HTTPConnection("127.0.0.1", port, timeout=20)
        try:
            h.request("GET", "/device")
            r = h.getresponse()
            return json.loads(r.read()) if r.status == 200 else None
        except (OSError, ValueError, http.client.HTTPException):
            return None
        finally:
            h.close()

    def speak(self, prog, port, phone, beats):
        """Registration, heartbeats, a damaged frame: are the right ones answered?"""
        try:
            s = socket.create_connection(("127.0.0.1", port), timeout=20)
        except OSError:
            return False
        try:
            w = phone
            body = J.reg_body("2013", 1, 2, b"manu", b"model", b"id", 1, "京A12345".encode("gbk"))
            s.sendall(J.frame(J.REG, w, body, 1))
            got = J.parse_stream(self.read(s, 1))
            if [g[0] for g in got] != [J.RREPLY] or got[0][3][2] != 0:
                return False
            n = 2
            while n < beats + 2:
                k = min(100, beats + 2 - n)
                s.sendall(b"".join(J.frame(J.HEART, w, b"", n + i) for i in range(k)))
                got = J.parse_stream(self.read(s, k))
                if [(g[0], g[3][:2]) for g in got] != [(J.GREPLY, (n + i).to_bytes(2, "big")) for i in range(k)]:
                    return False
                n += k
            s.sendall(J.frame(J.LOC, w, J.loc_body(0, 0, 1, 2, 3, 4, 5, bytes.fromhex("991399996199")), 8))      # no such time: a warning
            self.read(s, 1)
            s.sendall(J.frame(J.HEART, w, b"", 9, badsum=1))                                                  # an error
            prog.rest()
            return True
        except OSError:
            return False
        finally:
            s.close()
            prog.rest()

    def read(self, s, k):
        """k frames"""
        data = b""
        while len(J.parse_stream(data)) < k:
            d = s.recv(1 << 16)
            if not d:
                break
            data += d
        return data


class ProgScenario(ProgRecorder):

    def __init__(self, drv, rng, **_):
        super().__init__(drv)
        self.rng, self.n = rng, 0

    def conf(self, **kw):
        r = self.rng
        c = dict(level=r.randrange(5), console=r.random() < .6, file=r.random() < .6, json=r.random() < .5, size=r.choice([1, 5, 50]),
                 backups=r.choice([1, 3, 128]), age=r.choice([1, 7, 30]), banner=r.random() < .5)
        c.update(kw)
        return c

    def go(self, **op):
        self.n += 1
        return self.do(dict(op, op="run", n=self.n))

    def serve(self, k):
        """Every level, destination and format; a second run in the same place."""
        for lv in range(5):
            for console, file, js in [(True, True, False), (True, True, True), (k % 2 == 0, k % 2 == 1, lv % 2 == 0)]:
                self.go(conf=self.conf(level=lv, console=console, file=file, json=js), bannerfile=self.rng.random() < .7,
                        dir=self.rng.choice(["logs", "a/b/c", "."]))
                if self.rng.random() < .4:
                    self.go(conf=dict(self.ops[-1][0]["conf"], level=self.rng.randrange(5)), again=True, dir=self.ops[-1][0]["dir"])

    def refuse(self, k):
        """Surroundings in which it cannot serve, and ones in which it can."""
        for lv in range(5):
            for how in ("missing", "malformed", "type", "directory"):
                self.go(conf=self.conf(level=lv), config=how, field=self.rng.choice(FIELDS))
            for taken in (["tcp"], ["http"], ["tcp", "http"], []):
                self.go(conf=self.conf(level=lv), taken=taken)
        if k == 0:
            self.go(conf=DEFAULT, fixed=True)

    def rolling(self, k):
        for backups, age, old in self.rng.sample([(2, 30, 400), (2, 30, 10), (6, 30, 10), (8, 30, 31), (1, 3, 2), (8, 3, 5), (3, 20000, 400), (8, 20000, 5000)], 4):
            self.go(conf=self.conf(level=0, console=True, file=True, json=False, size=1, backups=backups, age=age), roll=True, old=old, beats=3500)
