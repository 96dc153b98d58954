"""The server program itself: built from /repo, started with a configuration file, spoken to over real sockets in real time.

Same operations and observations as sut.Driver.  Whether the program has come to rest is read from the kernel: no thread of it
runs and no received data is waiting; whether it has closed a connection, from the descriptors it holds."""
import json
import os
import re
import shutil
import socket
import struct
import subprocess
import threading
import time

from . import sut
from .sut import CheckError, Crash
from .trace import EPOCH

NS = 1_000_000
BASE = int(EPOCH.timestamp()) * 1000 * NS
STAMP = re.compile(r"^(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d{1,9}))?(Z|[+-]\d\d:\d\d)$")


def build(work, name):
    """The program, as a user would build it."""
    mod = os.path.join(work, name + ".mod")
    shutil.copy(os.path.join(sut.REPO, "go.mod"), mod)
    shutil.copy(os.path.join(sut.REPO, "go.sum"), os.path.join(work, name + ".sum"))
    exe = os.path.join(work, name + ".test")
    sut.go(["build", "-buildvcs=false", "-modfile", mod, "-o", exe, "."], sut.REPO, "building the program from /repo")
    return exe


def ns_of(stamp):
    from datetime import datetime
    m = STAMP.match(stamp)
    if not m:
        return None
    t = datetime.fromisoformat(m.group(1) + m.group(3).replace("Z", "+00:00"))
    return int(t.timestamp()) * 1000 * NS + int(((m.group(2) or "") + "0" * 9)[:9])


def conf_text(c):
    y = lambda b: "true" if b else "false"
    return ("log:\n  consoleEnable: %s\n  fileEnable: %s\n  printAsJson: %s\n  logLevel: \"%s\"\n  logDirectory: \"%s\"\n  logFile: \"%s\"\n"
            "  maxSizeOfRolling: %d\n  maxBackupsOfRolling: %d\n  maxAgeOfRolling: %d\n\nserver:\n  name: \"%s\"\n  port:\n    tcpPort: \"%s\"\n"
            "    udpPort: \"%s\"\n    httpPort: \"%s\"\n  banner:\n    enable: %s\n    bannerPath: \"%s\"\n"
            % (y(c["console"]), y(c["file"]), y(c["json"]), c["level"], c["dir"], c["name"], c["size"], c["backups"], c["age"], "x",
               c["tcp"], c["udp"], c["http"], y(c["banner"]), c["bannerpath"]))


class Program:
    """One run of the program in a directory of its own."""

    def __init__(self, exe, dir, args):
        self.dir = dir
        env = sut.goenv()
        env.update(TMPDIR=dir, GOTRACEBACK="all")
        env.pop("PORT", None)
        for n in ("stdout", "stderr"):
            open(os.path.join(dir, n), "wb").close()
        self.out = open(os.path.join(dir, "stdout"), "a+b")
        self.err = open(os.path.join(dir, "stderr"), "a+b")
        self.p = subprocess.Popen([exe] + args, cwd=dir, env=env, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err)
        self.pid = self.p.pid

    def text(self, f):
        f.flush()
        f.seek(0)
        return f.read().decode("utf-8", "replace")

    def sockets(self):
        """inodes of the sockets the program holds"""
        d, res = "/proc/%d/fd" % self.pid, set()
        try:
            names = os.listdir(d)
        except OSError:
            return res
        for n in names:
            try:
                l = os.readlink(d + "/" + n)
            except OSError:
                continue
            if l.startswith("socket:["):
                res.add(l[8:-1])
        return res

    def table(self):
        """(local port, remote port, state, rx queue, inode) of every TCP socket"""
        res = []
        for f in ("/proc/net/tcp", "/proc/net/tcp6"):
            try:
                with open(f) as h:
                    lines = h.read().splitlines()[1:]
            except OSError:
                continue
            for l in lines:
                w = l.split()
                res.append((int(w[1].rsplit(":", 1)[1], 16), int(w[2].rsplit(":", 1)[1], 16), w[3], int(w[4].split(":")[1], 16), w[9]))
        return res

    def listens(self):
        own = self.sockets()
        return sorted({lp for lp, _, st, _, ino in self.table() if st == "0A" and ino in own})

    def everywhere(self):
        """whether what it listens on can be reached at every address of the machine"""
        own, res = self.sockets(), []
        for f in ("/proc/net/tcp", "/proc/net/tcp6"):
            try:
                with open(f) as h:
                    res += [w[1].rsplit(":", 1)[0] for w in (l.split() for l in h.read().splitlines()[1:]) if w[3] == "0A" and w[9] in own]
            except OSError:
                continue
        return all(not a.strip("0") for a in res)

    def idle(self):
        d = "/proc/%d/task" % self.pid
        try:
            for t in os.listdir(d):
                with open("%s/%s/stat" % (d, t)) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] not in "SIt":
                        return False
        except OSError:
            pass
        return True

    def waiting(self):
        own = self.sockets()
        return any(rx for _, _, st, rx, ino in self.table() if ino in own and st in ("01", "08", "0A"))

    def rest(self, limit=20):
        """Wait until the program has come to rest."""
        end, quiet, held = time.time() + limit, 0, None
        while time.time() < end:
            if self.p.poll() is not None:
                return
            if not self.idle():
                quiet, held = 0, None
            elif self.waiting():       # not read: it may be pausing
                held = held or time.time()
                quiet = 0
                if time.time() - held > .15:
                    return
            else:
                quiet += 1
                if quiet >= 4:
                    return
            time.sleep(.001)

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.out.close()
        self.err.close()


def free_ports(n):
    res = set()
    while len(res) < n:
        res.add(sut.free_port())
    return sorted(res)


class RealDriver:
    def __init__(self, exe, work, procs=1, level="info", conf=None):
        with sut.Driver.lock:
            sut.Driver.counter += 1
            n = sut.Driver.counter
        self.dir = os.path.join(work, "real%d_%d" % (os.getpid(), n))
        self.stopfile = os.path.join(work, sut.STOP)
        self.conns, self.inode, self.over, self.left = {}, {}, set(), []
        for attempt in range(6):
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            tcp, http = free_ports(2)
            c = dict(console=level in ("debug", "error"), file=level != "warn", json=level in ("debug", "fatal"), level=level.upper(), dir=os.path.join(self.dir, "logs"), name="server.log", size=50,
                     backups=2, age=1, tcp=tcp, udp="0", http=http, banner=False, bannerpath="")
            c.update(conf or {})
            self.tcp, self.port = tcp, http
            path = os.path.join(self.dir, "server.yaml")
            with open(path, "w") as f:
                f.write(conf_text(c))
            self.prog = Program(exe, self.dir, ["-c", path])
            end = time.time() + 30
            while time.time() < end and self.prog.p.poll() is None:
                if set(self.prog.listens()) >= {tcp, http}:
                    self.start = time.time_ns()
                    return
                time.sleep(.005)
            rc = self.prog.p.poll()
            err = self.prog.text(self.prog.err)[-3000:]
            taken = rc == 1      # one of the ports was taken meanwhile: try others before believing in it
            got = self.prog.listens()
            self.prog.stop()
            if not taken:
                break
        if rc is None:
            self.dead = "the program listens on %s, configured are %s (terminals) and %s (HTTP)" % (got, tcp, http)
        else:
            self.dead = "the program ended at once (exit %s)" % rc
        self.prog = None
        self.dead_err = err

    def now(self):
        return (time.time_ns() - self.start) // NS

    def check(self):
        if os.path.exists(self.stopfile):
            raise CheckError("no longer needed")
        rc = self.prog.p.poll()
        if rc is not None:
            raise Crash("server process died (exit %s)" % rc, self.prog.text(self.prog.err)[-20000:], rc)

    def shift(self, body):
        """Contact times relative to the start of the run, as under the driver's clock."""
        try:
            lst = json.loads(body)
            for d in lst:
                v = ns_of(d["lastComTime"])
                if v is not None:
                    ms = (BASE + v - self.start) // NS
                    t = time.gmtime(ms // 1000)
                    d["lastComTime"] = time.strftime("%Y-%m-%dT%H:%M:%S", t) + ".%03dZ" % (ms % 1000)
            return json.dumps(lst)
        except (ValueError, KeyError, TypeError):
            return body

    def http(self, method, path, body, ctype):
        try:
            s = socket.create_connection(("127.0.0.1", self.port), timeout=30)
        except OSError as e:
            return {"err": str(e)}
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            b = "" if method in ("GET", "HEAD") else body
            raw = b.encode("utf-8", "surrogatepass")
            h = "%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n" % (method, path)
            if method not in ("GET", "HEAD"):
                h += "Content-Type: %s\r\nContent-Length: %d\r\n" % (ctype or "application/json", len(raw))
            s.sendall(h.encode() + b"\r\n" + raw)
            import http.client
            r = http.client.HTTPResponse(s, method=method)
            r.begin()
            data = r.read().decode("utf-8", "replace")
            if path == "/device" and r.status == 200:
                data = self.shift(data)
            return {"code": r.status, "body": data}
        except Exception as e:      # no answer
            return {"err": "%s: %s" % (type(e).__name__, e)}
        finally:
            s.close()

    def send(self, o):
        s = self.conns.get(o["conn"])
        if s is None:
            return
        for i, h in enumerate(o["chunks"]):
            if i and o.get("gap"):
                time.sleep(o["gap"] / 1000)
            elif i and self.prog.p.poll() is None:      # cut here, not merged by the kernel
                self.prog.rest(1)
            try:
                s.sendall(bytes.fromhex(h))
            except OSError:
                return

    def open(self, o):
        s = socket.socket()
        s.settimeout(10)
        try:
            s.connect(("127.0.0.1", self.tcp))
        except OSError as e:
            self.check()
            raise Crash("the server does not accept connections: %s" % e, self.prog.text(self.prog.err)[-20000:])
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        lp = s.getsockname()[1]
        o["addr"] = "127.0.0.1:%d" % lp
        self.conns[o["conn"]] = s
        end = time.time() + 20
        while time.time() < end:
            own = self.prog.sockets()
            ino = [i for l, r, _, _, i in self.prog.table() if l == self.tcp and r == lp and i in own]
            if ino:
                self.inode[o["conn"]] = ino[0]
                return
            self.check()
            time.sleep(.002)
        raise Crash("a connection is not accepted within 20 s", self.prog.text(self.prog.err)[-20000:])

    def gone(self, o, rst):
        s = self.conns.get(o["conn"])
        if s is None:
            return
        try:
            if rst:
                self.drain(o["conn"])
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
                self.conns[o["conn"]] = None
            else:
                s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def drain(self, n):
        s = self.conns.get(n)
        while s is not None:
            try:
                s.settimeout(0)
                d = s.recv(1 << 16)
            except (BlockingIOError, InterruptedError):
                break
            except OSError:
                break
            if not d:
                break
            self.buf[n] = self.buf.get(n, b"") + d
        if s is not None:
            s.settimeout(10)

    def exec(self, o, r):
        k = o["op"]
        if k == "open":
            self.open(o)
        elif k == "send":
            self.send(o)
        elif k in ("close", "reset"):
            self.gone(o, k == "reset")
        elif k == "sleep":
            time.sleep(o["ms"] / 1000)
        elif k == "http":
            r["http"].append(self.http(o["method"], o["path"], o.get("body", ""), o.get("ctype", "")))
        elif k == "par":
            slots = [None] * len(o["ops"])
            t0 = time.time()

            def run(i, s):
                if s.get("at"):
                    time.sleep(max(0, s["at"] / 1000 - (time.time() - t0)))
                if s["op"] == "http":
                    slots[i] = self.http(s["method"], s["path"], s.get("body", ""), s.get("ctype", ""))
                elif s["op"] == "send":
                    x = self.conns.get(s["conn"])
                    if x is not None:
                        try:
                            x.sendall(b"".join(bytes.fromhex(h) for h in s["chunks"]))
                        except OSError:
                            pass
                else:
                    self.gone(s, s["op"] == "reset")
            ths = [threading.Thread(target=run, args=(i, s)) for i, s in enumerate(o["ops"])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            r["http"] += [x for s, x in zip(o["ops"], slots) if s["op"] == "http"]
        elif k != "level":
            raise CheckError("no such operation on the program: " + k)

    def op(self, o):
        if self.prog is None:
            raise Crash(self.dead, self.dead_err)
        self.check()
        self.buf = {}
        r = {"t0": self.now(), "http": [], "closed": [], "out": {}}
        self.exec(o, r)
        self.prog.rest()
        if o.get("settle", 0) > 300:      # pauses of the server; otherwise it has come to rest already
            time.sleep(o["settle"] / 1000)
            self.prog.rest()
        if not o.get("nosnap"):
            h = self.http("GET", "/device", "", "")
            if h.get("err") or h.get("code") != 200:
                self.check()
                r["err"] = "snapshot: %s %s" % (h.get("code"), h.get("err"))
            else:
                try:
                    r["devs"] = json.loads(h["body"])
                except ValueError:
                    r["err"] = "snapshot: no JSON"
            self.prog.rest()
        self.check()
        r["t"] = self.now() + 1
        for n in self.conns:
            self.drain(n)
        r["out"] = {n: b.hex() for n, b in self.buf.items() if b}
        own = self.prog.sockets()
        for n, i in sorted(self.inode.items()):
            if n not in self.over and i not in own:
                self.over.add(n)
                r["closed"].append(n)
                s = self.conns.get(n)
                if s is not None:
                    s.close()
                    self.conns[n] = None
        return r

    def close(self, keep=False):
        for s in self.conns.values():
            if s is not None:
                try:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
                except OSError:
                    pass
        if self.prog is not None:
            self.prog.stop()
        shutil.rmtree(self.dir, ignore_errors=True)
