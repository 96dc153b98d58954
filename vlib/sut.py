"""Building the system under test from /repo's working tree, and driving it."""
import glob
import json
import os
import random
import select
import shutil
import socket
import subprocess
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
OP_TIMEOUT = 60
STOP = "stop"


class CheckError(Exception):
    """The check itself could not run: no verdict."""


class Crash(Exception):
    """The server process died or stopped responding."""

    def __init__(self, what, detail, rc=None):
        super().__init__(what)
        self.what, self.detail, self.rc = what, detail, rc


class PortTaken(Exception):
    pass


def free_port():
    """Below the ephemeral range; bindable now."""
    rng = random.SystemRandom()
    for _ in range(200):
        p = rng.randrange(15000, 32000)
        with socket.socket(socket.AF_INET6) as s6, socket.socket() as s4:
            try:
                s4.bind(("0.0.0.0", p))
                try:
                    s6.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
                    s6.bind(("::", p))
                except OSError as e:
                    if e.errno == 98:
                        continue
                return p
            except OSError:
                continue
    raise CheckError("no free HTTP port")


def goenv():
    e = dict(os.environ)
    e.update(GOENV)
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    return e


INSTR_DIRS = ["internal/storage", "internal/protocol", "internal/protocol/model", "internal/server", "internal/api", "pkg/container"]


def go(args, cwd, what):
    p = subprocess.run(["go"] + args, cwd=cwd, env=goenv(), capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError(what + " failed:\n" + (p.stdout + p.stderr)[-4000:])
    return p.stdout


def build(work, name, ext=(), instr=False, race=False):
    """Build the driver with the repository's working tree; -modfile copies keep /repo's go.mod untouched."""
    rep = {os.path.join(REPO, "internal/verifyield/yield.go"): os.path.join(HARNESS, "verifyield/yield.go")}
    for f in ["export_verif_test.go", "driver_verif_test.go"] + list(ext):
        rep[os.path.join(REPO, "internal/server/zz_" + f)] = os.path.join(HARNESS, "sut", f)
    if instr:
        tool = os.path.join(work, "instr")
        if not os.path.exists(tool):
            go(["build", "-o", tool, "main.go"], os.path.join(HARNESS, "instr"), "building instr")
        files = []
        for d in INSTR_DIRS:
            files += [f for f in sorted(glob.glob(os.path.join(REPO, d, "*.go"))) if not f.endswith("_test.go")]
        out = os.path.join(work, name + "_src")
        os.makedirs(out, exist_ok=True)
        p = subprocess.run([tool, out] + files, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("instrumenting failed:\n" + p.stderr[-3000:])
        rep.update(json.loads(p.stdout))
    ov = os.path.join(work, name + "_overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    mod = os.path.join(work, name + ".mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, name + ".sum"))
    exe = os.path.join(work, name + ".test")
    go(["test", "-c", "-vet=off", "-modfile", mod, "-overlay", ov] + (["-race"] if race else []) + ["-o", exe, "./internal/server"],
       REPO, "building the driver from /repo")
    return exe


class Driver:
    """One server process."""
    counter = 0
    lock = threading.Lock()

    def __init__(self, exe, work, procs=1, level="info"):
        with Driver.lock:
            Driver.counter += 1
            n = Driver.counter
        self.dir = os.path.join(work, "run%d_%d" % (os.getpid(), n))
        os.makedirs(self.dir, exist_ok=True)
        self.exe, self.stop = exe, os.path.join(work, STOP)
        for attempt in range(8):
            self.start(procs, level)
            try:
                if self.line() != b'{"ready":true}':
                    raise CheckError("the driver did not start")
                return
            except PortTaken:
                self.close(keep=True)
            except Crash as e:
                # the API ends the process when its port is taken: try others before believing in a crash
                if attempt == 7 or e.rc != 1:
                    raise
                self.close(keep=True)
        raise CheckError("no free HTTP port")

    def start(self, procs, level):
        r, w = os.pipe()
        env = goenv()
        env.update(VERIF_DRIVER_DIR=self.dir, VERIF_LEVEL=level, VERIF_PROCS=str(procs), VERIF_PORT=str(free_port()), GOTRACEBACK="all",
                   GORACE="halt_on_error=1 exitcode=66", TMPDIR=self.dir)
        self.err = open(os.path.join(self.dir, "stderr"), "w+b")

        def fd3():
            os.dup2(w, 3)
            os.set_inheritable(3, True)
        self.p = subprocess.Popen([self.exe, "-test.run", "TestVerifDriver", "-test.timeout", "0"], cwd=self.dir, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err, pass_fds=(3,) if w == 3 else (),
                                  preexec_fn=fd3, close_fds=False)
        os.close(w)
        self.r = r
        self.buf = b""

    def line(self):
        while b"\n" not in self.buf:
            for _ in range(OP_TIMEOUT):
                ok, _, _ = select.select([self.r], [], [], 1)
                if ok or os.path.exists(self.stop):
                    break
            if os.path.exists(self.stop):
                self.kill()
                raise CheckError("no longer needed")
            if not ok:
                self.kill(sig=True)
                raise Crash("no response to the operation within %d s (blocked)" % OP_TIMEOUT, self.stderr())
            d = os.read(self.r, 1 << 16)
            if not d:
                self.p.wait()
                self.died()
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def op(self, o):
        try:
            self.p.stdin.write((json.dumps(o) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        return json.loads(self.line())

    def stderr(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-20000:].decode("utf-8", "replace")

    def died(self):
        rc, e = self.p.returncode, self.stderr()
        if rc == 97:
            raise PortTaken()
        if rc == 98 or "VERIF-DRIVER-ERROR" in e or "panic: driver:" in e:
            raise CheckError("driver error:\n" + e[-2000:])
        if rc == 66 and "DATA RACE" in e:
            # both sides of the reported race have to be in the system's own code
            sides = e[e.index("DATA RACE"):].split("Goroutine")[0].split("Previous")
            own = [any(os.path.join(REPO, d) in l and "_verif_test.go" not in l for l in x.splitlines() for d in ("internal/", "pkg/"))
                   for x in sides[:2]]
            if len(own) == 2 and all(own):
                raise Crash("two requests touch the same memory without synchronisation (data race)", e, rc)
            raise CheckError("data race outside the system under test:\n" + e[:3000])
        if rc is not None and rc < 0 and -rc in (9, 15) and not e.strip():
            raise CheckError("driver killed from outside (signal %d)" % -rc)
        raise Crash("server process died (exit %s)" % rc, e, rc)

    def kill(self, sig=False):
        if self.p.poll() is None:
            if sig:
                try:
                    self.p.send_signal(3)
                    self.p.wait(5)
                except Exception:
                    pass
            if self.p.poll() is None:
                self.p.kill()
            self.p.wait()

    def close(self, keep=False):
        self.kill()
        self.err.close()
        try:
            os.close(self.r)
        except OSError:
            pass
        try:
            self.p.stdin.close()
        except OSError:
            pass
        if not keep:
            shutil.rmtree(self.dir, ignore_errors=True)
