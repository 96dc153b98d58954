"""Running TLC."""
import json
import os
import re
import subprocess
import time

from .sut import STOP, VERIF, CheckError

SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(work, module, cfg, env=None, args=(), heap="2g", timeout=800, workers=1, cwd=None):
    """module: path of the .tla file; cfg: path.  Returns (exit code, output)."""
    meta = os.path.join(work, "tlcmeta_%s_%d" % (os.path.basename(module), abs(hash((cfg, str(env)))) % 10**9))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work, "-DTLA-Library=" + SPEC, "-cp", JAR,
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    p = subprocess.Popen(cmd, cwd=cwd or work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    end = time.time() + timeout
    try:
        while True:
            try:
                out, _ = p.communicate(timeout=2)
                return p.returncode, out
            except subprocess.TimeoutExpired:
                if os.path.exists(os.path.join(work, STOP)):      # the verdict is known
                    raise CheckError("stopped")
                if time.time() > end:
                    raise CheckError("TLC did not finish %s within %d s" % (os.path.basename(module), timeout))
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        subprocess.run(["rm", "-rf", meta])


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m = re.findall(r"([\d,]+) states generated.*?\(?([\d,]+)?\)?", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    n = lambda x: int(x.replace(",", "")) if x else 0
    return n(a), n(b)


def write(work, name, text):
    p = os.path.join(work, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in sorted(v.items())) + "]"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def cfg_text(spec, consts, invs=(), props=(), view=None, extra=""):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        t += "CONSTANTS\n" + "".join("  %s %s\n" % (k, v if str(v).startswith("<-") else "= " + tla(v)) for k, v in consts.items())
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if view:
        t += "VIEW " + view + "\n"
    return t + extra


def check_model(work, name, module, consts, invs=(), props=(), view=None, heap="4g", workers=4, timeout=800):
    """Exhaustive check; a violation of the model is an error of the specification, not of the code."""
    cfg = write(work, name + ".cfg", cfg_text("Spec", consts, invs, props, view))
    rc, out = run(work, os.path.join(SPEC, module + ".tla"), cfg, heap=heap, workers=workers, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("the model %s violates its own properties or could not be checked (exit %d):\n%s" % (module, rc, out[-3000:]))
    gen, dist = counts(out)
    return {"module": module, "constants": {k: tla(v) for k, v in consts.items()}, "checked": list(invs) + list(props),
            "states": dist, "transitions": gen}


def check_variant(work, name, module, consts, invs=(), props=(), view=None, off="", timeout=800):
    """The same model without one of its precautions has to fail: the properties say something."""
    cfg = write(work, name + ".cfg", cfg_text("Spec", consts, invs, props, view))
    rc, out = run(work, os.path.join(SPEC, module + ".tla"), cfg, heap="4g", timeout=timeout)
    m = re.search(r"(?:Invariant|Action property|Temporal propert(?:y|ies)) (.*?) ?(?:is|was|were) violated", out)
    if rc not in (12, 13) or not m:
        raise CheckError("the model %s holds without %s: its properties are too weak (exit %d):\n%s" % (module, off, rc, out[-3000:]))
    gen, dist = counts(out)
    return {"module": module, "constants": {k: tla(v) for k, v in consts.items()}, "without": off, "fails_as_it_should": m.group(1) or "liveness",
            "states": dist, "transitions": gen}


def generate(work, name, consts, weights, num, seed, timeout=300):
    """Scripts from random behaviours of the platform model."""
    mod = "G_" + name
    write(work, mod + ".tla", "---- MODULE %s ----\nEXTENDS PlatformGen\nWdef == %s\n====\n" % (mod, tla(weights)))
    c = dict(KeepMs=60000, SlackMs=0, TickMs=30000, WithFrag=False, WithCmd=True)
    c.update(consts)
    c["W"] = "<- Wdef"
    cfg = write(work, mod + ".cfg", cfg_text("GSpec", c))
    depth = c["MaxLen"] * 9 + 100
    rc, out = run(work, os.path.join(work, mod + ".tla"), cfg,
                  args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=timeout)
    scripts = []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            scripts.append(json.loads(json.loads(line)[7:]))
    if rc != 0 or not scripts:
        raise CheckError("generating scripts failed (exit %d):\n%s" % (rc, out[-2000:]))
    return scripts


def tail(v, n=1500):
    return v if len(v) <= n else v[:n] + " ..."


def validate(work, name, module, prop, traces, consts=None, heap="3g", timeout=850):
    """Check recorded executions against the specification.

    Returns (None, counts) or ((trace index, step index, issues text), counts)."""
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    consts = consts if consts is not None else dict(KeepMs=60000, SlackMs=3000)
    cfg = write(work, name + ".cfg", cfg_text("Spec", consts, ["Conforms"]))
    rc, out = run(work, os.path.join(SPEC, module + ".tla"), cfg, env=dict(VERIF_TRACES=path, VERIF_PROP=prop), heap=heap, timeout=timeout)
    os.remove(path)
    gen, dist = counts(out)
    if rc == 0 and "No error has been found" in out:
        want = sum(2 * len(t["steps"]) + 1 for t in traces)
        if dist != want:
            raise CheckError("TLC visited %d trace states, expected %d" % (dist, want))
        return None, (gen, dist)
    if rc == 12 and "Invariant Conforms is violated" in out:
        last = out[out.rindex("State "):]
        ti = int(re.search(r"/\\ ti = (\d+)", last).group(1))
        si = int(re.search(r"/\\ si = (\d+)", last).group(1))
        m = re.search(r"/\\ bad = (.*?)(?=\n/\\ |\n\n|\Z)", last, re.S)
        return (ti - 1, si - 2, tail(" ".join(m.group(1).split()))), (gen, dist)
    raise CheckError("TLC could not validate the traces (exit %d):\n%s" % (rc, out[-3000:]))
