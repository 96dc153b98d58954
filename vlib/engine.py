"""Running the jobs of one check: model runs, generated scenarios, recorded executions, their validation."""
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed

from . import prog, real, sut, tlc
from .sut import VERIF, CheckError, Crash

CORES = min(8, os.cpu_count() or 8)


class Ctx:
    """What a job has at hand (also across processes)."""

    def __init__(self, prop, seed, tier, work):
        self.prop, self.seed, self.tier, self.work = prop, seed, tier, work
        self.quick = tier != "thorough"

    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(str(k) for k in key)))


BUILDS = {"plain": dict(), "yield": dict(instr=True),
          "cli": dict(ext=["ext_client_verif_test.go", "ext_model_verif_test.go"]),
          "cliyield": dict(ext=["ext_client_verif_test.go", "ext_model_verif_test.go"], instr=True),
          "codec": dict(ext=["ext_codec_verif_test.go"]),
          "race": dict(race=True), "real": None, "prog": None}


def build(work, name):
    return real.build(work, name) if BUILDS[name] is None else sut.build(work, name, **BUILDS[name])


def exe(ctx, build):
    return os.path.join(ctx.work, build + ".test")


def record(ctx, build, player, procs=1, level="info", cls=None, **kw):
    """Run one scenario on a fresh server.  player(scenario).  Returns a trace dict; a crash ends it."""
    drv = {"real": real.RealDriver, "prog": prog.Bench}.get(build, sut.Driver)(exe(ctx, build), ctx.work, procs=procs, level=level)
    sc = None
    try:
        sc = cls(drv, **kw)
        try:
            player(sc)
            crash = None
        except Crash as e:
            crash = {"what": e.what, "stderr": e.detail[-6000:]}
        return {"steps": sc.steps, "ops": sc.ops, "crash": crash, "build": build, "procs": procs, "level": level,
                "module": getattr(sc, "MODULE", "PlatformTrace")}
    finally:
        drv.close()
        if hasattr(sc, "close"):
            sc.close()


def records(one, args):
    """Several recordings; the first one that ends in a crash is the last."""
    ts = []
    for a in args:
        ts.append(one(a))
        if ts[-1]["crash"]:
            break
    return ts


def judge(ctx, name, traces):
    """TLC's verdict on recorded executions: (violation or None, states, transitions)."""
    st = tr = 0
    by = {}
    for t in traces:
        by.setdefault(t["module"], []).append(t)
    for module, ts in sorted(by.items()):
        bad, (gen, dist) = tlc.validate(ctx.work, "%s_%s" % (name, module), module, ctx.prop, [{"steps": t["steps"]} for t in ts])
        st, tr = st + dist, tr + gen
        if bad:
            k, si, issues = bad
            return violation(ts[k], si, issues), st, tr
    for t in traces:
        if t["crash"]:
            return violation(t, len(t["steps"]), t["crash"]["what"], t["crash"]["stderr"]), st, tr
    return None, st, tr


def violation(t, si, issues, stderr=""):
    upto = si + 1
    if t["module"] == "ResourceTrace":
        at = [i for i, (op, _) in enumerate(t["ops"]) if op["op"] == "measure"]
        upto = at[si] + 1 if si < len(at) else len(t["ops"])
    return {"build": t["build"], "procs": t["procs"], "level": t["level"], "module": t["module"], "step": si, "issues": issues,
            "stderr": stderr, "ops": t["ops"][:upto], "steps": t["steps"][max(0, si - 3):si + 1]}


def summary(t, n=6):
    """A recorded execution, shortened, for the evidence file."""
    out = []
    for (op, _), st in list(zip(t["ops"], t["steps"]))[:n]:
        o = {k: (v if len(str(v)) < 160 else str(v)[:160] + "...") for k, v in op.items()}
        out.append({"op": o, "wrote": [[c, bytes(b).hex()[:120]] for c, b in st.get("out", [])], "closed": st.get("closed", []),
                    "devices": len(st.get("devs", [])), "t": st.get("t")})
    return {"steps_total": len(t["steps"]), "module": t["module"], "build": t["build"], "first_steps": out}


def run_job(ctx, fn, name, kw):
    """Executed in a worker process."""
    try:
        return fn(ctx, name, **kw)
    except CheckError as e:
        return {"error": "%s: %s" % (name, e)}
    except Exception:
        return {"error": "%s: %s" % (name, traceback.format_exc()[-3000:])}


def traced(ctx, name, traces, extra=None):
    """Job result for recorded executions."""
    bad, st, tr = judge(ctx, name, traces)
    res = {"violation": bad, "states": st, "transitions": tr, "traces": len(traces), "steps": sum(len(t["steps"]) for t in traces),
           "samples": [summary(traces[0])] if traces else [], "actions": tally(traces)}
    res.update(extra or {})
    return res


def tally(traces):
    n = {}
    for t in traces:
        for op, _ in t["ops"]:
            n[op["op"]] = n.get(op["op"], 0) + 1
    return n


def main(prop, jobs_for, builds_for, level="model_checking"):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    base = os.environ.get("VERIF_WORK") or None
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=base)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    ctx = Ctx(prop, seed, tier, work)
    try:
        with ThreadPoolExecutor(4) as pool:
            for f in [pool.submit(build, work, b) for b in builds_for(prop)]:
                f.result()
        budget = float(os.environ.get("VERIF_BUDGET", "0")) or (600 if tier == "thorough" else 0)
        tot = {"states": 0, "transitions": 0, "traces": 0, "steps": 0, "scripts": 0, "jobs": 0}
        actions, samples, models, extra = {}, [], [], {}
        bad, rnd = None, 0
        with ProcessPoolExecutor(CORES) as pool:
            while True:
                jobs = jobs_for(ctx, rnd)
                futs = [pool.submit(run_job, ctx, fn, "%s_r%d_%s" % (prop, rnd, name), kw) for name, fn, kw in jobs]
                for f in as_completed(futs):
                    r = f.result()
                    if r.get("error"):
                        for g in futs:
                            g.cancel()
                        raise CheckError(r["error"])
                    tot["jobs"] += 1
                    for k in ("states", "transitions", "traces", "steps", "scripts"):
                        tot[k] += r.get(k, 0)
                    for k, n in r.get("actions", {}).items():
                        actions[k] = actions.get(k, 0) + n
                    if len(samples) < 4:
                        samples += r.get("samples", [])
                    models += r.get("models", [])
                    for k, n in r.get("extra", {}).items():
                        extra[k] = extra.get(k, 0) + n
                    if r.get("violation") and not bad:
                        bad = r["violation"]
                        open(os.path.join(work, sut.STOP), "w").close()     # what is still running may end
                        for g in futs:
                            g.cancel()
                        break
                rnd += 1
                if bad or time.time() - t0 > budget * 0.8 or not budget:
                    break
        cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
               "implementation_steps_validated": tot["steps"], "scripts_generated_by_tlc": tot["scripts"], "operations_on_the_real_server": actions,
               "model_runs": models, "rounds": rnd, "samples": samples[:4]}
        cov.update(extra)
        evidence = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2)}
        if bad:
            path = os.path.join(ev, prop + "-replay.json")
            with open(path, "w") as f:
                json.dump(dict(bad, property=prop), f, indent=1)
            evidence["coverage"]["violation"] = {"issues": bad["issues"], "replay": path}
        with open(os.path.join(ev, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        if bad:
            print("issues: " + str(bad["issues"])[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s held: %d traces, %d steps of the real server validated, %d states, %.1f s" % (prop, tot["traces"], tot["steps"], tot["states"], time.time() - t0))
        return 0
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    """Run the recorded operations again and validate what is seen now."""
    from .trace import Recorder
    from .term import TermRecorder
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif_replay_")
    ctx = Ctx(v["property"], 0, "quick", work)
    try:
        build(work, v["build"])
        from .codec import CodecRecorder
        from .res import ResRecorder
        cls = {"TerminalTrace": TermRecorder, "ResourceTrace": ResRecorder, "MessagesTrace": CodecRecorder, "ProgramTrace": prog.ProgRecorder}.get(v["module"], Recorder)
        t = record(ctx, v["build"], lambda sc: [sc.do(op, m) for op, m in v["ops"]], procs=v["procs"], level=v["level"], cls=cls)
        bad, _, _ = judge(ctx, "replay", [t])
        print(json.dumps({"issues": bad["issues"], "step": bad["step"], "last_op": bad["ops"][-1], "observed": bad["steps"][-1:], "stderr": bad["stderr"][-3000:]},
                         indent=1) if bad else "no violation on this run")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
