"""What each check runs: model configurations, scenario profiles, concurrent situations."""
from . import directed, engine, tlc
from .par import ParScenario
from .codec import CodecScenario
from .res import ResScenario
from .loop import LoopScenario
from .prog import ProgScenario
from .scenario import Scenario
from .term import TermScenario

CONSTS = dict(KeepMs=60000, SlackMs=0)
SMALL1 = dict(CONSTS, Phones={1}, PlateSet={11}, Conns={"a", "b"}, TickMs=20000, WithFrag=True, WithCmd=True)
SMALL2 = dict(CONSTS, Phones={1, 2}, PlateSet={11, 12}, Conns={"a"}, TickMs=60000, WithFrag=False, WithCmd=True)
BIG2 = dict(CONSTS, Phones={1, 2}, PlateSet={11, 12}, Conns={"a", "b"}, TickMs=60000, WithFrag=False, WithCmd=True)
BIG3 = dict(CONSTS, Phones={1, 2}, PlateSet={11, 12}, Conns={"a", "b"}, TickMs=30000, WithFrag=False, WithCmd=True)
ALLINV = ["TypeOK", "Unique", "GeoOfRegistered", "GeoLatest", "Route", "Bounds"]

# what of the platform model states each property
MC = {
    "C02": (["TypeOK"], ["OneTerminal"]), "C05": (["TypeOK"], ["Answered", "OneTerminal"]),
    "C06": (["Unique"], ["RegExact"]), "C07": (["TypeOK"], ["OnlineOnlyByCode", "WrongCodeRevokes", "StatusMoves"]),
    "C08": (["GeoOfRegistered", "FragOwned"], ["RemovedBy", "CreatedBy", "RegExact", "FragFresh"]), "C09": (["TypeOK"], ["CutOffIff"]),
    "C10": (["TypeOK"], ["RemovedBy", "ClosedBy", "StatusMoves"]), "C11": (["Bounds"], ["ExpiryCloses", "RemovedBy"]),
    "C12": (["GeoLatest"], ["OneTerminal"]), "C14": (["GeoLatest", "FragOwned"], ["FragWhole", "FragDone", "FragFresh"]), "C15": (["Route"], ["CmdTo"]),
}

# the precautions of the concurrent model; each property's run is repeated without one or two of them and has to fail then
SAFE = dict(OneCheck=True, SameReg=True, CondInside=True, JobPerReg=True, GeoInside=True, GeoDropInside=True, OwnConn=True, ClearOwn=True)
RALL = {"reg", "heart", "auth", "loc", "dereg", "wrong", "tick", "cmd"}
RBASE = dict(SAFE, Phones={1}, PlateSet={11}, Conns={"a", "b"}, Procs={"x", "y"}, MaxReg=2, MaxReq=5)
RINV, RPROP = ["Unique", "GeoOwn", "Watched", "Reachable", "Routed"], ["Atomic", "Justified", "StatusMoves", "CmdOwn", "ClosedBy"]


def race(kinds, off, **kw):
    """The concurrent model with some kinds of requests (all of them when thorough)."""
    q = dict(RBASE, Kinds=set(kinds))
    q.update(kw)
    t = dict(RBASE, Kinds=RALL)
    return ("RaceMC", q, t if "Phones" not in kw else dict(q, MaxReq=5), RINV, RPROP, None, off)


# other models: property -> (module, constants quick, constants thorough, invariants, properties, view[, precautions to leave out])
FRAME = dict(Alphabet={126, 125, 1, 2, 65}, MaxLen=5)
FRAMEBIG = dict(Alphabet={126, 125, 1, 2, 65}, MaxLen=7)
LOOPINV, LOOPLIVE = ["CodesAgree", "OnePlate", "Agree", "OnlineEarned"], ["Stays", "Settles", "SomeOneGets"]
LOOP = dict(CONSTS, Terms={1, 2}, SamePlate=True, Lossy=False, Timed=False, Cap=2)
ISO = dict(Good={"g", "h"}, Bad={"b"}, MaxMsg=2, Recover=True, WriteFree=True, Release=True, AcceptOn=True)
RES1 = dict(Phones={1, 2}, Conns={"a", "b"}, MaxReg=3, MaxConn=3, ClearSession=True, EndOnError=True, DropGeo=True, DropFrag=True, OwnFrag=True,
            JobEnds=True, Expires=True)
TPROPS = ["AuthIff", "AuthCode", "OnlineOnly", "EndedOnly", "SilentAfter", "OneAnswer", "Echo"]
MODELS = {
    "C01": [("FramingMC", FRAME, FRAMEBIG, ["ChunkFree", "NoDelimInside", "Sequence"], [], None)],
    "C02": [("FramingMC", FRAME, FRAMEBIG, ["Damage"], [], None)],
    "C03": [("FramingMC", FRAME, FRAMEBIG, ["RoundTrip", "EscInverse", "Sequence"], [], None)],
    "C04": [("LayoutMC", dict(CONSTS, Alphabet={0, 126, 65}, MaxId=2, MaxPlate=2), dict(CONSTS, Alphabet={0, 125, 126, 65}, MaxId=3, MaxPlate=2), ["Whole", "Fragmented"], [], None)],
    "C05": [race(["reg", "heart", "dereg"], ["SameReg"])],
    "C06": [race(["reg", "dereg"], ["OneCheck"], Phones={1, 2}, PlateSet={11, 12}, MaxReq=4, MaxReg=3)],
    "C07": [race(["reg", "auth", "wrong", "loc"], ["SameReg"])],
    "C08": [race(["reg", "dereg", "wrong", "loc"], ["SameReg", "GeoDropInside"]), race(["reg", "heart", "tick"], ["CondInside"])],
    "C09": [race(["reg", "dereg", "heart", "loc"], ["SameReg"])],
    "C10": [race(["reg", "auth", "heart", "tick"], ["CondInside"])],
    "C11": [race(["reg", "dereg", "tick", "auth"], ["JobPerReg"], MaxReq=4)],
    "C12": [race(["reg", "loc", "dereg"], ["GeoInside", "GeoDropInside"])],
    "C13": [("StatusMC", dict(MaxSet=2), dict(MaxSet=3), ["Word32", "BothWays", "Independent", "OneCarrier", "AllCarried"], [], None)],
    "C15": [race(["reg", "auth", "cmd", "tick"], ["OwnConn", "ClearOwn"])],
    "C16": [("SerialMC", dict(Procs={1, 2, 3}, M=4, MaxReq=6, AtomicTake=True, Refuse=True), dict(Procs={1, 2, 3, 4}, M=5, MaxReq=9, AtomicTake=True, Refuse=True),
             ["Consecutive", "Block", "Distinct"], ["Finishes"], None, ["AtomicTake"])],
    "C17": [("WireMC", dict(Procs={1, 2, 3}, Size=3, MaxReq=4, OwnBuffer=True, WholeWrite=True), dict(Procs={1, 2, 3}, Size=3, MaxReq=6, OwnBuffer=True, WholeWrite=True),
             ["Whole", "Complete"], ["Ends"], None, ["OwnBuffer", "WholeWrite"])],
    "C18": [race(["reg", "wrong", "tick", "cmd"], ["ClearOwn"], MaxReq=4),
            ("IsolationMC", ISO, dict(ISO, Bad={"b", "c"}), ["Up", "GoodOpen"], ["Answered", "Accepted", "WebAnswers"], None,
             ["Recover", "WriteFree", "Release", "AcceptOn"])],
    "C21": [("ListMC", dict(Phones={1, 2}, Readers={1}, MaxChg=5, OneLook=True), dict(Phones={1, 2}, Readers={1, 2}, MaxChg=5, OneLook=True),
             ["OneMoment", "GeoWithDevice"], [], None, ["OneLook"])],
    "C19": [("TerminalMC", CONSTS, CONSTS, ["LastSet"], [], None),
            ("ParamsMC", dict(CONSTS, MaxItems=2), dict(CONSTS, MaxItems=4), ["Readable", "Subsequence", "Width", "Each"], [], None)],
    "C20": [("TerminalMC", CONSTS, CONSTS, ["LastSet"], TPROPS, None),
            ("LoopMC", LOOP, dict(LOOP, Terms={1, 2, 3}), LOOPINV, LOOPLIVE, None),
            ("LoopMC", dict(LOOP, SamePlate=False, Cap=1), dict(LOOP, SamePlate=False), LOOPINV, LOOPLIVE, None),
            ("LoopMC", dict(LOOP, Lossy=True, Cap=1), dict(LOOP, Lossy=True), LOOPINV, ["Stays"], None),
            ("LoopMC", dict(LOOP, Lossy=True, Timed=True, Cap=1), dict(LOOP, Lossy=True, Timed=True), LOOPINV, [], "View")],
}
MODELS["C22"] = [("ResourceMC", RES1, dict(RES1, MaxReg=4, MaxConn=4), ["SessOwned", "GeoOwned", "FragOwned", "OneJob"], ["AllGone"], None,
                  ["ClearSession", "EndOnError", "DropGeo", "DropFrag", "OwnFrag", "JobEnds", "Expires"])]
MODELS["C23"] = [("MessagesMC", dict(CONSTS, Marks={126}, Deep=False), dict(CONSTS, Marks={0, 126, 125, 255}, Deep=True),
                  ["OneFrame", "Fit", "HeadBack", "BodyBack", "Again", "Agrees"], [], None)]
PROGC = dict(CONSTS, EndOnBind=True, EndOnRead=True)
MODELS["C24"] = [("ProgramMC", PROGC, PROGC, ["Whole", "Ends", "Quietly", "Apart", "Same"], ["Settles", "Serves"], None, ["EndOnBind", "EndOnRead"])]
# property -> messages through the codec: (rounds quick, rounds thorough, traces)
CODEC = {"C23": (12, 40, 16)}
# property -> kinds of repeated histories with measurements: (kind, repetitions before the first measurement, between two, traces)
RES = {"C22": [("connect", 300, 1000, 1), ("leave", 300, 1000, 2), ("leave", 300, 1000, 2), ("expire", 300, 1000, 2), ("refused", 300, 1000, 1),
               ("stranger", 300, 1000, 1), ("pieces", 300, 1000, 1), ("move", 300, 1000, 1), ("web", 300, 1000, 1), ("busy", 6000, 12000, 2),
               ("crowd", 300, 1000, 1), ("stuck", 200, 400, 1), ("endless", 600, 1000, 1), ("broken", 300, 600, 1), ("asked", 300, 800, 2)]}
# property -> kinds of terminal scenarios: (player, argument quick, argument thorough, traces)
TERM = {
    "C03": [("play", 40, 100, 2)],
    "C13": [("flags", 300, 5000, 2)],
    "C19": [("params_round", 40, 100, 4), ("loop", 30, 80, 3)],
    "C20": [("play", 60, 120, 16), ("play", 60, 120, 16), ("params_round", 40, 100, 6), ("loop", 40, 80, 10), ("loop", 40, 80, 10)],
}

# weights of the scenario generator
BASE = dict(open=3, gone=1, reset=1, regfree=4, reg=2, auth=2, authown=4, badauth=1, heart=4, dereg=1, loc=4, stranger=1, noreply=1, platform=1,
            unsup=1, geo=3, geoany=1, pq=2, ps=1, invalid=1, tick=2, bad=1, frag=2)


def w(**kw):
    d = dict(BASE)
    d.update(kw)
    return {k: v for k, v in d.items() if v > 0}


CALM = {100, 5000}
TICKS = {1000, 30000, 59000, 60000, 61000, 90000, 121000}
# property -> list of (weights, ticks, phones, conns, scenario options)
SEQ = {
    "C01": [(w(tick=1, heart=6, loc=6), CALM, 2, 2, dict(cut="rand", batch=.6, noise=.4)),
            (w(tick=1, heart=6, loc=6), CALM, 3, 3, dict(cut="bytes", batch=.5, noise=.4)),
            (w(tick=1, bad=4, unsup=3), CALM, 2, 2, dict(cut="rand", batch=.8, noise=.7))],
    "C02": [(w(bad=12, tick=2, geo=4), CALM, 3, 3, dict(batch=.3)), (w(bad=10, frag=5, tick=2), TICKS, 2, 2, dict(cut="rand", batch=.3))],
    "C03": [(w(pq=4, ps=6, oversize=2, tick=1), CALM, 4, 3, dict()), (w(frag=6, reg=4, badauth=2, tick=1), CALM, 3, 3, dict(versions=("2019",)))],
    "C04": [(w(reg=6, regfree=8, dereg=5, tick=1), CALM, 4, 3, dict()), (w(regfree=8, dereg=6, frag=4, auth=5), TICKS, 3, 3, dict(cut="rand"))],
    "C05": [(w(), CALM, 3, 3, dict(batch=.3)), (w(frag=4, reg=4, stranger=2), TICKS, 4, 4, dict(cut="rand", batch=.5, noise=.2))],
    "C06": [(w(reg=14, dereg=6, badauth=3, loc=1), CALM, 4, 4, dict()), (w(reg=12, dereg=4, badauth=2, tick=5), TICKS, 3, 3, dict())],
    "C07": [(w(badauth=4, auth=6, platform=5, loc=6, noreply=3), CALM, 3, 3, dict()), (w(badauth=2, auth=5, tick=6, loc=6, platform=3), TICKS, 3, 3, dict())],
    "C08": [(w(dereg=6, badauth=4, regfree=8, geo=6, geoany=5, loc=8, heart=2), CALM, 3, 3, dict()),
            (w(dereg=3, regfree=8, geo=5, geoany=5, loc=8, tick=7, frag=3), TICKS, 3, 3, dict(batch=.2))],
    "C09": [(w(stranger=8, fragstranger=5, open=8), CALM, 4, 4, dict(batch=.3)), (w(stranger=6, open=8, dereg=4, tick=5, geoany=4), TICKS, 3, 4, dict(cut="rand"))],
    "C10": [(w(heart=14, tick=8, authown=6), {1000, 30000, 59000, 59900}, 2, 3, dict(settle=0)),
            (w(heart=12, tick=6, dereg=2, gone=3, open=4, auth=5), {1000, 30000, 45000}, 3, 3, dict(settle=0))],
    "C11": [(w(tick=14, loc=4, heart=3, geo=4), TICKS, 3, 3, dict(settle=0)), (w(tick=10, gone=3, reset=2, open=5), {500, 5000, 20000, 61000}, 3, 4, dict(settle=0))],
    "C12": [(w(loc=14, geo=12, frag=2), CALM, 3, 3, dict()), (w(loc=12, geo=12, dereg=3, tick=4), TICKS, 4, 3, dict(batch=.2))],
    "C13": [(w(loc=14, geo=12), CALM, 3, 3, dict())],
    "C14": [(w(frag=20, fragany=4, geo=6), CALM, 2, 3, dict(batch=.3)), (w(frag=16, fragany=6, fragstranger=1, loc=6, dereg=2), CALM, 3, 3, dict(cut="rand", batch=.4))],
    "C15": [(w(pq=10, ps=6, invalid=4, mistyped=3, auth=8, open=6, gone=4, reset=2), CALM, 3, 4, dict(reuse=.9)),
            (w(pq=10, ps=4, auth=6, tick=6, gone=3, dereg=3), TICKS, 3, 3, dict(reuse=.9))],
    "C16": [(w(pq=10, ps=6, oversize=2, frag=8, auth=5), CALM, 2, 3, dict()), (w(pq=8, ps=4, invalid=3, mistyped=3, frag=6, gone=3, open=4), CALM, 3, 3, dict(batch=.3))],
    "C17": [(w(pq=6, ps=6, frag=4), CALM, 3, 3, dict(batch=.4))],
    "C18": [(w(bad=4, unsup=4, stranger=3, platform=4, reset=4, gone=4, open=6, mistyped=2, invalid=3, fragany=5), CALM, 4, 4, dict(noise=.5, cut="rand")),
            (w(reset=5, gone=5, open=6, tick=6, fragany=3), TICKS, 3, 3, dict(noise=.3))],
    "C19": [(w(ps=20, mistyped=3, oversize=2), CALM, 2, 2, dict())],
    "C21": [(w(geo=8, geoany=3), TICKS, 4, 4, dict())],
}
# property -> behaviours of the specification played on the program itself, over real sockets (as SEQ)
REAL = {"C24": [(w(tick=2, reset=1, bad=1, unsup=1, platform=1), {20, 200}, 3, 3, dict(batch=.3, reuse=0)),
                (w(tick=1, frag=4, ps=4, pq=4, oversize=1, gone=3, open=4, unsup=0), {20, 200}, 4, 4, dict(cut="rand", reuse=0)),
                (w(tick=1, auth=5, authown=6, badauth=2, dereg=3, stranger=3, open=6), {20, 500}, 4, 4, dict(cut="rand", batch=.3, noise=.2, reuse=0))]}
# ... runs of it under its configurations: (player, jobs); and concurrent situations
PROG = {"C24": [("serve", 4), ("refuse", 2), ("rolling", 2)]}
REALPAR = {"C24": ["streams", "register", "write", "query", "chain", "command", "serials", "pieces", "strangers", "remove"]}
# property -> kinds of concurrent situations
PAR = {"C01": ["streams"], "C02": ["streams"], "C04": ["streams", "register"], "C09": ["strangers", "remove"], "C13": ["streams", "query"],
       "C14": ["pieces"], "C19": ["write", "serials"], "C03": ["write"], "C05": ["write", "query", "chain"], "C06": ["register", "register", "chain"], "C07": ["remove", "query", "chain"],
       "C08": ["remove", "expiry", "chain", "rejoin"], "C10": ["expiry", "rejoin"], "C11": ["expiry", "rejoin"], "C12": ["query", "chain", "remove"],
       "C15": ["command"], "C16": ["serials"], "C17": ["write", "write", "command"], "C18": ["hostile", "expiry", "remove"],
       "C21": ["query", "remove", "register", "chain", "chain"]}
# property -> directed situations: (function, argument quick, argument thorough, traces, level)
DIR = {
    "C01": [("framing_big", 14, 25, 4, "info"), ("framing_interleaved", 8, 20, 4, "info"), ("framing_slow", 10, 25, 2, "info")],
    "C02": [("flips", 7, 25, 6, "info"), ("torn", 20, 60, 4, "info"), ("sums", 80, 200, 4, "info")],
    "C03": [("checksums", 1, 2, 3, "info"), ("long_frames", 40, 120, 4, "info"), ("many_params", 16, 40, 2, "info")],
    "C04": [("identities", 40, 120, 4, "info")],
    "C07": [("longauth", 12, 30, 2, "info")],
    "C08": [("leaving", 8, 20, 4, "info"), ("leftover", 25, 60, 2, "info")],
    "C10": [("keeps", 120, 700, 8, "info")],
    "C11": [("silence", 3, 6, 8, "info")],
    "C12": [("reports", 120, 350, 6, "info")],
    "C13": [("bits", 40, 300, 4, "info")],
    "C14": [("fragments", 5, 12, 8, "info"), ("gaps", 50, 150, 2, "info"), ("leftover", 25, 60, 2, "info"),
            ("longauth", 16, 40, 2, "info")],
    "C15": [("moves", 120, 300, 8, "info")],
    "C16": [("wrap", 66000, 140000, 1, "info")],
    "C18": [("hostile", 120, 250, 8, "info"), ("hostile", 60, 200, 4, "debug"), ("web", 60, 150, 2, "info"), ("unread", 6, 15, 4, "info")],
    "C19": [("each_param", 60, 110, 4, "info"), ("many_params", 25, 60, 3, "info")],
}


LEVELS = ["debug", "debug", "info", "warn", "error", "fatal"]


def level(rng):
    """The log level is no part of the specification: behaviour is the same at every level."""
    return rng.choice(["debug", "info", "info"])


def job_mc(ctx, name, consts, invs, props, workers):
    m = tlc.check_model(ctx.work, name, "PlatformMC", consts, invs, props, "View", workers=workers, timeout=820)
    return {"models": [m], "states": m["states"], "transitions": m["transitions"]}


def job_model(ctx, name, module, consts, invs, props, view):
    m = tlc.check_model(ctx.work, name, module, consts, invs, props, view, workers=1, timeout=820)
    return {"models": [m], "states": m["states"], "transitions": m["transitions"]}


def job_variant(ctx, name, module, consts, invs, props, view, off):
    m = tlc.check_variant(ctx.work, name, module, dict(consts, **{off: False}), invs, props, view, off)
    return {"models": [m], "states": m["states"], "transitions": m["transitions"]}


def job_term(ctx, name, fn, arg, traces):
    rng = ctx.rng(name)

    def one(_):
        if fn == "loop":
            return engine.record(ctx, "cli", lambda sc: sc.loop(arg), cls=LoopScenario, exe=engine.exe(ctx, "cli"), work=ctx.work, rng=rng, level=level(rng))
        if fn == "play":
            return engine.record(ctx, "cli", lambda sc: sc.play(rng.choice([1, 2, 3]), arg), cls=TermScenario, rng=rng, level=level(rng))
        return engine.record(ctx, "cli", lambda sc: getattr(sc, fn)(arg), cls=TermScenario, rng=rng, level=level(rng))
    ts = engine.records(one, range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"terminal_" + fn: len(ts)}})


def job_seq(ctx, name, weights, ticks, phones, conns, opts, num, length):
    rng = ctx.rng(name)
    consts = dict(Phones=set(range(1, phones + 1)), PlateSet=set(range(1, phones + 1)), Conns=set("abcdef"[:conns]), MaxLen=length, Ticks=ticks)
    scripts = tlc.generate(ctx.work, name, consts, weights, num, rng.randrange(1 << 30))
    traces = engine.records(lambda s: engine.record(ctx, "plain", lambda sc: sc.run(s), cls=Scenario, rng=rng, level=level(rng), **opts), scripts)
    return engine.traced(ctx, name, traces, {"scripts": len(scripts)})


def job_real(ctx, name, weights, ticks, phones, conns, opts, num, length):
    rng = ctx.rng(name)
    consts = dict(Phones=set(range(1, phones + 1)), PlateSet=set(range(1, phones + 1)), Conns=set("abcdef"[:conns]), MaxLen=length, Ticks=ticks)
    scripts = tlc.generate(ctx.work, name, consts, weights, num, rng.randrange(1 << 30))
    traces = engine.records(lambda s: engine.record(ctx, "real", lambda sc: sc.run(s), cls=Scenario, rng=rng, level=rng.choice(LEVELS), **opts), scripts)
    return engine.traced(ctx, name, traces, {"scripts": len(scripts), "extra": {"program_runs": len(traces)}})


def job_prog(ctx, name, fn, k):
    rng = ctx.rng(name)
    t = engine.record(ctx, "prog", lambda sc: getattr(sc, fn)(k), cls=ProgScenario, rng=rng)
    return engine.traced(ctx, name, [t], {"extra": {"program_runs": len(t["steps"]), "configurations_" + fn: len(t["steps"])}})


def job_realpar(ctx, name, kinds, traces, rounds):
    rng = ctx.rng(name)
    ts = engine.records(lambda i: engine.record(ctx, "real", lambda sc: sc.play(kinds, rounds), cls=ParScenario, rng=rng, level=rng.choice(LEVELS)), range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"program_runs": len(ts), "parallel_steps": sum(1 for t in ts for s in t["steps"] if s["par"])}})


def job_par(ctx, name, kinds, traces, rounds):
    rng = ctx.rng(name)
    ts = engine.records(lambda i: engine.record(ctx, "yield", lambda sc: sc.play(kinds, rounds), procs=1 if i % 3 == 0 else 4, cls=ParScenario, rng=rng,
                                                level=level(rng)), range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"concurrent_steps": sum(1 for t in ts for s in t["steps"] if s["par"])}})


def job_race(ctx, name, kinds, traces, rounds):
    """The same situations with real parallelism and the race detector: actions of the specification are atomic."""
    rng = ctx.rng(name)
    ts = engine.records(lambda i: engine.record(ctx, "race", lambda sc: sc.play(kinds, rounds), procs=4, cls=ParScenario, rng=rng,
                                                level=level(rng)), range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"parallel_steps": sum(1 for t in ts for s in t["steps"] if s["par"])}})


def job_dir(ctx, name, fn, arg, traces, level):
    rng = ctx.rng(name)
    ts = engine.records(lambda i: engine.record(ctx, "plain", lambda sc: getattr(directed, fn)(sc, arg), cls=Scenario,
                                                level=level if i % 2 == 0 else "debug", rng=rng), range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"directed_" + fn: len(ts)}})


def job_res(ctx, name, kind, warm, n, traces):
    rng = ctx.rng(name)
    ts = engine.records(lambda i: engine.record(ctx, "plain", lambda sc: sc.play(kind, warm, n, 3), cls=ResScenario, rng=rng,
                                                level="debug" if i % 2 else "info"), range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"repetitions_" + kind: sum(t["steps"][-1]["cycles"] for t in ts if t["steps"])}})


def job_codec(ctx, name, rounds, traces):
    rng = ctx.rng(name)
    ts = engine.records(lambda i: engine.record(ctx, "codec", lambda sc: sc.play(rounds), cls=CodecScenario, rng=rng, level=level(rng)), range(traces))
    return engine.traced(ctx, name, ts, {"extra": {"messages_" + k: sum(len(st[k]) for t in ts for st in t["steps"]) for k in ("read", "write", "heads")}})


def builds_for(prop):
    b = ["plain"] if prop in SEQ or prop in DIR or prop in RES else []
    if prop in TERM:
        b.append("cli")
    if prop in CODEC:
        b.append("codec")
    if prop in REAL:
        b += ["real", "prog"]
    if prop in PAR:
        b += ["yield", "race"]
    return b


def jobs_for(ctx, rnd):
    p, q = ctx.prop, ctx.quick
    jobs = []
    if p in MC and rnd == 0:
        invs, props = MC[p]
        jobs.append(("mc1", job_mc, dict(consts=SMALL1, invs=invs, props=props, workers=1)))
        if q:
            jobs.append(("mc2", job_mc, dict(consts=SMALL2, invs=invs, props=props, workers=2)))
        else:
            jobs.append(("mc3", job_mc, dict(consts=BIG3 if p in ("C10", "C11", "C07", "C08") else BIG2, invs=invs, props=props, workers=3)))
    if rnd == 0:
        for i, (mod, a, b, invs, props, view, *offs) in enumerate(MODELS.get(p, [])):
            jobs.append(("model%d_%s" % (i, mod), job_model, dict(module=mod, consts=a if q else b, invs=invs, props=props, view=view)))
            for off in (offs[0] if offs else []):
                jobs.append(("variant%d_%s_%s" % (i, mod, off), job_variant, dict(module=mod, consts=a, invs=invs, props=props, view=view, off=off)))
    for i, (fn, a, b, n) in enumerate(TERM.get(p, [])):
        for k in range(2 if n > 1 else 1):
            jobs.append(("term%d_%s_%d" % (i, fn, k), job_term, dict(fn=fn, arg=a if q else b, traces=max(1, n // 2))))
    for i, (fn, a, b, n, level) in enumerate(DIR.get(p, [])):
        for k in range(2 if n > 1 else 1):
            jobs.append(("dir%d_%s_%d" % (i, fn, k), job_dir, dict(fn=fn, arg=a if q else b, traces=max(1, n // 2), level=level)))
    for i, (kind, warm, n, traces) in enumerate(RES.get(p, [])):
        jobs.append(("res%d_%s" % (i, kind), job_res, dict(kind=kind, warm=warm, n=n if q else 3 * n, traces=traces)))
    if p in CODEC:
        a, b, n = CODEC[p]
        for k in range(8):
            jobs.append(("codec%d" % k, job_codec, dict(rounds=a if q else b, traces=n // 8)))
    for i, (wt, ticks, ph, cn, opts) in enumerate(REAL.get(p, [])):
        for k in range(4):
            jobs.append(("real%d_%d" % (i, k), job_real, dict(weights=wt, ticks=ticks, phones=ph, conns=cn, opts=opts, num=3 if q else 6, length=40 if q else 80)))
    for fn, n in PROG.get(p, []):
        for k in range(n):
            jobs.append(("prog_%s%d" % (fn, k), job_prog, dict(fn=fn, k=k)))
    for k in range(4 if p in REALPAR else 0):
        jobs.append(("realpar%d" % k, job_realpar, dict(kinds=REALPAR[p], traces=2 if q else 6, rounds=16 if q else 24)))
    shards = 2 if q else 4
    for k in range(shards):
        for i, (wt, ticks, ph, cn, opts) in enumerate(SEQ.get(p, [])):
            n = {1: 4, 2: 2, 3: 1}[len(SEQ[p])] if q else 2
            for j in range(n):
                jobs.append(("seq%d_%d_%d" % (i, k, j), job_seq, dict(weights=wt, ticks=ticks, phones=ph, conns=cn, opts=opts, num=40 if q else 60,
                                                                        length=60 if q else 100)))
    if p in PAR:
        for k in range(8):
            jobs.append(("par%d" % k, job_par, dict(kinds=PAR[p], traces=6 if q else 12, rounds=16 if q else 24)))
        for k in range(2 if q else 4):
            jobs.append(("race%d" % k, job_race, dict(kinds=PAR[p], traces=3 if q else 8, rounds=12 if q else 20)))
    return jobs
