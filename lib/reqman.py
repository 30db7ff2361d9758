"""C21: the request manager"""
import random, time
from common import *
import sim

ENG = sim.Engine("reqman", "reqman", "ReqManTrace")
replay = ENG.replay
MC = """SPECIFICATION MCSpec
CONSTANTS
 NW = %d
 NQ = %d
 NC = 1
 MAXCALLS = %d
 GEN = FALSE
VIEW View
INVARIANTS Once WonIsOver Distinct Exclusive
CHECK_DEADLOCK FALSE
"""


def steps(h, rnd):
    res = []
    for c in h:
        op = {k: v for k, v in c.items() if k != "w"}
        if op["q"] == 0 and op["k"] in ("fulfill", "fail", "ispending"):
            op["id"] = rnd.choice(["0000000000000000", "ffffffffffffffff",
                                   "f000000000000000", "0000000000000001"])
        res.append({"w": c["w"], "op": op, "nw": rnd.random() < .25})
    return res


def directed():
    """Completions racing with each other and with giving up"""
    c = lambda q: {"w": 1, "op": {"k": "create", "q": q}}
    def o(w, k, q=0, v="", ctx=0, nw=False):
        return {"w": w, "op": {"k": k, "q": q, "v": v, "ctx": ctx}, "nw": nw}
    for a, b in (("fulfill", "fulfill"), ("fulfill", "fail"), ("fail", "fail")):
        for x in ("cancel", "expire", None):
            for pre in (True, False):
                s = [c(1)]
                aw = [o(2, "await", 1, ctx=1 if x else 0, nw=True)]
                if pre:
                    s += aw
                if x:
                    s += [o(3, x, ctx=1, nw=True)]
                s += [o(1, a, 1, "a", nw=True), o(4, b, 1, "b", nw=True)]
                if not pre:
                    s += aw
                s += [o(5, "ispending", 1), o(5, "count"), o(1, a, 1, "c")]
                yield s
    # Many creations at once
    yield [{"w": w, "op": {"k": "create", "q": 3 * (w - 1) + i + 1}, "nw": True}
           for i in range(3) for w in (1, 2, 3, 4)] + [o(5, "count")]
    # Histories long enough for the identifiers to use another byte
    for n in (254, 65534):
        yield [c(1), o(2, "await", 1, nw=True), c(2), o(5, "burn", ctx=n), c(3),
               o(5, "ispending", 1), o(5, "count"), o(5, "burn", ctx=300), c(4),
               o(4, "fulfill", 2, "a"), o(4, "fulfill", 1, "b"), o(4, "fail", 3, "c"),
               o(5, "ispending", 4), o(2, "await", 2)]


def check(ctx):
    quick = ctx.tier == "quick"
    rnd = random.Random("C21/%d" % ctx.seed)
    ENG.build(ctx)
    scens = [{"id": "d%d" % i, "workers": 5, "steps": s}
             for i, s in enumerate(directed())]
    for s in scens:
        if any(x["op"].get("ctx", 0) > 1000 for x in s["steps"]):
            s["explore"] = {"single": 3, "double": 0, "noise": 1}
    for nw, nq, nc, calls, num in ((2, 1, 1, 6, 60), (3, 2, 1, 9, 80), (4, 3, 2, 14, 60)):
        for i, h in enumerate(sim.generate(
                ctx, "ReqManMC", {"NW": nw, "NQ": nq, "NC": nc, "MAXCALLS": calls,
                                  "GEN": "TRUE"}, num if quick else num * 8, ctx.seed)):
            scens.append({"id": "g%d.%d" % (calls, i), "workers": nw,
                          "steps": steps(h, rnd)})
    log("%d scenarios after %.0fs" % (len(scens), time.time() - ctx.t0))
    ENG.explore(ctx, scens, {"single": 60, "double": 30, "noise": 10} if quick else
                {"single": 1000, "double": 300, "noise": 50},
                15 if quick else 240, rnd)
    if not ctx.violations:
        model_check(ctx, "ReqManMC", MC % ((2, 2, 5) if quick else (3, 2, 6)),
                    timeout=800)
        refinement(ctx, "ReqManImpl", {"NW": 2 if quick else 3, "NQ": 1 if quick else 2,
                                       "NC": 1, "MAXCALLS": 5 if quick else 6},
                   ["ATOMIC", "RECHECK", "UNIQUE"], "Inv Free", quick)
    ctx.assumptions += sim.ASSUME
    return ctx.finish("model_checking")
