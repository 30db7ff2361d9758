"""C22, C23: the in-memory transport"""
import random, time
from common import *
import sim

ENG = sim.Engine("memchan", "memchan", "MemChanTrace",
                 {"LENS": '"%(lens)s"', "SizeOf <- TSizeOf": None})
MC = """SPECIFICATION MCSpec
CONSTANTS
 NW = %d
 NP = 1
 SIZE = 4
 MAXCALLS = %d
 GEN = FALSE
 LENS = "ALL"
 KINDS = {%s}
 SizeOf <- MCSizeOf
INVARIANTS NoneStuck OneWriter ShutIsDown InOrder Fits
CHECK_DEADLOCK FALSE
"""
replay = ENG.replay


def o(w, k, s=0, d="", nw=False, **kw):
    return {"w": w, "op": dict({"k": k, "s": s, "d": d, "dl": "", "b": []}, **kw),
            "nw": nw}


def env(k, v=True):
    return {"w": 0, "op": {"k": k, "v": v}}


def send(w, s, d, *chunks, nw=True):
    return ([o(w, "gw", s, d, nw)] + [o(w, "w", s, d, nw, b=c) for c in chunks] +
            [o(w, "wc", s, d, nw)])


def msg(n, size=3):
    return [63, 0] + [n] * (size - 2)


def read(w, s, d, dl="none", nw=True):
    return o(w, "read", s, d, nw, dl=dl)


def mix(rnd, *seqs):
    """Keeps the order of each sequence"""
    l = [list(s) for s in seqs if s]
    res = []
    while l:
        i = rnd.randrange(len(l))
        res.append(l[i].pop(0))
        if not l[i]:
            del l[i]
    return res


def c22(rnd):
    size = 8
    conn = lambda n=1: [o(1, "dial", i + 1, "c") for i in range(n)]
    for d in "cs":
        e = "s" if d == "c" else "c"
        # Writers of one socket, chunked messages
        for k in range(8):
            seqs = [send(w, 1, d, *rnd.choice([[msg(w)], [[63], [0, w, w]], [msg(w, size)],
                                               [msg(w, size - 1), [w]]]))
                    for w in (2, 3)]
            seqs += [[read(4, 1, e, rnd.choice(["none", "far"])) for _ in range(2)]]
            yield conn() + mix(rnd, *seqs), size
        # Overflow, nothing, abandoned, then a proper one
        for bad in ([msg(9, size + 1)], [msg(9, size), [9]], [[63, 0], msg(9, size)],
                    [], [[]], [msg(9, size), [1], [2]], [msg(9, size + 5), msg(8)],
                    [[255]], [[63]]):
            yield conn() + mix(rnd, send(2, 1, d, *bad), send(3, 1, d, msg(3)),
                               [read(4, 1, e), read(4, 1, e)]), size
            yield conn() + send(2, 1, d, *bad) + send(2, 1, d, msg(2)) + \
                [read(4, 1, e, "far"), read(4, 1, e)], size
        # Deadlines
        for dl in ("past", "soon"):
            yield conn() + [read(4, 1, e, dl, False), env("sleep"),
                            o(4, "isconn", 1, e)] + send(2, 1, d, msg(2)), size
            yield conn() + [read(4, 1, e, dl)] + send(2, 1, d, msg(2)) + \
                [env("sleep"), read(4, 1, e, "past"), env("sleep")], size
            yield conn() + send(2, 1, d, msg(2)) + \
                [read(4, 1, e, dl), env("sleep"), read(4, 1, e, dl), env("sleep")], size
            # After a timeout: dial again, nothing stale may be delivered
            yield conn() + send(2, 1, d, msg(2)) + \
                [read(4, 1, e, dl), env("sleep"), o(1, "close", 1, "c"),
                 o(1, "dial", 1, "c"), read(4, 1, e)] + send(3, 1, d, msg(3)), size
    # Sizes beyond any small constant
    for big in (300, 5000, 66000):
        d = rnd.choice("cs")
        e = "s" if d == "c" else "c"
        b = [63, 0] + [i % 251 for i in range(big - 2)]
        yield conn() + send(2, 1, d, b[:7], b[7:]) + send(3, 1, d, msg(3)) + \
            [read(4, 1, e), read(4, 1, e)] + send(2, 1, d, b, [9]) + \
            send(3, 1, d, b[:-1]) + [read(4, 1, e, "far"), read(4, 1, e)], big
    # Both directions, two connections
    for k in range(10):
        yield conn(2) + mix(
            rnd, send(2, 1, "c", msg(2)) + send(2, 1, "c", msg(3)),
            send(3, 1, "s", msg(4)) + [read(3, 1, "s")],
            [read(4, 1, "c"), read(4, 1, "s")],
            send(5, 2, "c", msg(5)), [read(6, 2, "s")] + send(6, 2, "s", msg(6)) + [
                read(6, 2, "s")]), size
    # Readers of one socket
    for k in range(4):
        yield conn() + mix(rnd, [read(2, 1, "s")], [read(3, 1, "s")],
                           send(4, 1, "c", msg(4)) + send(4, 1, "c", msg(5))), size


def c23(rnd):
    size = 8
    conn = lambda n=1: [o(1, "dial", i + 1, "c") for i in range(n)]
    ends = lambda: rnd.choice("cs")
    for a in "cs":
        for b in "cs":
            # Blocked readers and writers, closed by either or both ends
            yield conn() + [read(2, 1, a), read(3, 1, b, "far"), o(4, "close", 1, "c", True),
                            o(5, "close", 1, "s"), o(4, "isconn", 1, a)], size
            yield conn() + send(2, 1, a, msg(2)) + [
                o(4, "close", 1, b, True)] + send(3, 1, b, msg(3)) + [
                o(4, "isconn", 1, a), o(5, "close", 1, a)], size
            yield conn() + mix(rnd, send(2, 1, a, msg(2)), [read(3, 1, b)],
                               [o(4, "close", 1, b, True)], [o(5, "close", 1, a, True)]) + [
                o(4, "isconn", 1, a)], size
            # ...and dialed again, when everybody has returned
            yield conn() + mix(rnd, send(2, 1, a, msg(2)), [read(3, 1, a)]) + [
                o(4, "close", 1, b), o(4, "dial", 1, "c"), o(5, "isconn", 1, a)] + \
                send(2, 1, a, msg(5)) + [
                read(3, 1, "s" if a == "c" else "c"), o(4, "close", 1, a)], size
            yield [o(4, "close", 1, a), o(4, "isconn", 1, b), read(2, 1, a),
                   o(3, "gw", 1, a)] + conn() + [
                o(4, "close", 1, b), o(4, "close", 1, a), o(4, "close", 1, b)], size
    for k in range(6):
        a = ends()
        # Shutdown
        yield [o(6, "serve")] + conn(2) + mix(
            rnd, send(2, 1, a, msg(2)), [read(3, 2, ends())],
            [o(5, "dial", 3, "c", True)],
            [o(4, "shutdown", nw=True)]) + [
            o(5, "dial", 3, "c"), o(5, "isconn", 3, "c"), o(4, "isconn", 1, "s"),
            o(4, "serve")], size
        yield [o(6, "serve")] + conn(3) + mix(
            rnd, [o(2, "close", 1, ends(), True)], [o(3, "close", 2, ends(), True)],
            [o(4, "shutdown", nw=True)], [o(5, "dial", 1, "c", True)]) + [
            o(5, "dial", 1, "c"), o(4, "close", 3, "s"), o(4, "shutdown")], size
        # Refusal
        for f in ("flag", "refuse"):
            yield [env(f), o(1, "dial", 1, "c"), o(1, "isconn", 1, "c"),
                   read(2, 1, "c"), env(f, False), o(1, "dial", 1, "c")] + \
                send(3, 1, "c", msg(3)) + [read(4, 1, "s"), o(1, "close", 1, "s")], size
            yield mix(rnd, [o(1, "dial", 1, "c", True)], [env(f)], [o(2, "dial", 2, "c", True)],
                      [o(3, "close", 1, "c", True)]) + [
                env(f, False), o(1, "dial", 1, "c"), o(1, "isconn", 1, "s")], size
        # Dialing concurrently, dialing twice
        yield [o(1, "dial", 1, "c", True), o(2, "dial", 1, "c", True),
               o(3, "dial", 2, "c", True), o(4, "isconn", 1, "s"),
               o(5, "close", 1, "s", True), o(1, "dial", 1, "c", True),
               o(2, "isconn", 1, "c")], size
        yield mix(rnd, [o(1, "dial", 1, "c", True)], [o(2, "close", 1, "c", True)],
                  [o(3, "close", 1, "s", True)], [o(4, "dial", 1, "s", True)]) + [
            o(5, "dial", 1, "c"), o(5, "close", 1, "c")], size
    # No server
    yield [o(1, "dial", 9, "c"), o(1, "isconn", 9, "c"), o(1, "close", 9, "c"),
           o(1, "close", 9, "c"), o(1, "gw", 9, "c"), read(2, 9, "c")], size


def check(ctx):
    lens, quick = ctx.prop, ctx.tier == "quick"
    rnd = random.Random("%s/%d" % (lens, ctx.seed))
    ENG.build(ctx)
    scens = []
    for rep in range(1 if quick else 6):
        for i, (st, size) in enumerate((c22 if lens == "C22" else c23)(rnd)):
            cfg = {"size": size, "pairs": 3}
            if rnd.random() < .15 and all(x["op"].get("s", 0) in (0, 1, 9) for x in st):
                cfg["ct"], cfg["pairs"] = True, 1
            if rnd.random() < .15:
                if not any(x["op"]["k"] == "refuse" for x in st):
                    cfg["nohook"] = True
            scens.append({"id": "d%d.%d" % (rep, i), "workers": 6, "steps": st,
                          "cfg": cfg})
            if size > 100:
                n = 20000 // size
                scens[-1]["explore"] = {"single": n, "double": 0, "noise": n // 10}
    kinds = '"to", "sleep", "close"' if lens == "C22" else \
        '"close", "isconn", "serve", "shutdown", "odd", "flag", "refuse", "to", "sleep"'
    for nw, np, calls, num in ((2, 1, 9, 60), (3, 1, 14, 60), (4, 2, 20, 40)):
        for i, h in enumerate(sim.generate(
                ctx, "MemChanMC", {"NW": nw, "NP": np, "SIZE": 6, "MAXCALLS": calls,
                                   "GEN": "TRUE", "LENS": '"ALL"',
                                   "KINDS": "{%s}" % kinds, "SizeOf <- MCSizeOf": None},
                num if quick else num * 8, ctx.seed)):
            st = [dict(x, nw=rnd.random() < .3) for x in h]
            scens.append({"id": "g%d.%d" % (calls, i), "workers": nw, "steps": st,
                          "cfg": {"size": 6, "pairs": 3}})
    log("%d scenarios after %.0fs" % (len(scens), time.time() - ctx.t0))
    ENG.explore(ctx, scens, {"single": 60, "double": 30, "noise": 6} if quick else
                {"single": 1000, "double": 300, "noise": 50},
                18 if quick else 300, rnd)
    if not ctx.violations:
        for k in (['"close","shutdown"'] if quick else
                  ['"close","shutdown","to","sleep"', '"close","odd","flag","refuse"']):
            model_check(ctx, "MemChanMC", MC % ((2, 5, k) if quick else (3, 6, k)),
                        timeout=1500)
    ctx.assumptions += sim.ASSUME
    return ctx.finish("model_checking")
