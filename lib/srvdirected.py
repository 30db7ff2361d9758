"""Small scenarios with a fixed order of events, enumerated systematically: every
kind of message, operation, outcome and failure in every situation it can meet.
What they must lead to is decided by the specification alone."""
import itertools
import srvgen
from srvgen import BAD, SRVMSGS, ENCS


class B:
    """Builds a scenario step by step"""

    def __init__(self, prop, **cfg):
        self.t = srvgen.newt(0, prop)
        self.t["cfg"].update(cfg)
        self.t["gens"] = ["k1", "k2", "k3", "k4"]
        self.n = 0

    def step(self, *a):
        self.t["steps"].append(list(a))
        return self

    def con(self, lim=0, faults=(), nw=False):
        self.t["conns"].append({"lim": lim})
        c = len(self.t["conns"])
        self.step("connect", c, *(["nw"] if faults or nw else []))
        for i, (k, n) in enumerate(faults):
            self.step("fault", c, k, n, *(["nw"] if nw or i < len(faults) - 1 else []))
        return c

    def store(self, *keys):
        self.t["store"] += keys

    def msg(self, m, nw=False):
        self.t["msgs"].append(m)
        i = len(self.t["msgs"])
        self.step("deliver", i, *(["nw"] if nw else []))
        return i

    def req(self, c, auto=False, nw=False, **kw):
        self.n += 1
        m = {"c": c, "k": "req", "id": "q%d" % self.n, "enc": "bin", "n": "n%d" % self.n,
             "p": "payload%d" % self.n, "auto": auto,
             "out": {"k": "ok", "enc": "utf8", "p": "reply%d" % self.n}}
        m.update(kw)
        return self.msg(m, nw)

    def sig(self, c, auto=False, nw=False, **kw):
        self.n += 1
        m = {"c": c, "k": "sig", "enc": "utf8", "n": "s%d" % self.n,
             "p": "signal%d" % self.n, "auto": auto}
        m.update(kw)
        return self.msg(m, nw)

    def spec(self, c, k, key="", raw="", nw=False):
        self.n += 1
        m = {"c": c, "k": k}
        if k in ("restore", "close"):
            m["id"] = "q%d" % self.n
        if key:
            m["key"] = key
        if k in ("srv", "bad"):
            m["raw"] = raw
        return self.msg(m, nw)

    def op(self, k, c=0, nw=False, **kw):
        self.t["ops"].append(dict({"k": k, "c": c}, **kw))
        o = len(self.t["ops"])
        self.step("op", o, *(["nw"] if nw else []))
        return o

    def gate(self, *names):
        self.t["gates"] += names

    def open(self, name):
        return self.step("open", name)

    def fin(self, m):
        return self.step("finish", m)

    def lose(self, c, nw=False, abn=False):
        return self.step("lose", c, *((["abn"] if abn else []) + (["nw"] if nw else [])))

    def signal(self, c, n="sn", p="sp", enc="utf8"):
        return self.op("signal", c, n=n, p=p, enc=enc)

    def probe(self, c):
        """The connection still works"""
        self.req(c, auto=True)


def outs():
    for e, p in itertools.product(ENCS, ("", "r", "rr", "r\u00e9ply")):
        yield {"k": "ok", "enc": e, "p": p}
    for e, l in itertools.product(ENCS, (1, 2, 117, 118, 119, 120, 121, 500)):
        yield {"k": "ok", "enc": e, "p": "x", "plen": l}
    for k in ("err", "perr", "wrap"):
        for c, m in itertools.product(("E", "", "bad\u00e9", "code with spaces", "\x7f"),
                                      ("", "msg", "m\u00e9")):
            yield {"k": k, "code": c, "m": m}
        for l in (117, 118, 119, 120, 255, 256):
            yield {"k": k, "code": "C", "m": "m", "mlen": l - 1}
            yield {"k": k, "code": "C", "clen": l, "m": ""}
    for m in ("notfound", "max", "disabled", "shutdown", "internal"):
        yield {"k": "special", "m": m}
    yield {"k": "other", "m": "d"}
    yield {"k": "nilperr"}
    yield {"k": "wrapspec"}


def d_outcomes(prop):
    for lim in (0, 2, -1):
        for i, o in enumerate(outs()):
            b = B(prop, buf=128)
            c = b.con(lim)
            b.req(c, auto=bool(i % 2), out=o)
            b.req(c, auto=True, out=o, n="")
            if not i % 2:
                b.fin(1)
            yield b


def d_content(prop):
    for lim, how in itertools.product((0, 2, -1), range(6)):
        for k, enc, n, pl in itertools.product(
                ("req", "sig"), ENCS, ("", "a", "ab", "n" * 254, "n" * 255),
                (0, 1, 2, 7, 8, 100, 101)):
            if enc == "utf16":
                pl -= pl % 2
            if not n and not pl:
                continue
            b = B(prop)
            c = b.con(lim)
            d = b.con(-1)
            f = b.req if k == "req" else b.sig
            m = f(c, enc=enc, n=n, p="p" if pl else "", plen=pl)
            if how == 0:      # others overtake it
                b.req(d, auto=True, n="zz", p="other payload")
                b.sig(d, auto=True, n="yyy", p="another payload, longer")
            elif how == 1:    # the connection is lost meanwhile
                b.lose(c)
                b.req(d, auto=True, n="zz", p="other payload")
            elif how == 2:    # the connection is being closed
                b.op("close", c)
                b.req(c, auto=True, n="zz", p="other payload")
            elif how == 3:    # bad input, heartbeats, unexpected messages
                b.spec(c, "srv", raw=SRVMSGS[3])
                b.spec(c, "hb")
                b.spec(d, "bad", raw="7f61")
                b.req(d, auto=True)
            elif how == 4:    # shutdown
                b.op("shutdown")
                b.req(c, auto=True)
                b.sig(d, auto=True)
            b.fin(m)
            f(c, auto=True, enc=enc, n=n, p="q" if pl else "", plen=pl)
            yield b


def d_limits(prop):
    for lim, extra in itertools.product((-7, -1, 0, 1, 2, 3, 4), range(8)):
        for kinds in ("rrrrr", "sssss", "rsrsr", "srsrs"):
            b = B(prop)
            b.store("s1")
            c = b.con(lim)
            ms = []
            for i, k in enumerate(kinds):
                ms.append((b.req if k == "r" else b.sig)(c))
                if i == 1:
                    x = extra
                    if x == 1:
                        b.spec(c, "restore", "s1")
                    elif x == 2:
                        b.spec(c, "close")
                    elif x == 3:
                        b.spec(c, "srv", raw=SRVMSGS[4])
                    elif x == 4:
                        b.spec(c, "hb")
                    elif x == 5:
                        b.step("fault", c, "get", 1)
                    elif x == 6:
                        b.step("fault", c, "write", 1)
                    elif x == 7:
                        d = b.con(0)
                        b.req(d, auto=True)
            for m in ms if extra % 2 else reversed(ms):
                b.fin(m)
            b.probe(c)
            yield b


def d_wide(prop, end=None):
    """Limits and numbers of messages beyond any small constant"""
    if end:
        for lim, nc in itertools.product((0, 6, -1), (1, 3)):
            b = B(prop)
            cs = [b.con(lim) for _ in range(nc)]
            ms = [(b.sig if i % 4 == 2 else b.req)(cs[i % nc]) for i in range(15)]
            b.op(end, *([cs[0]] if end == "close" else []))
            b.req(cs[0])
            for m in reversed(ms):
                b.fin(m)
            yield b
        return
    for lim, n in ((0, 20), (-1, 20), (9, 12), (17, 20)):
        b = B(prop)
        c = b.con(lim)
        ms = [(b.sig if i % 3 == 2 else b.req)(c) for i in range(n)]
        for m in reversed(ms):
            b.fin(m)
        b.probe(c)
        yield b


def d_many(prop):
    """One session on many connections, many sessions at once"""
    for mx, end in itertools.product((0, 5, 6), ("sclose", "cclose", "close", "lose", "shutdown")):
        b = B(prop, max=mx)
        b.store("s1")
        cs = [b.con(0) for _ in range(7)]
        for c in cs:
            b.spec(c, "restore", "s1")
        if end == "sclose":
            b.op("sclose", key="s1")
        elif end == "cclose":
            b.op("cclose", cs[2])
        elif end == "close":
            b.spec(cs[3], "close")
        elif end == "shutdown":
            b.op("shutdown")
        else:
            for c in cs[1:6]:
                b.lose(c)
            b.spec(cs[6], "restore", "s1")
        if end != "shutdown":
            b.probe(cs[0])
        yield b
    for end in ("sclose", "lose"):
        b = B(prop)
        cs = [b.con(0) for _ in range(7)]
        for i, c in enumerate(cs):
            b.op("create", c, info=i % 4)
        for i, c in enumerate(cs):
            if end == "sclose":
                b.op("sclose", key="k%d" % (i + 1) if i < 4 else "auto%d" % i)
            else:
                b.lose(c)
        yield b


# Situations in which something accepted is unfinished: (prepare, continue)
def sits():
    def handler(k, lim):
        def go(b):
            c = b.con(lim)
            m = (b.req if k == "req" else b.sig)(c)
            return c, lambda: b.fin(m)
        return go

    def flush(k, lim):
        def go(b):
            c = b.con(lim)
            # the configuration message mustn't be blocked
            g = "fl:%d" % c
            if k == "req":
                b.req(c, auto=True)
            elif k == "notfound":
                b.spec(c, "restore", "nosuchkey")
            elif k in ("found", "bad", "big", "err"):
                b.store("s1")
                b.t["lookup"] = {"s1": k}
                b.spec(c, "restore", "s1")
            elif k == "close":
                b.spec(c, "close")
            elif k == "sclose":
                b.store("s1")
                b.spec(c, "restore", "s1")
                b.step("gate", g)
                b.spec(c, "close")
                return c, lambda: b.open(g)
            elif k == "max":
                b.t["cfg"]["max"] = 1
                b.store("s1")
                d = b.con(0)
                b.spec(d, "restore", "s1")
                b.spec(c, "restore", "s1")
            i = len(b.t["steps"]) - 1
            b.t["steps"].insert(i, ["gate", g])
            return c, lambda: b.open(g)
        return go

    def hook(g, lim):
        def go(b):
            b.store("s1")
            b.gate(g)
            c = b.con(lim)
            b.spec(c, "restore", "s1")
            if g == "cl:s1":
                b.spec(c, "close")
            return c, lambda: b.open(g)
        return go

    def create(g, lim):
        def go(b):
            c = b.con(lim)
            m = b.req(c)
            if g != "fl:1":
                b.gate(g)
            else:
                b.step("gate", g)
            b.op("create", c, info=1, via=m)
            return c, lambda: (b.open(g), b.fin(m))
        return go

    def opening(lim):
        def go(b):
            c = b.con(lim)
            return c, lambda: None
        return go
    res = []
    for lim in (0, 2, -1):
        for k in ("req", "sig"):
            res.append(handler(k, lim))
        for k in ("req", "notfound", "found", "bad", "big", "err", "close", "sclose", "max"):
            res.append(flush(k, lim))
        for g in ("lk:s1", "lr:s1", "cl:s1"):
            res.append(hook(g, lim))
        for g in ("gen", "cr:1", "fl:1"):
            res.append(create(g, lim))
        res.append(opening(lim))
    return res


# What arrives later
def laters():
    def l(f):
        return f
    yield lambda b, c: None
    yield lambda b, c: b.req(c, auto=True)
    yield lambda b, c: b.sig(c, auto=True)
    yield lambda b, c: b.spec(c, "restore", "s1")
    yield lambda b, c: b.spec(c, "close")
    yield lambda b, c: b.spec(c, "hb")
    yield lambda b, c: b.lose(c)
    yield lambda b, c: b.op("create", c)
    yield lambda b, c: b.op("cclose", c)
    yield lambda b, c: b.op("sclose", key="s1")
    yield lambda b, c: b.op("close", c)
    yield lambda b, c: b.op("shutdown")
    yield lambda b, c: b.signal(c)
    yield lambda b, c: b.req(b.con(0), auto=True)
    yield lambda b, c: b.req(b.con(2))


def d_graceful(prop, what):
    for sit, nlat in itertools.product(sits(), range(15)):
        b = B(prop)
        b.t["gens"] = ["k1", "k2"]
        c, go = sit(b)
        b.op(what, c if what == "close" else 0)
        list(laters())[nlat](b, c)
        go()
        if nlat % 2:
            b.req(c, auto=True)
        b.op(what, c if what == "close" else 0)
        yield b


def d_idle(prop, what):
    """Closure of something that's idle, messages afterwards"""
    for lim, k, r in itertools.product((0, 2, -1), ("req", "sig", "restore", "close", "hb", "srv"),
                                       range(3)):
        b = B(prop)
        b.store("s1")
        c = b.con(lim)
        d = b.con(lim)
        b.spec(c, "restore", "s1")
        b.spec(d, "restore", "s1")
        if r == 1:
            b.req(c, auto=True)
        for _ in range(1 + r):
            b.op(what, c if what == "close" else 0)
        for x in (c, d):
            if k in ("req", "sig"):
                getattr(b, k)(x, auto=True)
            else:
                b.spec(x, k, "s1" if k == "restore" else "", raw=SRVMSGS[3])
        b.op("cclose", d)
        b.op("create", c)
        yield b


def d_lifecycle(prop):
    for lim, gate, ev, fault in itertools.product(
            (0, 2, -1), ("", "oc:1", "od:1"),
            ("lose", "abn", "close", "bad", "shutdown", "closelose", "losereq", "hb"),
            (None, ("get", 1), ("write", 1), ("close", 1), ("sock", 1), ("get", 2), ("close", 2))):
        b = B(prop, rt=1500 if lim else 60000, sub="proto" if gate else "")
        if gate:
            b.gate(gate)
        c = b.con(lim, [fault] if fault else [])
        d = b.con(0)
        b.sig(c, auto=True)
        b.req(c, auto=lim != 2)
        if gate == "oc:1" and ev != "close":
            b.open("oc:1")
        if ev == "lose" or ev == "abn":
            b.lose(c, abn=ev == "abn")
        elif ev == "close":
            b.op("close", c)
        elif ev == "bad":
            b.spec(c, "bad", raw="4000")
        elif ev == "shutdown":
            b.op("shutdown")
        elif ev == "closelose":
            b.op("close", c, nw=True)
            b.lose(c)
        elif ev == "losereq":
            b.req(c, auto=True, nw=True)
            b.lose(c)
        elif ev == "hb":
            for _ in range(3):
                b.spec(c, "hb")
        b.req(c, auto=True)
        b.req(d, auto=True)
        if gate:
            b.open(gate)
        b.req(d, auto=True)
        if lim == 2:
            b.fin(2)
        yield b


def d_bad(prop):
    for raw, lim, r in itertools.product(BAD + SRVMSGS, (0, 2, -1), range(4)):
        b = B(prop)
        b.store("s1")
        c = b.con(lim)
        d = b.con(0)
        if r:
            b.spec(c, "restore", "s1")
            m = b.req(c) if r == 2 and lim else 0
        b.spec(c, "srv" if raw in SRVMSGS else "bad", raw=raw, nw=r == 3)
        b.req(c, auto=True)
        b.req(d, auto=True)
        b.spec(c, "restore", "s1")
        if r == 2 and lim:
            b.fin(m)
        b.op("sclose", key="s1")
        b.req(d, auto=True)
        yield b


def d_faults(prop):
    acts = ("req", "err", "restore", "close", "refused", "create", "cclose", "sclose",
            "notfound", "signal", "toolarge", "internal")
    for kind, k, act, lim in itertools.product(("get", "write", "close", "sock"), (2, 3, 4),
                                               acts, (0, 2)):
        b = B(prop)
        b.store("s1")
        c = b.con(lim, [(kind, k)])
        d = b.con(lim)
        b.spec(d, "restore", "s1")
        if act in ("close", "cclose", "sclose") and k > 2:
            b.spec(c, "restore", "s1")
        for _ in range(2):
            if act in ("req", "err", "toolarge", "internal"):
                b.req(c, auto=True, out={
                    "req": {"k": "ok", "enc": "utf16", "p": "re"},
                    "err": {"k": "err", "code": "C", "m": "m"},
                    "toolarge": {"k": "ok", "enc": "bin", "p": "x", "plen": 2000},
                    "internal": {"k": "other", "m": "x"}}[act])
            elif act in ("restore", "notfound"):
                b.spec(c, "restore", "s1" if act == "restore" else "nosuchkey")
            elif act == "close":
                b.spec(c, "close")
            elif act == "create":
                b.op("create", c, info=1)
            elif act == "cclose":
                b.op("cclose", c)
            elif act == "sclose":
                b.op("sclose", key="s1")
            elif act == "signal":
                b.signal(c)
            elif act == "refused":
                b.op("shutdown")
                b.req(c, auto=True)
        b.req(c, auto=True)
        b.signal(c)
        b.req(d, auto=True)
        b.lose(c)
        b.op("sclose", key="s1")
        yield b


def d_seq(prop, rnd, n, first=(), fails=.35):
    """Random sequences of session operations, one after another"""
    for i in range(n):
        b = B(prop, max=rnd.choice([0, 0, 1, 2]), sess=rnd.random() < .96)
        b.store("s1", "s2")
        nc = rnd.choice([1, 2, 2, 3])
        b.t["gens"] = rnd.choice([["k1", "k2", "k3", "k4"], ["!", "k1", "k2", "k3"],
                                  ["k1", "!", "k2", "k3"]])
        fl = [(rnd.choice(["get", "write", "close"]), rnd.choice([2, 2, 3, 3, 4]))] \
            if rnd.random() < fails else []
        for c in range(1, nc + 1):
            b.con(rnd.choice([0, 2]), fl if c == 1 else [])
        if rnd.random() < .3:
            b.t["onclose"] = {k: rnd.choice(["err", "panic"]) for k in ("s1", "k1")}
        if rnd.random() < .25:
            b.t["lookup"] = {"s2": rnd.choice(["err", "bad", "big", "nil", "noinfo"])}
        if rnd.random() < .1:
            b.t["oncreat"] = "err"
        acts = list(first) + [rnd.choice(
            ["restore", "restore", "restore", "create", "create", "badcreate", "close",
             "cclose", "cclose", "sclose", "sclose", "conclose", "lose", "req", "signal"])
            for _ in range(rnd.randrange(4, 8) - len(first))]
        for a in acts:
            c = 1 if rnd.random() < .6 else rnd.randrange(1, nc + 1)
            nw = rnd.random() < .12
            key = rnd.choice(["s1", "s1", "s2"])
            if a == "restore":
                b.spec(c, "restore", rnd.choice([key, key, key, "k1", "nosuchkey"]), nw=nw)
            elif a == "create":
                b.op("create", c, nw, info=rnd.randrange(0, 4))
            elif a == "badcreate":
                b.op("create", c, nw, info=4)
            elif a == "close":
                b.spec(c, "close", nw=nw)
            elif a == "cclose":
                b.op("cclose", c, nw)
            elif a == "sclose":
                b.op("sclose", key=rnd.choice([key, key, "k1"]), nw=nw)
            elif a == "conclose":
                b.op("close", c, nw)
            elif a == "lose":
                b.lose(c, nw)
            elif a == "req":
                b.req(c, auto=True)
            elif a == "signal":
                b.signal(c)
        b.req(1, auto=True)
        yield b


def d_lookups(prop):
    """Every result of a lookup in every state of the connection"""
    for mode, had, mx, other in itertools.product(
            ("found", "nil", "err", "bad", "big", "noinfo"), ("", "s1", "s2", "k1", "closed"),
            (0, 1), (False, True)):
        b = B(prop, max=mx)
        b.store("s1", "s2")
        c = b.con(0)
        d = b.con(0)
        if had in ("s1", "s2"):
            b.spec(c, "restore", had)
        elif had == "k1":
            b.op("create", c, info=2)
        elif had == "closed":
            b.spec(c, "restore", "s1")
            b.spec(c, "close")
        if other:
            b.spec(d, "restore", had if had in ("s1",) else "s2")
        b.t["lookup"] = {"s2": mode}
        b.spec(c, "restore", "s2")
        b.req(c, auto=True)
        b.op("cclose", c)
        b.op("create", c, info=1)
        b.spec(c, "restore", "s1")
        b.spec(c, "close")
        b.op("sclose", key="s1")
        yield b


def d_creates(prop):
    for info, fault, gens, had, sess, oc in itertools.product(
            range(5), (None, ("get", 2), ("write", 2), ("close", 2)),
            (["k1", "k2"], ["!", "k1", "k2"]), ("", "s1", "lost", "closed"),
            (True, False), ("", "err")):
        b = B(prop, sess=sess)
        b.store("s1")
        b.t["gens"] = gens
        b.t["oncreat"] = oc
        c = b.con(0, [fault] if fault and had != "s1" else [])
        if had == "s1":
            b.spec(c, "restore", "s1")
            if fault:
                b.step("fault", c, fault[0], 1)
        elif had == "lost":
            b.lose(c)
        elif had == "closed":
            b.op("close", c)
        b.op("create", c, info=info)
        b.signal(c)
        b.req(c, auto=True)
        b.op("create", c, info=(info + 1) % 4)
        b.op("cclose", c)
        b.op("create", c, info=info)
        b.op("sclose", key="k1")
        b.req(c, auto=True)
        yield b


def d_closings(prop):
    """Every way to close a session, with every kind of failure"""
    for how, nc, fault, oc, key in itertools.product(
            ("close", "cclose", "sclose", "lose", "conclose"), (1, 2, 3),
            (None, ("get", 1), ("write", 1), ("close", 1)), ("", "err", "panic"),
            ("s1", "k1")):
        b = B(prop)
        b.store("s1")
        b.t["onclose"] = {key: oc} if oc else {}
        for c in range(1, nc + 1):
            b.con(0)
            if key == "k1" and c == 1:
                b.op("create", 1, info=2)
            else:
                b.spec(c, "restore", key)
        f = 1 + (nc > 1)
        if fault:
            b.step("fault", f, *fault)
        for c in range(1, nc + 1):
            if how == "close":
                b.spec(c, "close")
            elif how == "cclose":
                b.op("cclose", c)
            elif how == "lose":
                b.lose(c)
            elif how == "conclose":
                b.op("close", c)
        if how == "sclose":
            b.op("sclose", key=key)
        b.op("sclose", key=key)
        for c in range(1, nc + 1):
            b.req(c, auto=True)
        d = b.con(0)
        b.spec(d, "restore", key)
        b.op("create", 1, info=1)
        b.spec(d, "close")
        yield b


def d_signals(prop):
    """Signals sent by the server in every state of a connection"""
    names = ("", "s", "sg", "n" * 253, "n" * 254, "n" * 255, "n" * 256, "b\u00e4d", "a b~", "\x1f")
    for n, enc, pl in itertools.product(names, ENCS, (0, 1, 2, 3, 8, 60, 61, 62, 63, 64, 120,
                                                      123, 124, 125, 126, 127, 128, 400)):
        b = B(prop, buf=128 if len(n) < 9 else 512)
        c = b.con(0)
        b.op("signal", c, n=n, p="x" if pl else "", plen=pl, enc=enc)
        b.signal(c)
        b.req(c, auto=True)
        yield b
    for st, f, enc, n in itertools.product(
            ("", "closed", "closing", "lost", "shutdown", "handler", "blocked", "connecting"),
            (None, ("get", 1), ("write", 1), ("write", 2), ("write", 3), ("close", 1)),
            ENCS, ("s", "sg")):
        b = B(prop)
        if st == "connecting":
            b.gate("oc:1")
        c = b.con(0)
        d = b.con(0)
        m = 0
        if st == "closed":
            b.op("close", c)
        elif st == "closing":
            m = b.req(c)
            b.op("close", c)
        elif st == "lost":
            b.lose(c)
        elif st == "shutdown":
            m = b.req(c)
            b.op("shutdown")
        elif st == "handler":
            m = b.req(c)
        elif st == "blocked":
            b.step("gate", "fl:1")
            b.req(c, auto=True)
        if f:
            b.step("fault", c, *f)
        for i in range(3):
            b.op("signal", c, n=n + str(i), p="payload", plen=10 + 2 * i, enc=enc,
                 via=m if st == "handler" else 0, nw=i == 0 and bool(f))
        b.signal(d)
        if st == "blocked":
            b.open("fl:1")
        if st == "connecting":
            b.open("oc:1")
        if m:
            b.fin(m)
        b.signal(c)
        b.req(d, auto=True)
        yield b


def pick(rnd, it, n):
    l = list(it)
    if len(l) > n:
        l = rnd.sample(l, n)
    return l


def scenarios(prop, rnd, quick):
    q = (lambda n: n) if quick else (lambda n: n * 12)

    def ends(l):
        for b in l:
            c = rnd.randrange(1, len(b.t["conns"]) + 1)
            how = rnd.randrange(3)
            if how == 0:
                b.lose(c)
            elif how == 1:
                b.op("close", c)
            b.t["gc"] = True
        return l
    P = lambda it, n: pick(rnd, it, q(n))
    S = lambda n, **kw: list(d_seq(prop, rnd, q(n), **kw))
    bs = {
        "C01": lambda: P(d_outcomes(prop), 90) + P(d_faults(prop), 20) +
        P(d_graceful(prop, "close"), 15) + P(d_graceful(prop, "shutdown"), 15) + S(10),
        "C02": lambda: P(d_content(prop), 110) + P(d_limits(prop), 18) +
        P(d_wide(prop), 2),
        "C03": lambda: list(d_wide(prop)) + P(d_limits(prop), 106) + P(d_faults(prop), 20) + P(d_bad(prop), 15),
        "C04": lambda: P(d_wide(prop, "shutdown"), 3) + P(d_graceful(prop, "shutdown"), 117) + P(d_idle(prop, "shutdown"), 30),
        "C05": lambda: P(d_wide(prop, "close"), 3) + P(d_graceful(prop, "close"), 117) + P(d_idle(prop, "close"), 30),
        "C06": lambda: P(d_lifecycle(prop), 140),
        "C07": lambda: P(d_bad(prop), 70) + P(d_faults(prop), 70) + S(15),
        "C08": lambda: S(74) + P(d_many(prop), 6) + P(d_closings(prop), 40) + P(d_lookups(prop), 20) +
        P(d_creates(prop), 15),
        "C09": lambda: S(75, first=("restore", "restore")) + P(d_many(prop), 5) + P(d_lookups(prop), 40),
        "C10": lambda: S(67, first=("restore",)) + P(d_many(prop), 3) + P(d_closings(prop), 80),
        "C11": lambda: S(40, first=("create",)) + P(d_creates(prop), 110),
        "C12": lambda: S(70, first=("restore",)) + P(d_lookups(prop), 80),
        "C13": lambda: S(66, first=("restore",)) + P(d_many(prop), 4) + P(d_closings(prop), 80),
        "C18": lambda: P(d_signals(prop), 150),
        "C24": lambda: ends(S(37) + P(d_many(prop), 3) + P(d_lifecycle(prop), 60) + P(d_bad(prop), 20) +
                            P(d_graceful(prop, "close"), 20)),
    }[prop]()
    res = []
    for i, b in enumerate(bs):
        b.t["id"] = "%s-d%d" % (prop, i)
        b.t["explore"] = {"single": 14, "double": 2, "noise": 2} if quick else \
            {"single": 60, "double": 10, "noise": 10}
        res.append(b.t)
    return res
