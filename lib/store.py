"""C14, C15: the default session manager"""
import atexit, base64, os, random, shutil, tempfile, time
from common import *
import sim

ENG = sim.Engine("store", "store", "StoreTrace",
                 {"LENS": '"%(lens)s"', "ClassOf <- TClassOf": None})
MC = """SPECIFICATION MCSpec
CONSTANTS
 NW = %d
 NK = %d
 MAXCALLS = %d
 GEN = FALSE
 LENS = "ALL"
 KINDS = {%s}
 ClassOf <- MCClassOf
INVARIANTS Durable LiveStored NoResurrection Lookups
CHECK_DEADLOCK FALSE
"""


def scratch():
    """Accessible to the unprivileged driver"""
    for d in ("/dev/shm", None):
        try:
            p = tempfile.mkdtemp(prefix="wwv", dir=d)
            break
        except OSError:
            continue
    os.chmod(p, 0o777)
    atexit.register(shutil.rmtree, p, ignore_errors=True)
    os.environ["WWV_SCRATCH"] = p


def replay(ctx, data):
    scratch()
    return ENG.replay(ctx, data)


def b64(k):
    return base64.b64encode(k if isinstance(k, bytes) else k.encode()).decode()


GOOD = ["a", "b-_", "zQ29kZXMgYXJlIGZ1bg==", "k" * 64, "A", "b", "B-_"]
WORDS = ["tmp", "temp", "session", "sess", "wwrsess", "lock", "new", "old", "closed", "deleted",
         "bak", "json", "0", "null", "CON"]


def anykeys(rnd):
    """Keys like those of the default generator (URL-safe base64), and any others of that alphabet:
    each gets stored whatever it begins or ends with"""
    abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    word = lambda n: "".join(rnd.choice(abc) for _ in range(n))
    ks = []
    while len(ks) < 7:
        k = rnd.choice([
            lambda: word(43) + "=", lambda: word(rnd.randint(1, 4)),
            lambda: rnd.choice(WORDS) + rnd.choice(["", word(1), word(9), "-" + word(3)]),
            lambda: rnd.choice(WORDS) + str(rnd.randrange(10 ** 9)),
            lambda: word(rnd.randint(1, 9)) + rnd.choice(["-", "_", "="]) + rnd.choice(WORDS),
            lambda: (rnd.choice(ks) if ks else "x") + word(1)])()
        if k not in ks:
            ks.append(k)
    # ...and those the default generator really makes
    for i in range(len(ks)):
        if rnd.random() < .3:
            ks[i] = "%%GEN%d" % i
    return {"keys": [b64(k) for k in ks], "class": ["good"] * len(ks)}


BAD = ["", "a/", "/a", "./a", "a/../a", "../p", "../../p", "../../../p", "sub/p",
       "../sess/a", "../", "/", "../mid", "sub/", "a\0", "a\0b", "\0", "\0a",
       "a/.", "//a", "..//p", "%ROOT%/p", "%ROOT%/top/p", "x/../../p", "../../top/mid/p",
       "../q.txt\0", "q.txt\0", "../sess", "sub/../a", "a\0/../../p",
       "y" * 255, "a" * 300, "a" * 4096, "../" * 20 + "p"]
ODD = [".", "..", "...", " a", "a ", "a.", ".a", "a.wwrsess", "a\\b", "..\\a", "a%2fb",
       "a%00", "\u00e4", "a\u0308", "\ue000", "-", "~", "*", "?", "$HOME", "q.txt",
       "noext", "p", "sub", "a\n", "\r", "\t", b"\xff\xfe", b"a\xc0\xafb",
       b"a\xe2\x88\x95b", "z" * 200, "z" * 201, "x" * 247, "w" * 246 + "a", "w" * 246 + "b"]


def o(w, k, key, n, nw=False, i=0):
    op = {"k": k, "key": key, "n": n}
    if k == "create":
        op["i"] = i
    return {"w": w, "op": op, "nw": nw}


def env(k, v=0):
    return {"w": 0, "op": {"k": k, "v": v}}


def number(steps):
    for i, s in enumerate(steps):
        s["op"]["n" if s["w"] else "v0"] = i + 1
    return steps


def c14(rnd):
    info = lambda: rnd.choice([0, 1, 1, 2, 3, 4])
    C = lambda w, k=1, nw=False, i=None: o(w, "create", k, 0, nw, info() if i is None else i)
    L = lambda w, k=1, nw=False: o(w, "lookup", k, 0, nw)
    X = lambda w, k=1, nw=False: o(w, "close", k, 0, nw)
    R, H = lambda: env("restart"), lambda: env("heal")
    lim = lambda: env(*rnd.choice([("limit", 0), ("limit", 1), ("limit", 20),
                                   ("limit", 70), ("ro", 0)]))
    for i in range(5):
        # Round trip, restart, closing
        yield [C(1, i=i), L(1), L(1), R(), L(1), L(2), C(2, 2, i=(i + 1) % 5), L(2, 2), L(2),
               X(1), L(1), R(), L(1), L(1, 2), X(2, 2), L(2, 2), X(1), R(), L(2), L(1, 2)]
    yield [C(1, i=5), L(1), R(), L(1), C(1, 2, i=1), L(1, 2), L(1)]
    yield [L(1), X(1), L(1), R(), L(1), L(1, 2)]
    for k in range(4):
        # Racing operations
        yield [C(1), L(1, nw=True), L(2, nw=True), L(3, nw=True), X(4), L(5)]
        yield [C(1), L(1, nw=True), X(2, nw=True), L(3), L(4), R(), L(1)]
        yield [C(1, nw=True), X(2, nw=True), L(3), L(4), R(), L(1)]
        yield [C(1, nw=True), L(3, nw=True), X(2), L(3), L(1)]
        yield [C(1), C(1, 2), L(1, nw=True), L(2, 2, nw=True), X(3, 2, nw=True),
               L(2, 2), L(1), C(4, 3, nw=True), L(5, 3, nw=True), X(6, 1), L(4, 3), L(1), L(1, 2)]
        yield [C(1), L(1), L(2), L(3), L(4), L(5), X(6), L(1), L(2)]
        # Failing writes
        yield [C(1), lim(), L(1), L(2), C(2, 2), X(3), H(), L(1), L(2, 2), L(3)]
        yield [C(1), L(1), lim(), L(1), H(), L(1), X(1), L(1)]
        yield [lim(), C(1), L(1), H(), L(1), R(), L(1)]
        # Crashes in the middle of something, also while writing fails
        yield [C(1), L(1), L(2), R(), L(3), L(4)]
        yield [C(1), R(), L(3), L(4)]
        yield [C(1), L(1), X(2), R(), L(3), R(), L(4)]
        yield [C(1), L(6), lim(), L(1), R(), H(), L(3), L(4), X(4), L(4)]
        yield [lim(), C(1), R(), H(), L(3), R(), L(4)]
        yield [C(1), lim(), X(1), R(), H(), L(3), R(), L(4)]
        yield [C(1, i=4), env("limit", 3000), L(1), L(1), R(), H(), L(2)]


def c15(rnd):
    """Every bad key, next to good ones"""
    for bad in BAD:
        keys = [(bad, "bad"), ("a", "good"), ("p", "odd")]
        # keys: 1 bad, 2 good, 3 odd
        yield keys, [o(1, "lookup", 1, 0), o(1, "lookup", 3, 0), o(1, "create", 2, 0),
                     o(1, "lookup", 1, 0), o(1, "close", 1, 0), o(1, "lookup", 2, 0),
                     o(1, "create", 1, 0), o(1, "lookup", 1, 0), o(1, "lookup", 2, 0),
                     o(1, "create", 3, 0), o(1, "close", 1, 0), o(1, "lookup", 3, 0),
                     env("restart"), o(1, "lookup", 1, 0), o(1, "close", 2, 0),
                     o(1, "lookup", 1, 0), o(1, "lookup", 2, 0)]
    # Keys that might be confused, all stored at once
    for k in range(20):
        keys = [(x, "odd") for x in rnd.sample(ODD, 12)] + \
               [(x, "bad") for x in rnd.sample(BAD, 12)] + \
               [(x, "good") for x in GOOD] + [("w" * 100 + c, "odd") for c in "ab"]
        n = len(keys)
        order = list(range(1, n + 1))
        rnd.shuffle(order)
        st = [o(1, "create", i, 0) for i in order]
        rnd.shuffle(order)
        st += [o(1, "lookup", i, 0) for i in order]
        rnd.shuffle(order)
        for j, i in enumerate(order):
            st += [o(1, "close", i, 0)]
            if j % 4 == 0:
                st += [o(1, "lookup", i, 0) for i in rnd.sample(range(1, n + 1), 8)]
            if j == n // 2:
                st += [o(1, "lookup", i, 0) for i in range(1, n + 1)]
        yield keys, st
    # Random byte strings
    for k in range(60):
        alphabet = rnd.choice([b"./a\0", b"../\\", b"a./\0\xffp", bytes(range(256))])
        keys = []
        while len(keys) < 20:
            b = bytes(rnd.choice(alphabet) for _ in range(rnd.choice([1, 2, 3, 5, 9])))
            if b not in [x for x, _ in keys] and b[:1] != b"%":
                keys.append((b, "bad" if b"/" in b or b"\0" in b else "odd"))
        st = []
        for _ in range(60):
            st.append(o(1, rnd.choice(["create", "lookup", "lookup", "close"]),
                        rnd.randint(1, len(keys)), 0))
        yield keys, st


def check(ctx):
    lens, quick = ctx.prop, ctx.tier == "quick"
    rnd = random.Random("%s/%d" % (lens, ctx.seed))
    scratch()
    ENG.build(ctx)
    scens = []
    usual = {"keys": [b64(k) for k in GOOD], "class": ["good"] * len(GOOD)}
    good = lambda: usual if rnd.random() < .25 else anykeys(rnd)
    dirs = ["", "", "", "slash", "rel", "dot", "deep", "default"]
    if lens == "C14":
        for rep in range(1 if quick else 5):
            for i, st in enumerate(c14(rnd)):
                scens.append({"id": "d%d.%d" % (rep, i), "workers": 6,
                              "steps": number(st),
                              "cfg": dict(good(), dir=rnd.choice(dirs))})
                # Through the server, one after the other
                scens.append({"id": "s%d.%d" % (rep, i), "workers": 1,
                              "steps": [dict(s, w=min(s["w"], 1), nw=False) for s in st],
                              "explore": {"single": 0, "double": 0, "noise": 0},
                              "cfg": dict(good(), srv=True)})
        for nw, nk, calls, num, kinds in (
                (2, 2, 8, 40, '"restart"'), (3, 3, 12, 50, '"restart","limit","heal"'),
                (4, 5, 16, 50, '"ro","heal"'), (3, 4, 16, 40, '"restart","limit","ro","heal"')):
            for i, h in enumerate(sim.generate(
                    ctx, "StoreMC", {"NW": nw, "NK": nk, "MAXCALLS": calls, "GEN": "TRUE",
                                     "LENS": '"ALL"', "KINDS": "{%s}" % kinds,
                                     "ClassOf <- MCClassOf": None},
                    num if quick else num * 8, ctx.seed)):
                st = [dict(x, nw=rnd.random() < .3) for x in h]
                for s in st:
                    if s["op"]["k"] == "create":
                        s["op"]["i"] = rnd.choice([0, 1, 2, 3, 4])
                    if s["op"]["k"] == "limit":
                        s["op"]["v"] = rnd.choice([0, 1, 10, 50, 90, 200])
                scens.append({"id": "g%d.%d.%d" % (nw, nk, i), "workers": nw, "steps": st,
                              "cfg": dict(good(), dir=rnd.choice(dirs))})
    else:
        for rep in range(2 if quick else 40):
            for i, (keys, st) in enumerate(c15(rnd)):
                scens.append({"id": "k%d.%d" % (rep, i), "workers": 1,
                              "steps": number(st),
                              "explore": {"single": 0, "double": 0, "noise": 0},
                              "cfg": {"keys": [b64(k) for k, _ in keys],
                                      "class": [c for _, c in keys], "plant": True,
                                      "srv": rnd.random() < .5,
                                      "dir": rnd.choice(["", "slash", "rel", "dot"])}})
    log("%d scenarios after %.0fs" % (len(scens), time.time() - ctx.t0))
    ENG.explore(ctx, scens, {"single": 50, "double": 25, "noise": 6} if quick else
                {"single": 1000, "double": 300, "noise": 50},
                18 if quick else 300, rnd)
    if not ctx.violations:
        model_check(ctx, "StoreMC", MC % ((2, 1, 4, '"restart","limit","heal"') if quick
                                          else (3, 2, 5, '"restart","limit","heal"')),
                    timeout=1500)
        refinement(ctx, "StoreImpl", {"NW": 2, "NK": 1, "MAXCALLS": 3 if quick else 4,
                                      "MAXENV": 1 if quick else 2},
                   ["LOCK", "ATOMIC", "TOMB"], "NeverTorn", quick)
    ctx.assumptions += sim.ASSUME
    return ctx.finish("model_checking")
