"""C20: copies of sessions and infos"""
import json, os, random, time
from common import *
import sim

ENG = sim.Engine("sessinfo", "sessinfo", "InfoTrace", {})
ALLOPS = ["raw", "noinfo", "zero", "parse", "copy", "varmap", "value", "nosess", "sess",
          "newsess", "clone", "infoof", "con", "create", "restore", "session", "close",
          "field", "mod"]
MC = """SPECIFICATION Spec
CONSTANTS
 DEEP = %s
 GEN = FALSE
 MAXOPS = %d
 MAXH = %d
 OPS = {%s}
INVARIANT Isolated
CHECK_DEADLOCK FALSE
"""
ANY = "map[string]interface {}"
# element types of containers ("" for any)
ELEM = {ANY: "", "map[string]string": "string", "map[string]int": "int",
        "map[int]interface {}": "", "map[interface {}]interface {}": "",
        "map[string][]string": "[]string", "map[string]map[string]int": "map[string]int",
        "map[bool]string": "string", "main.namedMap": "", "map[int][][]int": "[][]int",
        "[]interface {}": "", "[]string": "string", "[]int": "int", "[][]int": "[]int",
        "[]uint8": "uint8", "[]float64": "float64",
        "[]map[string]interface {}": ANY, "[]map[string]int": "map[string]int",
        "[][]interface {}": "[]interface {}"}
KEYS = {"map[int]interface {}": ["int:0", "int:1", "int:-7"],
        "map[int][][]int": ["int:0", "int:1", "int:-7"],
        "map[bool]string": ["bool:true", "bool:false"],
        "map[interface {}]interface {}": ["int:1", "string:1", "nil:", "bool:true", "string:a",
                                          "float64:1"]}
STRKEYS = ["a", "b", "c", "", "key with \u00e4", "int:1"]
SCALARS = {"string": ["", "x", "some text", "\u20ac"], "int": ["0", "42", "-1"],
           "int8": ["-128"], "int32": ["65"], "int64": ["9223372036854775807"],
           "uint8": ["0", "255"], "uint64": ["18446744073709551615"],
           "float64": ["0.5", "-0", "1e+300"], "float32": ["0.25"], "bool": ["true", "false"],
           "complex128": ["1.5"], "time.Duration": ["1000"], "main.named": ["n"]}


def sc(t, s):
    return {"k": "s", "t": t, "s": s}


NIL = {"k": "n"}


def tree(rnd, depth, t="", plain=False):
    """A random value of type t"""
    if not t:
        if rnd.random() < .06:
            return NIL
        if depth > 0 and rnd.random() < .75:
            ts = [x for x in ELEM if not plain or x != "map[interface {}]interface {}"
                  and not x.startswith("map[bool]")]
            t = rnd.choice(ts + [ANY] * 4 + ["[]interface {}"] * 4)
        else:
            ts = [x for x in SCALARS if not plain or x != "complex128"]
            t = rnd.choice(ts + ["string", "int"])
    if t in SCALARS:
        return sc(t, rnd.choice(SCALARS[t]))
    m = not t.startswith("[]")
    if rnd.random() < .08:
        return {"k": "m" if m else "l", "t": t, "nil": True, "e": {} if m else []}
    n = rnd.choice([0, 1, 1, 2, 2, 3]) if depth > 0 or ELEM[t] in SCALARS else 0
    if m:
        ks = rnd.sample(KEYS.get(t, STRKEYS), min(n, len(KEYS.get(t, STRKEYS))))
        return {"k": "m", "t": t, "nil": False,
                "e": {k: tree(rnd, depth - 1, ELEM[t], plain) for k in ks}}
    return {"k": "l", "t": t, "nil": False,
            "e": [tree(rnd, depth - 1, ELEM[t], plain) for _ in range(n)]}


def root(rnd, depth, plain):
    while True:
        r = tree(rnd, depth, ANY, plain)
        if not r["nil"]:
            return r


def pool(rnd, plain):
    roots = [root(rnd, rnd.choice([2, 3, 4]), plain) for _ in range(5)]
    roots.append({"k": "m", "t": ANY, "nil": False, "e": {}})
    return {"roots": roots,
            "pool": {t: [tree(rnd, rnd.choice([0, 1, 2]), e, plain) for _ in range(2)]
                     for t, e in ELEM.items()},
            "keys": {t: rnd.sample(KEYS.get(t, STRKEYS), 1) for t in ELEM}}


def small():
    """Few values, for the exhaustive exploration"""
    L = lambda *e: {"k": "l", "t": "[]interface {}", "nil": False, "e": list(e)}
    M = lambda **e: {"k": "m", "t": ANY, "nil": False, "e": e}
    i = sc("int", "1")
    return {"roots": [M(a=M(b=i), c=L(i))],
            "pool": {ANY: [i, L()], "[]interface {}": [i, M()]},
            "keys": {ANY: ["n"], "[]interface {}": ["n"]}}


def generate(ctx, rnd, i, plain, num, ops, maxops, maxh):
    p = ctx.path("pool%d.json" % i)
    with open(p, "w") as f:
        json.dump(pool(rnd, plain), f)
    return sim.generate(ctx, "InfoMC", {
        "DEEP": "TRUE", "GEN": "TRUE", "MAXOPS": maxops, "MAXH": maxh,
        "OPS": "{%s}" % ",".join('"%s"' % o for o in ops)},
        num, ctx.seed * 1000 + i, env={"POOL": p})


def check(ctx):
    quick = ctx.tier == "quick"
    rnd = random.Random("C20/%d" % ctx.seed)
    ENG.build(ctx)
    jobs = []
    nocon = [o for o in ALLOPS if o not in ("con", "create", "restore", "session", "close")]
    for i in range(16 if quick else 96):
        r = random.Random("C20/%d/%d" % (ctx.seed, i))
        plain = i % 4 > 0
        ops, n, mh = [(ALLOPS, 14, 9), (nocon, 14, 9), (ALLOPS, 24, 12),
                      (["parse", "copy", "value", "varmap", "mod", "raw"], 16, 7)][(i // 2) % 4]
        jobs.append(lambda i=i, r=r, plain=plain, ops=ops, n=n, mh=mh:
                    generate(ctx, r, i, plain, 40 if quick else 200, ops, n, mh))
    scens = []
    for j in range(0, len(jobs), NCPU):
        for hs in parallel(jobs[j:j + NCPU]):
            for h in hs:
                scens.append({"id": "g%d" % len(scens), "steps": h})
    for h in directed(rnd, quick):
        scens.append({"id": "d%d" % len(scens), "steps": h})
    log("%d scenarios after %.0fs" % (len(scens), time.time() - ctx.t0))
    ENG.explore(ctx, scens, {}, 30 if quick else 600, rnd)
    if not ctx.violations:
        p = ctx.path("pool.json")
        with open(p, "w") as f:
            json.dump(small(), f)
        ops = ["parse", "copy", "varmap", "value", "sess", "clone", "con", "create",
               "session", "mod"]
        q = ",".join('"%s"' % o for o in ops)
        model_check(ctx, "InfoMC", MC % ("TRUE", 4 if quick else 5, 4, q), {"POOL": p},
                    workers=NCPU, timeout=1500)
        r = tlc(ctx, "InfoMC", MC % ("FALSE", 4, 4, q), {"POOL": p})
        if "Invariant Isolated is violated" not in r.out:
            raise CheckError("the specification allows shallow copies: " + r.error())
    return ctx.finish("model_checking")


def paths(v, p=()):
    """Everything that can be modified within a value"""
    if v["k"] not in "ml" or v["nil"]:
        return
    yield list(p), v
    es = v["e"].items() if v["k"] == "m" else enumerate(v["e"])
    for k, x in es:
        s = {"s": k, "i": 0} if v["k"] == "m" else {"s": "", "i": k + 1}
        yield from paths(x, p + (s,))


def mods(rnd, v):
    """For each container, all kinds of modifications"""
    for p, c in paths(v):
        x = tree(rnd, 1, ELEM[c["t"]])
        if c["k"] == "m":
            ks = KEYS.get(c["t"], STRKEYS)
            for k in {rnd.choice(ks)} | set(list(c["e"])[:2]):
                yield {"o": "set", "s": k, "i": 0, "v": x, "p": p}
            for k in list(c["e"])[:1]:
                yield {"o": "del", "s": k, "i": 0, "v": NIL, "p": p}
        else:
            for i in range(1, len(c["e"]) + 1):
                yield {"o": "set", "s": "", "i": i, "v": x, "p": p}
            yield {"o": "app", "s": "", "i": 0, "v": x, "p": p}
            if c["e"]:
                yield {"o": "cut", "s": "", "i": len(c["e"]) - 1, "v": NIL, "p": p}


def directed(rnd, quick):
    """Each way of copying, then a modification at every place of the original,
    and of whatever can be got out of the copy"""
    for rep in range(60 if quick else 1000):
        v = root(rnd, rnd.choice([1, 2, 3, 4, 6]), rep % 3 > 0)
        start = [{"e": "raw", "v": v}, {"e": "parse", "h": 1}]
        copy = [[{"e": "copy", "h": 2}],
                [{"e": "sess", "h": 2, "f": "k"}, {"e": "clone", "h": 3}],
                [{"e": "newsess", "h": 2, "f": "k"}, {"e": "clone", "h": 3},
                 {"e": "infoof", "h": 4}, {"e": "copy", "h": 5}],
                [{"e": "con"}, {"e": "create", "h": 3, "g": 2}, {"e": "session", "h": 3},
                 {"e": "infoof", "h": 4}],
                [{"e": "restore", "h": 1, "f": "key"}, {"e": "session", "h": 3}],
                [{"e": "varmap", "h": 2}, {"e": "parse", "h": 3}, {"e": "copy", "h": 4}]]
        ms = list(mods(rnd, v))
        m1 = rnd.sample(ms, min(len(ms), 6))
        for c in copy:
            # Modify the original
            yield start + c + [{"e": "mod", "h": 1, "m": m} for m in m1[:1]]
            yield start + c + [{"e": "mod", "h": 1, "m": m} for m in
                               sorted(m1[1:3], key=lambda m: -len(m["p"]))[:1]]
        # Field values of the info, then of the connection
        for f, x in v["e"].items():
            for src in (start, start + [{"e": "copy", "h": 2}],
                        start + [{"e": "con"}, {"e": "create", "h": 3, "g": 2}]):
                h = len(src) if src[-1]["e"] != "create" else 3
                ms = list(mods(rnd, x))
                for m in rnd.sample(ms, min(len(ms), 2)):
                    yield src + [{"e": "value", "h": h, "f": f}, {"e": "value", "h": h, "f": f},
                                 {"e": "mod", "h": h + 1, "m": m},
                                 {"e": "value", "h": h, "f": f}]
        for m in m1[:2]:
            yield start + [{"e": "varmap", "h": 2}, {"e": "varmap", "h": 2},
                           {"e": "mod", "h": 3, "m": m}, {"e": "varmap", "h": 2}]


def replay(ctx, data):
    return ENG.replay(ctx, data)
