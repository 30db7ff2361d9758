"""C25: server options"""
import json, random, re, time
from common import *
import sim, store

ENG = sim.Engine("config", "config", "ConfigTrace", {})
MC = """SPECIFICATION MCSpec
CONSTANTS
 PART = "%s"
INVARIANTS Faithful Limits Decided
CHECK_DEADLOCK FALSE
"""


def replay(ctx, data):
    store.scratch()
    return ENG.replay(ctx, data)


def num(d):
    return sum(x << (16 * i) for i, x in enumerate(d))


def scenario(i, o, rnd):
    ms = num(o["rt"]["ms"])
    ns = ms * 1000000
    if o["rt"]["sub"]:
        ns += rnd.choice([1, 499999, 500000, 999999])
    if o["rt"]["neg"]:
        ns = -ns
    return {"id": "o%d" % i, "steps": [],
            "o": {"impl": o["impl"], "tr": o["tr"], "trerr": o["trerr"],
                  "ses": o["ses"], "mgr": o["mgr"], "gen": o["gen"], "par": o["par"],
                  "max": o["max"], "rtns": str(ns), "bufs": str(num(o["buf"])),
                  "sub": o["sub"], "log": rnd.random() < .8}}


def check(ctx):
    quick = ctx.tier == "quick"
    rnd = random.Random("C25/%d" % ctx.seed)
    store.scratch()
    ENG.build(ctx)
    parts = [grid(ctx, p) for p in ("numbers", "switches")]
    nums, sws = parts
    subs = [[], [0], [119], [255] * 3, list(b"my protocol/1.0"), list(range(256)),
            [0, 0, 0, 0], [7] * 300]
    opts = []
    for rep in range(1 if quick else 30):
        # all numbers, all switches, with the rest taken from the other
        for n in nums:
            s = rnd.choice(sws) if rep else n
            o = dict(s, rt=n["rt"], buf=n["buf"], sub=rnd.choice(subs))
            if rep == 0 or rnd.random() < .7:
                o.update(impl=True, tr=True, trerr=False)
            opts.append(o)
        for s in sws:
            n = rnd.choice(nums) if rep else s
            opts.append(dict(s, rt=n["rt"], buf=n["buf"], sub=rnd.choice(subs)))
        if quick:
            # and a sample of everything
            for _ in range(600):
                s, n = rnd.choice(sws), rnd.choice(nums)
                opts.append(dict(s, rt=n["rt"], buf=n["buf"], sub=rnd.choice(subs),
                                 impl=True, tr=True, trerr=False))
    rnd.shuffle(opts)
    scens = [scenario(i, o, rnd) for i, o in enumerate(opts)]
    log("%d scenarios after %.0fs" % (len(scens), time.time() - ctx.t0))
    ENG.explore(ctx, scens, {}, 20 if quick else 400, rnd)
    if not ctx.violations:
        for p in ("numbers", "switches"):
            model_check(ctx, "ConfigMC", MC % p)
    return ctx.finish("model_checking")


def grid(ctx, part):
    r = tlc(ctx, "ConfigMC", "SPECIFICATION GenSpec\nCONSTANTS\n PART = \"%s\"\n"
            "CHECK_DEADLOCK FALSE\n" % part, None, 1)
    if not r.ok:
        raise CheckError("generation failed: " + r.error())
    res = [json.loads(m.replace('\\"', '"'))
           for m in re.findall(r'<<"SCN", "(.*)">>', r.out)]
    ctx.add("option_sets", len(res))
    return res
