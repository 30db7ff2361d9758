"""Corrupts recorded traces of the real server and shows which lens notices:
a demonstration that the trace specification isn't vacuous, and a search for
rules missing in the lens of a property. Usage: mutate_traces.py [n] [seed]"""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, server, srvdirected
from drivers import run_driver

N = int(sys.argv[1]) if len(sys.argv) > 1 else 120
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
ctx = common.Ctx("MUT", "quick")
binary = common.build(ctx, "srv")
scens = []
for p in server.STATEPROPS + ["C07"]:
    for t in srvdirected.scenarios(p, rnd, True):
        t["explore"] = {"plan": [{}, {"parks": [[rnd.randrange(20, 120), 1]]}]}
        t["id"] = "%s" % t["id"]
        scens.append(t)
scens = rnd.sample(scens, N)
r = run_driver(binary, scens)
ids = sorted(r.heads)
hx = {x: i for i, x in enumerate(ids)}
heads = [r.heads[x] for x in ids]


def alter(e):
    """Yields (name, altered event)"""
    if e["e"] == "send":
        if "p" in e:
            yield "payload", dict(e, p=e["p"] + "x")
        if "enc" in e:
            yield "enc", dict(e, enc="bin" if e["enc"] != "bin" else "utf8")
        if "code" in e:
            yield "code", dict(e, code=e["code"] + "x")
        if e["t"] in ("reply", "err"):
            yield "->internal", dict(e, t="internal")
        if e["t"] in ("reply", "internal", "notfound", "max"):
            yield "->shutdown", dict(e, t="shutdown")
        if e["t"] == "created":
            yield "key", dict(e, k="zz")
            yield "info", dict(e, i="zz")
    elif e["e"] == "hstart":
        for k in ("id", "n", "enc", "p"):
            yield k, dict(e, **{k: e[k] + "x"})
    elif e["e"] == "hend":
        yield "p", dict(e, p=e["p"] + "x")
    elif e["e"] == "ret" and e.get("r") in ("ok", "err"):
        yield "result", dict(e, r="err" if e["r"] == "ok" else "ok")
        if e.get("cons"):
            yield "cons", dict(e, cons=e["cons"][1:], n=e["n"] - 1, ne=e["ne"] - 1)
            yield "slots", dict(e, ne=e["ne"] - 1)
    elif e["e"] in ("onconn", "disc", "rcall", "oncreated"):
        yield "ok", dict(e, ok=not e["ok"])
    elif e["e"] == "quiet":
        for i, x in enumerate(e["sess"]):
            s = list(e["sess"])
            s[i] = "" if x not in ("", "-") else "k1"
            yield "sess", dict(e, sess=s)
        for i, x in enumerate(e["active"]):
            s = list(e["active"])
            if x in ("true", "false"):
                s[i] = "true" if x == "false" else "false"
                yield "active" + x, dict(e, active=s)
        for i, x in enumerate(e["reading"]):
            if x:
                s = list(e["reading"])
                s[i] = False
                yield "notreading", dict(e, reading=s)
        yield "act", dict(e, act=e["act"] + 1)
        for k in e["list"]:
            l, n = dict(e["list"]), dict(e["num"])
            if l[k] == [-1]:
                l[k], n[k] = [1], 1
                yield "listed", dict(e, list=l, num=n, act=e["act"] + 1)
                yield "listed+", dict(e, list=l, num=n)
            else:
                l[k], n[k] = [-1], -1
                yield "unlisted", dict(e, list=l, num=n, act=e["act"] - 1)
            break


muts = []
for t in r.traces:
    ev = server.strip("ALL", t["ev"])
    M = []
    for i, e in enumerate(ev):
        name = e["e"] + (":" + e["t"] if e["e"] == "send" else "") + \
            (":" + heads[hx[t["id"]]]["ops"][e["o"] - 1]["k"] if e["e"] in ("ret", "call") else "")
        if e["e"] not in ("quiet", "release", "fin", "deliver", "call", "connect", "lost"):
            M.append(("drop " + name, ev[:i] + ev[i + 1:]))
            M.append(("dup " + name, ev[:i + 1] + ev[i:]))
            if i + 3 < len(ev):
                M.append(("delay " + name, ev[:i] + ev[i + 1:i + 4] + [e] + ev[i + 4:]))
            if i > 3:
                M.append(("early " + name, ev[:i - 3] + [e] + ev[i - 3:i] + ev[i + 1:]))
        for how, x in alter(e):
            M.append(("alter %s %s" % (name, how), ev[:i] + [x] + ev[i + 1:]))
    by = {}
    for n, m in M:
        by.setdefault(n, []).append(m)
    for n, ms in by.items():
        muts.append({"h": hx[t["id"]], "ev": rnd.choice(ms), "what": n, "id": t["id"]})
print(len(r.traces), "traces", len(muts), "mutants")
res = {}
lenses = ["ALL"] + server.STATEPROPS + ["C07"]
for lens in lenses:
    tr = [{"h": m["h"], "ev": server.strip(lens, m["ev"])} for m in muts]
    for i in common.check_traces(ctx, "ServerTrace", server.CFG % lens, heads, tr):
        res.setdefault(i, set()).add(lens)
tab = {}
for i, m in enumerate(muts):
    x = tab.setdefault(m["what"], {"n": 0, "hole": []})
    x["n"] += 1
    s = res.get(i, set())
    for l in s:
        x[l] = x.get(l, 0) + 1
    if s == {"ALL"}:
        x["hole"].append(m["id"])
for k in sorted(tab):
    x = tab[k]
    print("%-34s %4d ALL=%d  %s %s" % (k, x["n"], x.get("ALL", 0), " ".join(
        "%s=%d" % (l, x[l]) for l in lenses[1:] if l in x),
        "HOLES %d %s" % (len(x["hole"]), x["hole"][:2]) if x["hole"] else ""))
ctx.close()
