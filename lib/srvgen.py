"""Scenario templates: which connections, messages, operations, blocked hooks and
faults there are. The order of events is chosen by TLC (spec/ServerMC.tla), the
schedule by the driver."""

BAD = [  # malformed messages (hex), see spec/Codec.tla for the format
    "", "01", "fe", "ff00", "40", "4000", "7f", "7f" + "61" * 7, "7f" + "61" * 8,
    "7f" + "61" * 8 + "05" + "61", "7f" + "61" * 8 + "00", "81" + "61" * 8 + "016100" + "61",
    "81" + "61" * 8 + "00" + "616161", "42" + "0361626300" + "61", "4203616263" + "6161",
    "4000", "3f00", "3f05" + "61" * 3, "3fff61", "1f", "1f" + "61" * 5, "1f" + "61" * 9,
    "20", "20" + "61" * 8, "2100", "17", "1702", "15", "160000", "00" + "61" * 8,
    "0a", "90", "c8" + "00" * 40, "00" * 12,
]
SRVMSGS = [  # well-formed messages a client has no business sending
    "170200" + "60ea0000" + "00200000", "16", "157b7d",
    "01" + "6162000000000000", "02" + "6162000000000000", "03" + "6162000000000000",
    "bf" + "6162000000000000" + "68656c6c6f",
]

ENCS = ["bin", "utf8", "utf16"]


def newt(i, prop):
    return {"id": "%s-%s" % (prop, i),
            "cfg": {"sess": True, "max": 0, "buf": 1024, "rt": 60000, "sub": ""},
            "conns": [], "msgs": [], "ops": [], "gates": [], "gens": [],
            "store": [], "lookup": {}, "onclose": {}, "steps": [],
            "lose": [], "nw": True, "prec": [], "faults": []}


def out(rnd, rich=True):
    k = rnd.choice(["ok"] * 5 + ["err", "err", "perr", "nilperr", "other",
                                 "special", "wrap", "wrap"] if rich else ["ok"])
    o = {"k": k}
    if k == "ok":
        o["enc"] = rnd.choice(ENCS)
        o["p"] = rnd.choice(["", "r", "reply", "r\u00e9ply", "x" * 30])
        if rich and rnd.random() < .2:
            o["plen"] = rnd.choice([1, 3, 513, 1013, 1014, 1015, 1016, 2000])
    elif k in ("err", "perr", "wrap"):
        o["code"] = rnd.choice(["E", "CODE", "long_code", ""] if rich else ["C"])
        o["m"] = rnd.choice(["", "message", "m\u00e9ss"])
        if rnd.random() < .2:
            o[rnd.choice(["clen", "mlen"])] = rnd.choice([254, 255, 256, 1000, 1013, 1014, 2000])
        if rnd.random() < .1:
            o["code"] = "b\u00e4d"
    elif k == "other":
        o["m"] = "details"
    elif k == "special":
        o["m"] = rnd.choice(["notfound", "max", "disabled", "shutdown", "internal"])
    return o


def req(rnd, c, i, rich=True, enc=None):
    enc = enc or rnd.choice(ENCS)
    p = rnd.choice(["p%d" % i, "payload %d" % i, "\u00fcp%d" % i])
    m = {"c": c, "k": "req", "id": "q%d" % i, "enc": enc,
         "n": rnd.choice(["", "n", "nm", "name%d" % i]), "p": p, "out": out(rnd, rich)}
    if rnd.random() < .15:
        m["plen"] = rnd.choice([100, 401, 512]) if enc != "utf16" else \
            rnd.choice([100, 402, 512])
    return m


def sig(rnd, c, i, enc=None):
    enc = enc or rnd.choice(ENCS)
    return {"c": c, "k": "sig", "enc": enc, "n": rnd.choice(["", "s", "sg%d" % i]),
            "p": rnd.choice(["sig%d" % i, "s\u00efgnal %d" % i])}


def special(rnd, c, i, k, key=""):
    m = {"c": c, "k": k}
    if k in ("restore", "close"):
        m["id"] = "q%d" % i
    if k == "restore":
        m["key"] = key
    if k == "srv":
        m["raw"] = rnd.choice(SRVMSGS)
    if k == "bad":
        m["raw"] = rnd.choice(BAD)
    return m


def auto(rnd, t, p):
    for m in t["msgs"]:
        if m["k"] in ("req", "sig") and rnd.random() < p:
            m["auto"] = True


def conns(rnd, t, n, lims, plose=.4):
    for _ in range(n):
        t["conns"].append({"lim": rnd.choice(lims)})
        t["lose"].append(rnd.random() < plose)


def after(t, a, b):
    t["prec"].append([a, b])


def connected_first(t):
    for a in range(1, len(t["conns"]) + 1):
        for i, m in enumerate(t["msgs"]):
            pass


def op(t, k, c=0, **kw):
    t["ops"].append(dict({"k": k, "c": c}, **kw))
    return len(t["ops"])


def late(rnd, t, o, p=.75):
    """Usually operations come after some message"""
    if t["msgs"] and rnd.random() < p:
        ms = [i + 1 for i, m in enumerate(t["msgs"])
              if not t["ops"][o - 1]["c"] or m["c"] == t["ops"][o - 1]["c"]]
        if ms:
            after(t, "deliver:%d" % rnd.choice(ms), "op:%d" % o)


def late_lose(rnd, t, p=.7):
    for c, l in enumerate(t["lose"], 1):
        if l and rnd.random() < p:
            ms = [i + 1 for i, m in enumerate(t["msgs"]) if m["c"] == c]
            if ms:
                after(t, "deliver:%d" % rnd.choice(ms[len(ms) // 2:]), "lose:%d" % c)


def fault(rnd, t, c=None, kinds=("get", "write", "close"), maxk=5):
    c = c or rnd.randrange(1, len(t["conns"]) + 1)
    t["faults"].append([c, "fault", rnd.choice(kinds), rnd.randrange(1, maxk + 1)])


def outcomes(rnd, t, keys):
    pass


# --- families ------------------------------------------------------------

def requests(rnd, t, rich=True, lims=(0, 1, 2, 2, 3, -1), nc=None, nm=None):
    nc = nc or rnd.choice([1, 1, 2])
    conns(rnd, t, nc, lims)
    nm = nm or rnd.randrange(3, 6)
    for i in range(1, nm + 1):
        c = rnd.randrange(1, nc + 1)
        k = rnd.choice(["req"] * 7 + ["sig"] * 2 + ["hb", "srv", "restore", "close"])
        if k == "req":
            t["msgs"].append(req(rnd, c, i, rich))
        elif k == "sig":
            t["msgs"].append(sig(rnd, c, i))
        else:
            t["msgs"].append(special(rnd, c, i, k, "s1"))
    auto(rnd, t, .35)
    t["cfg"]["sess"] = rnd.random() < .7
    t["store"] = ["s1"]


def f_requests(rnd, t):
    requests(rnd, t)
    r = rnd.random()
    if r < .2:
        late(rnd, t, op(t, "close", 1))
    elif r < .4:
        late(rnd, t, op(t, "shutdown"))
    elif r < .6:
        fault(rnd, t)
    elif r < .75:
        t["gates"].append("fl:1")
    late_lose(rnd, t)


def f_content(rnd, t):
    nc = rnd.choice([1, 2, 2])
    conns(rnd, t, nc, (2, 3, 4, -1), .15)
    for i in range(1, rnd.randrange(4, 7)):
        c = rnd.randrange(1, nc + 1)
        m = req(rnd, c, i, False) if rnd.random() < .5 else sig(rnd, c, i)
        m["n"] = rnd.choice(["", "a%d" % i, "name_%d" % i, "n" * rnd.choice([254, 255])])
        if rnd.random() < .3:
            m["plen"] = rnd.choice([200, 300, 700])
        t["msgs"].append(m)
    auto(rnd, t, .25)
    if rnd.random() < .2:
        late(rnd, t, op(t, "close", 1))
    late_lose(rnd, t)


def f_limits(rnd, t):
    nc = rnd.choice([1, 1, 2])
    conns(rnd, t, nc, (0, 1, 2, 2, 2, 3, -1, -5), .15)
    for i in range(1, rnd.randrange(4, 7)):
        c = 1 if rnd.random() < .8 else nc
        k = rnd.choice(["req"] * 4 + ["sig"] * 4 + ["hb", "srv", "restore", "close"])
        if k == "req":
            t["msgs"].append(req(rnd, c, i, rnd.random() < .4))
        elif k == "sig":
            t["msgs"].append(sig(rnd, c, i))
        else:
            t["msgs"].append(special(rnd, c, i, k, "s1"))
    auto(rnd, t, .2)
    t["store"] = ["s1"]
    r = rnd.random()
    if r < .15:
        late(rnd, t, op(t, "close", 1))
    elif r < .3:
        late(rnd, t, op(t, "shutdown"))
    elif r < .4:
        fault(rnd, t)
    t["nw"] = rnd.random() < .6


def f_shutdown(rnd, t):
    nc = rnd.choice([1, 2])
    conns(rnd, t, nc, (0, 1, 2, 3, -1), .3)
    n = rnd.randrange(2, 5)
    for i in range(1, n + 1):
        c = rnd.randrange(1, nc + 1)
        k = rnd.choice(["req"] * 4 + ["sig"] * 3 + ["restore", "close", "srv", "hb"])
        t["msgs"].append(req(rnd, c, i, False) if k == "req" else sig(rnd, c, i)
                         if k == "sig" else special(rnd, c, i, k, "s1"))
    t["store"] = ["s1"]
    auto(rnd, t, .25)
    o = op(t, "shutdown")
    late(rnd, t, o, .85)
    if rnd.random() < .3:
        op(t, "shutdown")
    if rnd.random() < .3:
        late(rnd, t, op(t, rnd.choice(["close", "cclose", "create"]), 1))
    if rnd.random() < .25:
        t["gates"].append(rnd.choice(["fl:1", "lk:s1"]))
    if rnd.random() < .15:
        fault(rnd, t)
    late_lose(rnd, t)


def f_close(rnd, t):
    nc = rnd.choice([1, 2])
    conns(rnd, t, nc, (0, 1, 2, 3, -1), .2)
    n = rnd.randrange(2, 5)
    for i in range(1, n + 1):
        c = 1 if rnd.random() < .75 else nc
        k = rnd.choice(["req"] * 4 + ["sig"] * 3 + ["restore", "close", "srv"])
        t["msgs"].append(req(rnd, c, i, False) if k == "req" else sig(rnd, c, i)
                         if k == "sig" else special(rnd, c, i, k, "s1"))
    t["store"] = ["s1"]
    auto(rnd, t, .25)
    via = rnd.choice([0, 1])
    late(rnd, t, op(t, "close", 1, via=via), .85)
    if rnd.random() < .4:
        op(t, "close", 1)
    if rnd.random() < .4:
        t["gens"] = ["k1"]
        op(t, "create", 1, info=1)
    if rnd.random() < .15:
        op(t, "shutdown")
    if rnd.random() < .25:
        t["gates"].append(rnd.choice(["fl:1", "lk:s1", "gen", "oc:1"]))
    if rnd.random() < .15:
        fault(rnd, t)
    late_lose(rnd, t)


def f_lifecycle(rnd, t):
    nc = rnd.choice([1, 2, 3])
    conns(rnd, t, nc, (0, 2, -1), .75)
    for i in range(1, rnd.randrange(2, 4)):
        c = rnd.randrange(1, nc + 1)
        k = rnd.choice(["req", "sig", "hb", "bad", "restore"])
        t["msgs"].append(req(rnd, c, i, False) if k == "req" else sig(rnd, c, i)
                         if k == "sig" else special(rnd, c, i, k, "s1"))
    t["store"] = ["s1"]
    auto(rnd, t, .5)
    for g in ("oc", "od", "fl"):
        if rnd.random() < .3:
            t["gates"].append("%s:%d" % (g, rnd.randrange(1, nc + 1)))
    if rnd.random() < .4:
        fault(rnd, t, maxk=2)
    if rnd.random() < .3:
        op(t, "close", 1)
    if rnd.random() < .15:
        op(t, "shutdown")
    t["cfg"]["rt"] = rnd.choice([60000, 1500, 4294967295])
    t["cfg"]["buf"] = rnd.choice([128, 1024, 8192])
    t["cfg"]["sub"] = rnd.choice(["", "proto", "x.y-z"])
    if rnd.random() < .3:
        t["abn"] = True


def f_bad(rnd, t):
    nc = rnd.choice([2, 2, 3])
    conns(rnd, t, nc, (0, 2, -1), .4)
    n = rnd.randrange(3, 6)
    for i in range(1, n + 1):
        c = rnd.randrange(1, nc + 1)
        k = rnd.choice(["req", "req", "sig", "bad", "bad", "srv", "restore", "close"])
        t["msgs"].append(req(rnd, c, i) if k == "req" else sig(rnd, c, i)
                         if k == "sig" else special(rnd, c, i, k, rnd.choice(["s1", "s2"])))
    t["cfg"]["sess"] = rnd.random() < .8
    t["store"] = ["s1", "s2"]
    t["lookup"] = {"s2": rnd.choice(["err", "bad", "big", "nil", "noinfo"])}
    if rnd.random() < .4:
        t["onclose"] = {"s1": rnd.choice(["err", "panic"])}
    auto(rnd, t, .6)
    for _ in range(rnd.choice([0, 1, 1, 2])):
        fault(rnd, t, kinds=("get", "write", "close", "sock"))
    if rnd.random() < .4:
        op(t, rnd.choice(["close", "create", "cclose"]), rnd.randrange(1, nc + 1))
    if rnd.random() < .2:
        op(t, "shutdown")
    if rnd.random() < .3:
        op(t, "sclose", key="s1")
    t["gens"] = [rnd.choice(["k1", "!"])]
    t["oncreat"] = rnd.choice(["", "err"])


def f_sessions(rnd, t, nc=None, nops=None):
    nc = nc or rnd.choice([2, 2, 3])
    conns(rnd, t, nc, (0, 0, 2, 3), .35)
    keys = ["s1"] if rnd.random() < .6 else ["s1", "s2"]
    t["store"] = list(keys)
    t["cfg"]["max"] = rnd.choice([0, 0, 1, 2, 3])
    i = 0
    for c in range(1, nc + 1):
        if rnd.random() < .75:
            i += 1
            t["msgs"].append(special(rnd, c, i, "restore", rnd.choice(keys)))
        if rnd.random() < .35:
            i += 1
            t["msgs"].append(special(rnd, c, i, rnd.choice(["close", "close", "restore"]),
                                     rnd.choice(keys)))
            after(t, "deliver:%d" % max(1, i - 1), "deliver:%d" % i)
    for _ in range(nops if nops is not None else rnd.choice([1, 2, 2, 3])):
        k = rnd.choice(["create", "cclose", "cclose", "sclose", "sclose", "close"])
        if k == "sclose":
            o = op(t, k, key=rnd.choice(keys + ["k1"]))
        else:
            o = op(t, k, rnd.randrange(1, nc + 1), info=rnd.randrange(0, 4))
        if k != "create":
            late(rnd, t, o)
    t["gens"] = ["k1", "k2", "k3"]
    for g in ("lk:s1", "lr:s1", "cl:s1", "gen", "cr:1", "cl:k1"):
        if rnd.random() < .15:
            t["gates"].append(g)
    r = rnd.random()
    if r < .15:
        fault(rnd, t)
    if rnd.random() < .15:
        t["onclose"] = {"s1": rnd.choice(["err", "panic"]), "k1": "panic"}
    if rnd.random() < .1:
        t["lookup"] = {"s1": rnd.choice(["err", "bad", "big", "nil", "noinfo"])}
    late_lose(rnd, t)


def f_max(rnd, t):
    nc = rnd.choice([2, 3, 3])
    conns(rnd, t, nc, (0, 2), .3)
    t["cfg"]["max"] = rnd.choice([1, 1, 2])
    t["store"] = ["s1", "s2"]
    for i in range(1, nc + 1):
        t["msgs"].append(special(rnd, i, i, "restore", "s1"))
    if rnd.random() < .4:
        t["msgs"].append(special(rnd, rnd.randrange(1, nc + 1), nc + 1,
                                 rnd.choice(["restore", "close"]), rnd.choice(["s1", "s2"])))
    for g in ("lk:s1", "lr:s1"):
        if rnd.random() < .4:
            t["gates"].append(g)
    if rnd.random() < .5:
        k = rnd.choice(["cclose", "sclose", "close", "create"])
        o = op(t, k, 0 if k == "sclose" else rnd.randrange(1, nc + 1), key="s1")
        late(rnd, t, o)
    if rnd.random() < .2:
        t["gens"] = ["s1"]
        t["gens"] = ["k1"]
    if rnd.random() < .15:
        fault(rnd, t)
    late_lose(rnd, t)


def f_destroy(rnd, t):
    nc = rnd.choice([1, 2, 2, 3])
    conns(rnd, t, nc, (0, 0, 2), .3)
    t["store"] = ["s1"]
    i = 0
    for c in range(1, nc + 1):
        i += 1
        t["msgs"].append(special(rnd, c, i, "restore", "s1"))
        if rnd.random() < .5:
            i += 1
            t["msgs"].append(special(rnd, c, i, rnd.choice(["close", "close", "restore"]), "s1"))
            after(t, "deliver:%d" % (i - 1), "deliver:%d" % i)
    for _ in range(rnd.choice([1, 1, 2])):
        k = rnd.choice(["cclose", "cclose", "sclose", "sclose", "close"])
        late(rnd, t, op(t, k, 0 if k == "sclose" else rnd.randrange(1, nc + 1), key="s1"), .9)
    for g, p in (("lk:s1", .25), ("lr:s1", .25), ("cl:s1", .35)):
        if rnd.random() < p:
            t["gates"].append(g)
    if rnd.random() < .3:
        t["onclose"] = {"s1": rnd.choice(["err", "panic"])}
    if rnd.random() < .15:
        fault(rnd, t)
    late_lose(rnd, t)


def f_create(rnd, t):
    nc = rnd.choice([1, 1, 2])
    conns(rnd, t, nc, (0, 2), .3)
    if rnd.random() < .4:
        t["msgs"].append(special(rnd, 1, 1, rnd.choice(["restore", "close"]), "s1"))
    t["store"] = ["s1"]
    for _ in range(rnd.choice([2, 2, 3])):
        k = rnd.choice(["create"] * 4 + ["cclose", "sclose", "close"])
        o = op(t, k, 0 if k == "sclose" else rnd.randrange(1, nc + 1), key="k1",
               info=rnd.randrange(0, 4))
        if k in ("cclose", "sclose"):
            after(t, "op:1", "op:%d" % o)
    t["gens"] = rnd.choice([["k1", "k2", "k3", "k4"]] * 3 + [["!", "k1", "k2", "k3"], ["k1", "!", "k2", "k3"]])
    for g, p in (("gen", .3), ("cr:1", .3), ("fl:1", .15)):
        if rnd.random() < p:
            t["gates"].append(g)
    if rnd.random() < .25:
        fault(rnd, t, maxk=3)
    if rnd.random() < .2:
        t["oncreat"] = "err"
    t["cfg"]["sess"] = rnd.random() < .93
    if rnd.random() < .3:
        t["msgs"].append(dict(req(rnd, 1, 9, False)))
        t["ops"][0]["via"] = len(t["msgs"])


def f_restore(rnd, t):
    nc = rnd.choice([1, 2, 2])
    conns(rnd, t, nc, (0, 0, 2, -1), .3)
    keys = ["s1", "s2"]
    t["store"] = rnd.choice([["s1"], ["s1", "s2"]])
    t["lookup"] = {"s2": rnd.choice(["err", "bad", "big", "nil", "noinfo", "found"])}
    for i in range(1, rnd.randrange(2, 5)):
        c = rnd.randrange(1, nc + 1)
        k = rnd.choice(["restore"] * 5 + ["close", "req"])
        t["msgs"].append(req(rnd, c, i, False) if k == "req" else
                         special(rnd, c, i, k, rnd.choice(keys)))
    auto(rnd, t, .5)
    t["cfg"]["sess"] = rnd.random() < .9
    t["cfg"]["max"] = rnd.choice([0, 1, 2])
    for _ in range(rnd.choice([0, 1, 2])):
        k = rnd.choice(["create", "cclose", "sclose", "close"])
        op(t, k, 0 if k == "sclose" else rnd.randrange(1, nc + 1), key="s1", info=1)
    t["gens"] = ["k1", "k2"]
    for g, p in (("lk:s1", .3), ("lr:s1", .25), ("cl:s1", .15)):
        if rnd.random() < p:
            t["gates"].append(g)
    late_lose(rnd, t)


def f_sclose(rnd, t):
    nc = rnd.choice([1, 2, 3, 3])
    conns(rnd, t, nc, (0, 2), .15)
    t["store"] = ["s1"]
    for c in range(1, nc + 1):
        t["msgs"].append(special(rnd, c, c, "restore", "s1"))
    o = op(t, "sclose", key=rnd.choice(["s1"] * 6 + ["nosuchkey"]))
    for c in range(1, nc + 1):
        if rnd.random() < .8:
            after(t, "deliver:%d" % c, "op:%d" % o)
    for _ in range(rnd.choice([0, 1, 1, 2])):
        k = rnd.choice(["create", "create", "cclose", "sclose"])
        o2 = op(t, k, 0 if k == "sclose" else rnd.randrange(1, nc + 1), key="s1", info=1)
        late(rnd, t, o2)
    if rnd.random() < .3:
        t["msgs"].append(special(rnd, rnd.randrange(1, nc + 1), nc + 1,
                                 rnd.choice(["close", "restore"]), "s1"))
    t["gens"] = ["k1", "k2"]
    if rnd.random() < .45:
        fault(rnd, t, maxk=3)
        t["faults"][-1][3] = rnd.choice([3, 3, 4, 2])
    for g, p in (("cl:s1", .2), ("gen", .1), ("fl:1", .15)):
        if rnd.random() < p:
            t["gates"].append(g)
    late_lose(rnd, t)


def f_order(rnd, t):
    """Closures overtaken by other changes of the session"""
    nc = rnd.choice([1, 1, 2])
    conns(rnd, t, nc, (0, 2), .1)
    t["store"] = ["s1", "s2"]
    t["gens"] = ["k1", "k2"]
    t["nw"] = rnd.random() < .25
    n = 0
    for c in range(1, nc + 1):
        n += 1
        t["msgs"].append(special(rnd, c, n, "restore", "s1"))
    k = rnd.choice(["cclose", "sclose", "sclose", "close"])
    if k == "close":
        t["msgs"].append(special(rnd, 1, n + 1, "close"))
        after(t, "deliver:1", "deliver:%d" % (n + 1))
        first = "deliver:%d" % (n + 1)
        n += 1
    else:
        o = op(t, k, 0 if k == "sclose" else 1, key="s1")
        after(t, "deliver:1", "op:%d" % o)
        first = "op:%d" % o
    if nc == 2:
        after(t, "deliver:2", first)
    k = rnd.choice(["create", "restore", "close+create", "close+restore", "cclose+create"])
    for x in k.split("+"):
        if x in ("create", "cclose"):
            o = op(t, x, 1, info=rnd.randrange(0, 4))
            nxt = "op:%d" % o
        else:
            n += 1
            t["msgs"].append(special(rnd, 1, n, x, rnd.choice(["s2", "s2", "s1"])))
            nxt = "deliver:%d" % n
        after(t, first, nxt)
        first = nxt
    if rnd.random() < .2:
        op(t, "sclose", key="s2")
    for g, pr in (("cl:s1", .15), ("fl:1", .1), ("gen", .1)):
        if rnd.random() < pr:
            t["gates"].append(g)


def f_race(rnd, t):
    """A session is destroyed, left or filled up while it's being restored"""
    nc = rnd.choice([2, 2, 3])
    conns(rnd, t, nc, (0, 2), .2)
    t["gens"] = ["k1", "k2"]
    t["nw"] = rnd.random() < .3
    t["cfg"]["max"] = rnd.choice([0, 0, 0, 1, 2])
    op(t, "create", 1, info=rnd.randrange(0, 4))
    g = rnd.choice(["lk:k1", "lr:k1", "lr:k1", ""])
    last = []
    for c in range(2, nc + 1):
        t["msgs"].append(special(rnd, c, c - 1, "restore", "k1"))
        after(t, "op:1", "deliver:%d" % (c - 1))
        last.append("deliver:%d" % (c - 1))
    k = rnd.choice(["cclose", "sclose", "msg", "close", "lose"])
    if k == "msg":
        t["msgs"].append(special(rnd, 1, 9, "close"))
        x = "deliver:%d" % len(t["msgs"])
    elif k == "lose":
        t["lose"][0] = True
        x = "lose:1"
    else:
        x = "op:%d" % op(t, k, 0 if k == "sclose" else 1, key="k1")
    after(t, rnd.choice(last), x)
    if g:
        t["gates"].append(g)
        if rnd.random() < .8:
            after(t, x, "open:" + g)
    if rnd.random() < .3:
        t["gates"].append("cl:k1")
    if rnd.random() < .3:
        t["msgs"].append(special(rnd, rnd.randrange(1, nc + 1), 8, "restore", "k1"))
        after(t, x, "deliver:%d" % len(t["msgs"]))


def f_gc(rnd, t):
    rnd.choice([f_lifecycle, f_sessions, f_requests, f_close, f_bad])(rnd, t)
    t["lose"] = [True] * len(t["conns"])
    t["gc"] = True


FAMILIES = {
    "C01": [f_requests, f_requests, f_requests, f_bad, f_close, f_shutdown],
    "C02": [f_content, f_content, f_content, f_requests, f_limits],
    "C03": [f_limits, f_limits, f_limits, f_close, f_shutdown],
    "C04": [f_shutdown],
    "C05": [f_close],
    "C06": [f_lifecycle, f_lifecycle, f_close, f_bad],
    "C07": [f_bad],
    "C08": [f_sessions, f_race, f_sessions, f_order],
    "C09": [f_race, f_max, f_max, f_sessions],
    "C10": [f_race, f_destroy, f_destroy, f_sessions, f_order],
    "C11": [f_create, f_create, f_create, f_order],
    "C12": [f_race, f_restore, f_restore, f_destroy, f_order],
    "C13": [f_sclose, f_order, f_sclose, f_sessions, f_order],
    "C24": [f_gc],
}


def templates(prop, rnd, n):
    res = []
    fams = FAMILIES[prop]
    for i in range(n):
        t = newt(i, prop)
        fams[i % len(fams)](rnd, t)
        if t["nw"] and rnd.random() < .35:
            t["nw"] = False
        res.append(t)
    return res


# --- small models for exhaustive checking ---------------------------------

def m_base(prop, i):
    t = newt("m%d" % i, prop)
    return t


def models(prop):
    """The exhaustively checked scenarios of each property"""
    import random
    R = random.Random(5)
    T = []

    def new(lims, lose=True):
        t = m_base(prop, len(T))
        for l in lims:
            t["conns"].append({"lim": l})
            t["lose"].append(lose)
        T.append(t)
        return t
    if prop in ("C01", "C02", "C03", "C07"):
        t = new([2])
        t["msgs"] = [req(R, 1, 1, False), req(R, 1, 2, False), sig(R, 1, 3)]
        t = new([0])
        t["msgs"] = [req(R, 1, 1, False), sig(R, 1, 2), req(R, 1, 3, False)]
        op(t, "close", 1)
        t = new([2, 0])
        t["msgs"] = [req(R, 1, 1, False), req(R, 2, 2, False)]
        op(t, "shutdown")
    elif prop in ("C04", "C05", "C06"):
        t = new([2])
        t["msgs"] = [req(R, 1, 1, False), sig(R, 1, 2)]
        op(t, "shutdown")
        op(t, "close", 1)
        t = new([2, 0], False)
        t["msgs"] = [req(R, 1, 1, False), req(R, 2, 2, False)]
        op(t, "shutdown")
        op(t, "close", 1)
        t = new([0])
        t["msgs"] = [special(R, 1, 1, "restore", "s1"), req(R, 1, 2, False)]
        t["store"] = ["s1"]
        op(t, "close", 1)
        op(t, "shutdown")
        op(t, "shutdown")
    elif prop in ("C08", "C09", "C10", "C12", "C13", "C24", "C11"):
        t = new([0, 0], False)
        t["cfg"]["max"] = 1
        t["store"] = ["s1"]
        t["msgs"] = [special(R, 1, 1, "restore", "s1"), special(R, 2, 2, "restore", "s1")]
        op(t, "cclose", 1)
        t = new([0, 0], False)
        t["store"] = ["s1"]
        t["msgs"] = [special(R, 1, 1, "restore", "s1"), special(R, 2, 2, "restore", "s1")]
        op(t, "sclose", key="s1")
        t = new([0])
        t["store"] = ["s1"]
        t["gens"] = ["k1", "k2"]
        t["msgs"] = [special(R, 1, 1, "restore", "s1"), special(R, 1, 2, "close")]
        op(t, "create", 1)
        t = new([0])
        t["gens"] = ["k1", "k2"]
        op(t, "create", 1)
        op(t, "create", 1)
        op(t, "cclose", 1)
        t = new([0])
        t["gens"] = ["k1", "!"]
        op(t, "create", 1)
        op(t, "sclose", key="k1")
        op(t, "close", 1)
    return T


def plan(prop, rnd, quick):
    import srvdirected
    n = 56 if quick else 400
    return {
        "templates": templates(prop, rnd, n),
        "per": 1 if quick else 4,
        "directed": srvdirected.scenarios(prop, rnd, quick),
        "explore": {"single": 800, "double": 40, "noise": 10} if quick else
                   {"single": 1500, "double": 400, "noise": 150},
        "time": 25 if quick else 900,
        "model": models(prop),
    }
