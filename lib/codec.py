"""The codec engine: inputs enumerated by TLC from spec/CodecMC.tla, applied to
the real encoders and decoders by harness/cmd/codec, and the observations
checked by TLC against spec/CodecTrace.tla."""
import json, os, random, subprocess
from common import *

CFG = """SPECIFICATION TSpec
CONSTANTS
 LENS = "%s"
CONSTRAINT Report
CHECK_DEADLOCK FALSE
"""
DIAG = CFG.replace("Report", "Progress")
GEN = """SPECIFICATION GenSpec
CONSTANTS
 MAXLEN = 16
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS
 MAXLEN = %d
INVARIANTS RoundTrip Exact MinLen
CHECK_DEADLOCK FALSE
"""
ENCS = ["bin", "utf8", "utf16"]
BADCHARS = [0, 9, 10, 31, 127, 128, 255]


def gen(ctx):
    out = ctx.path("codec-gen.json")
    r = tlc(ctx, "CodecMC", GEN, {"OUT": out}, 1)
    if not r.ok:
        raise CheckError("generation failed: " + r.error())
    return json.load(open(out))


class Maker:
    def __init__(self, rnd, g):
        self.rnd, self.g = rnd, g

    def chunks(self):
        r = self.rnd
        # (0 stands for an empty read, which doesn't mean anything)
        return r.choice([[], [1], [2], [3], [1, 7], [9], [10, 1],
                         [0, 3], [5, 0, 1], [1, 0], [100, 0],
                         [r.randint(1, 12) for _ in range(3)]])

    def read(self, **kw):
        r = self.rnd
        d = {"op": "dec", "via": r.choice(["bytes", "read", "read"]),
             "chunks": self.chunks(), "eof": r.random() < .5,
             "close": r.random() < .5, "pool": r.random() < .5}
        d.update(kw)
        return d

    def name(self, n, bad=None):
        l = [self.rnd.randint(32, 126) for _ in range(n)]
        if n and self.rnd.random() < .3:
            l[self.rnd.choice([0, n - 1])] = self.rnd.choice([32, 126])
        if bad is not None and n:
            l[self.rnd.choice([0, n // 2, n - 1])] = bad
        return l

    def data(self, n):
        return [self.rnd.randrange(256) for _ in range(n)]

    def enc(self, c, **kw):
        d = {"op": "enc", "f": c["f"], "enc": c["enc"], "id": self.data(8),
             "name": self.name(c["nl"]), "pld": self.data(c["pl"]), "safe": True}
        d.update(kw)
        return d

    # ---- cases: lists of operations on one object ----
    def roundtrips(self):
        for c in self.g["enc"]:
            for safe in ([True, False] if c["nl"] else [True]):
                if not safe and c["nl"] > 255:
                    continue  # without checks names mustn't be too long
                yield [self.enc(c, safe=safe),
                       self.read(last=True, buf=-1),
                       self.enc(c, safe=safe),
                       self.read(last=True, buf=600, via="read")]
        # Reused objects
        for k in range(150):
            ops = []
            for c in self.rnd.sample(self.g["enc"], 12):
                ops += [self.enc(c), self.read(last=True, buf=600)]
            yield ops

    def larges(self):
        """Lengths beyond one and two bytes"""
        r = self.rnd
        for f in sorted({c["f"] for c in self.g["enc"] if c["pl"] == 64}):
            cs = [c for c in self.g["enc"] if c["f"] == f and c["pl"] == 64 and c["nl"] < 255]
            for n in [255, 256, 257, 1000, 4096] + r.sample([65525, 65535, 65536, 65537, 70001], 2):
                for c in r.sample(cs, min(len(cs), 3 if n < 5000 else 1)):
                    c = dict(c, pl=n + (n % 2 if c["enc"] == "utf16" else 0))
                    yield [self.enc(c), self.read(last=True, buf=-1, chunks=r.choice([[], [999], [4096, 7]])),
                           self.read(last=True, buf=90000, via="read", chunks=r.choice([[], [8192]]))]

    def confs(self):
        r = self.rnd
        for rt in [(0, 0), (1, 0), (1000, 0), (0xffff, 0), (0, 1), (0x1234, 0x5678),
                   (0xffff, 0xffff), (60000, 0)]:
            for bs in [(0, 0), (32, 0), (8192, 0), (0xffff, 0), (0, 1),
                       (0xabcd, 0xef01), (0xffff, 0xffff)]:
                for n in (0, 1, 5, 100):
                    yield [{"op": "conf", "maj": r.choice([2, 0, 255]),
                            "min": r.choice([0, 1, 255]), "rt": rt, "bs": bs,
                            "pld": self.data(n), "enc": "bin"},
                           self.read(last=True, buf=-1),
                           self.read(last=True, buf=150)]

    def signals(self):
        r = self.rnd
        for e in ENCS:
            for n in (0, 1, 2, 3, 8, 9, 29, 30, 31, 127, 254, 255, 256, 300):
                for total in (-1, 0, 1, 2):
                    for buf in (32, 300, 4096):
                        pad = 1 if e == "utf16" and n % 2 else 0
                        p = buf - 2 - n - pad + total
                        if p < 0:
                            p = r.choice([0, 1, 2])
                        for fault in ([0] if r.random() < .9 else [1, 2, 3, 4, 5, -1]):
                            yield [{"op": "sig", "enc": e, "name": self.name(n),
                                    "pld": self.data(p if p < 400 or r.random() < .05 else r.choice([0, 1, 2])),
                                    "buf": buf, "fault": fault, "safe": True}]
        for e in ENCS:
            for b in BADCHARS:
                for n in (1, 2, 255):
                    yield [{"op": "sig", "enc": e, "name": self.name(n, b),
                            "pld": self.data(2), "buf": 4096}]
            for p in (0, 1, 2, 3):
                yield [{"op": "sig", "enc": e, "name": [], "pld": self.data(p),
                        "buf": 4096}]

    def refusals(self):
        for c in self.g["enc"]:
            if not c["nl"]:
                yield [self.enc(c)]
                continue
            for b in (BADCHARS if c["nl"] < 4 else self.rnd.sample(BADCHARS, 2)):
                yield [self.enc(c, name=self.name(c["nl"], b),
                                fault=self.rnd.choice([0, 0, -1]))]
            yield [self.enc(c)]

    def faults(self):
        for c in self.g["enc"]:
            if c["nl"] not in (0, 1, 2, 255) or c["pl"] not in (0, 1, 2, 64):
                continue
            for k in (1, 2, 3, 4, 5, 6, 7, -1):
                yield [self.enc(c, fault=k, part=self.rnd.choice([0, 0, 1, 2, 5])),
                       self.enc(c)]

    def decs(self, n):
        r = self.rnd
        cases = [x["b"] for x in self.g["dec"]]
        for b in cases:
            b = list(b)
            # keep what the lengths depend on, vary the rest
            for i in range(1, len(b)):
                if i not in (1, 9) and r.random() < .5:
                    b[i] = r.randrange(256)
            yield [self.read(b=b, buf=max(1, len(b)))]
            yield [self.read(b=b, buf=len(b) + r.randint(1, 3))]
            if len(b) > 1:
                yield [self.read(b=b, buf=len(b) - 1)]
        short = {}
        for k in range(n):
            buf = r.choice([1, 2, 8, 9, 10, 11, 12, 13, 16, 32, 270, 300])
            if buf not in short:
                short[buf] = [b for b in cases if len(b) <= buf + 3]
            ops = []
            for b in [r.choice(short[buf]) for _ in range(20)]:
                b = list(b)
                if r.random() < .3 and b:
                    b[r.randrange(len(b))] = r.randrange(256)
                ops.append(self.read(b=b, buf=buf,
                                     rerr=-1 if r.random() < .05 else 0))
                if r.random() < .1:
                    ops.append(self.read(b=[], buf=buf))
            yield ops
        for k in range(n):
            b = self.data(r.randint(1, 40))
            b[0] = r.choice([0, 1, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129,
                             191, 192, 193, r.randrange(256)])
            yield [self.read(b=b, buf=r.choice([len(b), 64, max(1, len(b) - 1)]))]

    def utfs(self, quick):
        r = self.rnd
        le = lambda us: [x for u in us for x in (u & 255, u >> 8)]
        via = lambda: r.choice(["msg", "pld"])
        # all code units
        units = list(range(0, 65536, 1))
        for i in range(0, 65536, 64):
            yield [{"op": "utf", "enc": "utf16", "b": le(units[i:i + 64]), "via": via()}]
        C = [0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdabc, 0xdbff,
             0xdc00, 0xdeaf, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff]
        for a in C:
            yield [{"op": "utf", "enc": "utf16", "b": le([a]), "via": via()}]
            for b in C:
                ops = [{"op": "utf", "enc": "utf16", "b": le([a, b]), "via": via()}]
                for c in C:
                    ops.append({"op": "utf", "enc": "utf16", "b": le([a, b, c]),
                                "via": via()})
                yield ops
        # characters outside the basic plane
        step = 1021 if quick else 7
        sup = list(range(0x10000, 0x110000, step)) + [0x10000, 0x10ffff, 0x1f600]
        pairs = [(0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 1023))
                 for c in sup]
        for i in range(0, len(pairs), 32):
            yield [{"op": "utf", "enc": "utf16", "via": via(),
                    "b": le([u for p in pairs[i:i + 32] for u in p])}]
        for n in range(0, 12):
            for e in ENCS:
                for k in range(4):
                    yield [{"op": "utf", "enc": e, "b": self.data(n), "via": via()}]
        for k in range(200 if quick else 5000):
            n = r.randint(1, 60)
            yield [{"op": "utf", "enc": "utf16", "via": via(),
                    "b": le([r.choice(C) if r.random() < .5 else r.randrange(65536)
                             for _ in range(n)])}]


def cases(ctx, lens, g, rnd, quick):
    m = Maker(rnd, g)
    rounds = 1 if quick else 12
    for _ in range(rounds):
        if lens in ("C16", "C18"):
            yield from m.roundtrips()
            yield from m.signals()
            yield from m.larges()
        if lens == "C16":
            yield from m.confs()
            yield from m.decs(100)
        if lens == "C18":
            yield from m.refusals()
            yield from m.faults()
        if lens == "C17":
            yield from m.larges()
            yield from m.decs(400 if quick else 2000)
            yield from m.confs()
        if lens == "C19":
            yield from m.utfs(quick)
            break


def run(ctx, binary, cs):
    """What the driver observed; None where it crashed or didn't end"""
    res = feed(binary, cs, 240)
    if len(res) < len(cs):
        # It flushes its output at times, so look for the case
        k, n = len(res), 16
        rest = cs[k:k + 2 * n]
        for c in rest:
            r = feed(binary, [c], 30)
            if not r and not feed(binary, [c], 60):
                return res + [None]
            if not r:
                raise CheckError("codec driver failed once: " + json.dumps(c)[:1000])
            res += r
        raise CheckError("codec driver failed, but on no single case")
    return res


def feed(binary, cs, timeout):
    inp = "\n".join(json.dumps({"id": i, "ops": c}) for i, c in enumerate(cs)) + "\n"
    try:
        p = subprocess.run([binary], input=inp.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = x.stdout or b"", -9
    if rc == 4:
        raise CheckError("codec driver failed: " + p.stderr.decode("utf8", "replace")[:3000])
    ls = out.split(b"\n")[:-1]
    return [json.loads(l)["ev"] for l in ls]


def check(ctx):
    lens, quick = ctx.prop, ctx.tier == "quick"
    rnd = random.Random("%s/%d" % (lens, ctx.seed))
    binary = build(ctx, "codec", instrument=False)
    g = gen(ctx)
    model_check(ctx, "CodecMC", MC % (18 if quick else 24), workers=4)
    cs = list(cases(ctx, lens, g, rnd, quick))
    ctx.add("cases", len(cs))
    evs = run(ctx, binary, cs)
    verdict(ctx, lens, cs, evs)
    ctx.add("calls", sum(len(e or []) for e in evs))
    if lens == "C18" and not ctx.violations:
        # Signals sent by the real server, its writers included
        import server
        server.stage(ctx, lens, rnd)
    ctx.assumptions.append("content bytes of the enumerated shapes are sampled")
    return ctx.finish("model_checking")


def verdict(ctx, lens, cs, evs):
    if evs and evs[-1] is None:
        evs = evs[:-1]
        ctx.violate("crash or endless loop on " + json.dumps(cs[len(evs)])[:1500],
                    {"engine": "codec", "lens": lens, "ops": cs[len(evs)]})
    traces = [{"h": 0, "ev": e} for e in evs]
    bad = check_traces(ctx, "CodecTrace", CFG % lens, [{}], traces)
    if evs:
        ctx.sample({"ops": cs[0], "observed": evs[0]})
    for i in bad[:3]:
        n, _ = diagnose(ctx, "CodecTrace", DIAG % lens, {}, evs[i])
        e = evs[i][n] if n < len(evs[i]) else evs[i][-1]
        ctx.violate("the real codec did this: " + json.dumps(e)[:1500],
                    {"engine": "codec", "lens": lens, "ops": cs[i]})


def replay(ctx, data):
    d = data["replay"]
    binary = build(ctx, "codec", instrument=False)
    evs = run(ctx, binary, [d["ops"]])
    for e in evs[0] or []:
        print(json.dumps(e))
    ctx.prop = d["lens"]
    verdict(ctx, d["lens"], [d["ops"]], evs)
    for what, p in ctx.violations:
        print("VIOLATION property=%s replay=%s\n  %s" % (ctx.prop, p, what))
    return 1 if ctx.violations else 0
