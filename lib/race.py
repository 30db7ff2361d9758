"""The binding assumption: the specifications consist of atomic steps. The
schedules of the other stages switch goroutines between statements, what isn't
atomic below that (unsynchronized memory accesses) is found here: the real,
uninstrumented code is run in parallel under Go's race detector (which reports
no false races), together with those invariants of the specifications that can
be read off a run."""
import os, re, subprocess, threading, time
from common import *

# Which of the specification's variables live where
FILES = [
    (r"/sessionRegistry\.go$", "C08 C09 C10 C13"),
    (r"/connection\.go$", "C03 C04 C05 C06 C08 C11 C12 C13 C24"),
    (r"/handleConnection\.go$", "C04 C06 C24"),
    (r"/(server|newServer|registerHandler|deregisterHandler|isShuttingDown)\.go$", "C03 C04 C24"),
    (r"/handleSessionRestore\.go$", "C12"),
    (r"/handleSessionClosure\.go$", "C10 C13"),
    (r"/handleRequest\.go$", "C01 C02"),
    (r"/handleSignal\.go$", "C02 C04"),
    (r"/handleMessage\.go$", "C01 C02 C04"),
    (r"/fulfillMsg\.go$|/failMsg\.go$", "C01 C07"),
    (r"/message/", "C02"),
    (r"/(session|genericSessionInfo|sessionInfoToVarMap|sessionLookupResult)\.go$", "C20 C12"),
    (r"/requestManager/", "C21"),
    (r"/transport/memchan/", "C22 C23"),
    (r"/defaultSessionManager\.go$", "C14 C15"),
]
COMP = {"limit": "C03", "shutdown": "C04", "message": "C02", "max": "C09",
        "reply": "C01 C02", "registry": "C08", "leak": "C24", "memchan": "C22 C23",
        "request": "C21", "store": "C14", "server": "C04", "connection": "C24"}
# What is run for a property
MODE = {"C14": "store", "C21": "req", "C22": "mem", "C23": "mem"}
for _p in "C01 C02 C03 C04 C05 C06 C08 C09 C10 C11 C12 C13 C20 C24".split():
    MODE[_p] = "srv"


def props_of(path):
    res = set()
    for p, x in FILES:
        if re.search(p, path):
            res |= set(x.split())
    return res


def repo_files(text):
    """The innermost frame of the repository in each of the stacks"""
    res = []
    for stack in re.split(r"\n\s*\n", text):
        if re.search(r"Goroutine \d+ \(.*\) created at", stack):
            continue
        m = re.search(r"(/\S*/qbeon/webwire-go/\S+?\.go):(\d+)", stack) or \
            re.search(r"(%s/\S+?\.go):(\d+)" % re.escape(os.path.realpath(REPO)), stack)
        if m:
            res.append((m.group(1), m.group(2)))
    return res


def findings(out, rc):
    """[(properties or None, description)]"""
    res, seen = [], set()
    for b in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", out, re.S):
        fs = repo_files(b)
        if not fs:
            continue
        k = tuple(sorted(fs))
        if k in seen:
            continue
        seen.add(k)
        ps = set()
        for f, _ in fs:
            ps |= props_of(f)
        res.append((ps, "data race, unsynchronized accesses at " + " and ".join(
            "%s:%s" % (f[f.index("webwire-go") + 11:] if "webwire-go" in f else f, l)
            for f, l in fs)))
    for c, x in re.findall(r"^X (\w+) (.*)$", out, re.M):
        res.append((set(COMP.get(c, "").split()), "%s: %s" % (c, x)))
    if rc not in (0, 1, 66):
        m = re.search(r"^(fatal error|panic|unexpected fault)[^\n]*", out, re.M)
        if m:
            fs = repo_files(out[m.start():].split("\n\ngoroutine ", 2)[0] + "\n\n" +
                            "\n\n".join(out[m.start():].split("\n\n")[1:2]))
            if fs:
                res.append((props_of(fs[0][0]), "%s at %s:%s" % (m.group(0), *fs[0])))
    return res


def start(ctx):
    """Builds in the background while the other stages run"""
    if ctx.prop in MODE:
        prepare(ctx)
        res = {}

        def go():
            try:
                res["bin"] = build_race(ctx)
            except Exception as x:
                res["err"] = x
        t = threading.Thread(target=go)
        t.start()
        ctx.race = (t, res)


def built(ctx):
    if not getattr(ctx, "race", None):
        return build_race(ctx)
    ctx.race[0].join()
    if "err" in ctx.race[1]:
        raise ctx.race[1]["err"]
    return ctx.race[1]["bin"]


def build_race(ctx):
    prepare(ctx)
    env = goenv(ctx)
    env["CGO_ENABLED"] = "1"
    out = ctx.path("bin-race")
    sh(["go", "build", "-race", "-o", out, "./cmd/race"], env,
       os.path.join(ctx.path("gopath"), "src", "wwrverif"), "building race")
    return out


def run(ctx, binary, mode, secs, seed, procs):
    e = dict(os.environ)
    e.update({"GORACE": "halt_on_error=0 exitcode=66 history_size=3",
              "GOMAXPROCS": "4", "GOTRACEBACK": "all", "GOMEMLIMIT": "2GiB"})

    def one(i):
        d = ctx.path("race%d" % i)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "out")
        with open(p, "wb") as f:
            try:
                rc = subprocess.run(
                    [binary, "-mode", mode, "-seed", str(seed + i), "-secs", str(secs)],
                    stdout=f, stderr=subprocess.STDOUT, env=dict(e, TMPDIR=d),
                    timeout=secs + 150).returncode
            except subprocess.TimeoutExpired:
                rc = 99
        with open(p, "rb") as f:
            return rc, f.read(20 << 20).decode("utf8", "replace"), seed + i
    return parallel([lambda i=i: one(i) for i in range(procs)])


def stage(ctx, secs=None):
    mode = MODE.get(ctx.prop)
    if not mode or ctx.violations:
        return
    quick = ctx.tier == "quick"
    t = time.time()
    b = built(ctx)
    secs = secs or (5 if quick else 90)
    other = set()
    for rc, out, seed in run(ctx, b, mode, secs, ctx.seed * 1000, 4):
        m = re.search(r"^rounds (\d+)", out, re.M)
        ctx.add("parallel_rounds", int(m.group(1)) if m else 0)
        fs = findings(out, rc)
        for ps, what in fs:
            if ctx.prop in ps:
                if not any(w == what for w, _ in ctx.violations) and len(ctx.violations) < 3:
                    ctx.violate(what, {"engine": "race", "mode": mode, "seed": seed})
            else:
                other.add(what)
        if not fs and rc != 0:
            raise CheckError("the parallel run ended with %s: %s" % (rc, out[:3000]))
    for x in sorted(other)[:5]:
        log("no matter of this property:", x)
    log("parallel stage: %.0fs" % (time.time() - t))
    ctx.assumptions.append(
        "the atomicity of the specification's steps was tested with Go's race detector")


def replay(ctx, data):
    b = build_race(ctx)
    d = data["replay"]
    for rc, out, seed in run(ctx, b, d["mode"], 60, d["seed"], 1):
        print(out[:20000])
        for ps, what in findings(out, rc):
            if data["property"] in ps:
                print("VIOLATION property=%s\n  %s" % (data["property"], what))
                return 1
    return 0
