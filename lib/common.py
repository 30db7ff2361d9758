"""Shared machinery: building from /repo, running TLC, reporting."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WWV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED") or 1)
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check gives no answer (not a verdict about the code)"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    """One run of a check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="wwverif-")
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.seed = SEED
        self.stages = []     # run at the end of the check

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def left(self, total):
        return total - (time.time() - self.t0)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- verdicts ----
    def violate(self, what, replay):
        """Registers a violation with the data that reproduces it"""
        d = os.path.join(VERIF, ".build", "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        p = os.path.join(d, "%s-%d.json" % (self.prop, n))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay}, f,
                      indent=1)
        self.violations.append((what, p))
        log("violation:", what)

    def finish(self, level, extra=None):
        for f in self.stages:
            f(self)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        if extra:
            ev.update(extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what)
        return 1 if self.violations else 0


# ---------------------------------------------------------------------------
# Building

def goenv(ctx):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    cache = os.environ.get("WWV_GOCACHE") or os.path.join(VERIF, ".build", "gocache")
    env.update(GO111MODULE="off", GOENV="off", GOFLAGS="", GOTOOLCHAIN="local",
               GOPROXY="off", GOPATH=ctx.path("gopath"), GOCACHE=cache,
               CGO_ENABLED="0")
    return env


def prepare(ctx):
    """A scratch GOPATH with the repository and the harness"""
    src = ctx.path("gopath", "src")
    if os.path.isdir(src):
        return
    os.makedirs(os.path.join(src, "github.com", "qbeon"))
    os.symlink(REPO, os.path.join(src, "github.com", "qbeon", "webwire-go"))
    os.symlink(HARNESS, os.path.join(src, "wwrverif"))


def sh(cmd, env=None, cwd=None, what="command", timeout=300):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


INSTRUMENT = [".", "requestManager", "transport/memchan",
              "message/message.go", "message/syncPool.go"]


def build(ctx, name, instrument=True):
    """Builds harness/cmd/<name> against the working tree of the repository,
    with yield points in front of every statement of its concurrent parts"""
    prepare(ctx)
    env = goenv(ctx)
    h = os.path.join(ctx.path("gopath"), "src", "wwrverif")
    out = ctx.path("bin-" + name)
    cmd = ["go", "build", "-o", out]
    if instrument:
        ov = ctx.path("overlay")
        if not os.path.isdir(ov):
            tool = ctx.path("instr")
            sh(["go", "build", "-o", tool, "./cmd/instr"], env, h, "building instr")
            os.makedirs(ov)
            root = os.path.join(ctx.path("gopath"), "src", "github.com", "qbeon",
                                "webwire-go")
            sh([tool, "-root", root, "-out", ov] + INSTRUMENT, env, h,
               "instrumenting")
        cmd += ["-overlay", os.path.join(ov, "overlay.json")]
    sh(cmd + ["./cmd/" + name], env, h, "building " + name)
    return out


# ---------------------------------------------------------------------------
# TLC

class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^(\d+) states generated, (\d+) distinct", out, re.M)
        self.gen, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"number of states generated: (\d+)", out)
        if m:
            self.gen = int(m[-1])
        self.ok = "No error has been found" in out

    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 2500] if i >= 0 else self.out[-1500:]


_n = [0]
_nlock = threading.Lock()


def tlc(ctx, module, cfg, env=None, workers=2, args=(), timeout=600, heap="3g", dfs=False):
    with _nlock:
        _n[0] += 1
        n = _n[0]
    d = ctx.path("tlc%d" % n)
    os.makedirs(d)
    c = os.path.join(d, "m.cfg")
    with open(c, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)
    cmd = ["java", "-Xmx" + heap] + \
        (["-XX:+UseSerialGC", "-XX:CICompilerCount=2", "-XX:TieredStopAtLevel=4",
          "-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else
         ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]) + [
           "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-nowarning", "-workers", str(workers),
           "-metadir", os.path.join(d, "st"), "-config", c] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC on %s timed out" % module)
    finally:
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return TLCResult(out, rc)


def model_check(ctx, module, cfg, env=None, workers=4, timeout=600, what=""):
    """Checks the specification itself. A failure is an error of the check, it
    says nothing about the code"""
    r = tlc(ctx, module, cfg, env, workers, timeout=timeout)
    if not r.ok:
        raise CheckError("the specification %s doesn't have its properties:\n%s" %
                         (module, r.error()))
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.gen)
    return r


IMPL = """SPECIFICATION Spec
CONSTANTS
%s
PROPERTY Refines
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def refinement(ctx, module, consts, switches, invs, quick):
    """Checks that the design of the implementation refines its specification,
    and (thorough) that it doesn't without any of the design decisions"""
    def cfg(off):
        c = dict(consts)
        c.update({x: "FALSE" if x == off else "TRUE" for x in switches})
        return IMPL % ("\n".join(" %s = %s" % x for x in c.items()), invs)
    r = model_check(ctx, module, cfg(None), timeout=1500)
    ctx.add("refinement_states", r.distinct)
    if not quick:
        for x in switches:
            r = tlc(ctx, module, cfg(x), timeout=1500)
            if "is violated" not in r.out:
                raise CheckError("%s is refined without %s" % (module, x))
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.gen)


def chunks(l, n):
    k = max(1, (len(l) + n - 1) // n)
    return [l[i:i + k] for i in range(0, len(l), k)]


def parallel(fs):
    with ThreadPoolExecutor(max_workers=max(1, len(fs))) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]


def check_traces(ctx, module, cfg, heads, traces, procs=NCPU, timeout=600):
    """Lets TLC decide which traces are behaviours of the specification.
    traces: list of {"h": index of the head (from 0), "ev": [...]}.
    Returns a list of (index, diagnosis) of those that aren't"""
    if not traces:
        return []
    idx = list(range(len(traces)))
    # balance by length
    idx.sort(key=lambda i: -len(traces[i]["ev"]))
    procs = max(1, min(procs, (len(idx) + 49) // 50))
    groups = [idx[i::procs] for i in range(procs)]

    def one(n, group):
        used, hs, ts = {}, [], []
        for i in group:
            t = traces[i]
            if t["h"] not in used:
                used[t["h"]] = len(hs) + 1
                hs.append(heads[t["h"]])
            ts.append({"h": used[t["h"]], "ev": t["ev"]})
        p = ctx.path("traces-%s-%d-%d.json" % (module, id(group), n))
        with open(p, "w") as f:
            json.dump({"heads": hs, "traces": ts}, f)
        r = tlc(ctx, module, cfg, {"TRACES": p}, 1, timeout=timeout, dfs=True)
        os.remove(p)
        if not r.ok:
            raise CheckError("TLC failed on the traces (%s): %s" %
                             (module, r.error()))
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out))
        return r, [group[j - 1] for j in range(1, len(group) + 1) if j not in acc]

    res = parallel([lambda n=n, g=g: one(n, g) for n, g in enumerate(groups)])
    bad = []
    for r, b in res:
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.gen)
        bad += b
    ctx.add("traces_validated_against_impl", len(traces) - len(bad))
    return sorted(bad)


def diagnose(ctx, module, cfg, head, trace):
    """How far can a rejected trace be followed?"""
    p = ctx.path("diag.json")
    with open(p, "w") as f:
        json.dump({"heads": [head], "traces": [{"h": 1, "ev": trace}]}, f)
    r = tlc(ctx, module, cfg, {"TRACES": p}, 1)
    n = 0
    state = ""
    for m in re.finditer(r'<<\s*"MAX",\s*1,\s*(\d+),?(.*?)>>\s*(?=\n(?:<<|Model|Finished|\d+ states|Progress|$))',
                         r.out, re.S):
        if int(m.group(1)) >= n:
            n = int(m.group(1))
            state = re.sub(r"\s+", " ", m.group(2))
    if n < 1:
        n = 1
    return n - 1, state  # index of the event that can't be explained
