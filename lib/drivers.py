"""Runs the drivers (real code) on scenarios and collects traces."""
import json, os, queue, re, signal, subprocess, threading, time
from common import CheckError, log, NCPU

STD = re.compile(r"^(runtime|sync|internal|syscall|time|os|io|fmt|errors|bytes|"
                 r"strings|context|encoding|math|sort|reflect|unicode|strconv|"
                 r"panic|created by|golang\.org|main\.\(\*fwriter|atomic)\b")


def blame(stderr):
    """Whose fault is the crash? The innermost frame that isn't part of the
    standard library decides"""
    i = stderr.find("goroutine ")
    head = stderr[:i if i >= 0 else 800]
    # the crashed goroutine
    body = stderr[i:].split("\n\n")[0] if i >= 0 else ""
    for line in body.splitlines():
        m = re.match(r"^(\S+?)\(", line)
        if not m or line.startswith("\t"):
            continue
        fn = line
        if "qbeon/webwire-go" in fn:
            return "webwire", head.strip()[:600]
        if "wwrverif" in fn or fn.startswith("main."):
            return "driver", head.strip()[:600]
    if "all goroutines are asleep" in stderr and "qbeon/webwire-go" in stderr:
        return "webwire", head.strip()[:600]
    return "?", (head or stderr[-600:]).strip()[:600]


def frames(stderr):
    res = []
    for m in re.finditer(r"^github\.com/qbeon/webwire-go[^\n]*", stderr, re.M):
        f = re.sub(r"\(0x.*", "", m.group(0))
        if f not in res:
            res.append(f)
    return "; ".join(res[:6])


class Run:
    """What a driver reported about a batch of scenarios"""

    def __init__(self):
        self.heads = {}      # id -> head
        self.traces = []     # {"id", "ev", "sched", ...}
        self.runs = 0
        self.crashes = []    # {"id", "sched", "why", "who"}
        self.done = set()
        self.skipped = 0


def run_driver(binary, scenarios, args=(), deadline=None, quiet_timeout=40,
               env=None):
    """Runs one driver process over the scenarios, restarting it if it has to
    stop. deadline: no further scenario is started after this time"""
    r = Run()
    left = list(scenarios)
    e = dict(os.environ)
    e.update({"GODEBUG": "asyncpreemptoff=1", "GOTRACEBACK": "all",
              "GOMAXPROCS": "1", "GOMEMLIMIT": "2GiB"})
    e.update(env or {})
    while left:
        if deadline and time.time() > deadline:
            r.skipped += len(left)
            break
        if deadline:
            e["WWV_DEADLINE"] = str(int(deadline * 1000))
        p = subprocess.Popen([binary] + list(args), stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                             start_new_session=True)
        err = []
        terr = threading.Thread(target=lambda: err.append(p.stderr.read()))
        terr.start()

        def feed():
            try:
                for s in left:
                    p.stdin.write((json.dumps(s) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        tin = threading.Thread(target=feed)
        tin.start()
        last = [time.time()]
        killed = [False]
        stop = threading.Event()

        def watch():
            while not stop.wait(2):
                if time.time() - last[0] > quiet_timeout:
                    killed[0] = True
                    for sig in (signal.SIGQUIT, signal.SIGKILL):
                        try:
                            os.killpg(p.pid, sig)
                        except OSError:
                            pass
                        stop.wait(5)
                    return
        tw = threading.Thread(target=watch)
        tw.start()
        done, cur = 0, None
        for line in p.stdout:
            last[0] = time.time()
            k, _, b = line.partition(b" ")
            if k == b"RUN":
                cur = b
            elif k == b"TRACE":
                r.traces.append(json.loads(b))
            elif k == b"HEAD":
                o = json.loads(b)
                r.heads[o["id"]] = o["head"]
            elif k == b"DONE":
                o = json.loads(b)
                r.runs += o["runs"]
                r.done.add(o["id"])
                done += 1
                cur = None
        rc = p.wait()
        stop.set()
        terr.join()
        tin.join()
        tw.join()
        stderr = (err[0] if err else b"").decode("utf8", "replace")
        if rc in (0, 3):
            left = left[done:]
            if rc == 0 and left and not done and not deadline:
                raise CheckError("driver stopped early: " + stderr[-500:])
            if rc == 0:
                r.skipped += len(left)
                break
            continue
        if killed[0]:
            # An endless loop or a deadlock, the rest of the batch is given up
            if cur is None or "qbeon/webwire-go" not in stderr:
                raise CheckError("driver hangs at %s: %s" % (cur, stderr[-2000:]))
            c = json.loads(cur)
            r.crashes.append({"id": c["id"], "sched": c["sched"], "who": "webwire",
                              "why": "no end after %d s: %s" %
                              (quiet_timeout, frames(stderr))})
            r.skipped += len(left) - done - 1
            break
        if rc == 2 and cur is not None:
            c = json.loads(cur)
            who, why = blame(stderr)
            if who == "driver":
                raise CheckError("driver crashed: " + stderr[:3000])
            r.crashes.append({"id": c["id"], "sched": c["sched"], "who": who,
                              "why": why})
            left = left[done + 1:]
            continue
        raise CheckError("driver ended with %s at %s: %s" %
                         (rc, cur, stderr[:3000]))
    return r


def run_all(binary, scenarios, procs=NCPU, **kw):
    """Spreads the scenarios over several processes"""
    parts = [scenarios[i::procs] for i in range(procs)]
    parts = [p for p in parts if p]
    res = [None] * len(parts)
    errs = []

    def go(i):
        try:
            res[i] = run_driver(binary, parts[i], **kw)
        except Exception as x:
            errs.append(x)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(parts))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    out = Run()
    for r in res:
        out.heads.update(r.heads)
        out.traces += r.traces
        out.runs += r.runs
        out.crashes += r.crashes
        out.done |= r.done
        out.skipped += r.skipped
    return out
