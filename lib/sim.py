"""Engines for the components: call sequences generated by TLC from the
component's specification are replayed by a driver (harness/cmd/<name>) under
many schedules; TLC decides whether what was recorded is a behaviour of the
specification."""
import json, os, random, re, time
from common import *
from drivers import run_driver, run_all

TRACECFG = """SPECIFICATION TSpec
%s
CONSTRAINT %s
CHECK_DEADLOCK FALSE
"""


def consts(d):
    if not d:
        return ""
    return "CONSTANTS\n" + "\n".join(
        " " + k if v is None else " %s = %s" % (k, v) for k, v in d.items())


def generate(ctx, module, constants, num, seed, depth=200, spec="GenSpec", env=None):
    """Behaviours chosen by TLC: the JSON values it prints"""
    cfg = "SPECIFICATION %s\n%s\nCHECK_DEADLOCK FALSE\n" % (spec, consts(constants))
    r = tlc(ctx, module, cfg, env, 1,
            ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
            timeout=200)
    if "Error:" in r.out and "Error: Deadlock" not in r.out:
        raise CheckError("generation failed: " + r.error())
    ctx.add("generator_states", r.gen)
    seen, out = set(), []
    for m in re.finditer(r'<<"SCN", "(.*)">>', r.out):
        if m.group(1) not in seen:
            seen.add(m.group(1))
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return out


class Engine:
    """binary: the driver; module: the trace specification"""

    def __init__(self, name, binary, module, constants=None, strip=None):
        self.name, self.binary, self.module = name, binary, module
        self.constants, self.strip = constants, strip

    def cfg(self, ctx, c):
        d = {}
        for k, v in (self.constants or {}).items():
            d[k] = v % {"lens": ctx.prop} if isinstance(v, str) else v
        return TRACECFG % (consts(d), c)

    def traces_of(self, ctx, run, hidx):
        traces, seen = [], set()
        for t in run.traces:
            ev = self.strip(ctx.prop, t["ev"]) if self.strip else squeeze(t["ev"])
            k = (t["id"], json.dumps(ev, sort_keys=True))
            if k in seen:
                continue
            seen.add(k)
            traces.append({"h": hidx[t["id"]], "ev": ev, "id": t["id"],
                           "sched": t["sched"]})
        for c in run.crashes:
            traces.append({"h": hidx[c["id"]], "ev": [{"e": "crash"}],
                           "id": c["id"], "sched": c["sched"], "crash": c})
        return traces

    def verdict(self, ctx, scens, run, runner=run_driver):
        byid = {s["id"]: s for s in scens}
        ids = sorted(run.heads)
        hidx = {x: i for i, x in enumerate(ids)}
        heads = [run.heads[x] for x in ids]
        traces = self.traces_of(ctx, run, hidx)
        ctx.add("distinct_traces", len(traces))
        bad = check_traces(ctx, self.module, self.cfg(ctx, "Report"), heads, traces)
        for t in traces[:1]:
            ctx.sample({"scenario": byid[t["id"]]["steps"], "trace": t["ev"][:60]})
        reported, unrepro = set(), 0
        for i in bad:
            if len(ctx.violations) >= 3 or unrepro > 20:
                break
            t = traces[i]
            if t["id"] in reported:
                continue
            ok, what, ev = self.confirm(ctx, byid[t["id"]], heads[t["h"]], t, runner)
            if not ok:
                unrepro += 1
                continue
            reported.add(t["id"])
            ctx.violate(what, {"engine": self.name, "lens": ctx.prop,
                               "scenario": byid[t["id"]], "sched": t["sched"],
                               "trace": ev})
        if unrepro and not ctx.violations:
            raise CheckError("%d rejected traces couldn't be reproduced" % unrepro)

    def confirm(self, ctx, scen, head, t, runner):
        for k in range(6):
            r = runner(self.binary_path, [dict(scen, explore={"plan": [t["sched"]]})])
            if r.crashes:
                if r.crashes[0]["who"] != "webwire":
                    raise CheckError("unclear crash: " + r.crashes[0]["why"])
                return True, "crash: " + r.crashes[0]["why"], []
            if t.get("crash"):
                continue
            tt = self.traces_of(ctx, r, {scen["id"]: 0})
            ev = tt[0]["ev"]
            if check_traces(ctx, self.module, self.cfg(ctx, "Report"), [head],
                            [{"h": 0, "ev": ev}]):
                n, state = diagnose(ctx, self.module, self.cfg(ctx, "Progress"),
                                    head, ev)
                e = json.dumps(ev[n], sort_keys=True) if n < len(ev) else "?"
                return True, ("event %d of scenario %s is impossible here: %s" %
                              (n + 1, scen["id"], e[:600])), \
                    {"events": ev, "at": n, "state": state}
        return self.again(ctx, scen, head, t, runner)

    def again(self, ctx, scen, head, t, runner):
        """Not reproduced by its schedule (something outside of the scheduler's
        control matters): is the scenario rejected each time it's explored?"""
        for k in range(3):
            s = dict(scen, explore=dict(scen["explore"], seed=scen["explore"]["seed"] + k + 1))
            r = runner(self.binary_path, [s])
            if r.crashes:
                return True, "crash: " + r.crashes[0]["why"], []
            tt = self.traces_of(ctx, r, {scen["id"]: 0})
            bad = check_traces(ctx, self.module, self.cfg(ctx, "Report"), [head],
                               [{"h": 0, "ev": x["ev"]} for x in tt])
            if not bad:
                return False, "", None
            t["sched"], ev = tt[bad[0]]["sched"], tt[bad[0]]["ev"]
        n, state = diagnose(ctx, self.module, self.cfg(ctx, "Progress"), head, ev)
        e = json.dumps(ev[n], sort_keys=True) if n < len(ev) else "?"
        return True, ("event %d of scenario %s is impossible here (needs several "
                      "attempts): %s" % (n + 1, scen["id"], e[:600])), \
            {"events": ev, "at": n, "state": state}

    def build(self, ctx):
        self.binary_path = build(ctx, self.binary)
        return self.binary_path

    def explore(self, ctx, scens, explore, seconds, rnd, env=None):
        for s in scens:
            s["explore"] = dict(s.get("explore") or explore,
                                seed=rnd.randrange(1 << 30))
        r = run_all(self.binary_path, scens, deadline=time.time() + seconds, env=env)
        ctx.add("executions", r.runs)
        ctx.add("scenarios", len(r.heads))
        ctx.add("scenarios_skipped", r.skipped)
        log("%d runs of %d scenarios (%d skipped), %d traces after %.0fs" %
            (r.runs, len(r.heads), r.skipped, len(r.traces), time.time() - ctx.t0))
        self.verdict(ctx, scens, r)
        log("checked after %.0fs" % (time.time() - ctx.t0))

    def replay(self, ctx, data):
        d = data["replay"]
        self.build(ctx)
        s = dict(d["scenario"], explore={"plan": [d["sched"]]})
        r = run_driver(self.binary_path, [s])
        for t in r.traces:
            for e in t["ev"]:
                print(json.dumps(e, sort_keys=True))
        ctx.prop = d["lens"]
        self.verdict(ctx, [d["scenario"]], r)
        for what, p in ctx.violations:
            print("VIOLATION property=%s replay=%s\n  %s" % (ctx.prop, p, what))
        return 1 if ctx.violations else 0


def squeeze(ev):
    """Leaves out repeated observations"""
    res = []
    for e in ev:
        if e["e"] == "quiet" and res and res[-1] == e:
            continue
        res.append(e)
    return res


ASSUME = ["goroutine switches happen at the yield points inserted before every "
          "statement of the instrumented files"]
