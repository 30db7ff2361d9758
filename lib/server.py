"""The server engine: scenarios are generated by TLC from spec/ServerMC.tla,
replayed against the real server by harness/cmd/srv under many schedules, and
the recorded traces are checked by TLC against spec/ServerTrace.tla."""
import json, os, random, re, time
from common import *
from drivers import run_driver, run_all
import srvgen

CFG = """SPECIFICATION TSpec
CONSTANTS
 LENS = "%s"
 HeadOf <- THeadOf
CONSTRAINT Report
CHECK_DEADLOCK FALSE
"""
DIAG = """SPECIFICATION DSpec
CONSTANTS
 LENS = "%s"
 HeadOf <- THeadOf
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
"""
GENCFG = """SPECIFICATION GenSpec
CONSTANTS
 LENS = "ALL"
 HeadOf <- MCHeadOf
 GEN = TRUE
CHECK_DEADLOCK FALSE
"""
MCCFG = """SPECIFICATION MCSpec
CONSTANTS
 LENS = "%s"
 HeadOf <- MCHeadOf
 GEN = FALSE
VIEW View
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
ACTIONPROPS = {"C04": "A_C04", "C05": "A_C05", "C06": "A_C06", "C11": "A_C11"}
STATEPROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10",
              "C11", "C12", "C13", "C24"]
# Properties whose rules look at the registry and the session getters
SESSLENS = {"C05", "C08", "C09", "C10", "C11", "C12", "C13", "C24", "ALL"}


def heads_of(ctx, binary, scens):
    r = run_driver(binary, [dict(s, steps=[], explore={}) for s in scens],
                   ["-heads"])
    return r.heads


def generate(ctx, binary, templates, per, seed):
    """Lets TLC choose the order of the environment's commands"""
    heads = heads_of(ctx, binary, templates)
    T = []
    for t in templates:
        T.append({"head": heads[t["id"]], "store": t["store"],
                  "gates": t["gates"], "lookup": t["lookup"] or {"-": "nil"},
                  "gens": t["gens"], "lose": t["lose"], "nw": t["nw"],
                  "prec": t["prec"]})
    # TLC refuses nested empty sets less readily than empty sequences
    out = []
    parts = min(4, max(1, len(T) // 4))
    groups = [list(range(i, len(T), parts)) for i in range(parts)]

    def one(gi, g):
        p = ctx.path("templ%d.json" % gi)
        with open(p, "w") as f:
            json.dump([T[i] for i in g], f)
        r = tlc(ctx, "ServerMC", GENCFG, {"TEMPL": p}, 1,
                ["-simulate", "num=%d" % (len(g) * per), "-depth", "400",
                 "-seed", str(seed * 1000 + gi)], timeout=300)
        if "Error:" in r.out and "Error: Deadlock" not in r.out:
            raise CheckError("generation failed: " + r.error())
        ctx.add("generator_states", r.gen)
        res = []
        for m in re.finditer(r'<<"SCN", (\d+), "(.*)">>', r.out):
            i = g[int(m.group(1)) - 1]
            h = json.loads(m.group(2).replace('\\"', '"'))
            res.append((i, h))
        return res
    found = parallel([lambda gi=gi, g=g: one(gi, g)
                      for gi, g in enumerate(groups)])
    seen = set()
    for res in found:
        for i, h in res:
            key = (i, json.dumps(h))
            if key in seen:
                continue
            seen.add(key)
            out.append((i, h))
    out.sort(key=lambda x: (x[0], json.dumps(x[1])))
    scens = []
    count = {}
    for i, h in out:
        t = templates[i]
        steps = []
        for c in h:
            k, _, a = c["x"].partition(":")
            if k == "end":
                continue
            st = [k, a if k == "open" else int(a)]
            if k == "lose" and t.get("abn"):
                st.append("abn")
            if k == "connect":
                faults = [["fault", st[1]] + f[2:] for f in t["faults"]
                          if f[0] == st[1]]
                # a fault must be in place before the connection writes
                steps.append(st + ["nw"])
                for f in faults:
                    steps.append(f + ["nw"])
                if not c["nw"]:
                    steps[-1] = steps[-1][:-1]
                continue
            if c["nw"]:
                st.append("nw")
            steps.append(st)
        n = count.get(i, 0)
        count[i] = n + 1
        scens.append(dict(t, id="%s.%d" % (t["id"], n), steps=steps))
    return scens


def strip(lens, ev):
    """Leaves out what the lens doesn't look at, and repeated observations"""
    res = []
    for e in ev:
        if e["e"] == "quiet":
            e = dict(e)
            e.pop("left", None)
            if lens not in SESSLENS:
                for k in ("act", "num", "list", "sess"):
                    e.pop(k, None)
            if res and res[-1] == e:
                continue
        res.append(e)
    return res


def verdict(ctx, lens, binary, scens, run):
    """Checks the traces of a driver run, reports what is no behaviour"""
    byid = {s["id"]: s for s in scens}
    ids = sorted(run.heads)
    hidx = {x: i for i, x in enumerate(ids)}
    heads = [run.heads[x] for x in ids]
    traces, seen = [], set()
    for t in run.traces:
        ev = strip(lens, t["ev"])
        k = (t["id"], json.dumps(ev, sort_keys=True))
        if k in seen:
            continue
        seen.add(k)
        traces.append({"h": hidx[t["id"]], "ev": ev, "id": t["id"],
                       "sched": t["sched"]})
    for c in run.crashes:
        traces.append({"h": hidx[c["id"]], "ev": [{"e": "crash"}],
                       "id": c["id"], "sched": c["sched"], "crash": c})
    ctx.add("distinct_traces", len(traces))
    for t in traces[:1]:
        ctx.sample({"scenario": byid[t["id"]]["steps"], "trace": t["ev"][:60]})
    reported, unrepro = set(), 0
    for part in portions(traces):
        for i in check_traces(ctx, "ServerTrace", CFG % lens, heads,
                              [traces[i] for i in part]):
            if len(ctx.violations) >= 3 or unrepro > 20:
                break
            t = traces[part[i]]
            if t["id"] in reported:
                continue
            ok, what, ev = confirm(ctx, lens, binary, byid[t["id"]], heads[t["h"]], t)
            if not ok:
                unrepro += 1
                continue
            reported.add(t["id"])
            ctx.violate(what, {"engine": "server", "lens": lens,
                               "scenario": byid[t["id"]], "sched": t["sched"],
                               "trace": ev})
        if ctx.violations:
            break
    if unrepro and not ctx.violations:
        raise CheckError("%d rejected traces couldn't be reproduced" % unrepro)


def portions(traces):
    """One trace of each scenario comes first: where something is broken in most
    of the runs there's no need to look at all of them (it takes the longest to
    find out that a trace is no behaviour)"""
    if len(traces) < 1000:
        return [range(len(traces))]
    first, rest, seen = [], [], set()
    for i, t in enumerate(traces):
        (rest if t["id"] in seen and "crash" not in t else first).append(i)
        seen.add(t["id"])
    return [first, rest]


def confirm(ctx, lens, binary, scen, head, t):
    """Runs the schedule of a rejected trace again"""
    for k in range(6):
        r = run_driver(binary, [dict(scen, explore={"plan": [t["sched"]]})])
        if r.crashes:
            if r.crashes[0]["who"] != "webwire":
                raise CheckError("unclear crash: " + r.crashes[0]["why"])
            return True, "crash: " + r.crashes[0]["why"], []
        if t.get("crash"):
            continue
        ev = strip(lens, r.traces[0]["ev"])
        if check_traces(ctx, "ServerTrace", CFG % lens, [head],
                        [{"h": 0, "ev": ev}]):
            n, state = diagnose(ctx, "ServerTrace", DIAG % lens, head, ev)
            e = json.dumps(ev[n], sort_keys=True) if n < len(ev) else "?"
            return True, ("event %d of scenario %s is impossible here: %s" %
                          (n + 1, scen["id"], e[:600])), \
                {"events": ev, "at": n, "state": state}
    return again(ctx, lens, binary, scen, head, t)


def again(ctx, lens, binary, scen, head, t):
    """Not reproduced by its schedule (something outside of the scheduler's
    control matters): is the scenario rejected each time it's explored?"""
    if "seed" not in scen.get("explore", {}):
        return False, "", None
    for k in range(3):
        s = dict(scen, explore=dict(scen["explore"], seed=scen["explore"]["seed"] + k + 1))
        r = run_driver(binary, [s])
        if r.crashes:
            return True, "crash: " + r.crashes[0]["why"], []
        evs = [strip(lens, x["ev"]) for x in r.traces]
        bad = check_traces(ctx, "ServerTrace", CFG % lens, [head],
                           [{"h": 0, "ev": x} for x in evs])
        if not bad:
            return False, "", None
        t["sched"], ev = r.traces[bad[0]]["sched"], evs[bad[0]]
    n, state = diagnose(ctx, "ServerTrace", DIAG % lens, head, ev)
    e = json.dumps(ev[n], sort_keys=True) if n < len(ev) else "?"
    return True, ("event %d of scenario %s is impossible here (needs several "
                  "attempts): %s" % (n + 1, scen["id"], e[:600])), \
        {"events": ev, "at": n, "state": state}


def model(ctx, lens, binary, templates):
    """Checks the specification on small scenarios exhaustively"""
    if not templates:
        return
    heads = heads_of(ctx, binary, templates)
    T = [{"head": heads[t["id"]], "store": t["store"], "gates": t["gates"],
          "lookup": t["lookup"] or {"-": "nil"}, "gens": t["gens"],
          "lose": t["lose"], "nw": True, "prec": []} for t in templates]
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump(T, f)
    inv = " ".join("P_" + x for x in STATEPROPS)
    props = "PROPERTIES " + " ".join(ACTIONPROPS.values())
    r = model_check(ctx, "ServerMC", MCCFG % ("ALL", inv, props),
                    {"TEMPL": p}, workers=NCPU, timeout=1500)
    ctx.add("model_states", r.distinct)


def local_ids(scens, rnd):
    """Identifiers are chosen by the clients: those of different connections may
    be the same"""
    for t in scens:
        if len({m["c"] for m in t["msgs"] if "id" in m}) < 2 or rnd.random() < .4:
            continue
        n = {}
        for m in t["msgs"]:
            if "id" in m:
                n[m["c"]] = n.get(m["c"], 0) + 1
                m["id"] = "q%d" % n[m["c"]]


def check(ctx):
    lens = ctx.prop
    quick = ctx.tier == "quick"
    binary = build(ctx, "srv")
    log("built after %.0fs" % (time.time() - ctx.t0))
    rnd = random.Random("%s/%d" % (lens, ctx.seed))
    plan = srvgen.plan(lens, rnd, quick)
    jobs = {}

    def conformance():
        scens = list(plan["directed"])
        if plan["templates"]:
            scens += generate(ctx, binary, plan["templates"], plan["per"],
                              ctx.seed)
        log("%d scenarios after %.0fs" % (len(scens), time.time() - ctx.t0))
        local_ids(scens, random.Random("ids/%d" % ctx.seed))
        for s in scens:
            s["explore"] = dict(s.get("explore") or plan["explore"],
                                seed=rnd.randrange(1 << 30))
        r = run_all(binary, scens, deadline=time.time() + plan["time"])
        ctx.add("executions", r.runs)
        ctx.add("scenarios", len(r.heads))
        ctx.add("scenarios_skipped", r.skipped)
        log("%d runs of %d scenarios (%d skipped), %d traces after %.0fs" %
            (r.runs, len(r.heads), r.skipped, len(r.traces),
             time.time() - ctx.t0))
        verdict(ctx, lens, binary, scens, r)
        log("checked after %.0fs" % (time.time() - ctx.t0))

    conformance()
    if not ctx.violations:
        # The specification doesn't depend on the code: one of the instances per
        # property and seed is enough for a quick check
        ms = plan["model"]
        model(ctx, lens, binary,
              [ms[(int(lens[1:]) + ctx.seed) % len(ms)]] if quick and ms else ms)
    log("done after %.0fs" % (time.time() - ctx.t0))
    ctx.assumptions += [
        "goroutine switches happen at the yield points inserted before every "
        "statement of the instrumented files",
        "sockets, hooks and handlers behave as scripted by the scenarios",
    ]
    return ctx.finish("model_checking")


def stage(ctx, lens, rnd, secs=15):
    """Directed scenarios only, as a part of the check of another engine"""
    import srvdirected
    binary = build(ctx, "srv")
    scens = srvdirected.scenarios(lens, rnd, ctx.tier == "quick")
    local_ids(scens, rnd)
    for s in scens:
        s["explore"]["seed"] = rnd.randrange(1 << 30)
    r = run_all(binary, scens, deadline=time.time() +
                (secs if ctx.tier == "quick" else 20 * secs))
    ctx.add("executions", r.runs)
    ctx.add("scenarios", len(r.heads))
    verdict(ctx, lens, binary, scens, r)


def replay(ctx, data):
    binary = build(ctx, "srv")
    d = data["replay"]
    r = run_driver(binary, [dict(d["scenario"], explore={"plan": [d["sched"]]})])
    scens = [d["scenario"]]
    for t in r.traces:
        for e in t["ev"]:
            print(json.dumps(e, sort_keys=True))
    ctx.prop = d["lens"]
    verdict(ctx, d["lens"], binary, scens, r)
    for what, p in ctx.violations:
        print("VIOLATION property=%s replay=%s\n  %s" % (ctx.prop, p, what))
    return 1 if ctx.violations else 0
