#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough]   decides a property
   run.py replay <file>                              replays a violation
   run.py setup                                      warms up the build cache"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import Ctx, CheckError, build, log
import props, race


def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        ctx = Ctx("setup", "quick")
        try:
            for name, instr in props.BINARIES:
                build(ctx, name, instr)
            race.build_race(ctx)
        except CheckError as e:
            log(e)
            return 1
        finally:
            ctx.close()
        return 0
    if len(a) < 2 or a[0] not in ("check", "replay"):
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if a[0] == "check":
        ctx = Ctx(a[1], tier)
        ctx.stages.append(race.stage)
        f = props.CHECKS[a[1]]
    else:
        data = json.load(open(a[1]))
        ctx = Ctx(data["property"], tier)
        f = lambda c: props.REPLAYS[data["replay"]["engine"]](c, data)
    try:
        if a[0] == "check":
            race.start(ctx)
        return f(ctx)
    except CheckError as e:
        log("ERROR (no answer): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if getattr(ctx, "race", None):
            ctx.race[0].join()
        ctx.close()


sys.exit(main())
