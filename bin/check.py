#!/usr/bin/env python3
"""check.py ID: decides property ID for /repo's current working tree.

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=ID replay=PATH": it is broken. Anything else: the check
itself failed."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv, plans


def known_findings(prop):
    """Findings recorded in known_findings.txt: {text in the rule: line}."""
    res = {}
    for line in open(os.path.join(kv.VERIF, "known_findings.txt")):
        if line.startswith("finding: property=%s " % prop):
            rest = line.strip().split(" ", 2)[2]
            key, _, what = rest.partition(" | ")
            res[key.strip()] = what.strip()
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = plans.PLANS[prop]
    ctx = kv.Ctx(prop, tier, seed)
    code = 0
    try:
        try:
            plan["run"](ctx)
        except kv.CodeFailure as x:
            ctx.violations.append((x.what, dict(x.rep, property=prop, what=x.what)))
        listed = known_findings(prop)
        seen = {}
        for what, rep in ctx.known:
            key = next((k for k in listed if what.startswith(k)), None)
            if key is None:
                ctx.violations.append((what, rep))
            else:
                seen[key] = rep
        for key in listed:
            if key in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, listed[key]))
        write_evidence(ctx, plan, t0, len(ctx.violations))
        if ctx.violations:
            d = os.path.join(kv.VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % prop)
            seenw = {}
            for what, rep in ctx.violations:
                seenw.setdefault(what, rep)
            json.dump({"property": prop, "tier": tier, "seed": seed, "repo": kv.REPO, "violations": list(seenw.values())[:20]},
                      open(path, "w"), indent=1, ensure_ascii=False, default=str)
            for w in list(seenw)[:10]:
                print("broken: %s (%d times)" % (w, sum(1 for x, _ in ctx.violations if x == w)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        else:
            print("%s holds on everything explored: %d states, %d recorded traces, %d events, %.0f s" %
                  (prop, ctx.states, ctx.traces, ctx.events, time.time() - t0))
    except kv.MachineError as x:
        print("check error: %s" % x)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.scratch)
        else:
            ctx.close()
    sys.exit(code)


def write_evidence(ctx, plan, t0, nviol):
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples, "events_validated": ctx.events, "models": ctx.models, "conformance": ctx.pipelines,
           "evaluations": ctx.events, "distinct_nontrivial": ctx.traces,
           "rule": "an evaluation is one recorded operation judged by the specification; a trace is one recorded history, made from the seed or by TLC",
           }
    if ctx.notes:
        cov["explanation"] = "; ".join(ctx.notes)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": plan.get("level", "model_checking"),
          "coverage": cov, "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    d = os.path.join(kv.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ctx.prop + ".json"), "w"), indent=1, ensure_ascii=False, default=str)


if __name__ == "__main__":
    main()
