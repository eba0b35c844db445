#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property (see DESIGN.md)."""
import argparse, json, os, pathlib, sys, time, traceback
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "harness"))
sys.dont_write_bytecode = True
import common, plans


def known_findings(prop):
    out = []
    f = common.VERIF / "KNOWN_FINDINGS.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        if line.startswith(f"known: property={prop} "):
            out.append(json.loads(line.split(" ", 2)[2]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    a = ap.parse_args()
    ctx = common.Ctx(a.prop, a.tier, a.seed)
    rc = 2
    try:
        plans.PLANS[a.prop](ctx)
        rc = report(ctx, a)
    except common.MachineryError as e:
        # a violation already established stands, whatever broke afterwards
        if ctx.violations:
            rc = report(ctx, a)
        else:
            print(f"MACHINERY property={a.prop}: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        if a.keep:
            print("scratch:", ctx.tmp)
        else:
            ctx.close()
    sys.exit(rc)


def report(ctx, a):
    ev = common.VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    known = known_findings(a.prop)
    new, reported = [], []
    for v in ctx.violations:
        k = [f for f in known if f["clause"] in v["clauses"] and f["match"] in json.dumps(v["record"])]
        if k:
            if k[0] not in reported:
                reported.append(k[0])
        else:
            new.append(v)
    for k in reported:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples[:3], stages=ctx.stages)
    if ctx.notes:
        cov["notes"] = ctx.notes
    (ev / f"{a.prop}.json").write_text(json.dumps(dict(
        property=a.prop, tier=a.tier, seed=a.seed, level="model_checking", coverage=cov,
        assumptions=ctx.assumptions or ["TLC evaluates the specification correctly",
                                        "the recording driver reports arguments and results of public calls faithfully"],
        wall_s=round(time.time() - ctx.t0, 2), violations=len(new)), indent=1) + "\n")
    if not new:
        print(f"OK property={a.prop} tier={a.tier} states={ctx.states} traces={ctx.traces} "
              f"wall={time.time() - ctx.t0:.1f}s")
        return 0
    rep = common.BUILD / "replay"
    rep.mkdir(parents=True, exist_ok=True)
    path = rep / f"{a.prop}.json"
    path.write_text(json.dumps(dict(property=a.prop, tier=a.tier, seed=a.seed, violations=new[:20]), indent=1))
    for v in new[:10]:
        print(f"  {v['where']}: {', '.join(v['clauses'][:8])}  {json.dumps(v['record'])[:300]}")
    print(f"{len(new)} violating traces; details and how to run again in {path}")
    print(f"VIOLATION property={a.prop} replay={path}")
    return 1


if __name__ == "__main__":
    main()
