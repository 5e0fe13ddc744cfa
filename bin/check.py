#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property.

Exit 0: it held on everything explored.  Exit 1: violations (VIOLATION lines).
Exit 2: the check itself failed."""
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import probe  # noqa: E402
import props  # noqa: E402

RULE = ("documents, texts and histories are generated by TLC from the specification in /verif/spec; "
        "distinct_nontrivial counts different texts (or histories) that mofmt was run on, for layout "
        "properties only those with a line end or a comment between two tokens")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    probe.build()
    if prop in props.NEEDS_CLI:
        probe.build(cli=True)
    ctx = props.Context(prop, tier, seed)
    try:
        props.CHECKS[prop](ctx)
    except props.Enough:
        pass
    evidence(ctx, start)
    for line in ctx.known:
        print(f"KNOWN-FINDING: property={line[0]} {line[1]}")
    out = os.path.join(probe.BUILD, "replay", prop)
    shutil.rmtree(out, ignore_errors=True)
    for n, v in enumerate(ctx.violations):
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{n + 1}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + v["why"][:400].replace("\n", "\n  "))
    total = ", ".join(f"{v} {k}" for k, v in ctx.counts.items())
    print(f"{prop}: {total}; {len(ctx.violations)} violations; {time.time() - start:.1f} s")
    return 1 if ctx.violations else 0


def evidence(ctx, start):
    states = {}
    for s in ctx.stats:
        states[s["model"] + json.dumps(s["constants"], sort_keys=True)] = s
    runs = [{k: s[k] for k in ("model", "constants", "generated", "states", "cases", "tlc_s", "made_now")}
            for s in states.values()]
    data = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in states.values()),
            "transitions": sum(s["generated"] for s in states.values()),
            "traces_validated_against_impl": max(ctx.counts.values(), default=0),
            "evaluations": sum(ctx.counts.values()),
            "distinct_nontrivial": len(ctx.distinct),
            "rule": RULE,
            "samples": ctx.samples or [v["why"] for v in ctx.violations[:1]] or ["no case was generated"],
            "counts": ctx.counts,
            "tlc_runs": runs,
            "tlc_runs_note": "a run with made_now false was made by an earlier check or by the setup from the "
                             "same specification, constants and seed; its generated cases were replayed now",
            "known_findings_seen": [x[1] for x in ctx.known],
        },
        "assumptions": ["the texts come from the bounded generators named in tlc_runs",
                        "TLC, the JVM and the Python driver are trusted"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(ctx.violations),
    }
    path = os.path.join(probe.VERIF, "evidence")
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, ctx.prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except probe.ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
