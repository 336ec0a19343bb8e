"""Entry point of every check."""
import argparse
import importlib
import json
import sys
import traceback

import core

MODULES = ["sched", "acct", "lifecycle", "events", "retry", "gate", "writers", "balance", "tasks", "config", "output"]
LEVEL = {}


def family(prop):
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.FAMILIES:
            return mod.FAMILIES[prop], mod
    raise SystemExit(f"no check for {prop}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay", help="print the input of a recorded violation")
    a = ap.parse_args()
    if a.replay:
        print(json.dumps(json.load(open(a.replay)), indent=1, ensure_ascii=False))
        return 0
    fn, mod = family(a.property)
    ctx = core.Ctx(a.property, a.tier, a.seed)
    try:
        fn(ctx)
        rule = getattr(mod, "RULE", {}).get(a.property, "")
        distinct = ctx.cov.pop("distinct", set())
        cov = {"states": ctx.tlc_states, "transitions": ctx.tlc_transitions, "traces_validated_against_impl": ctx.traces,
               "distinct_cases": len(distinct), **ctx.cov}
        if rule:
            cov["rule"] = rule
        return core.finish(ctx, "model_checking", cov)
    except core.MachineryError as e:
        print(f"ERROR {a.property}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
