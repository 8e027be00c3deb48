#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    import core, props
    try:
        c = core.Check(prop, "thorough" if tier == "thorough" else "quick", seed)
        rule = props.CHECKS[prop](c)
        sys.exit(c.finish(rule or ""))
    except core.ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)

if __name__ == "__main__":
    main()
