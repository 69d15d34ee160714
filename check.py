#!/usr/bin/env python3
"""check.py run PROPERTY [--tier quick|thorough]   |   check.py setup   |   check.py replay FILE"""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def all_checks():
    out = {}
    for m in ("fraos_checks", "logmap_checks", "multi_checks", "core_checks", "select_checks", "source_checks", "utils_checks", "ledger_checks"):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        out.update(mod.CHECKS)
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument("cmd")
    a.add_argument("arg", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    o = a.parse_args()
    code = 2
    try:
        if o.cmd == "setup":
            core.shim()
            for c in sorted(os.listdir(f"{core.VERIF}/harness")):
                core.build(c)
            code = 0
        elif o.cmd == "run":
            c = core.Check(o.arg, o.tier if o.tier in ("quick", "thorough") else "quick", o.seed)
            all_checks()[o.arg](c)
            code = c.finish()
        elif o.cmd == "list":
            print(" ".join(sorted(all_checks())))
            code = 0
    except core.Inconclusive as e:
        print(f"INCONCLUSIVE: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        core.cleanup()
    sys.exit(code)


if __name__ == "__main__":
    main()
