#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current working tree."""
import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    from lib import core, registry
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if args[0] not in registry.CHECKS:
        print("unknown property", args[0])
        return 2
    mod, fn = registry.CHECKS[args[0]]
    m = importlib.import_module(mod)
    return core.run(args[0], getattr(m, fn), tier)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of exploration on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
