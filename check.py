#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py replay FILE | check.py setup"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import driver
def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        import build
        for v in list(build.VARIANTS) + ["py"]: build.build(v)
        return 0
    import checks
    if a[0] == "replay": return driver.replay(a[1], checks.CHECKS)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return driver.run_check(checks.CHECKS[a[0]], tier, int(os.environ.get("VERIF_SEED", "1")))
if __name__ == "__main__": sys.exit(main())
