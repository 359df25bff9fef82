#!/opt/venv/bin/python
"""check.py <property-id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":  # hash order of strings must not vary between runs
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

import warnings  # noqa: E402

warnings.simplefilter("ignore", RuntimeWarning)  # coroutines dropped by cancelled runs

from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    mod_name = f"checks.{a.property.lower()}"
    if a.property in ("P19", "P20", "P21", "P22", "P25", "P30"):
        from mc import sched

        sched.install()
    try:
        core.import_repo()
        mod = importlib.import_module(mod_name)
        sections = mod.sections(tier)
    except Exception as e:  # the code under test no longer imports or lost a public name
        st = core.Section("import", fn=lambda st, tier, e=e: (_ for _ in ()).throw(
            core.Violation(f"the public API needed by the check is broken: {type(e).__name__}: {e}\n{core.tb_tail(e)}")))
        return core.run_check(a.property, [st], tier=tier)
    if a.replay:
        return core.replay(a.property, sections, a.replay)
    return core.run_check(a.property, sections, assumptions=getattr(mod, "ASSUMPTIONS", ()),
                          bounds=getattr(mod, "BOUNDS", ""), tier=tier)


if __name__ == "__main__":
    sys.exit(main())
