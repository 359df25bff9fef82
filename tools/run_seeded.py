#!/usr/bin/env python3
"""run_seeded.py [--all] [ids...]: run the quick checks against the planted bugs.

Each patch is applied to a scratch clone of /repo, and the checks run from a
scratch copy of /verif (so that evidence of the real tree is not touched).
Without --all only the check of the bug's own property runs.  Results go to
tools/seeded_results.json.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIDS = [f"P{i:02d}" for i in range(1, 25)]
RES = os.path.join(V, "tools", "seeded_results.json")


def main():
    args = sys.argv[1:]
    every = "--all" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    res = json.load(open(RES)) if os.path.exists(RES) else {}

    def one(bug):
        meta = json.load(open(os.path.join(V, "seeded", bug, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="seeded-")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", tmp + "/repo"], check=True)
            subprocess.run(["git", "apply", os.path.join(V, "seeded", bug, "patch.diff")], cwd=tmp + "/repo", check=True)
            shutil.copytree(V, tmp + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
            caught = []
            out = ""
            for pid in PIDS if every else [meta["property"]]:
                p = subprocess.run(["/opt/venv/bin/python", tmp + "/verif/check.py", pid, "--tier", "quick"],
                                   capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=tmp + "/repo"))
                if p.returncode == 1 and f"VIOLATION property={pid}" in p.stdout:
                    caught.append(pid)
                elif p.returncode != 0:
                    out += f" {pid}: exit {p.returncode} {p.stderr[-300:]}"
            return bug, meta["property"], caught, out
        finally:
            shutil.rmtree(tmp)

    with ThreadPoolExecutor(3) as ex:
        for bug, prop, caught, out in ex.map(one, ids):
            if every or bug not in res:
                res[bug] = caught
            else:
                res[bug] = sorted(set(res[bug]) - {prop} | set(caught))
            print(bug, prop, "CAUGHT" if prop in caught else "MISSED", caught, out, flush=True)
            json.dump(res, open(RES, "w"), indent=1, sort_keys=True)


main()
