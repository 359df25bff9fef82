"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state exhaustive enumeration of operation histories/inputs on the real code against a reference model"
SCHED = "stateless model checking of the real threads under a controlled scheduler (preemption bounded), plus exhaustive sequential histories"
LOOP = "stateless model checking on a controlled event loop: every order of resumptions, completions, failures and cancellations within bounds"
TECH = {"P10": LOOP, "P14": LOOP, "P17": SEQ + "; async part on a controlled event loop", "P19": SCHED, "P20": SCHED + "; async part on a controlled event loop",
        "P21": SCHED + "; event-loop steps in every order", "P22": LOOP + "; cancellation from other threads under the controlled scheduler",
        "P25": SCHED, "P30": "exhaustive fault injection: every operation of the real code interrupted at every instruction point, then re-examined against a reference model",
        "P05": "explicit-state breadth-first search of all reachable maps (deduplicated by structure), every query on every state against a dict model",
        "P06": "explicit-state search of reachable maps; all pairs compared, all older versions re-read after every operation",
        "P07": "explicit-state search with comparison counting, plus complete pattern ladders at large sizes"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f):
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough", technique=TECH.get(i, SEQ), level="model_checking",
            level_note="Every execution within the bounds stated in the evidence file (and DESIGN.md) is run on the code of /repo and compared with an independent oracle; "
                       "nothing is sampled. Trusted: the CPython interpreter, the harness in /verif/mc and the reference model; behaviours outside the bounds are not decided."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: the schedulers interpose from outside (sys.monitoring instruction events, patched lock factory, custom event loop)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
