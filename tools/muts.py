#!/usr/bin/env python3
"""muts.py PID < list: each line 'file :: old :: new' is applied alone to a scratch copy and the check is run; prints the verdicts"""
import sys, os, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
pid = sys.argv[1]
jobs = [l.rstrip("\n").split(" :: ") for l in sys.stdin if " :: " in l]


def run(j):
    f, old, new = j[0], j[1].replace("\\n", "\n"), j[2].replace("\\n", "\n")
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree((os.environ.get("BASE") or "/repo") + "/pyHalo", d + "/pyHalo", ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, "pyHalo", f)
        s = open(p).read()
        if s.count(old) < 1:
            return "NOT FOUND", j, ""
        open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["python3-vt", "/verif/check.py", pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_REPLAYS=d + "/rep"))
        return {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode), j, r.stdout
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    for v, j, o in ex.map(run, jobs):
        print("%-9s %s: %s -> %s" % (v, j[0], j[1][:90], j[2][:90]))
        if v == "caught":
            print("          ", [l for l in o.splitlines() if l.startswith("   ")][:1][0].strip()[:150])
        elif v != "NOT FOUND":
            print("          ", "\n           ".join(o.splitlines()[-3:])[:900])
