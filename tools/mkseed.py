"""mkseed.py ID PROPERTY   reads from stdin a python literal dict:
{"edits": [(file, old, new), ...], "needs": ..., "breaks": ..., "demo": python source run with sys.path set}
makes /verif/seeded/ID, confirms the demo passes on the unchanged tree and fails with the change, and the change compiles"""
import sys, os, subprocess, json, shutil, tempfile, ast
sid, pid = sys.argv[1:3]
d = ast.literal_eval(sys.stdin.read())
out = "/verif/seeded/" + sid
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
try:
    wt = tmp + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for f, a, b in d["edits"]:
        p = wt + "/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    assert diff
    open(out + "/patch.diff", "w").write(diff)
    shutil.copytree("/verif/stubs", out + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
    open(out + "/demo.py", "w").write("import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))\nsys.path.insert(0, os.getcwd())\n" + d["demo"].strip() + "\n")
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository; exit 0 when the property holds on the demonstrated input\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": pid, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    subprocess.check_call(["/opt/venv/bin/python", "-m", "compileall", "-q", wt + "/pyHalo"])
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=wt, capture_output=True, text=True)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_concentration_models.py", "tests/test_rendering/test_mass_functions/test_gaussian.py", "tests/test_rendering/test_spatial_distribution/test_correlated.py"], cwd=wt, capture_output=True, text=True)
    c = subprocess.run(["python3-vt", "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=wt, VERIF_EVIDENCE=tmp + "/ev"), capture_output=True, text=True)
    print("clean", a.returncode, a.stderr[-500:] if a.returncode else "", "| changed", b.returncode, (b.stdout + b.stderr).strip()[-200:], "| tests", t.stdout.strip().splitlines()[-1], "| check", c.returncode, c.stdout.strip()[-300:])
    if a.returncode or not b.returncode:
        print("NOT A VALID SEED")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
