"""automut.py [--gaps] [--n N] [--seed S] [--jobs J] [--file SUBSTR] OUT
Random AST mutants of functions that some check encodes; for each runs the checks that encode the function until one
reports a violation. Surviving mutants are appended to OUT. --gaps lists the functions no check encodes."""
import ast, sys, os, json, glob, random, subprocess, tempfile, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("--gaps", action="store_true"); ap.add_argument("--n", type=int, default=40)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--file", default=""); ap.add_argument("out", nargs="?", default="/tmp/automut.txt")
A = ap.parse_args()
cover = {}
for f in sorted(glob.glob("/verif/evidence/P*.json")):
    d = json.load(open(f))
    for fn in d["coverage"].get("functions_encoded", []):
        cover.setdefault(fn, []).append((d["property"], d["wall_s"], len(d["coverage"]["functions_encoded"])))
REPO = "/repo"
funcs = []
for root, _, names in os.walk(REPO + "/pyHalo"):
    for n in names:
        p = os.path.join(root, n); rel = os.path.relpath(p, REPO)
        if not n.endswith(".py") or "plotting" in n or "tabulated" in n or "johnson" in n: continue
        tree = ast.parse(open(p).read())
        def walk(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef): walk(c, pre + c.name + ".")
                elif isinstance(c, ast.FunctionDef): funcs.append((rel, pre + c.name, c))
        walk(tree, "")
if A.gaps:
    for rel, q, c in funcs:
        if rel + ":" + q not in cover: print(rel, q, c.end_lineno - c.lineno)
    sys.exit()
rnd = random.Random(A.seed)
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
def mutants(fn):
    out = []
    doc = ast.get_docstring(fn, clean=False)
    for node in ast.walk(fn):
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            for o in CMP[type(node.ops[0])]: out.append((node, "cmp", o))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            for o in BIN[type(node.op)]: out.append((node, "bin", o))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)): out.append((node, "un", None))
        elif isinstance(node, ast.BoolOp): out.append((node, "bool", ast.Or if isinstance(node.op, ast.And) else ast.And))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool): out.append((node, "const", not node.value))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)): out += [(node, "const", node.value + 1), (node, "const", node.value * 1.1 if node.value else 0.5)]
        elif isinstance(node, ast.If): out += [(node, "iftrue", True), (node, "iftrue", False)]
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)): out.append((node, "drop", None))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2: out.append((node, "swap", rnd.randrange(len(node.args) - 1)))
            if node.keywords: out.append((node, "dropkw", rnd.randrange(len(node.keywords))))
        elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and node.attr in ("x", "y"): out.append((node, "attr", "y" if node.attr == "x" else "x"))
    return out
def apply(src, m):
    node, kind, arg = m
    lines = src.split("\n")
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    seg = lambda n: b[off[n.lineno - 1] + n.col_offset: off[n.end_lineno - 1] + n.end_col_offset].decode()
    a, e = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
    import copy
    n2 = copy.deepcopy(node)
    if kind == "cmp": n2.ops[0] = arg()
    elif kind == "bin": n2.op = arg()
    elif kind == "un": n2 = n2.operand
    elif kind == "bool": n2.op = arg()
    elif kind == "const": n2 = ast.Constant(arg)
    elif kind == "iftrue":
        t = node.test
        a, e = off[t.lineno - 1] + t.col_offset, off[t.end_lineno - 1] + t.end_col_offset
        n2 = ast.Constant(arg)
    elif kind == "drop": n2 = ast.Pass()
    elif kind == "swap": n2.args[arg], n2.args[arg + 1] = n2.args[arg + 1], n2.args[arg]
    elif kind == "dropkw": del n2.keywords[arg]
    elif kind == "attr": n2.attr = arg
    new = ast.unparse(n2)
    if isinstance(n2, ast.expr) and kind != "iftrue": new = "(" + new + ")"
    return (b[:a] + new.encode() + b[e:]).decode(), seg(node).split("\n")[0][:140], new.split("\n")[0][:140]
pool = []
for rel, q, c in funcs:
    key = rel + ":" + q
    if A.file and A.file not in rel: continue
    if key in cover and "__init__" not in q or key in cover and rnd.random() < 0.3:
        pool += [(rel, q, m) for m in mutants(c)]
rnd.shuffle(pool)
# spread over functions: at most 2 per function per round
seen, pick = {}, []
for it in pool:
    if seen.get(it[:2], 0) < 1:
        seen[it[:2]] = seen.get(it[:2], 0) + 1; pick.append(it)
    if len(pick) >= A.n: break
def run(it):
    rel, q, m = it
    src = open(REPO + "/" + rel).read()
    try:
        new, old_s, new_s = apply(src, m); compile(new, rel, "exec")
    except Exception as ex: return
    if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)): return
    tmp = tempfile.mkdtemp(prefix="am", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, tmp + "/repo"])
        open(tmp + "/repo/" + rel, "w").write(new)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/test_concentration_models.py", "tests/test_rendering/test_mass_functions/test_gaussian.py", "tests/test_rendering/test_spatial_distribution/test_correlated.py"], cwd=tmp + "/repo", capture_output=True, text=True)
        if t.returncode: return
        res = []
        for pid, w, nf in sorted(cover[rel + ":" + q], key=lambda t: (t[2] * 0.3 + t[1])):
            try:
                r = subprocess.run(["python3-vt", "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_EVIDENCE=tmp + "/ev"), capture_output=True, text=True, timeout=400)
                res.append("%s:%d" % (pid, r.returncode))
                if r.returncode == 1: break
            except subprocess.TimeoutExpired: res.append(pid + ":timeout")
        caught = any(x.endswith(":1") for x in res)
        line = "%s %s %s L%d %s | %s -> %s | %s" % ("caught" if caught else "SURVIVED", rel, q, m[0].lineno, m[1], old_s, new_s, " ".join(res))
        open(A.out, "a").write(line + "\n")
    finally: shutil.rmtree(tmp, ignore_errors=True)
with ThreadPoolExecutor(A.jobs) as ex: list(ex.map(run, pick))
