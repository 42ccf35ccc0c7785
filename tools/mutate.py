"""Mutation testing of the checks (a development aid, no check uses it).

  mutate.py gen  WORK            list mutants of /repo/norfair into WORK/mutants.json
  mutate.py test WORK            keep those that pass the repository's tests  -> WORK/survivors.json
  mutate.py run  WORK            run the checks against the survivors          -> WORK/results.jsonl

Every mutant lives in its own scratch copy under WORK.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.environ.get("MUT_VERIF", "/verif")
PY = "/opt/venv/bin/python"
FILES = ["tracker", "distances", "filter", "camera_motion", "metrics", "video", "utils", "drawing/absolute_grid", "drawing/color",
         "drawing/draw_boxes", "drawing/draw_points", "drawing/drawer", "drawing/fixed_camera", "drawing/path", "drawing/utils"]
CHECKS = {
    "tracker": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C34 C18 C22",
    "distances": "C17 C18 C19 C04 C20",
    "filter": "C08 C09 C10 C13 C14 C15",
    "camera_motion": "C21 C22 C23 C13",
    "metrics": "C24 C25 C26 C28",
    "video": "C27 C28",
    "utils": "C34 C20 C27",
    "drawing/absolute_grid": "C33", "drawing/color": "C29 C30", "drawing/draw_boxes": "C30", "drawing/draw_points": "C30",
    "drawing/drawer": "C30 C31 C33", "drawing/fixed_camera": "C32", "drawing/path": "C31", "drawing/utils": "C30",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: [ast.Mult], ast.Pow: [ast.Mult]}


def sites(tree):
    """Yield (description, function that mutates the tree's node in place) by walk index."""
    for idx, node in enumerate(ast.walk(tree)):
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    yield idx, "cmp%d:%s" % (k, new.__name__)
        elif isinstance(node, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(node.op), []):
                yield idx, "bin:%s" % new.__name__
        elif isinstance(node, ast.BoolOp):
            yield idx, "bool"
            for k in range(len(node.values)):
                yield idx, "booldrop%d" % k
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            yield idx, "unary"
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield idx, "const:not"
            elif isinstance(v, (int, float)):
                yield idx, "const:+1"
                yield idx, "const:-1"
            elif v is None:
                pass
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield idx, "test:true"
            yield idx, "test:false"
        elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            yield idx, "return:none"
        elif isinstance(node, (ast.Break,)):
            yield idx, "break:continue"
        elif isinstance(node, ast.Continue):
            yield idx, "continue:break"
        elif isinstance(node, ast.Call):
            name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
            swap = {"min": "max", "max": "min", "argmin": "argmax", "any": "all", "all": "any", "copy": None, "abs": None, "round": None,
                    "append": None, "deepcopy": None, "sqrt": None, "hstack": "vstack", "vstack": "hstack", "zeros": "ones", "ones": "zeros",
                    "flatten": None, "sum": None, "mean": None, "maximum": "minimum", "minimum": "maximum", "zip": None}
            if swap.get(name):
                yield idx, "call:%s" % swap[name]
            if len(node.args) == 2 and not node.keywords and not any(isinstance(a, ast.Starred) for a in node.args):
                yield idx, "swapargs"
            if name in ("copy", "abs", "deepcopy", "round", "sqrt", "int", "float", "list", "tuple", "str", "reversed", "sorted", "astype"):
                yield idx, "unwrap"
            for k in range(len(node.keywords)):
                if node.keywords[k].arg:
                    yield idx, "dropkw%d" % k
        for field in ("body", "orelse", "finalbody"):
            body = getattr(node, field, None)
            if isinstance(body, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                for k, st in enumerate(body):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.For, ast.If, ast.With)):
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                            continue
                        yield idx, "del:%s:%d" % (field, k)


def apply(tree, idx, op):
    node = next(n for i, n in enumerate(ast.walk(tree)) if i == idx)
    line = getattr(node, "lineno", 0)

    def replace(new):
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is node:
                    setattr(p, f, new)
                    return
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is node:
                            v[i] = new
                            return

    if op.startswith("cmp"):
        k, name = op[3:].split(":")
        node.ops[int(k)] = getattr(ast, name)()
    elif op.startswith("bin:"):
        node.op = getattr(ast, op[4:])()
    elif op == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif op.startswith("booldrop"):
        del node.values[int(op[8:])]
        if len(node.values) == 1:
            replace(node.values[0])
    elif op == "unary":
        replace(node.operand)
    elif op == "const:not":
        node.value = not node.value
    elif op == "const:+1":
        node.value += 1
    elif op == "const:-1":
        node.value -= 1
    elif op.startswith("test:"):
        node.test = ast.Constant(op == "test:true")
    elif op == "return:none":
        node.value = ast.Constant(None)
    elif op == "break:continue":
        replace(ast.Continue())
    elif op == "continue:break":
        replace(ast.Break())
    elif op.startswith("call:"):
        if isinstance(node.func, ast.Attribute):
            node.func.attr = op[5:]
        else:
            node.func.id = op[5:]
    elif op == "swapargs":
        node.args.reverse()
    elif op == "unwrap":
        if isinstance(node.func, ast.Attribute) and not (isinstance(node.func.value, ast.Name) and node.func.value.id in ("np", "copy", "math")):
            replace(node.func.value)
        else:
            replace(node.args[0])
    elif op.startswith("dropkw"):
        del node.keywords[int(op[6:])]
    elif op.startswith("del:"):
        _, f, k = op.split(":")
        body = getattr(node, f)
        line = body[int(k)].lineno
        if len(body) == 1:
            body[0] = ast.Pass()
        else:
            del body[int(k)]
    ast.fix_missing_locations(tree)
    return line


def gen(work):
    out = []
    for f in FILES:
        src = open("%s/norfair/%s.py" % (REPO, f)).read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for idx, op in sites(ast.parse(src)):
            t = ast.parse(src)
            try:
                line = apply(t, idx, op)
                new = ast.unparse(t)
                compile(new, f, "exec")
            except Exception:
                continue
            if new in seen:
                continue
            seen.add(new)
            if isinstance(f, str):
                out.append({"id": len(out), "file": f, "line": line, "op": op, "idx": idx})
    json.dump(out, open(work + "/mutants.json", "w"))
    print(len(out), "mutants")


def source(m):
    t = ast.parse(open("%s/norfair/%s.py" % (REPO, m["file"])).read())
    apply(t, m["idx"], m["op"])
    return ast.unparse(t)


def copy_repo(work, name, m):
    d = "%s/%s" % (work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO + "/norfair", d + "/norfair", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree(REPO + "/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
    open("%s/norfair/%s.py" % (d, m["file"]), "w").write(source(m))
    return d


def test_one(a):
    work, m = a
    d = copy_repo(work, "t%d" % m["id"], m)
    try:
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--disable-warnings", "tests"], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def test(work, jobs):
    ms = json.load(open(work + "/mutants.json"))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(test_one, [(work, m) for m in ms]))
    sv = [m for m, ok in zip(ms, res) if ok]
    json.dump(sv, open(work + "/survivors.json", "w"))
    print(len(sv), "of", len(ms), "pass the tests")


def run_one(a):
    work, m, scale = a
    d = copy_repo(work, "r%d" % m["id"], m)
    try:
        m = dict(m)
        m["killed"] = None
        m["other"] = []
        for c in CHECKS[m["file"]].split():
            v = "%s/v%d" % (work, m["id"])
            env = dict(os.environ, VERIF_REPO=d, VERIF_SCALE=scale, VERIF_JOBS="1", VERIF_SEED="1")
            try:
                p = subprocess.run([VERIF + "/check.sh", c, "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                m["other"].append((c, "timeout"))
                continue
            if p.returncode == 1:
                m["killed"] = c
                m["msg"] = p.stdout.decode(errors="replace").strip().splitlines()[0][:200]
                break
            if p.returncode != 0:
                m["other"].append((c, p.stdout.decode(errors="replace").strip()[-200:]))
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(work, jobs, scale, files):
    ms = json.load(open(work + "/survivors.json"))
    done = set()
    path = work + "/results.jsonl"
    if os.path.exists(path):
        done = {json.loads(l)["id"] for l in open(path)}
    ms = [m for m in ms if m["id"] not in done and (not files or m["file"] in files)]
    with ThreadPoolExecutor(jobs) as ex, open(path, "a") as f:
        for m in ex.map(run_one, [(work, m, scale) for m in ms]):
            f.write(json.dumps(m) + "\n")
            f.flush()


if __name__ == "__main__":
    cmd, work = sys.argv[1:3]
    os.makedirs(work, exist_ok=True)
    if cmd == "gen":
        gen(work)
    elif cmd == "test":
        test(work, int(sys.argv[3]) if len(sys.argv) > 3 else 8)
    elif cmd == "show":
        m = next(m for m in json.load(open(work + "/survivors.json")) if m["id"] == int(sys.argv[3]))
        import difflib
        a = ast.unparse(ast.parse(open("%s/norfair/%s.py" % (REPO, m["file"])).read())).splitlines()
        print("\n".join(difflib.unified_diff(a, source(m).splitlines(), m["file"], m["file"], lineterm="", n=2)))
    else:
        run(work, int(sys.argv[3]), sys.argv[4], sys.argv[5:])
