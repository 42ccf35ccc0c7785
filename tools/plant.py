"""Make /verif/seeded/<id>/ from a specification and confirm it (development aid).

A specification file defines PLANTS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
For each: the edit must apply once, pass the repository's tests, and the demo must pass without and fail with it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
SH = '#!/bin/bash\n# run in the repository root: exit 0 if the demonstrated behaviour is right, nonzero if not\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def blame_original(repo, diff_files):
    return True


def plant(p):
    d = "/tmp/plant-%s" % p["id"]
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    out = os.path.join(SEEDED, p["id"])
    try:
        ours = set()
        for f, old, new in p["edits"]:
            path = os.path.join(d, f)
            s = open(path).read()
            if s.count(old) != 1:
                return "edit matches %d times in %s" % (s.count(old), f)
            open(path, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=d).stdout.decode()
        # some removed line must be original
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = "".join(sh(["git", "show", "e113bb7:" + f], cwd=d).stdout.decode() for f in {e[0] for e in p["edits"]})
        if not any(r.strip() and r in orig.splitlines() for r in removed):
            return "no original line is changed"
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=100", "--disable-warnings", "tests"], cwd=d, env=env)
        if t.returncode != 0:
            return "the tests notice it: " + t.stdout.decode()[-300:]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(p["demo"].lstrip("\n"))
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = sh(["bash", out + "/demo.sh"], cwd="/repo")
        b = sh(["bash", out + "/demo.sh"], cwd=d)
        if a.returncode != 0 or b.returncode == 0:
            shutil.rmtree(out)
            return "demo: unchanged %d, changed %d\n%s\n%s" % (a.returncode, b.returncode, a.stdout.decode()[-600:], b.stdout.decode()[-600:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("plants", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for p in m.PLANTS:
        if len(sys.argv) > 2 and p["id"] not in sys.argv[2:]:
            continue
        r = plant(p)
        print(p["id"], "ok" if r is None else "FAILED " + r, flush=True)
