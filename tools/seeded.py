"""Run the checks against /verif/seeded in scratch copies (development aid): seeded.py [-j N] [ids...]"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get("MUT_VERIF", "/verif")
S = "/verif/seeded"


def one(i):
    meta = json.load(open("%s/%s/meta.json" % (S, i)))
    d = "/tmp/sd-" + i
    shutil.rmtree(d, ignore_errors=True)
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        if subprocess.run(["git", "apply", "%s/%s/patch.diff" % (S, i)], cwd=d).returncode:
            return i, meta["property"], "DOES NOT APPLY"
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_JOBS="2")
        p = subprocess.run([V + "/check.sh", meta["property"], "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        return i, meta["property"], "caught" if p.returncode == 1 and v else "MISSED rc=%d %s" % (p.returncode, out[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 3
    if a[:1] == ["-j"]:
        j = int(a[1])
        a = a[2:]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, a or sorted(os.listdir(S))):
            print(*r, flush=True)
