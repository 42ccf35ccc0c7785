"""C36: the optional dependencies are optional."""
import json
import os
import shutil
import subprocess
import sys

from nfv import optdep
from nfv.boot import REPO

PROP = "C36"
RULE = ("child processes with OpenCV, motmetrics and pandas hidden in every combination run one random program over the core features (tracking, "
        "filters, distances, camera motion, files, cut-outs, tables, fixed camera); every result must be what the full installation gives, and every "
        "feature that needs a hidden package must raise ImportError naming the extra to install; non-trivial when something was hidden")
ASSUMPTIONS = ["a package is hidden by an import hook that makes importing it fail as if it were not installed (ModuleNotFoundError) or as if a library it needs were missing (ImportError)"]
CASES = {"quick": 48, "thorough": 400}
FLOORS = {"core_results": 290, "refused": 260, "unaffected": 230, "cv2_hidden": 13, "motmetrics_hidden": 16, "broken_installs": 9}
HIDDEN = ["cv2", "motmetrics,pandas", "cv2,motmetrics,pandas", "motmetrics", "", "!cv2", "!motmetrics", "!cv2,!motmetrics"]


def case(ctx):
    hidden = HIDDEN[ctx.index % len(HIDDEN)]
    seed = ctx.rng.getrandbits(32)
    ctx.info = {"hidden": hidden, "program": seed}
    tmp = ctx.tmp()
    a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
    os.makedirs(a)
    os.makedirs(b)
    want, _ = optdep.core(ctx.nf, seed, a)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.abspath(optdep.__file__), REPO, hidden, str(seed), b, "all"], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=240)
    lines = [x for x in p.stdout.decode(errors="replace").splitlines() if x.startswith("RESULT ")]
    ctx.check(lines, "the program did not run to its end without the hidden packages", status=p.returncode, stderr=p.stderr.decode(errors="replace")[-1500:])
    r = json.loads(lines[-1][7:])
    ctx.check("error" not in r, "norfair's core features fail without the hidden packages", error=r.get("error"), trace=r.get("trace"))
    ctx.check(r["where"] == os.path.join(REPO, "norfair"), "the child imported another norfair", where=r["where"])
    ctx.check(set(r["core"]) == set(want), "the program did other things", got=sorted(r["core"]))
    for k, v in want.items():
        ctx.check(r["core"][k] == v, "a core result differs when optional packages are not installed", part=k)
        ctx.count("core_results")
    gone = hidden.replace("!", "").split(",")
    ctx.count("broken_installs", "!" in hidden)
    for name, res in r["needs"].items():
        pkg, kind, msg = res[:3]
        if pkg in gone:
            ctx.check(kind != "ok" and res[3], "a feature whose package is not installed does not say so with ImportError", feature=name, raised=kind,
                      message=msg)
            ctx.check(("video" if pkg == "cv2" else "metrics") in msg and "norfair" in msg.lower(),
                      "the error does not say which extra to install", feature=name, message=msg)
            ctx.count("refused")
        else:
            ctx.check(kind == "ok" or not res[3], "a feature is refused although its package is installed", feature=name, message=msg)
            ctx.count("unaffected")
    for g in gone:
        ctx.count(g + "_hidden", bool(g))
    ctx.state(hidden, tuple(sorted(want.values()))[:3])
    if hidden:
        ctx.nontrivial(ctx.index, hidden, seed)
        ctx.sample = dict(ctx.info, refused=[n for n, x in r["needs"].items() if x[0] in gone])
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp, exist_ok=True)
