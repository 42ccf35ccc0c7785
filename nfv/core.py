"""Case context, worker loop, runner, evidence and verdicts.

A check is a module checks/cXX.py with
    PROP, TITLE, RULE, ASSUMPTIONS, CASES = {"quick": n, "thorough": n}, FLOORS = {counter: minimum}
    def case(ctx): one seeded case; it runs the real code and reports through ctx.

Verdicts: exit 1 with a VIOLATION line (an oracle saw the property broken), exit 0 (held on everything explored),
exit 2 (inconclusive: infrastructure trouble or the monitors saw too little).
"""
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .boot import REPO, HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STEP_LIMIT = 12_000_000  # lines of norfair executed by one case (normal cases: some 1e4..1e5)


class Violation(Exception):
    def __init__(self, msg, detail=None, key=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail or {}
        self.key = key


class CaseTimeout(BaseException):
    pass


def plain(v, depth=0):
    """JSON-able copy of anything we put in details and samples."""
    import numpy as np

    if depth > 8:
        return str(v)[:200]
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in list(v.items())[:200]}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [plain(x, depth + 1) for x in list(v)[:400]]
    if isinstance(v, np.ndarray):
        return plain(v.tolist(), depth + 1) if v.size <= 400 else "ndarray%s" % (v.shape,)
    if isinstance(v, np.generic):
        return plain(v.item(), depth + 1)
    if isinstance(v, float):
        return v if v == v and abs(v) != float("inf") else repr(v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return repr(v)[:300]


class Ctx:
    """What a case sees: its random source, counters, scratch directory and the way to report."""

    def __init__(self, prop, seed, index, tier, nf):
        self.prop, self.seed, self.index, self.tier, self.nf = prop, seed, index, tier, nf
        self.rng = random.Random("%s:%s:%s" % (prop, seed, index))
        self._np = None
        self.counters = {}
        self.states = set()
        self.trivial = True
        self.sample = None
        self.fingerprint = None
        self._tmp = None
        self.info = {}

    @property
    def nprng(self):
        if self._np is None:
            import numpy as np

            self._np = np.random.default_rng(self.rng.getrandbits(64))
        return self._np

    def count(self, name, n=1):
        if n:
            self.counters[name] = self.counters.get(name, 0) + int(n)

    def state(self, *key):
        """Record a distinct abstract state / situation that was seen."""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def nontrivial(self, *key):
        """This case exercised what the property is about (key makes it distinct)."""
        self.trivial = False
        self.fingerprint = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()

    def fail(self, msg, key=None, **detail):
        d = dict(self.info)
        d.update(detail)
        raise Violation(msg, plain(d), key)

    def check(self, cond, msg, key=None, **detail):
        if not cond:
            self.fail(msg, key, **detail)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="nfv-case-")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def load_check(prop):
    return importlib.import_module("checks.%s" % prop.lower())


def _is_infra(e):
    if isinstance(e, (HarnessError, MemoryError, KeyboardInterrupt)):
        return True
    if isinstance(e, OSError) and e.errno in (28, 24, 12, 11):  # ENOSPC, EMFILE, ENOMEM, EAGAIN
        return True
    return False


def _in_repo(tb):
    frames = traceback.extract_tb(tb)
    pre = os.path.join(REPO, "norfair") + os.sep
    return any(f.filename.startswith(pre) for f in frames)


def run_case(mod, seed, index, tier, nf, limit_s=None, count_lines=False):
    """Run one case; returns (ctx, violation dict or None, infra message or None)."""
    ctx = Ctx(mod.PROP, seed, index, tier, nf)
    pre = os.path.join(REPO, "norfair") + os.sep
    limit_s = limit_s or getattr(mod, "CASE_S", 60)
    lines = [0]

    def on_alarm(signum, frame):
        raise CaseTimeout()

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(pre):
            return None
        return local

    def local(frame, event, arg):
        lines[0] += 1
        if lines[0] > STEP_LIMIT:
            raise CaseTimeout()
        return local

    viol = infra = None
    old = signal.signal(signal.SIGALRM, on_alarm)
    try:
        signal.setitimer(signal.ITIMER_REAL, limit_s)
        if count_lines:
            sys.settrace(tracer)
        try:
            mod.case(ctx)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        viol = {"message": v.msg, "detail": v.detail, "key": v.key}
    except CaseTimeout:
        if count_lines and lines[0] > STEP_LIMIT:
            viol = {"message": "update does not terminate: more than %d lines executed in one case" % STEP_LIMIT,
                    "detail": plain(ctx.info), "key": "nontermination"}
        else:
            infra = "timeout"
    except BaseException as e:
        if _is_infra(e):
            infra = "%s: %s" % (type(e).__name__, e)
        else:
            tb = traceback.format_exc()
            viol = {"message": "unexpected exception %s: %s" % (type(e).__name__, str(e)[:300]),
                    "detail": {"traceback": tb[-3000:], "in_norfair": _in_repo(e.__traceback__), **plain(ctx.info)},
                    "key": None}
    finally:
        signal.signal(signal.SIGALRM, old)
        ctx.cleanup()
    if infra == "timeout" and not count_lines:
        # wall time alone never decides: count executed lines instead
        return run_case(mod, seed, index, tier, nf, limit_s=max(240, 4 * limit_s), count_lines=True)
    return ctx, viol, infra


def worker_main(argv):
    prop, tier, seed, wid, nworkers, total, deadline, outdir = argv
    seed, wid, nworkers, total, deadline = int(seed), int(wid), int(nworkers), int(total), float(deadline)
    out = os.path.join(outdir, "w%d.json" % wid)
    journal = os.open(os.path.join(outdir, "w%d.cur" % wid), os.O_CREAT | os.O_RDWR, 0o600)
    err = os.path.join(outdir, "w%d.err" % wid)
    devnull = os.open(os.devnull, os.O_WRONLY)
    errfd = os.open(err, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    res = {"counters": {}, "states": [], "fps": [], "evaluations": 0, "nontrivial": 0, "samples": [], "violations": [],
           "infra": [], "truncated": False}
    try:
        from . import boot

        nf = boot.load()
        mod = load_check(prop)
        stop = os.path.join(outdir, "stop")
        states, fps = set(), set()
        for index in range(wid, total, nworkers):
            if time.time() > deadline:
                res["truncated"] = True
                break
            if os.path.exists(stop):
                break
            os.pwrite(journal, b"%-20d" % index, 0)
            ctx, viol, infra = run_case(mod, seed, index, tier, nf)
            res["evaluations"] += 1
            for k, v in ctx.counters.items():
                res["counters"][k] = res["counters"].get(k, 0) + v
            if len(states) < 200000:
                states |= ctx.states
            if not ctx.trivial:
                res["nontrivial"] += 1
                fps.add(ctx.fingerprint)
            if ctx.sample is not None and len(res["samples"]) < 2 and not viol:
                res["samples"].append(plain(ctx.sample))
            if viol:
                viol["index"] = index
                res["violations"].append(viol)
                open(stop, "w").close()
                break
            if infra:
                res["infra"].append("case %d: %s" % (index, infra))
                if len(res["infra"]) > 3:
                    break
        res["states"] = [s.hex() for s in states]
        res["fps"] = [s.hex() for s in fps]
    except BaseException as e:
        res["infra"].append("worker: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        if not _is_infra(e) and _in_repo(e.__traceback__):
            res["violations"].append({"message": "norfair cannot be imported: %s: %s" % (type(e).__name__, e), "index": -1,
                                      "detail": {"traceback": traceback.format_exc()[-2000:]}, "key": None})
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    os.close(errfd)


def known_findings():
    """Open findings (defects of norfair that are recorded rather than repaired)."""
    p = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                prop = line.split("property=", 1)[1].split()[0]
                key = line.split("key=", 1)[1].split()[0]
                found.append((prop, key, line))
    return found


def run_check(prop, tier, seed):
    t0 = time.time()
    mod = load_check(prop)
    total = mod.CASES[tier]
    cap = getattr(mod, "CAP_S", {}).get(tier, 240 if tier == "quick" else 600)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = max(8, int(total * scale))
    nworkers = min(int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1)))), total)
    outdir = tempfile.mkdtemp(prefix="nfv-run-")
    os.environ["TMPDIR"] = outdir
    deadline = t0 + cap
    procs = []
    try:
        for w in range(nworkers):
            procs.append(subprocess.Popen(
                [sys.executable, "-m", "nfv.worker", prop, tier, str(seed), str(w), str(nworkers), str(total),
                 str(deadline), outdir], cwd=VERIF, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                start_new_session=True))
        hard = deadline + 300
        infra, viols = [], []
        agg = {"evaluations": 0, "nontrivial": 0, "counters": {}, "samples": [], "truncated": False}
        states, fps = set(), set()
        for w, p in enumerate(procs):
            try:
                p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                infra.append("worker %d did not finish" % w)
            out = os.path.join(outdir, "w%d.json" % w)
            cur = -1
            try:
                cur = int(open(os.path.join(outdir, "w%d.cur" % w)).read().strip() or -1)
            except (OSError, ValueError):
                pass
            if not os.path.exists(out):
                if p.returncode is not None and p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS):
                    viols.append({"message": "the process crashed with signal %d in case %d" % (-p.returncode, cur), "index": cur,
                                  "detail": {}, "key": None})
                else:
                    infra.append("worker %d ended with %s in case %d" % (w, p.returncode, cur))
                continue
            r = json.load(open(out))
            agg["evaluations"] += r["evaluations"]
            agg["nontrivial"] += r["nontrivial"]
            agg["truncated"] |= r["truncated"]
            for k, v in r["counters"].items():
                agg["counters"][k] = agg["counters"].get(k, 0) + v
            states.update(r["states"])
            fps.update(r["fps"])
            agg["samples"] += r["samples"]
            viols += r["violations"]
            infra += r["infra"]
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(outdir, ignore_errors=True)

    viols.sort(key=lambda v: v["index"])
    known = {(p, k): line for p, k, line in known_findings()}
    lines, real = [], []
    for v in viols:
        if (prop, v.get("key")) in known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, v["message"]))
        else:
            real.append(v)
    for line in lines:
        print(line)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    floors = getattr(mod, "FLOORS", {})
    short = {k: (agg["counters"].get(k, 0), v) for k, v in floors.items() if agg["counters"].get(k, 0) < v * min(scale, 1)}
    inconclusive = bool(infra) or (bool(short) and not real)
    cov = {
        "evaluations": agg["evaluations"],
        "distinct_nontrivial": len(fps),
        "rule": mod.RULE,
        "samples": agg["samples"][:3],
        "observed": dict(sorted(agg["counters"].items())),
        "distinct_states": len(states),
        "planned_cases": total,
        "stopped_by_time_cap": agg["truncated"],
    }
    if infra:
        cov["infrastructure"] = infra[:5]
    if short:
        cov["below_floor"] = {k: "%d of %d" % v for k, v in short.items()}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    with open(os.path.join(evdir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    if real:
        v = real[0]
        path = os.path.join(evdir, "replay", "%s-%d-%d.json" % (prop, seed, v["index"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "case": v["index"], "message": v["message"],
                       "detail": v["detail"], "reproduce": "./check.sh %s replay %s" % (prop, path)}, f, indent=1)
        print("%s: %s" % (prop, v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %s" % (prop, "; ".join(infra[:3]) or json.dumps(cov.get("below_floor"))))
        return 2
    print("HELD property=%s %d cases, %d distinct non-trivial, %d states, %.1f s" % (
        prop, agg["evaluations"], len(fps), len(states), time.time() - t0))
    return 0


def replay(prop, path):
    from . import boot

    d = json.load(open(path))
    nf = boot.load()
    mod = load_check(prop)
    ctx, viol, infra = run_case(mod, d["seed"], d["case"], d["tier"], nf)
    if viol:
        print(json.dumps(viol, indent=1))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced" if not infra else "infrastructure: %s" % infra)
    return 2 if infra else 0
