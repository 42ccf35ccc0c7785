"""C26: MOT metrics count exactly the errors that were made."""
import os
from types import SimpleNamespace

import numpy as np

PROP = "C26"
RULE = ("seeded random ground truths of well-separated boxes over one to four sequences, with injected misses, far-away false positives and "
        "identity changes (in any combination, frames and sequences without predictions included), evaluated with Accumulators; the counts per "
        "sequence and OVERALL are compared with the injected ones, the MOTA recomputed from them, and the saved file is read back; non-trivial "
        "when at least one error was injected")
ASSUMPTIONS = ["sequences have different folder names and every sequence has ground truth"]
CASES = {"quick": 2400, "thorough": 16000}
CASE_S = 120
FLOORS = {"tiny_boxes": 720, "sequences": 2800, "multi": 870, "perfect": 480, "misses": 14000, "false_positives": 7900, "switches": 1100,
          "empty_frames": 8000, "no_predictions": 450, "one_prediction": 460, "static_objects": 2300, "saved": 790, "none_updates": 2400,
          "switch_after_gap": 240, "motp": 3000, "inexact_matches": 10000, "poor_boxes": 1500, "ignored_rows": 2800, "saved_again": 320}


def iou(a, b):
    w = min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0])
    h = min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1])
    i = max(w, 0.0) * max(h, 0.0)
    return i / (a[2] * a[3] + b[2] * b[3] - i)


def off_by(rng, box, lo, hi):
    """A box whose overlap with the given one is between lo and hi."""
    while True:
        t = rng.uniform(lo, hi)
        d = (1 - t) / (1 + t)
        k = rng.random()
        if k < 0.3:
            c = (box[0] + rng.choice([-1, 1]) * box[2] * d, box[1], box[2], box[3])
        elif k < 0.6:
            c = (box[0], box[1] + rng.choice([-1, 1]) * box[3] * d, box[2], box[3])
        elif k < 0.8:
            c = (box[0], box[1], box[2] * t, box[3])
        else:
            c = (box[0], box[1], box[2], box[3] / t)
        if lo <= iou(box, c) <= hi:
            return c


def gen_sequence(ctx, rng, style):
    length = rng.choice([1, 2, 3, 6, 12, 20])
    nobj = rng.choice([1, 2, 3, 5])
    gt = {}
    dist = []
    small = rng.random() < 0.3
    tiny = rng.random() < 0.3
    for o in range(nobj):
        a = rng.randint(1, length)
        b = rng.randint(a, length)
        if rng.random() < 0.5:
            a, b = 1, length
        w, h = rng.uniform(20, 60), rng.uniform(20, 60)
        if small:
            w, h = rng.uniform(4, 9), rng.uniform(4, 9)
            if tiny:
                w, h = rng.uniform(0.3, 0.95), rng.uniform(0.3, 0.95)
                ctx.count("tiny_boxes")
        vx = rng.uniform(-3, 3)
        if rng.random() < 0.3:
            vx, w, h = 0.0, 40.0, 50.0  # stands still: its box is the same in every frame
            ctx.count("static_objects")
        for f in range(a, b + 1):
            if rng.random() < 0.9 or f == a:
                gt[(f, o + 1)] = (200.0 * o + 50 + vx * f, 80.0 * (o % 3) + 30, w, h)
    preds = {f: [] for f in range(1, length + 1)}  # frame -> [(id, box)]
    misses = fps = switches = 0
    ids = {o: o + 101 for o in range(1, nobj + 1)}
    last = {}
    nextid = 500
    for f in range(1, length + 1):
        for o in range(1, nobj + 1):
            box = gt.get((f, o))
            if box is None:
                continue
            if style == "none":
                misses += 1
                continue
            if style == "errors" and rng.random() < 0.2:
                misses += 1
                if rng.random() < 0.4:
                    # there is a box, but it covers too little of the object
                    nextid += 1
                    fps += 1
                    preds[f].append((rng.choice([nextid, ids[o]]), off_by(rng, box, 0.2, 0.45) if rng.random() < 0.7 else off_by(rng, box, 0.492, 0.499)))
                    ctx.count("poor_boxes")
                continue
            if style == "errors" and rng.random() < 0.1:
                nextid += 1
                ids[o] = nextid
            if o in last and last[o][0] != ids[o]:
                switches += 1
                ctx.count("switch_after_gap", last[o][1] < f - 1)
            last[o] = (ids[o], f)
            guess = box
            if style != "perfect" and rng.random() < 0.5:
                guess = off_by(rng, box, *rng.choice([(0.9, 0.99), (0.9, 0.99), (0.55, 0.75), (0.501, 0.51)]))
                ctx.count("inexact_matches")
            dist.append(1 - iou(box, guess))
            preds[f].append((ids[o], guess))
        if style == "errors":
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                nextid += 1
                fps += 1
                preds[f].append((nextid, (rng.uniform(0, 500), 3000.0 + 500 * rng.random() + 700 * (nextid % 7), 30.0, 30.0)))
        rng.shuffle(preds[f])
    if style == "one":
        misses = fps = switches = 0
        keep = rng.choice([f for f in preds if preds[f]])
        first = preds[keep][0]
        dist = [1 - max(iou(b, first[1]) for (f, o), b in gt.items() if f == keep)]
        for f in preds:
            preds[f] = [first] if f == keep else []
        misses = len(gt) - 1
    # ids of long runs and of several trackers are large and far apart
    base, step = rng.choice([(0, 1), (0, 1), (1, 1000), (0, 256), (0, 65536), (2000000, 1), (7, 10), (1 << 31, 1)])
    preds = {f: [(base + step * i, b) for i, b in v] for f, v in preds.items()}
    return {"length": length, "gt": gt, "dist": dist, "preds": preds, "misses": misses, "fps": fps, "switches": switches, "style": style}


def case(ctx):
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    nseq = rng.choice([1, 1, 2, 2, 3, 4])
    acc = nf.metrics.Accumulators()
    seqs = []
    names = ["MOT-%02d" % i for i in range(1, 9)]
    rng.shuffle(names)
    for s in range(nseq):
        style = rng.choice(["perfect", "errors", "errors", "errors", "none", "one"])
        q = gen_sequence(ctx, rng, style)
        q["name"] = names[s]
        path = os.path.join(root, names[s])
        os.makedirs(os.path.join(path, "gt"))
        rows = ["%d,%d,%r,%r,%r,%r,1,1,1" % (f, o, b[0], b[1], b[2], b[3]) for (f, o), b in q["gt"].items()]
        if rng.random() < 0.4:
            # rows that are marked as not to be evaluated, wherever they are
            for _ in range(rng.randint(1, 4)):
                f = rng.randint(1, q["length"])
                rows.append("%d,%d,%r,%r,30.0,30.0,%s,1,1" % (f, 50 + len(rows), rng.uniform(0, 900), rng.uniform(0, 300), rng.choice(["0", "0", "0.6"])))
                ctx.count("ignored_rows")
        rng.shuffle(rows)
        open(os.path.join(path, "gt", "gt.txt"), "w").write("\n".join(rows) + "\n")
        ini = os.path.join(path, "seqinfo.ini")
        open(ini, "w").write("[Sequence]\nname=%s\nseqLength=%d\n" % (names[s], q["length"]))
        q["path"] = path
        seqs.append(q)
    ctx.info = {"sequences": [{k: q[k] for k in ("name", "length", "misses", "fps", "switches", "style")} for q in seqs]}
    for q in seqs:
        if rng.random() < 0.3:
            acc.create_accumulator(q["path"], nf.metrics.InformationFile(os.path.join(q["path"], "seqinfo.ini")))
        else:
            acc.create_accumulator(q["path"])
        for f in range(1, q["length"] + 1):
            objs = [SimpleNamespace(id=i, estimate=np.array([[b[0], b[1]], [b[0] + b[2], b[1] + b[3]]])) for i, b in q["preds"][f]]
            if not objs and rng.random() < 0.3:
                acc.update()
                ctx.count("none_updates")
            else:
                acc.update(predictions=objs) if rng.random() < 0.5 else acc.update(objs)
            ctx.count("empty_frames", not objs)
    wanted = ["num_frames", "mota", "num_misses", "num_false_positives", "num_switches", "num_objects", "num_matches", "motp"]
    overall = rng.random() < 0.8
    kw = {} if overall and rng.random() < 0.5 else {"generate_overall": overall}
    full = rng.random() < 0.3
    if not full:
        kw["metrics"] = wanted
    df = acc.compute_metrics(**kw)
    ctx.check(df is acc.summary_dataframe or df.equals(acc.summary_dataframe), "compute_metrics does not return the summary dataframe")
    rows = [q["name"] for q in seqs] + (["OVERALL"] if overall else [])
    ctx.check(sorted(df.index) == sorted(rows), "the summary does not have one row per sequence", got=list(df.index), want=rows)
    if full:
        ctx.check(set(nf.metrics.mm.metrics.motchallenge_metrics) <= set(df.columns), "default metrics are missing", got=list(df.columns))
    total = {"misses": 0, "fps": 0, "switches": 0, "n": 0}
    for q in seqs:
        for k, v in (("misses", q["misses"]), ("fps", q["fps"]), ("switches", q["switches"]), ("n", len(q["gt"]))):
            total[k] += v
    for name, m, f, s, n, d in [(q["name"], q["misses"], q["fps"], q["switches"], len(q["gt"]), q["dist"]) for q in seqs] + (
            [("OVERALL", total["misses"], total["fps"], total["switches"], total["n"], sum((q["dist"] for q in seqs), []))] if overall else []):
        r = df.loc[name]
        got = (int(r["num_misses"]), int(r["num_false_positives"]), int(r["num_switches"]))
        ctx.check(got == (m, f, s), "misses, false positives or switches are not the injected ones", row=name, got=got, want=(m, f, s))
        mota = 1 - (m + f + s) / n
        ctx.check(abs(float(r["mota"]) - mota) < 1e-9, "MOTA is wrong", row=name, got=float(r["mota"]), want=mota)
        if not full:
            ctx.check(int(r["num_objects"]) == n, "the number of ground-truth boxes is wrong", row=name, got=int(r["num_objects"]), want=n)
        if d and (name != "OVERALL" or all(q["dist"] for q in seqs)):  # (py-motmetrics: NaN if one of them is)
            # the mean distance between the boxes that were matched
            ctx.check(abs(float(r["motp"]) - sum(d) / len(d)) < 1e-6, "MOTP is wrong", row=name, got=float(r["motp"]), want=sum(d) / len(d))
            ctx.count("motp")
        if m + f + s == 0:
            ctx.check(float(r["mota"]) == 1.0, "perfect predictions do not score MOTA 1", row=name)
    if rng.random() < 0.6:
        out = os.path.join(root, rng.choice(["res", "a/b"]))
        fn = rng.choice(["metrics.txt", "m2.txt"])
        acc.save_metrics(out, fn) if fn != "metrics.txt" else acc.save_metrics(save_path=out)
        text = open(os.path.join(out, fn)).read()
        lines = text.splitlines()
        ctx.check("MOTA" in text and "MOTP" in text, "the saved summary does not name its columns", text=text)
        if rng.random() < 0.4:
            acc.save_metrics(out, fn)
            ctx.check(open(os.path.join(out, fn)).read() == text, "saving the summary again does not leave the summary")
            ctx.count("saved_again")
        for name in rows:
            ctx.check(any(ln.split()[:1] == [name] for ln in lines), "the saved summary misses a row", row=name, text=text)
        if not full:
            for q in seqs:
                ln = [x for x in lines if x.split()[:1] == [q["name"]]][0].split()
                ctx.check([int(x) for x in ln[3:6]] == [q["misses"], q["fps"], q["switches"]], "the saved summary differs", row=ln)
        ctx.count("saved")
    acc.print_metrics()
    ctx.count("sequences", nseq)
    ctx.count("multi", nseq > 1)
    for q in seqs:
        ctx.count("perfect", q["style"] == "perfect")
        ctx.count("no_predictions", q["style"] == "none")
        ctx.count("one_prediction", q["style"] == "one")
    ctx.count("misses", total["misses"])
    ctx.count("false_positives", total["fps"])
    ctx.count("switches", total["switches"])
    ctx.state(nseq, min(total["misses"], 9), min(total["fps"], 9), min(total["switches"], 9))
    if total["misses"] + total["fps"] + total["switches"]:
        ctx.nontrivial(ctx.index)
        ctx.sample = ctx.info
