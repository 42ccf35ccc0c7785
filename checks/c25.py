"""C25: detection files are parsed into one detection per row, under the right frame."""
import os

import numpy as np

PROP = "C25"
RULE = ("seeded random det.txt files (any row order, counts per frame, missing frames, no or one row, rows of other frames, 7 or 10 columns, "
        "integers and decimals, spaces and CRLF) parsed with DetectionFileParser; every iteration is compared, frame by frame as a multiset, "
        "with the rows the harness wrote; iterated repeatedly and partially; non-trivial when at least two rows belong to frames in range")
ASSUMPTIONS = ["values are compared at single precision (the parser's), i.e. 1e-6 relative to the coordinates"]
CASES = {"quick": 11000, "thorough": 80000}
FLOORS = {"big_files": 6, "long_sequences": 1, "rows": 560000, "empty_frames": 330000, "no_rows": 1000, "one_row": 1200, "seven_columns": 1900,
          "shuffled": 1200, "out_of_range": 1800, "repeated_iterations": 5900, "partial_iterations": 2900, "info_given": 1800,
          "duplicate_rows": 26000, "crowded": 92}


def num(rng, v):
    k = rng.random()
    if k < 0.3:
        return "%d" % round(v), float(round(v))
    s = rng.choice(["%.1f", "%.2f", "%.3f", "%.6f", "%g", "%.4e"]) % v
    return s, float(s)


def case(ctx):
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    inp = os.path.join(root, "seq")
    os.makedirs(os.path.join(inp, "det"))
    length = rng.choice([1, 1, 2, 3, 5, 10, 30]) if ctx.index % 100 != 13 else rng.choice([300, 700])
    ncol = rng.choice([7, 10, 10])
    style = rng.choice(["dense", "sparse", "one", "none", "random", "random"])
    if ctx.index % 5000 == 613:
        # hours of video, detections here and there
        length, style = rng.choice([100030, 131080]), "long"
        ctx.count("long_sequences")
    if ctx.index % 1000 == 217:
        length, style = rng.choice([40, 60]), "big"
        ctx.count("big_files")
    frames = list(range(1, length + 1))
    rows = []
    if style == "one":
        frames_of_rows = [rng.choice(frames)]
    elif style == "none":
        frames_of_rows = []
    elif style == "long":
        frames_of_rows = [f for a in (1, 32760, 65530, 99990, length - 12) for f in range(a, a + 12) for _ in range(rng.choice([0, 1, 1, 2]))]
    elif style == "big":
        frames_of_rows = [f for f in frames for _ in range(rng.choice([100, 200]))]
    elif style == "dense":
        frames_of_rows = [f for f in frames for _ in range(rng.choice([1, 2, 5, 12]))]
    elif style == "sparse":
        frames_of_rows = [f for f in frames if rng.random() < 0.3 for _ in range(rng.choice([1, 2]))]
    else:
        frames_of_rows = [f for f in frames for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 17]))]
    if rng.random() < 0.015:
        # a crowded frame
        at = rng.randrange(len(frames_of_rows) + 1)
        frames_of_rows[at:at] = [rng.choice(frames)] * rng.choice([150, 300, 700, 1100])
        ctx.count("crowded")
    if rng.random() < 0.3:
        frames_of_rows += [length + rng.choice([1, 2, 50]) for _ in range(rng.choice([1, 3]))]
        ctx.count("out_of_range")
    order = rng.choice(["sorted", "shuffled", "reversed"])
    if order == "shuffled":
        rng.shuffle(frames_of_rows)
        ctx.count("shuffled", len(frames_of_rows) > 1)
    elif order == "reversed":
        frames_of_rows.reverse()
    for f in frames_of_rows:
        if rows and rng.random() < 0.1:
            prev = rng.choice(rows)
            rows.append((f, prev[1], prev[2]))
            ctx.count("duplicate_rows")
            continue
        texts, vals = [], []
        for v in (rng.uniform(-50, 1900), rng.uniform(-50, 1000), rng.choice([0.0, 0.04, 0.5, rng.random()]) if rng.random() < 0.1 else rng.uniform(1, 400), rng.uniform(1, 400), rng.choice([rng.random(), rng.uniform(-5, 100), 1.0])):
            s, x = num(rng, v)
            texts.append(s)
            vals.append(x)
        rows.append((f, texts, vals))
    sep = rng.choice([",", ",", ", "])
    eol = rng.choice(["\n", "\n", "\r\n"])
    fnum = rng.choice(["%d", "%d", "%.1f"])
    text = eol.join(sep.join([fnum % f, rng.choice(["-1", "7"])] + t + ["-1"] * (ncol - 7)) for f, t, _ in rows)
    if rows and rng.random() < 0.8:
        text += eol
    open(os.path.join(inp, "det", "det.txt"), "w", newline="").write(text)
    seqinfo = "[Sequence]\nname=seq\nseqLength=%d\nimExt=.jpg\n" % length
    if rng.random() < 0.3:
        p = os.path.join(root, "info.ini")
        open(p, "w").write(seqinfo)
        parser = nf.metrics.DetectionFileParser(inp, information_file=nf.metrics.InformationFile(p))
        ctx.count("info_given")
    else:
        open(os.path.join(inp, "seqinfo.ini"), "w").write(seqinfo)
        parser = nf.metrics.DetectionFileParser(inp)
    ctx.info = {"rows": len(rows), "length": length, "style": style, "order": order, "columns": ncol, "text": text[:400]}
    ctx.count("no_rows", not rows)
    ctx.count("one_row", len(rows) == 1)
    ctx.count("seven_columns", ncol == 7)
    want = {f: [] for f in frames}
    for g, _, v in rows:
        if g in want:
            want[g].append(tuple(v))
    for v in want.values():
        v.sort()

    def compare(f, dets):
        ctx.check(isinstance(dets, list) and len(dets) == len(want[f]), "wrong number of detections in a frame", frame=f, got=len(dets), want=len(want[f]))
        got = []
        for d in dets:
            ctx.check(isinstance(d, nf.Detection) and d.points.shape == (2, 2) and np.shape(d.scores) == (2,), "a detection is not a box with two scores",
                      frame=f, points=d.points, scores=d.scores)
            ctx.check(d.scores[0] == d.scores[1], "the scores of the two corners differ", frame=f, scores=d.scores)
            got.append((d, tuple(float(x) for x in d.points.ravel()) + (float(d.scores[0]),)))
        left = list(want[f])
        for d, g in got:
            hit = None
            for w in left:
                e = (w[0], w[1], w[0] + w[2], w[1] + w[3], w[4])
                if all(abs(a - b) <= 1e-6 * max(1.0, abs(b), abs(w[0]), abs(w[1])) for a, b in zip(g, e)):
                    hit = w
                    break
            ctx.check(hit is not None, "a detection does not correspond to a row of its frame", frame=f, got=g, rows=want[f])
            left.remove(hit)
        ctx.count("rows", len(got))
        ctx.count("empty_frames", not got)

    for it in range(rng.choice([1, 2, 3])):
        if it and rng.random() < 0.5:
            # stop in the middle, then start over
            for k, _ in enumerate(parser):
                if k >= rng.randrange(length):
                    break
            ctx.count("partial_iterations")
        seen = 0
        for f, dets in enumerate(parser, start=1):
            ctx.check(f <= length, "more frames than seqLength", frame=f)
            compare(f, dets)
            seen += 1
        ctx.check(seen == length, "the parser ended before seqLength", got=seen, want=length)
        ctx.count("repeated_iterations", it > 0)
    f = rng.choice(frames)
    compare(f, parser.get_dets_from_frame(f))
    ctx.state(length, style, order, ncol, min(len(rows), 10))
    inr = sum(len(v) for v in want.values())
    if inr > 1:
        ctx.nontrivial(text)
        ctx.sample = {"rows": len(rows), "length": length, "order": order, "first": rows[0][2]}
