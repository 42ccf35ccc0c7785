"""C24: the predictions file records every reported object exactly once."""
import os
from types import SimpleNamespace

import numpy as np

from nfv import vid

PROP = "C24"
RULE = ("seeded random sequences of predictions (real tracked objects or plain objects with id and estimate; empty frames; single and double "
        "precision, integer, tiny, huge and negative coordinates; explicit frame numbers) written with PredictionsTextFile; the file on disk is "
        "read back with an independent parser and compared line by line; after the last frame it must be complete and not open any more; "
        "non-trivial when at least two objects were written")
ASSUMPTIONS = ["the sequence folder is given without a trailing slash", "frames are numbered by the number of the update unless given"]
CASES = {"quick": 9000, "thorough": 60000}
FLOORS = {"lines": 150000, "empty_frames": 33000, "explicit_numbers": 36000, "mixed_numbers": 16000, "frame_zero": 7900, "float32": 28000,
          "integers": 23000, "tracker_objects": 14000, "extreme": 31000, "info_given": 2000, "overwritten": 990}


def estimate(rng, dt):
    mag = rng.choice([1.0, 100.0, 2000.0, 1e-6, 1e7])
    if np.issubdtype(dt, np.integer):
        return np.array([[rng.randint(-3000, 3000) for _ in range(2)] for _ in range(2)], dtype=dt)
    return np.array([[rng.uniform(-mag, mag) for _ in range(2)] for _ in range(2)]).astype(dt)


def case(ctx):
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    name = rng.choice(["MOT17-02", "seq", "a.b", "with space", "x_1"])
    inp = os.path.join(root, "in", name)
    save = os.path.join(root, "out", "deep") if rng.random() < 0.5 else os.path.join(root, "out")
    os.makedirs(inp)
    length = rng.choice([1, 2, 3, 5, 10, 25]) if ctx.index % 100 != 13 else rng.choice([300, 1100])
    seqinfo = "[Sequence]\nname=%s\nimDir=img1\nframeRate=30\nseqLength=%d\nimWidth=640\nimHeight=480\nimExt=.jpg\n" % (name, length)
    info = None
    if rng.random() < 0.4:
        p = os.path.join(root, "other.ini")
        open(p, "w").write(seqinfo)
        info = nf.metrics.InformationFile(p)
        ctx.count("info_given")
    else:
        open(os.path.join(inp, "seqinfo.ini"), "w").write(seqinfo)
    path = os.path.join(save, "predictions", name + ".txt")
    if rng.random() < 0.2:
        os.makedirs(os.path.dirname(path))
        open(path, "w").write("99,99,1,1,1,1,-1,-1,-1,-1\n" * 50)
        ctx.count("overwritten")
    os.makedirs(save, exist_ok=True)
    ptf = nf.metrics.PredictionsTextFile(inp, save_path=save, information_file=info) if info is not None else nf.metrics.PredictionsTextFile(inp, save)
    use_tracker = rng.random() < 0.25
    tracker = nf.Tracker("euclidean", distance_threshold=30, initialization_delay=0, hit_counter_max=3) if use_tracker else None
    explicit = rng.choice(["never", "always", "sometimes"])
    want = []
    dts = rng.choice([[float], [float], [np.float32], [np.int64], [float, np.float32, int]])
    frames = []
    empty_p = rng.choice([0.0, 0.3, 0.8])
    base = [estimate(rng, float) * 0.01 + 100 * i for i in range(4)]
    ctx.info = {"length": length, "explicit": explicit, "tracker": use_tracker, "name": name}
    num = rng.choice([-1, rng.randint(1, 500)])  # callers may count from 0
    for k in range(length):
        if use_tracker:
            dets = [nf.Detection(b + 0.5 * k) for b in base if rng.random() < 0.8] if rng.random() > empty_p else []
            objs = tracker.update(dets)
            rows = [(o.id, o.estimate.copy()) for o in objs]
            ctx.count("tracker_objects", bool(objs))
        else:
            n = 0 if rng.random() < empty_p else rng.choice([0, 1, 2, 3, 8])
            objs, rows = [], []
            for _ in range(n):
                e = estimate(rng, rng.choice(dts))
                i = rng.choice([rng.randint(1, 9), rng.randint(1, 10**6), np.int64(rng.randint(1, 99)), rng.randint(1, 9) + 2**rng.choice([24, 31, 53])])
                objs.append(SimpleNamespace(id=i, estimate=e.copy()))
                rows.append((i, e))
                ctx.count("extreme", np.abs(e).max() > 1e5 or np.abs(e).max() < 1e-3)
                ctx.count("float32", e.dtype == np.float32)
                ctx.count("integers", np.issubdtype(e.dtype, np.integer))
        if not rows:
            ctx.count("empty_frames")
        if explicit == "always" or (explicit == "sometimes" and rng.random() < 0.5):
            num = rng.choice([num + 1, num + 1, rng.randint(0, 2000), 0, rng.randint(0, 10**7)])
            ctx.count("frame_zero", num == 0)
            fno = num
            ptf.update(predictions=objs, frame_number=fno) if rng.random() < 0.5 else ptf.update(objs, fno)
            ctx.count("explicit_numbers")
            ctx.count("mixed_numbers", explicit == "sometimes")
        else:
            fno = k + 1
            ptf.update(objs) if rng.random() < 0.7 else ptf.update(predictions=objs)
        frames.append(len(rows))
        for i, e in rows:
            want.append((fno, int(i), e))
    ctx.check(os.path.isfile(path), "the predictions file is not where it should be", files=[str(x) for x in os.listdir(save)])
    text = open(path).read()
    ctx.check(path not in vid.open_files(), "the file is still open after seqLength updates")
    ctx.check(text == "" or text.endswith("\n"), "the last line is incomplete")
    lines = text.split("\n")[:-1]
    ctx.check(len(lines) == len(want), "the file does not have one line per reported object", lines=len(lines), reported=len(want), frames=frames)
    for ln, (fno, i, e) in zip(lines, want):
        f = ln.split(",")
        ctx.check(len(f) == 10, "a line does not have ten fields", line=ln)
        ctx.check(f[0].strip() == str(fno) and f[1].strip() == str(i), "frame number or id is wrong", line=ln, frame=fno, id=i)
        exp = [e[0, 0], e[0, 1], e[1, 0] - e[0, 0], e[1, 1] - e[0, 1]]
        for s, v, what in zip(f[2:6], exp, ("left", "top", "width", "height")):
            got = float(s)
            ok = v.dtype.type(got) == v if np.issubdtype(v.dtype, np.floating) else got == v
            ctx.check(bool(ok), "the box's %s does not read back" % what, line=ln, got=got, want=v)
        ctx.check([float(x) for x in f[6:]] == [-1.0] * 4, "the last four fields are not -1", line=ln)
    others = [os.path.join(d, x) for d, _, fs in os.walk(os.path.join(root, "out")) for x in fs]
    ctx.check(others == [path], "other files were written", files=others)
    ctx.count("lines", len(lines))
    ctx.state(length, explicit, min(len(lines), 20), use_tracker)
    if len(lines) > 1:
        ctx.nontrivial(text)
        ctx.sample = {**ctx.info, "per_frame": frames, "first_line": lines[0]}
