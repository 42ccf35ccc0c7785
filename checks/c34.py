"""C34: Cut-outs and debug output reflect their objects."""
import contextlib
import io
import re
import warnings

import numpy as np

from nfv import draw

PROP = "C34"
RULE = ("seeded random point sets (any number, order and position, integers and fractions, partly or wholly outside) and images through "
        "get_cutout, compared with the pixels selected by a definition per pixel; tables and reprs of real TrackedObjects in every state "
        "(initializing, never matched, dying) parsed back and compared with the objects, which must stay as they were; non-trivial when a "
        "cut-out had pixels or a table had rows")
ASSUMPTIONS = ["the points are finite", "tables are printed to a stream at least 80 columns wide"]
CASES = {"quick": 24000, "thorough": 200000}
FLOORS = {"exact_repeats": 2200, "cutouts": 13000, "empty": 39000, "empty_tables": 2100, "matched": 6800, "never_matched": 13000, "no_id": 2500,
          "pixels": 7700000, "reprs": 19000, "rows": 19000, "where_above": 7400, "where_across": 7500, "where_below": 7500, "where_far": 7500,
          "where_inside": 7600, "where_left": 7500, "where_right": 7500}


def cutout(ctx):
    from norfair.utils import get_cutout

    rng = ctx.rng
    for _ in range(8):
        w, h = rng.randrange(1, 40), rng.randrange(1, 40)
        shape = (h, w) if rng.random() < 0.2 else (h, w, rng.choice([1, 3, 4]))
        img = ctx.nprng.integers(0, 256, shape, dtype=np.uint8)
        n = rng.choice([1, 2, 2, 2, 3, 4, 17])
        where = rng.choice(["inside", "across", "left", "above", "right", "below", "far"])
        lo, hi = {"inside": ((0, 0), (w, h)), "across": ((-w, -h), (2 * w, 2 * h)), "left": ((-2 * w, 0), (-1, h)), "above": ((0, -2 * h), (w, -1)),
                  "right": ((w, 0), (3 * w, h)), "below": ((0, h), (w, 3 * h)), "far": ((-1e6, -1e6), (1e6, 1e6))}[where]
        p = ctx.nprng.uniform(lo, hi, (n, 2))
        if rng.random() < 0.4:
            p = np.round(p)
        if rng.random() < 0.3:
            p = p.astype(rng.choice([int, np.int32, np.float32]))
        pk, ik = p.copy(), img.copy()
        got = get_cutout(p, img)
        ctx.check(np.array_equal(p, pk) and np.array_equal(img, ik), "get_cutout changed its arguments")
        xs, ys = [int(v) for v in p[:, 0]], [int(v) for v in p[:, 1]]
        rows = [y for y in range(h) if min(ys) <= y < max(ys)]
        cols = [x for x in range(w) if min(xs) <= x < max(xs)]
        exp = img[np.ix_(rows, cols)] if rows and cols else None
        d = dict(points=p[:6], image=[w, h], got=got.shape, rows=[rows[:1], rows[-1:]], cols=[cols[:1], cols[-1:]])
        if exp is None:
            ctx.check(got.size == 0, "the cut-out has pixels outside the rectangle of the points", **d)
            ctx.count("empty")
        else:
            ctx.check(got.shape == exp.shape and np.array_equal(got, exp), "the cut-out is not the image inside the rectangle of the points", **d)
            ctx.count("pixels", exp.size)
            ctx.count("cutouts")
            ctx.nontrivial(p.tolist(), w, h)
            ctx.state(where, n, len(shape))
        ctx.count("where_" + where)


ROW = re.compile(r"[│┃|]")


def debug(ctx):
    from norfair.utils import print_objects_as_table

    rng, nf = ctx.rng, ctx.nf
    dist = rng.choice(["frobenius", "mean_euclidean", lambda d, o: -float(np.abs(d.points - o.estimate).sum()) - rng.random()])
    tr = nf.Tracker(dist, rng.choice([5, 50, 1e3, 1e-3]), hit_counter_max=rng.choice([2, 5, 15]), initialization_delay=rng.choice([0, 0, 1]),
                    reid_distance_function=rng.choice([None, lambda a, b: 1e9]), reid_hit_counter_max=5)
    noise = rng.choice([1, 1, 0])
    ctx.count("exact_repeats", noise == 0)
    for t in range(rng.choice([1, 2, 5, 12])):
        dets = [nf.Detection(noise * ctx.nprng.normal(0, 1, (2, 2)) + 60 * i + rng.choice([0, 0, 0.01]) * t, label=rng.choice([None, "x"])) for i in range(rng.choice([0, 1, 2, 4]))]
        ret = tr.update(dets, period=rng.choice([1, 1, 2]))
    objs = rng.choice([lambda: list(tr.tracked_objects), lambda: ret, lambda: tuple(tr.tracked_objects), lambda: []])()
    before = [draw.state_of(o) for o in objs]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = print_objects_as_table(objs)
    reprs = [repr(o) for o in objs]
    strs = [str(o) for o in objs]
    for o, b in zip(objs, before):
        k = draw.same_state(b, draw.state_of(o))
        ctx.check(k is None, "printing or repr changed an object", attribute=k)
    out = buf.getvalue()
    lines = [re.sub(r"\x1b\[[0-9;]*m", "", l) for l in out.splitlines()]
    rows = [[c.strip() for c in ROW.split(l)[1:-1]] for l in lines if ROW.search(l)]
    rows = [r for r in rows if len(r) == 5]
    heads = [r for r in rows if any(c.isalpha() for c in "".join(r)) and "None" not in r]
    body = [r for r in rows if r not in heads]
    ctx.info = {"output": lines[:30], "objects": [(o.id, o.age, o.hit_counter, o.last_distance, o.initializing_id) for o in objs]}
    ctx.check(len(body) == len(objs), "the table does not have one row per object", rows=len(body), objects=len(objs))
    names = [" ".join(c).lower() for c in zip(*heads)]
    ctx.check(len(names) == 5 and all(k in n for k, n in zip(("id", "age", "hit", "distance", "init"), names)), "the columns of the table are not named",
              heads=names)
    for o, row in zip(objs, body):
        ok = row[0] == str(o.id) and row[1] == str(o.age) and row[2] == str(o.hit_counter) and row[4] == str(o.initializing_id)
        ctx.check(ok, "a row of the table does not describe its object", row=row)
        if o.last_distance is None:
            ctx.check(not any(c.isdigit() for c in row[3]), "an object never matched has a last distance", row=row)
            ctx.count("never_matched")
        else:
            ctx.check(abs(float(row[3]) - o.last_distance) <= 1e-4 * max(1, abs(o.last_distance)), "a row shows another last distance", row=row)
            ctx.count("matched")
        ctx.count("rows")
        ctx.count("no_id", o.id is None)
    for o, s, s2 in zip(objs, reprs, strs):
        plain = re.sub(r"\x1b\[[0-9;]*m", "", s)
        ctx.check(plain.startswith("Object_%s" % o.id) and "age: %s," % o.age in plain and "hit_counter: %s," % o.hit_counter in plain
                  and "init_id: %s" % o.initializing_id in plain, "the repr does not describe its object", repr=plain)
        m = re.search(r"last_distance: ([^,]+),", plain)
        if o.last_distance is None:
            ctx.check(m and m.group(1) == "None", "the repr of an object never matched has a last distance", repr=plain)
        else:
            ctx.check(m and abs(float(m.group(1)) - o.last_distance) <= 0.0051 * max(1, abs(o.last_distance)), "the repr shows another last distance", repr=plain)
        ctx.count("reprs")
    dets_repr = repr(nf.Detection(np.zeros((1, 2))))
    ctx.check(isinstance(dets_repr, str), "no repr")
    if objs:
        ctx.nontrivial("table", ctx.info["objects"])
        ctx.state("table", len(objs), [o.id is None for o in objs], [o.last_distance is None for o in objs])
        if ctx.index < 6:
            ctx.sample = {"table": lines[:12], "repr": reprs[:2]}
    else:
        ctx.count("empty_tables")


def case(ctx):
    warnings.simplefilter("ignore")
    cutout(ctx) if ctx.index % 2 else debug(ctx)
