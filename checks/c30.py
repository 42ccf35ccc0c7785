"""C30: Drawing marks exactly what it is given, in place, and nothing else."""
import warnings

import cv2
import numpy as np

from nfv import draw

PROP = "C30"
RULE = ("seeded random sets of Detections, TrackedObjects with real histories (dead points, dead objects, no ids) and Drawables, inside, across "
        "and far outside frames of many sizes, drawn by draw_boxes / draw_points with random options; the picture is compared pixel by pixel "
        "with one painted independently with OpenCV primitives (text areas apart), the ink of titles is compared with the expected title, "
        "deprecated spellings are compared with their replacements, and the drawables with their state before; non-trivial when ink was seen")
ASSUMPTIONS = ["coordinates fit 32-bit integers", "Drawables handed to draw_points have live_points",
               "where a default radius, thickness or text size applies, any sensible one is accepted"]
CASES = {"quick": 18000, "thorough": 150000}
FLOORS = {"moved_camera": 4400, "dead_points_drawn": 2900, "dead_points_hidden": 3000, "deprecated_by_label": 200, "deprecated_off": 78,
          "deprecated_detections": 200, "deprecated_function": 200, "deprecated_label_size": 170, "deprecated_line": 200, "drawn": 25000,
          "from_Detection": 9800, "from_Drawable": 5600, "from_TrackedObject": 10000, "hidden": 3700, "no_title": 540, "not_drawable": 2400,
          "off_frame": 18000, "pictures": 5900, "primitives": 490, "random_color": 2900, "skipped_dead": 970, "title_ink": 1400, "titles": 8700,
          "windows": 1700, "one_by_one": 2300, "many": 410}
LABELS = ["car", "person", "a", 7, "", ("x", 1), 0, "traffic light (red)"]


def gen(ctx, kind, w, h):
    """[(object to draw, its points, live mask, id, label, scores)]"""
    rng, nf = ctx.rng, ctx.nf
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing.drawer import Drawable

    n = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.96 else rng.randrange(12, 70)

    def shape():
        return draw.box(rng, w, h) if kind == "box" else draw.points(rng, w, h, npts)

    npts = rng.choice([1, 2, 3, 5]) if rng.random() < 0.96 else rng.randrange(10, 60)
    src = rng.choice(["det", "obj", "drawable", "obj", "det", "mixed"])
    out = []
    if src in ("obj", "mixed"):
        for o in draw.tracked(ctx, n, shape, labels=rng.choice([None, LABELS]), ids=rng.random() < 0.7):
            out.append((o, o.estimate.copy(), o.live_points.copy(), o.id, o.label, None))
    if src in ("det", "drawable", "mixed"):
        for _ in range(n):
            p = shape()
            lab = rng.choice([None] + LABELS)
            sc = rng.choice([None, ctx.nprng.random(len(p)), np.ones(len(p)), ctx.nprng.random(len(p)) - 0.6, np.zeros(len(p))])
            if rng.random() < 0.15:
                p = p.astype(int)
            if src == "drawable" or src == "mixed" and rng.random() < 0.5:
                live = ctx.nprng.random(len(p)) < 0.6
                i = rng.choice([None, 1, 5, 123, "id7", 0, 10 ** 7 + 1])
                out.append((Drawable(points=p, id=i, label=lab, scores=sc, live_points=live), p.copy(), live.copy(), i, lab, sc))
            else:
                d = nf.Detection(p, scores=sc, label=lab)
                if rng.random() < 0.3:
                    # it has been through a tracker that follows the camera
                    d.update_coordinate_transformation(TranslationTransformation(np.array([rng.uniform(-90, 90), 15.0])))
                    ctx.count("moved_camera")
                out.append((d, p.copy(), np.ones(len(p), bool), None, lab, sc))
    return out


def title(item, labels, ids, scores):
    _, _, _, i, lab, sc = item
    t = []
    if labels and lab is not None and str(lab) != "":
        t.append(str(lab))
    if ids and i is not None:
        t.append(str(i))
    if scores and sc is not None:
        t.append(str(np.round(np.mean(sc), 4)))
    return "-".join(t)


def color_option(ctx):
    """(value for the color parameter, function item -> expected BGR or None for random)"""
    rng, nf = ctx.rng, ctx.nf
    r = rng.random()
    if r < 0.25:
        return "by_id", lambda it: tuple(nf.Palette.choose_color(it[3]))
    if r < 0.45:
        return "by_label", lambda it: tuple(nf.Palette.choose_color(it[4]))
    if r < 0.5:
        return None, lambda it: tuple(nf.Palette.choose_color(it[3]))
    c = tuple(rng.randrange(256) for _ in range(3))
    if r < 0.7:
        return c, lambda it: c
    if r < 0.85:
        return draw.hexof(c), lambda it: c
    name = rng.choice(sorted(draw.NAMED))
    return name, lambda it: draw.bgr(name)


def text_zone(zone, it, text, anchor, size, thickness, slack):
    """Where the title of an object may put ink."""
    (tw, th), base = cv2.getTextSize(text, cv2.FONT_HERSHEY_SIMPLEX, size, max(thickness, 1))
    m = slack + thickness + 3
    x0, y0, x1, y1 = anchor[0] - m, anchor[1] - th - m, anchor[0] + tw + m, anchor[1] + base + m
    h, w = zone.shape
    zone[max(0, min(h, y0)):max(0, min(h, y1 + 1)), max(0, min(w, x0)):max(0, min(w, x1 + 1))] = True


def paint(frame, items, kind, colors, radius, thickness, hide):
    out = frame.copy()
    for it, col in zip(items, colors):
        p, live = it[1], it[2]
        if kind == "box":
            cv2.rectangle(out, draw.pt(p[0]), draw.pt(p[1]), col, thickness)
        else:
            for q, l in zip(p, live):
                if l or not hide:
                    cv2.circle(out, draw.pt(q), radius, col, thickness)
    return out


def ink_crop(a, b):
    d = (a != b).any(axis=-1)
    ys, xs = np.nonzero(d)
    if len(ys) == 0:
        return None, None
    y0, y1, x0, x1 = ys.min(), ys.max(), xs.min(), xs.max()
    return a[y0:y1 + 1, x0:x1 + 1], (int(x0), int(y0))


def call(ctx, kind, frame, items, **kw):
    """Draw, checking that the frame is drawn on in place and returned and the drawables stay as they were."""
    nf = ctx.nf
    objs = [it[0] for it in items]
    before = [draw.state_of(o) for o in objs]
    size = frame.shape
    f = nf.draw_boxes if kind == "box" else nf.draw_points
    seq = ctx.rng.choice([list, tuple])(objs)
    if ctx.rng.random() < 0.5:
        got = f(frame, seq, **kw)
    else:
        got = f(frame=frame, drawables=seq, **kw)
    ctx.check(got is not None and got.shape == size and (got is frame or np.shares_memory(got, frame) and np.array_equal(got, frame)),
              "the frame is not drawn on in place and returned", returned=None if got is None else got.shape, options=kw)
    for o, b in zip(objs, before):
        k = draw.same_state(b, draw.state_of(o))
        ctx.check(k is None, "drawing changed a drawable", attribute=k, kind=type(o).__name__, options=kw)
    return got


def options(ctx, kind, w, h):
    rng = ctx.rng
    kw = {}
    if rng.random() < 0.6:
        kw["thickness"] = rng.choice([1, 2, 3, 5])
        if kind == "point" and rng.random() < 0.5:
            kw["thickness"] = -1
    if kind == "point":
        if rng.random() < 0.6:
            kw["radius"] = rng.choice([1, 2, 3, 7, 0])
        if rng.random() < 0.6:
            kw["hide_dead_points"] = rng.random() < 0.5
    for k in ("draw_labels", "draw_ids", "draw_scores"):
        if rng.random() < 0.7:
            kw[k] = rng.random() < 0.5
    return kw


def shapes(ctx):
    """The whole picture, titles apart."""
    rng, nf = ctx.rng, ctx.nf
    kind = rng.choice(["box", "point"])
    w, h = rng.choice([(120, 90), (64, 48), (200, 150), (33, 70), (640, 480), (1100, 700)])
    if w > 300 and rng.random() < 0.8:
        w, h = 100, 80
    items = gen(ctx, kind, w, h)
    frame = draw.frame(ctx, w, h)
    opt, expect = color_option(ctx)
    kw = options(ctx, kind, w, h)
    if opt != "by_id" or rng.random() < 0.5:
        kw["color"] = opt
    hide = kw.get("hide_dead_points", True)
    if len(items) > 8:  # titles would leave nothing to compare
        kw.update(draw_labels=False, draw_ids=False, draw_scores=False)
        ctx.count("many")
    show = rng.random() < 0.85
    if not show:
        kw["draw_box" if kind == "box" else "draw_points"] = False
    tsize, tthick = rng.choice([0.3, 0.5, 1.0]), rng.choice([1, 2])
    kw["text_size"], kw["text_thickness"] = tsize, tthick
    if rng.random() < 0.3:
        kw["text_color"] = rng.choice(["red", "#00ff00", (1, 2, 3)])
    ctx.info = {"kind": kind, "frame": [w, h], "options": kw, "items": [(type(i[0]).__name__, i[1], i[2], i[3], i[4], i[5]) for i in items]}
    work = frame.copy()
    call(ctx, kind, work, items, **kw)
    labels = kw.get("draw_labels", kind == "point")
    ids, scores = kw.get("draw_ids", True), kw.get("draw_scores", False)
    drawn = [it for it in items if kind == "box" or not hide or it[2].any()]
    colors = [expect(it) for it in drawn]
    zone = np.zeros((h, w), bool)
    for it in drawn:
        t = title(it, labels, ids, scores)
        if t:
            if kind == "box":
                a = draw.pt(it[1][0])
                slack = 5 + max(kw.get("thickness", 1), 1)
            else:
                m = it[1][it[2]] if it[2].any() else it[1]
                a = draw.pt(m.mean(axis=0))
                slack = 5 + 2 * kw.get("radius", 3)
            text_zone(zone, it, t, a, tsize, tthick, slack)
            ctx.count("titles")
    if not show:
        cands = [frame]
    elif kind == "box":
        ts = [kw["thickness"]] if "thickness" in kw else range(1, max(w, h) // 100 + 3)
        cands = [paint(frame, drawn, kind, colors, None, t, hide) for t in ts]
    else:
        rs = [kw["radius"]] if "radius" in kw else range(1, max(w, h) // 60 + 4)
        ts = [kw["thickness"]] if "thickness" in kw else [-1, 1, 2]
        cands = (paint(frame, drawn, kind, colors, r, t, hide) for r in rs for t in ts)
    ok, first = False, None
    for c in cands:
        if first is None:
            first = c
        if np.array_equal(c[~zone], work[~zone]):
            ok = True
            break
    ctx.check(ok, "the picture is not the one of its drawables", **(draw.diff_brief(np.where(zone[..., None], 0, first), np.where(zone[..., None], 0, work)) if not ok else {}))
    ctx.count("pictures")
    ctx.count("drawn", len(drawn))
    ctx.count("skipped_dead", len(items) - len(drawn))
    ctx.count("dead_points_drawn", 0 if kind == "box" or hide or not show else sum(int((~it[2]).sum()) for it in drawn))
    ctx.count("dead_points_hidden", 0 if kind == "box" or not hide or not show else sum(int((~it[2]).sum()) for it in drawn))
    ctx.count("hidden", 0 if show else len(drawn))
    for it in drawn:
        ctx.count("from_" + type(it[0]).__name__)
        q = it[1].astype(int)
        if (q < 0).any() or (q >= [w, h]).any():
            ctx.count("off_frame")
    # one call for all is one call for each, one after another: options and colors do not carry over from object to object
    if len(items) > 1 and rng.random() < 0.6:
        single = frame.copy()
        for it in items:
            single = call(ctx, kind, single, [it], **kw)
        ctx.check(np.array_equal(single, work), "drawing several objects at once differs from drawing them one by one", **draw.diff_brief(single, work))
        ctx.count("one_by_one")
    # in-place frames that are windows of bigger ones leave the rest alone
    if rng.random() < 0.3:
        big = ctx.nprng.integers(0, 256, (h + 20, w + 30, 3), dtype=np.uint8)
        keep = big.copy()
        win = big[7:7 + h, 11:11 + w]
        win[:] = frame
        call(ctx, kind, win, items, **kw)
        keep[7:7 + h, 11:11 + w] = work
        ctx.check(np.array_equal(big, keep), "drawing on a window of a frame does not give the same picture there", **draw.diff_brief(big, keep))
        ctx.count("windows")
    if (work != frame).any():
        ctx.nontrivial(kind, w, h, sorted(kw), len(items), work.tobytes()[:2000])
        ctx.state(kind, type(items[0][0]).__name__, opt if isinstance(opt, str) and opt.startswith("by") else "given", hide, show, labels, ids, scores)
        if ctx.index < 4:
            ctx.sample = {**ctx.info, "changed_pixels": int((work != frame).any(axis=-1).sum())}


def titles(ctx):
    """The title alone: its text, color, size and place."""
    rng, nf = ctx.rng, ctx.nf
    kind = rng.choice(["box", "point"])
    w, h = 900, 160
    items = gen(ctx, kind, w, h)[:1]
    if not items:
        return
    o = items[0][0]
    # put it where its title fits
    from norfair.drawing.drawer import Drawable

    n = len(items[0][1])
    p = np.array([[rng.uniform(30, 60), rng.uniform(70, 110)]] * n) + ctx.nprng.uniform(0, 8, (n, 2))
    if kind == "box":
        p = np.array([p[0], p[0] + [rng.uniform(5, 60), rng.uniform(5, 30)]])
    live = items[0][2]
    _, _, _, i, lab, sc = items[0]
    if isinstance(o, nf.Detection):
        o = nf.Detection(p, scores=sc, label=lab)
    elif isinstance(o, Drawable):
        o = Drawable(points=p, id=i, label=lab, scores=sc, live_points=live)
    else:
        t = nf.Tracker(distance_function="mean_euclidean", distance_threshold=1e3, initialization_delay=0 if i is not None else 1)
        t.update([nf.Detection(p, label=lab)])
        o = t.tracked_objects[0]
        i, live, p, sc = o.id, o.live_points.copy(), o.estimate.copy(), None
    item = (o, p, live, i, lab, sc)
    kw = {"draw_labels": rng.random() < 0.6, "draw_ids": rng.random() < 0.6, "draw_scores": rng.random() < 0.6}
    kw["draw_box" if kind == "box" else "draw_points"] = False
    size, thick = rng.choice([0.4, 0.5, 0.8]), rng.choice([1, 2])
    kw["text_size"], kw["text_thickness"] = size, thick
    opt, expect = color_option(ctx)
    kw["color"] = opt
    col = expect(item)
    if rng.random() < 0.4:
        tc, col = rng.choice([("red", (0, 0, 255)), ("#00ff0f", (15, 255, 0)), ((1, 2, 3), (1, 2, 3)), ("black", (0, 0, 0)), ((0, 0, 0), (0, 0, 0))])
        kw["text_color"] = tc
    if kind == "point":
        kw["hide_dead_points"] = False
        kw["radius"] = rng.choice([1, 2, 4])
    bgv = rng.choice([37, 99, 201])
    frame = np.full((h, w, 3), bgv, np.uint8)
    work = frame.copy()
    call(ctx, kind, work, [item], **kw)
    text = title(item, kw["draw_labels"], kw["draw_ids"], kw["draw_scores"])
    ctx.info = {"kind": kind, "options": kw, "id": i, "label": lab, "scores": sc, "expected_title": text}
    crop, at = ink_crop(work, frame)
    if not text:
        ctx.check(crop is None, "a title appears that was not requested or has nothing to show")
        ctx.count("no_title")
        return
    ctx.check(crop is not None, "a requested title does not appear")
    exp = frame.copy()
    a = (40, 100)
    cv2.putText(exp, text, (a[0] + 1, a[1] + 1), cv2.FONT_HERSHEY_SIMPLEX, size, (0, 0, 0), thick, cv2.LINE_AA)
    cv2.putText(exp, text, a, cv2.FONT_HERSHEY_SIMPLEX, size, col, thick, cv2.LINE_AA)
    ecrop, eat = ink_crop(exp, frame)
    ctx.check(crop.shape == ecrop.shape and np.array_equal(crop, ecrop), "the title does not show what was requested", got=crop.shape, expected=ecrop.shape)
    m = p[live] if live.any() else p
    anchor = p[0] if kind == "box" else m.mean(axis=0)
    off = np.array(at) - np.array(eat) + np.array(a) - anchor
    ctx.check(np.abs(off).max() <= 5 + thick + (0 if kind == "box" else kw["radius"]), "the title is not at its object", offset=off)
    ctx.count("title_ink")
    ctx.state("title", kind, type(o).__name__, kw["draw_labels"], kw["draw_ids"], kw["draw_scores"], i is None, lab is None, sc is None)
    ctx.nontrivial("title", text, size, thick, col, bgv)


def deprecated(ctx):
    """Old names and parameters give the same picture."""
    rng, nf = ctx.rng, ctx.nf
    w, h = rng.choice([(320, 240), (200, 300), (320, 240), (200, 300), (1040, 200)])
    kind = rng.choice(["box", "point"])
    items = gen(ctx, kind, w, h)
    objs = [it[0] for it in items]
    frame = draw.frame(ctx, w, h)
    A, B = frame.copy(), frame.copy()
    kw = options(ctx, kind, w, h)
    color = rng.choice([None, (1, 200, 3), "#ff00aa", "red"])
    how = rng.choice(["by_label", "detections", "label_size", "line", "function"])
    if how == "line" and kind == "point":
        kind = "box"
        items = gen(ctx, kind, w, h)
        objs = [it[0] for it in items]
        kw = options(ctx, kind, w, h)
    f = nf.draw_boxes if kind == "box" else nf.draw_points
    if how == "by_label":
        flag = rng.random() < 0.6
        kw.pop("color", None)
        if flag:
            f(A, objs, color_by_label=True, **kw)
            f(B, objs, color="by_label", **kw)
        else:
            off = {"random_color": False} if kind == "box" and rng.random() < 0.5 else {"color_by_label": False}
            k = rng.choice(["by_id", "by_label", "red", None, (3, 4, 5)])
            f(A, objs, color=k, **off, **kw)
            f(B, objs, color=k, **kw)
            ctx.count("deprecated_off")
    elif how == "detections":
        f(A, detections=objs, **kw)
        f(B, objs, **kw)
    elif how == "label_size":
        s = rng.choice([1, 2, 0.5])
        f(A, objs, label_size=s, **kw)
        f(B, objs, text_size=s, **kw)
    elif how == "line":
        kw.pop("thickness", None)
        t, c = rng.choice([0, 0, 1, 2, 4]), rng.choice([(9, 8, 7), "red", "by_label", (0, 0, 0)])
        f(A, objs, line_width=t, line_color=c, **({"thickness": rng.choice([2, 5]), "color": "blue"} if rng.random() < 0.5 else {}), **kw)
        f(B, objs, thickness=t, color=c, **kw)
    elif kind == "box":
        lab, size, wd = rng.random() < 0.5, rng.choice([1, 2, None]), rng.choice([1, 3, None])
        byl, show, idt = rng.random() < 0.4, rng.random() < 0.7, rng.choice([1, 2, None])
        ids = rng.random() < 0.6
        old = dict(border_colors=color, border_width=wd, id_size=size if ids and size else None if not ids else 1, id_thickness=idt, draw_box=show,
                   color_by_label=byl, draw_labels=lab)
        nf.draw_tracked_boxes(A, objs, **old)
        nf.draw_boxes(B, objs, color="by_label" if byl else color, thickness=wd, text_size=old["id_size"], text_thickness=idt,
                      draw_labels=lab, draw_ids=old["id_size"] is not None, draw_box=show)
        ctx.info = {"old": old}
    else:
        lab, show, byl = rng.random() < 0.5, rng.random() < 0.7, rng.random() < 0.4
        rad, idt, ls = rng.choice([1, 3, 5]), rng.choice([1, 2]), rng.choice([1, 2])
        ids = rng.choice([1, 0, 0.5])
        nf.draw_tracked_objects(A, objs, radius=rad, color=color, id_size=ids, id_thickness=idt, draw_points=show, color_by_label=byl,
                                draw_labels=lab, label_size=ls)
        nf.draw_points(B, objs, radius=rad, color="by_label" if byl else color, draw_ids=ids > 0, text_size=ls, text_thickness=idt,
                       draw_points=show, draw_labels=lab)
    ctx.check(np.array_equal(A, B), "a deprecated spelling gives another picture than its replacement", how=how, kind=kind, options=kw, **draw.diff_brief(A, B))
    ctx.count("deprecated_" + how)
    if (A != frame).any():
        ctx.nontrivial("deprecated", how, kind, A.tobytes()[:3000])
    # nothing to draw
    C = frame.copy()
    for g in (nf.draw_boxes, nf.draw_points):
        for none in (None, [], ()):
            ctx.check(g(C, none) is not None, "nothing to draw: the frame is not returned")
    ctx.check(np.array_equal(C, frame), "nothing to draw changes the frame")


def random_color(ctx):
    rng, nf = ctx.rng, ctx.nf
    kind = rng.choice(["box", "point"])
    cols = draw.random_colors(rng, rng.choice([1, 2, 5]))
    draw.reset_palette(nf, cols)
    w, h = 100, 80
    p = np.array([[rng.randrange(20, 40), rng.randrange(20, 40)], [rng.randrange(50, 80), rng.randrange(50, 70)]], float)
    for rep in range(6):
        frame = np.full((h, w, 3), 128, np.uint8)
        d = nf.Detection(p)
        kw = {"random_color": True} if kind == "box" and rng.random() < 0.3 else {"color": "random"}
        if kind == "point":
            kw.update(radius=2)
        call(ctx, kind, frame, [(d,)], thickness=1, **kw)
        x, y = (int(p[0][0]), int(p[0][1])) if kind == "box" else (int(p[0][0]) + 2, int(p[0][1]))
        got = tuple(int(v) for v in frame[y, x])
        ctx.check(got in cols, "a random color is not of the palette", got=got, palette=cols)
        ref = np.full((h, w, 3), 128, np.uint8)
        if kind == "box":
            cv2.rectangle(ref, draw.pt(p[0]), draw.pt(p[1]), got, 1)
        else:
            for q in p:
                cv2.circle(ref, draw.pt(q), 2, got, 1)
        ctx.check(np.array_equal(ref, frame), "an object drawn in a random color has several", **draw.diff_brief(ref, frame))
        ctx.count("random_color")
    ctx.nontrivial("random", cols, p.tolist())


def primitives(ctx):
    """Drawer and Drawable themselves."""
    rng, nf = ctx.rng, ctx.nf
    from norfair.drawing.drawer import Drawable, Drawer

    w, h = rng.choice([(60, 40), (33, 51)])
    frame = draw.frame(ctx, w, h, "noise")
    col = tuple(rng.randrange(256) for _ in range(3))
    q = [(rng.randrange(-20, 80), rng.randrange(-20, 70)) for _ in range(2)]
    t, r = rng.choice([1, 2, 5]), rng.choice([0, 1, 4, 11])
    for name in ("circle", "line", "rectangle", "cross"):
        A, B = frame.copy(), frame.copy()
        if name == "circle":
            got = Drawer.circle(A, q[0], radius=r, thickness=t, color=col)
            cv2.circle(B, q[0], r, col, t)
        elif name == "line":
            got = Drawer.line(A, q[0], q[1], color=col, thickness=t)
            cv2.line(B, q[0], q[1], col, t)
        elif name == "rectangle":
            got = Drawer.rectangle(A, q, color=col, thickness=t)
            cv2.rectangle(B, q[0], q[1], col, t)
        else:
            got = Drawer.cross(A, np.array(q[0]), radius=r, color=col, thickness=t)
            (x, y) = q[0]
            cv2.line(B, (x, y - r), (x, y + r), col, t)
            cv2.line(B, (x - r, y), (x + r, y), col, t)
        ctx.check(np.array_equal(A, B) and np.array_equal(got, A), "Drawer.%s draws something else" % name, at=q, radius=r, thickness=t, **draw.diff_brief(A, B))
    f2 = draw.frame(ctx, w, h, "noise")
    c1, c2 = frame.copy(), f2.copy()
    al = rng.choice([0, 0.25, 0.5, 1, rng.random()])
    kw = {} if rng.random() < 0.5 else {"beta": rng.choice([0, 1, 0.3])}
    if rng.random() < 0.5:
        kw["gamma"] = rng.choice([0, 10, -5])
    got = Drawer.alpha_blend(frame, f2, **({} if al == 0.5 else {"alpha": al}), **kw)
    exp = np.clip(al * c1.astype(float) + kw.get("beta", 1 - al) * c2.astype(float) + kw.get("gamma", 0), 0, 255)
    ctx.check(got.shape == exp.shape and np.abs(got.astype(float) - exp).max() <= 1, "alpha_blend is not the weighted sum", alpha=al, options=kw)
    ctx.check(np.array_equal(frame, c1) and np.array_equal(f2, c2), "alpha_blend changed its frames")
    for bad in ("x", 5, np.zeros((2, 2)), [1], {}):
        try:
            Drawable(bad)
        except ValueError:
            ctx.count("not_drawable")
        else:
            ctx.fail("something that cannot be drawn was accepted", given=bad)
    p = draw.points(rng, w, h, 3)
    d = Drawable(nf.Detection(p, scores=np.array([0.1, 0.2, 0.3]), label="L"))
    ctx.check(np.array_equal(d.points, p) and d.id is None and d.label == "L" and np.allclose(d.scores, [0.1, 0.2, 0.3]) and d.live_points.all()
              and len(d.live_points) == 3, "the Drawable of a Detection shows something else")
    ctx.count("primitives")
    ctx.nontrivial("primitives", q, t, r, col)


def case(ctx):
    rng = ctx.rng
    warnings.simplefilter("ignore")
    draw.reset_palette(ctx.nf, draw.random_colors(rng, rng.choice([3, 7, 10])) if rng.random() < 0.6 else None,
                       tuple(rng.randrange(256) for _ in range(3)) if rng.random() < 0.5 else (0, 0, 0))
    try:
        k = ctx.index % 10
        if k in (3, 8):
            titles(ctx)
        elif k == 5:
            deprecated(ctx)
        elif k == 9:
            (random_color if ctx.index % 20 == 9 else primitives)(ctx)
        else:
            shapes(ctx)
    finally:
        draw.reset_palette(ctx.nf)
