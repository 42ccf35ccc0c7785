"""C28: VideoFromFrames replays an image sequence faithfully."""
import os

import numpy as np

from nfv import vid

PROP = "C28"
RULE = ("seeded random image sequences (1-30 images, several formats, sizes and folder names, extra files in the folder) replayed with "
        "VideoFromFrames, restarted, and written with make_video; yielded images are compared with the ones written by the harness, the video "
        "is read back and its frames identified by the number coded into them; and random information files searched for present and absent "
        "names; every case is non-trivial that compared images or searched entries")
ASSUMPTIONS = ["the sequence folder is given without a trailing slash", "frame sizes are even (the codec crops odd ones)",
               "entries of information files are written name=value"]
CASES = {"quick": 2500, "thorough": 40000}
CASE_S = 120
FLOORS = {"other_layouts": 680, "images": 13000, "videos": 460, "video_frames": 4400, "restarted": 440, "lossless_images": 9700, "jpeg": 3300,
          "searches": 3100, "absent": 4100, "ints": 850, "prefix_names": 2000, "info_given": 180, "fractional_rate": 140}


def information(ctx):
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    names = ["name", "imDir", "frameRate", "seqLength", "imWidth", "imHeight", "imExt", "im", "seq", "imWidthMax", "nameLong", "x", "n"]
    rng.shuffle(names)
    present = names[:rng.randint(1, len(names))]
    entries = {}
    for n in present:
        entries[n] = rng.choice([str(rng.randint(0, 5000)), "007", "0", "img1", ".jpg", "a=b", "1.5", "12 monkeys", "", "MOT17-02-FRCNN", "30fps"])
    lines = (["[Sequence]"] if rng.random() < 0.8 else []) + ["%s=%s" % kv for kv in entries.items()]
    if rng.random() < 0.3:
        lines.insert(rng.randrange(len(lines) + 1), "")
    eol = rng.choice(["\n", "\n", "\r\n"])
    p = os.path.join(root, "seqinfo.ini")
    open(p, "w", newline="").write(eol.join(lines) + (eol if rng.random() < 0.7 else ""))
    info = nf.metrics.InformationFile(p)
    ctx.info = {"lines": lines}
    ask = list(names) + ["missing", "Sequence", "NAME"]
    rng.shuffle(ask)
    for n in ask:
        if n in entries:
            v = entries[n]
            got = info.search(n) if rng.random() < 0.5 else info.search(variable_name=n)
            want = int(v) if v.isdigit() else v
            ctx.check(type(got) is type(want) and got == want, "search returns something else than the entry's value", name=n, got=repr(got), want=repr(want))
            ctx.count("searches")
            ctx.count("ints", isinstance(want, int))
            ctx.count("prefix_names", any(m != n and (m.startswith(n) or n.startswith(m)) for m in entries))
        else:
            try:
                got = info.search(n)
            except ValueError:
                ctx.count("absent")
            else:
                ctx.fail("search returned a value for an entry that is not there", name=n, got=repr(got))
    ctx.nontrivial(tuple(lines))


def endless(ctx):
    """More than a million images: the reader is replaced by a recorder of the paths it is asked for."""
    nf = ctx.nf
    root = ctx.tmp()
    n = 1000003
    open(os.path.join(root, "seqinfo.ini"), "w").write("[Sequence]\nimDir=i\nseqLength=%d\nimExt=.png\n" % n)
    v = nf.video.VideoFromFrames(root, make_video=False)
    import cv2

    asked = [0]
    real = cv2.imread

    def stand(path, *a, **kw):
        asked[0] += 1
        return path

    cv2.imread = stand
    try:
        pre, k = os.path.join(root, "i") + os.sep, 0
        for got in v:
            k += 1
            if not asked[0]:
                return  # images are read in some other way
            if got != pre + "%06d.png" % k or asked[0] != k:
                ctx.fail("a long sequence is read from other files", image=k, got=got)
    finally:
        cv2.imread = real
    ctx.check(k == n, "the long sequence ended early", got=k, want=n)
    ctx.count("long_sequences")
    ctx.nontrivial("endless", ctx.index)


def case(ctx):
    import cv2

    if ctx.index % 400 == 1:
        return endless(ctx)
    if ctx.index % 3 == 0:
        return information(ctx)
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    name = rng.choice(["MOT17-02", "seq", "a.b", "with space"])
    inp = os.path.join(root, "in", name)
    w, h = rng.choice([(64, 48), (128, 64), (96, 128), (64, 64)])
    n = rng.choice([1, 2, 3, 8, 12, 30])
    ext = rng.choice([".png", ".png", ".bmp", ".jpg"])
    imdir = rng.choice(["img1", "images", "deep/img"])
    rate = rng.choice(["25", "30", "10", "14", "29.97", "12.5"])
    os.makedirs(os.path.join(inp, imdir))
    noisy = ext != ".jpg" and rng.random() < 0.4
    frames = []
    extra = rng.choice([0, 0, 3])
    for k in range(1, n + extra + 1):
        f = ctx.nprng.integers(0, 256, (h, w, 3), dtype=np.uint8) if noisy else vid.coded(k, w, h)
        p = os.path.join(inp, imdir, "%06d%s" % (k, ext))
        cv2.imwrite(p, f)
        frames.append(f if ext != ".jpg" else cv2.imread(p))
    if rng.random() < 0.3:
        cv2.imwrite(os.path.join(inp, imdir, "000000" + ext), vid.coded(255, w, h))
    seqinfo = "[Sequence]\nname=%s\nimDir=%s\nframeRate=%s\nseqLength=%d\nimWidth=%d\nimHeight=%d\nimExt=%s\n" % (name, imdir, rate, n, w, h, ext)
    kw = {}
    if rng.random() < 0.2:
        p = os.path.join(root, "info.ini")
        open(p, "w").write(seqinfo)
        kw["information_file"] = nf.metrics.InformationFile(p)
        ctx.count("info_given")
    else:
        open(os.path.join(inp, "seqinfo.ini"), "w").write(seqinfo)
    make = rng.random() < 0.5
    save = os.path.join(root, "out")
    os.makedirs(save)
    if rng.random() < 0.3:
        save = os.path.join(save, "new", "folder")
    if not make or rng.random() < 0.3:
        kw["make_video"] = make
    v = nf.video.VideoFromFrames(inp, save_path=save, **kw)
    ctx.info = {"images": n, "size": (w, h), "extension": ext, "folder": imdir, "rate": rate, "make_video": make, "noise": noisy}
    passes = 1 if make else rng.choice([1, 2, 3])
    written = []
    for p in range(passes):
        if p and rng.random() < 0.4:
            for k, _ in enumerate(v):
                if k >= rng.randrange(n):
                    break
        k = 0
        for img in v:
            ctx.check(k < n, "more images than seqLength", got=k + 1)
            ctx.check(img is not None and np.array_equal(img, frames[k]), "an image is not the sequence's", index=k + 1,
                      same_as=[i + 1 for i, f in enumerate(frames) if img is not None and img.shape == f.shape and np.array_equal(f, img)])
            if make:
                g = img if noisy else vid.coded((k * 5 + 2) % 256, w, h) if rng.random() < 0.5 else img
                before = g.copy()
                if rng.random() < 0.15:
                    g = vid.laid_out(rng, g)
                    ctx.count("other_layouts")
                v.update(g)
                ctx.check(np.array_equal(g, before), "update modified the frame")
                written.append(before)
            k += 1
            ctx.count("images")
            ctx.count("jpeg" if ext == ".jpg" else "lossless_images")
        ctx.check(k == n, "the sequence ended early", got=k, want=n)
        ctx.count("restarted", p > 0)
    files = [os.path.join(d, x) for d, _, fs in os.walk(os.path.join(root, "out")) for x in fs]
    if make:
        out = os.path.join(save, "videos", name + ".mp4")
        ctx.check(files == [out], "the video is not where it is documented to be", files=files, want=out)
        ctx.check(out not in vid.open_files(), "the video is still open after the last frame")
        got, fps = vid.read_video(out)
        ctx.check(got is not None and len(got) == n, "the video does not hold every frame once", got=None if got is None else len(got), want=n)
        ctx.check(abs(fps - float(rate)) < 0.02 * float(rate), "the video's frame rate is not seqinfo's", got=fps, want=rate)
        for i, (a, b) in enumerate(zip(got, written)):
            ctx.check(a.shape == (h, w, 3), "a video frame has the wrong size", got=a.shape, want=(h, w))
            if noisy:
                ctx.check(abs(float(a.mean()) - float(b.mean())) < 30, "a video frame is not the one written", index=i)
            else:
                ctx.check(vid.code(a) == vid.code(b), "a video frame is not the one written", index=i, got=vid.code(a), want=vid.code(b))
            ctx.count("video_frames")
        ctx.count("videos")
        ctx.count("fractional_rate", "." in rate)
    else:
        ctx.check(files == [], "files were written although make_video is off", files=files)
    ctx.state(n, ext, imdir, make, passes)
    ctx.nontrivial(ctx.index)
    ctx.sample = ctx.info
