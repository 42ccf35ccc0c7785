"""C27: Video delivers and writes every frame exactly once, in order."""
import os
import time

import numpy as np

from nfv import vid

PROP = "C27"
RULE = ("seeded random lossless input videos (1-60 frames, several sizes, rates and containers; random noise or coded frames) read and written "
        "through Video with random output options and ways of writing; yielded frames are compared with the originals, output files are found "
        "by the documented rule, read back and compared exactly (lossless codecs) or by the number coded into each frame (lossy ones); "
        "cv2.imshow is replaced by a stand-in that records what it is given; non-trivial when frames were written and read back")
ASSUMPTIONS = ["frame sizes are even (the codecs crop odd ones)", "input file names contain one dot", "a frame of a damaged file counts if OpenCV can read it",
               "no window is opened: imshow is a stand-in"]
CASES = {"quick": 1500, "thorough": 20000}
CASE_S = 120
FLOORS = {"odd_headers": 72, "other_layouts": 2000, "frames_read": 15000, "frames_written": 14000, "lossless_outputs": 310, "lossy_outputs": 300,
          "resized": 110, "some_written": 94, "none_written": 130, "fps_given": 290, "folder_output": 390, "file_output": 360, "invalid": 610,
          "show": 4600, "show_fractional": 2000, "tilde": 76, "camera_name": 68, "unknown_extension": 340, "label": 200, "odd_clock": 450}


def invalid(ctx):
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    txt = os.path.join(root, "x.mp4")
    open(txt, "w").write("this is not a video\n" * 20)
    empty = os.path.join(root, "e.avi")
    open(empty, "w").close()
    good = os.path.join(root, "g.avi")
    vid.write_video(good, [vid.coded(1, 64, 48)] * 2, 10)
    for kw, exc in [({}, ValueError), ({"camera": 0, "input_path": good}, ValueError), ({"camera": "0"}, ValueError), ({"camera": 0.5}, ValueError),
                    ({"input_path": os.path.join(root, "missing.mp4")}, Exception), ({"input_path": txt}, Exception), ({"input_path": empty}, Exception),
                    ({"input_path": root}, Exception), ({"camera": None, "input_path": None}, ValueError)]:
        try:
            nf.Video(**kw)
        except exc:
            ctx.count("invalid")
        except Exception as e:
            ctx.fail("an invalid source raises something unexpected", source=kw, error=repr(e))
        else:
            ctx.fail("an invalid source was accepted", source=kw)
    # codec selection
    v = nf.Video(input_path=good, output_path=root)
    for name, want in (("a.mp4", "mp4v"), ("b.avi", "XVID"), ("c.MP4", "mp4v"), ("/d/e.Avi", "XVID")):
        ctx.check(v.get_codec_fourcc(name) == want, "the codec does not follow the extension", file=name, got=v.get_codec_fourcc(name))
    for name in ("a.mkv", "b.mov", "c", "d.mpg", "avi"[:2]):
        try:
            v.get_codec_fourcc(name)
        except Exception:
            ctx.count("unknown_extension")
        else:
            ctx.fail("an extension without a default codec was accepted", file=name)
    w = nf.Video(input_path=good, output_fourcc="MJPG")
    for name in ("a.mkv", "b.avi", "c.mp4"):
        ctx.check(w.get_codec_fourcc(name) == "MJPG", "output_fourcc is ignored", file=name, got=w.get_codec_fourcc(name))
    for cc in ("mjpg", "Mp4V", "avc1"):
        got = nf.Video(input_path=good, output_fourcc=cc).get_codec_fourcc("a.mp4")
        ctx.check(got == cc, "output_fourcc is not used as given", given=cc, got=got)
    # names for cameras
    cam = rng.choice([0, 7, 23, 61])
    ext = rng.choice(["mp4", "avi"])
    c = nf.Video(camera=cam, output_path=root, output_extension=ext)
    p = c.get_output_file_path()
    ctx.check(os.path.dirname(p) == root and str(cam) in os.path.basename(p) and p.endswith("_out." + ext) and "{" not in p,
              "the output of a camera is not named after it", got=p, camera=cam)
    q = nf.Video(camera=cam + 1, output_path=root, output_extension=ext).get_output_file_path()
    ctx.check(p != q, "two cameras write to the same file", got=p)
    ctx.count("camera_name")
    ctx.nontrivial("invalid", cam, ext)


def case(ctx):
    import cv2

    if ctx.index % 12 == 0:
        return invalid(ctx)
    rng, nf = ctx.rng, ctx.nf
    root = ctx.tmp()
    w, h = rng.choice([(64, 48), (128, 64), (96, 128), (160, 120)])
    n = rng.choice([1, 2, 3, 5, 12, 25, 60]) if ctx.index % 60 != 7 else rng.choice([140, 310, 420])
    fps_in = rng.choice([10.0, 25.0, 30.0, 12.5, 60.0, 59.94, 29.97, 120.0])
    stem = rng.choice(["clip", "My Video", "x-1_2", "out"])
    path = os.path.join(root, "src", stem + ".avi")
    os.makedirs(os.path.dirname(path))
    noisy = rng.random() < 0.4
    frames = [ctx.nprng.integers(0, 256, (h, w, 3), dtype=np.uint8) if noisy else vid.coded(k + 1, w, h) for k in range(n)]
    if n > 3 and rng.random() < 0.3:
        frames[2] = frames[1].copy()  # repeated frames count too
    if noisy and rng.random() < 0.3:
        frames[rng.randrange(n)][:] = rng.choice([0, 255])  # and so do black ones
        ctx.count("plain_frames")
    vid.write_video(path, frames, fps_in, rng.choice(["FFV1", "HFYU"]))
    if n >= 5 and rng.random() < 0.15:
        # the file's header is wrong about the number of frames: what can be read counts
        read = vid.odd_file(rng, path, n)
        if not read:
            vid.write_video(path, frames, fps_in)
        else:
            frames, n = read, len(read)
            ctx.count("odd_headers")
    kw = {"input_path": path}
    oldhome = os.environ.get("HOME")
    if rng.random() < 0.1:
        os.environ["HOME"] = root
        kw["input_path"] = "~/src/%s.avi" % stem
        ctx.count("tilde")
    fourcc = rng.choice([None, None, "FFV1", "FFV1", "MJPG", "HFYU"])
    out = os.path.join(root, rng.choice(["res", "res", "res.v1", "res.mp4"]))
    os.makedirs(out)
    ext = "mp4"
    if fourcc is not None:
        kw["output_fourcc"] = fourcc
        ext = "avi"
    elif rng.random() < 0.4:
        ext = "avi"
    if rng.random() < 0.5:
        kw["output_path"] = out if rng.random() < 0.8 else out + "/"
        if ext != "mp4" or rng.random() < 0.3:
            kw["output_extension"] = ext
        want_path = os.path.join(out, stem + "_out." + ext)
        ctx.count("folder_output")
    else:
        want_path = kw["output_path"] = os.path.join(out, "file." + ext)
        if rng.random() < 0.3:
            kw["output_extension"] = rng.choice(["mp4", "avi"])  # documented as ignored
        ctx.count("file_output")
    fps_out = fps_in
    if rng.random() < 0.4:
        kw["output_fps"] = fps_out = rng.choice([5.0, 15, 24.0, 50.0, 23.976, 47.5])
        ctx.count("fps_given")
    if rng.random() < 0.3:
        kw["label"] = rng.choice(["detector", "x" * 200])
        ctx.count("label")
    how = rng.choice(["all", "all", "some", "none", "resized", "twice", "modified"])
    size2 = rng.choice([(32, 24), (64, 64), (200, 100)])
    shown = []
    real_imshow = cv2.imshow
    cv2.imshow = lambda name, f: shown.append(f)
    key = rng.choice([-1, ord("q"), 27, 1000])
    real_wait, real_time = cv2.waitKey, time.time
    cv2.waitKey = lambda *a: key
    clock = rng.choice(["real", "real", "coarse", "frozen", "back"])
    ctx.info = {"frames": n, "size": (w, h), "fps": fps_in, "clock": clock, "options": {k: str(v) for k, v in kw.items()}, "writing": how, "noise": noisy}
    if clock == "coarse":
        time.time = lambda: real_time() // 0.016 * 0.016
    elif clock == "frozen":
        time.time = lambda: 1700000000.0
    elif clock == "back":
        ticks = iter(range(10 ** 6))
        time.time = lambda: 1700000000.0 - 3600 * (next(ticks) % 3)
    ctx.count("odd_clock", clock != "real")
    try:
        video = nf.Video(**kw)
        ctx.check((int(video.input_width), int(video.input_height)) == (w, h), "the input's size is wrong", got=(video.input_width, video.input_height))
        ctx.check(os.path.normpath(video.get_output_file_path()) == os.path.normpath(want_path), "the output path is not the documented one",
                  got=video.get_output_file_path(), want=want_path)
        written = []
        k = 0
        for frame in video:
            ctx.check(k < n, "more frames than the input has", yielded=k + 1, input=n)
            ctx.check(isinstance(frame, np.ndarray) and frame.shape == (h, w, 3) and np.array_equal(frame, frames[k]), "a frame is not the input's",
                      index=k, same_as=[i for i, f in enumerate(frames) if np.shape(frame) == f.shape and np.array_equal(frame, f)])
            outs = []
            if how in ("all", "modified"):
                outs = [frame]
            elif how == "some":
                outs = [frame] if rng.random() < 0.5 else []
            elif how == "resized":
                outs = [cv2.resize(frame, size2, interpolation=cv2.INTER_NEAREST)]
            elif how == "twice":
                outs = [frame, frame]
            if how == "modified":
                outs = [vid.coded((k * 7 + 3) % 256, w, h)]
            for f in outs:
                g = f.copy()
                if rng.random() < 0.15:
                    f = vid.laid_out(rng, f)
                    ctx.count("other_layouts")
                r = video.write(f)
                ctx.check(np.array_equal(f, g), "write modified the frame", index=k)
                ctx.check(r == key, "write does not return the pressed key", got=repr(r), key=key)
                written.append(g)
            if rng.random() < 0.3:
                ratio = rng.choice([1.0, 1, 2, 2.0, 1.5, 3, 0.5, 4.7, 1.01])
                pic = frame if rng.random() < 0.7 else np.repeat(np.repeat(frame, 2, axis=0), 3, axis=1)
                before = pic.copy()
                m = len(shown)
                r = video.show(pic, ratio) if rng.random() < 0.5 else video.show(pic, downsample_ratio=ratio)
                ctx.check(r == key, "show does not return the pressed key", got=repr(r), key=key)
                ctx.check(len(shown) == m + 1, "show did not display one frame", shown=len(shown) - m)
                s = shown[-1]
                ctx.check(abs(s.shape[0] - pic.shape[0] / ratio) <= 1 and abs(s.shape[1] - pic.shape[1] / ratio) <= 1, "show displays the wrong size", ratio=ratio, got=s.shape,
                          frame=pic.shape)
                ctx.check(ratio != 1 or np.array_equal(s, before), "show changes the frame")
                ctx.check(np.array_equal(pic, before), "show modified the frame")
                if ratio != 1 and not noisy:
                    ctx.check(vid.code(s) == vid.code(before), "show displays something else")
                ctx.count("show")
                ctx.count("show_fractional", ratio != int(ratio))
            k += 1
            ctx.count("frames_read")
        ctx.check(k == n, "the video ended early", yielded=k, input=n)
        ctx.check(want_path not in vid.open_files(), "the output file is still open when the iteration ends", frames=n)
        complete = open(want_path, "rb").read() if os.path.exists(want_path) else None
        more = list(video)
        ctx.check(not more, "frames are delivered again after the end", got=len(more))
    finally:
        time.time = real_time
        cv2.imshow, cv2.waitKey = real_imshow, real_wait
        if oldhome is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = oldhome
    files = [os.path.join(d, x) for d, _, fs in os.walk(out) for x in fs]
    if not written:
        ctx.check(files == [], "a file was written although no frame was", files=files)
        ctx.count("none_written")
        return
    ctx.check(files == [want_path], "the output is not the one documented file", files=files, want=want_path)
    ctx.check(want_path not in vid.open_files(), "the output file is still open after the iteration")
    ctx.check(complete == open(want_path, "rb").read(), "the output file was not complete when the iteration ended", frames=n)
    got, fps = vid.read_video(want_path)
    ctx.check(got is not None and len(got) == len(written), "the output does not hold every written frame once", got=None if got is None else len(got),
              written=len(written))
    ctx.check(abs(fps - fps_out) < 0.0002 * fps_out, "the output's frame rate is wrong", got=fps, want=fps_out)
    head = open(want_path, "rb").read()
    tag = fourcc or ("mp4v" if ext == "mp4" else "XVID")
    ctx.check(tag.encode() in head, "the output does not use the chosen codec", codec=tag)
    lossless = fourcc in ("FFV1", "HFYU")
    for i, (a, b) in enumerate(zip(got, written)):
        ctx.check(a.shape == b.shape, "an output frame has the wrong size", index=i, got=a.shape, want=b.shape)
        if lossless:
            ctx.check(np.array_equal(a, b), "an output frame is not the written one", index=i)
        elif not noisy or how == "modified":
            ctx.check(vid.code(a) == vid.code(b), "an output frame is not the written one", index=i, got=vid.code(a), want=vid.code(b))
        else:
            ctx.check(abs(float(a.mean()) - float(b.mean())) < 30, "an output frame is not the written one", index=i)
    ctx.count("lossless_outputs" if lossless else "lossy_outputs")
    ctx.count("frames_written", len(written))
    ctx.count("resized", how == "resized")
    ctx.count("some_written", how == "some")
    ctx.state(how, n, (w, h), fourcc, ext, "output_fps" in kw)
    ctx.nontrivial(ctx.index)
    ctx.sample = {**ctx.info, "written": len(written)}
