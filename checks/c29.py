"""C29: Colors and palettes resolve consistently."""
import re

import numpy as np

from nfv import draw

PROP = "C29"
RULE = ("seeded random hex strings (3 and 6 digits, mixed case), names (against an independently written table), tuples and malformed strings "
        "through hex_to_bgr / parse_color, and random histories of Palette.set / set_default_color / choose_color with valid and invalid "
        "arguments checked against a model of the palette; non-trivial when a palette change and colors chosen after it were seen")
ASSUMPTIONS = ["palettes are not empty", "Palette starts from tab10 and black"]
CASES = {"quick": 12000, "thorough": 120000}
FLOORS = {"default": 9700, "hex3": 39000, "hex6": 39000, "int_key": 29000, "invalid_default": 4900, "invalid_palette": 11000, "key": 29000,
          "malformed": 39000, "name": 39000, "set_custom": 18000, "set_default": 12000, "set_named": 11000, "triple": 39000}

TAB10 = ["1f77b4", "ff7f0e", "2ca02c", "d62728", "9467bd", "8c564b", "e377c2", "7f7f7f", "bcbd22", "17becf"]
SIZES = {"tab10": 10, "tab20": 20, "colorblind": 10}


def as_tuple(ctx, c, what, **d):
    ctx.check(len(c) == 3 and all(int(v) == v and 0 <= v <= 255 for v in c), "not a BGR triple", got=c, source=what, **d)
    return tuple(int(v) for v in c)


def parsing(ctx, C):
    rng = ctx.rng
    for _ in range(6):
        col = tuple(rng.randrange(256) for _ in range(3))
        s = draw.hexof(col, rng)
        for f in (C.hex_to_bgr, C.parse_color):
            got = f(s)
            ctx.check(as_tuple(ctx, got, s) == col, "a hex color does not give its BGR triple", hex=s, got=got, expected=col)
        ctx.count("hex6")
        d = [rng.randrange(16) for _ in range(3)]
        s = "#" + "".join(rng.choice(["%x", "%X"]) % v for v in d)
        exp = tuple(17 * v for v in d[::-1])
        for f in (C.hex_to_bgr, C.parse_color):
            got = f(s)
            ctx.check(as_tuple(ctx, got, s) == exp, "a short hex color does not give its BGR triple", hex=s, got=got, expected=exp)
        ctx.count("hex3")
        name = rng.choice(sorted(draw.NAMED))
        got = C.parse_color(name)
        ctx.check(as_tuple(ctx, got, name) == draw.bgr(name), "a color name does not give its BGR triple", name=name, got=got,
                  expected=draw.bgr(name))
        ctx.check(tuple(getattr(ctx.nf.Color, name)) == draw.bgr(name), "Color has a wrong value", name=name, got=getattr(ctx.nf.Color, name))
        ctx.count("name")
        form = rng.choice([tuple, list, lambda c: np.array(c, dtype=np.uint8), lambda c: np.array(c), lambda c: tuple(float(v) for v in c)])
        got = C.parse_color(form(col))
        ctx.check(isinstance(got, tuple) and all(type(v) is int for v in got) and got == col, "a BGR triple is not parsed to itself",
                  given=form(col), got=got)
        ctx.count("triple")
        # malformed
        bad = rng.choice(["#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n)) for n in (0, 1, 2, 4, 5, 7, 8, 9, 12)] +
                         ["#ggg", "#12345g", "#zzzzzz", "#-12345", "# 12345", "#12 345", "##12345", "#12345\n6", "#ffffff\n", "#fff\n", "\n#ffffff", "#+12345", "#0x1234", "#1_2345",
                          "ffffff", "fff", "", " #ffffff", "#ffffff ", "#fffffff", "#é12345", "#１２３", "red", "0xffffff", "x#fff", "#ff.fff"])
        try:
            got = C.hex_to_bgr(bad)
        except ValueError:
            ctx.count("malformed")
        except Exception as e:
            ctx.fail("a malformed hex color raises something else than ValueError", hex=bad, error=repr(e))
        else:
            ctx.fail("a malformed hex color was accepted", hex=bad, got=got)
        if bad.startswith("#"):
            try:
                got = C.parse_color(bad)
            except ValueError:
                pass
            except Exception as e:
                ctx.fail("a malformed hex color raises something else than ValueError", hex=bad, error=repr(e))
            else:
                ctx.fail("a malformed hex color was accepted", hex=bad, got=got)


def color_like(ctx):
    """(value, BGR) in any accepted form."""
    rng = ctx.rng
    col = tuple(rng.randrange(256) for _ in range(3))
    r = rng.random()
    if r < 0.3:
        return draw.hexof(col, rng), col
    if r < 0.4:
        d = [rng.randrange(16) for _ in range(3)]
        return "#" + "".join("%x" % v for v in d), tuple(17 * v for v in d[::-1])
    if r < 0.65:
        n = rng.choice(sorted(draw.NAMED))
        return n, draw.bgr(n)
    return (list(col) if rng.random() < 0.3 else col), col


def palettes(ctx, C):
    rng, nf = ctx.rng, ctx.nf
    P = nf.Palette
    cur = [tuple(int(h[i:i + 2], 16) for i in (4, 2, 0)) for h in TAB10]  # model: list of BGR
    known = True  # exact order known
    default = (0, 0, 0)
    seen = {}
    keys = [0, 1, 2, 9, 10, 11, 12345, -3, 0.5, 2.75, "person", "car", "", "x" * 50, (1, 2), frozenset([3]), True, np.int64(7), np.float64(0.25),
            rng.randrange(10 ** 9), rng.random(), ("a", 4.5)]
    changed = chosen_after = False
    for step in range(rng.randrange(6, 25)):
        r = rng.random()
        if r < 0.12:
            name = rng.choice(sorted(SIZES))
            P.set(name)
            n = SIZES[name]
            got = [tuple(P.choose_color(i)) for i in range(n)]
            ctx.check(len(set(got)) == n or name == "tab20" and len(set(got)) >= 19, "a predefined palette does not have its colors", palette=name, got=got)
            if name == "tab10":
                ctx.check(got == [tuple(int(h[i:i + 2], 16) for i in (4, 2, 0)) for h in TAB10], "tab10 has other colors", got=got)
            cur, changed, seen = got, True, {}
            ctx.count("set_named")
        elif r < 0.3:
            pairs = [color_like(ctx) for _ in range(rng.choice([1, 2, 3, 7, 13]))]
            vals = [p[0] for p in pairs]
            form = rng.choice([list, tuple, iter, lambda v: (x for x in v)])
            P.set(form(vals))
            if isinstance(vals, list) and rng.random() < 0.5:
                vals.clear()  # the caller's list is the caller's
            cur, changed, seen = [p[1] for p in pairs], True, {}
            ctx.count("set_custom")
        elif r < 0.42:
            bad = rng.choice(["no_such_palette", "", "TAB10", "tab 10", "#ff0000", "red",
                              ["red", "no_such_color"], [(1, 2, 3), "#12345"], ["#ff0000", "#gg0000"], [(0, 0, 0), None], ["blue", 5], 17, None, [object()]])
            try:
                P.set(bad)
            except ValueError:
                ctx.count("invalid_palette")
            except Exception as e:
                ctx.check(not isinstance(bad, str), "an unknown palette name raises something else than ValueError", palette=bad, error=repr(e))
                ctx.count("invalid_palette")
            else:
                ctx.fail("an invalid palette was accepted", palette=bad)
            if known:
                got = [tuple(P.choose_color(i)) for i in range(len(cur))]
                ctx.check(got == cur, "an invalid palette changed the current one", palette=bad, got=got, expected=cur)
        elif r < 0.55:
            v, col = color_like(ctx)
            P.set_default_color(v)
            default = col
            ctx.count("set_default")
        elif r < 0.6:
            try:
                P.set_default_color(rng.choice(["#12", "no_such_color", "#xyzxyz"]))
            except Exception:
                ctx.count("invalid_default")
            else:
                ctx.fail("an invalid default color was accepted")
        elif r < 0.7:
            got = P.choose_color(None)
            ctx.check(as_tuple(ctx, got, None) == default, "None does not get the default color", got=got, expected=default)
            ctx.count("default")
        else:
            n = len(cur)
            i = rng.choice([0, 1, n - 1, n, n + 1, rng.randrange(10 ** 6)])
            got = as_tuple(ctx, P.choose_color(i), i)
            ctx.check(got == cur[i % n], "integer keys do not cycle through the palette", key=i, got=got, expected=cur[i % n], size=n)
            ctx.count("int_key")
            k = rng.choice(keys)
            got = as_tuple(ctx, P.choose_color(k), k)
            ctx.check(got in cur, "the chosen color is not in the palette", key=k, got=got, palette=cur)
            ctx.check(seen.setdefault(repr(k), got) == got, "the same key gets different colors", key=k, got=got, before=seen[repr(k)])
            ctx.count("key")
            chosen_after = chosen_after or changed
    if changed and chosen_after:
        ctx.nontrivial(cur, default)
        ctx.state(len(cur), cur[0])
        if ctx.index < 3:
            ctx.sample = {"palette": cur[:5], "default": default, "keys": sorted(seen.items())[:5]}


def case(ctx):
    C = draw.reset_palette(ctx.nf)
    try:
        parsing(ctx, C)
        palettes(ctx, C)
    finally:
        draw.reset_palette(ctx.nf)
