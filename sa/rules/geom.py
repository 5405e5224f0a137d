from facts import *
from fractions import Fraction as Fr


def pt(F, x, y):
    return F.mk("Point", x=x, y=y)


def rect(F, x, y, w, h):
    return F.mk("Rect", origin=pt(F, x, y), size=F.mk("Size", width=w, height=h))


def at_values(t, syms, vals):
    return sub(t, {s: num(v) for s, v in zip(syms, vals)})


def decided(t, syms, vals, run):
    """the value of the function for known arguments: of its value for unknown ones, else of a run of its own"""
    v = at_values(t, syms, vals) if t is not None else None
    if v is None or opaque_ops(v) is not None or tm.tests_in(v) or v.op not in ("bool", "adt") and const(v) is None:
        v = run(*[num(x) for x in vals])
    return v


def distances(F, fn):
    """distances larger than the constants of the function"""
    from reach import Constants
    C = Constants(F, ("Rect", fn))
    return sorted({Fr(1000), Fr(1 << 20)} | {Fr(c) + 1 for c in C.floats if 3 < c < 1e12} | {Fr(c) + 1 for c in C.ints if 3 < c < 1e12})


def only_tests(t, forms):
    """are all conditions of the value signs of these linear forms (or their negations)?"""
    fs = set(forms) | {neg(f) for f in forms}
    norm = set()
    for f in fs:
        v = tm._sgn(f, ZERO)
        norm |= {x for x in tm.tests_in(v)}
    return all(x in norm for x in tm.tests_in(t))


def C31(F, R):
    S = x0, y0, x1, y1 = [mk("sym", n) for n in ("x0", "y0", "x1", "y1")]
    t = F.val("Point", "orthogonal_direction", pt(F, x0, y0), pt(F, x1, y1))
    O = F.tyname("Orientation")
    dirs = {n: adt(O, n) for n in ("Up", "Down", "Left", "Right")}
    exact = only_tests(t, [sub_(x1, x0), sub_(y1, y0)])
    bad = False
    stuck = False
    mags = (Fr(1), Fr(7), Fr(1, 4), Fr(100))
    tiny = (Fr(1, 1 << 10), Fr(1, 1 << 24), Fr(1, 1 << 40))
    run = lambda a, b, c, d: F.val("Point", "orthogonal_direction", pt(F, a, b), pt(F, c, d))
    for sx in (-1, 0, 1):
        for sy in (-1, 0, 1):
            if sx == 0 and sy == 0:
                continue
            want = "Left" if sx < 0 else "Right" if sx > 0 else "Up" if sy < 0 else "Down"
            for mx in mags + tiny:
                for my in mags + tiny:
                    for bx, by in ((0, 0), (50, -20), (-30, 400)):
                        if (mx in tiny or my in tiny) and bx:
                            continue
                        v = decided(t, S, (bx, by, bx + sx * mx, by + sy * my), run)
                        R.count("relative positions evaluated")
                        if v is dirs[want]:
                            continue
                        if v is not None and v.op == "adt":
                            if not bad:
                                R.bad("direction from a point to one on its %s" % want.lower(), "from (%s, %s) to (%s, %s) is %s, not %s" % (bx, by, bx + sx * mx, by + sy * my, v.args[1], want), "Point::orthogonal_direction")
                            bad = True
                        else:
                            stuck = True
    if not bad:
        if stuck or not exact:
            R.unknown("direction between two points", "the value doesn't depend on the order of the coordinates alone: " + show(t, 6))
        else:
            R.ok("for each order of the coordinates the direction is the one on that side (decided on the signs of x1-x0 and y1-y0 alone)")
            R.ok("on a common horizontal or vertical line it is the opposite of the direction back")


def sub_(a, b):
    return tm.sub(a, b)


def C32(F, R):
    x, y, w, h = S = [mk("sym", n) for n in ("x", "y", "w", "h")]
    r = rect(F, x, y, w, h)
    half = num(Fr(1, 2))
    want = {
        "min_x": x, "min_y": y, "max_x": add(x, w), "max_y": add(y, h),
        "mid_x": add(x, mul(half, w)), "mid_y": add(y, mul(half, h)),
        "width": w, "height": h,
        "origin": pt(F, x, y), "size": F.mk("Size", width=w, height=h),
        "center": pt(F, add(x, mul(half, w)), add(y, mul(half, h))),
    }
    for n, e in want.items():
        v = F.val("Rect", n, r)
        R.count("accessors")
        linear(R, "Rect::%s" % n, v, e, S, lambda a, b, c, d: F.val("Rect", n, rect(F, a, b, c, d)))
    # contains_point
    p, q = mk("sym", "px"), mk("sym", "py")
    t = F.val("Rect", "contains_point", r, pt(F, p, q))
    forms = [sub_(p, x), sub_(p, add(x, w)), sub_(q, y), sub_(q, add(y, h))]
    bad = stuck = False
    run = lambda a, b, c, d, e, f: F.val("Rect", "contains_point", rect(F, a, b, c, d), pt(F, e, f))
    scaled = [(w_, h_, x_, y_, k) for w_ in (0, 2, 10) for h_ in (0, 2, 10) for x_ in sorted({-1, 0, Fr(1, 2), 1, 2, 3, 9, 10, 11}) for y_ in sorted({-1, 0, Fr(1, 2), 1, 2, 3, 9, 10, 11})
              for k in (1, Fr(1, 1 << 24)) if k == 1 or (w_, h_) == (10, 2)]
    for ww, hh, px, py, k in scaled:
                ww, hh, px, py = ww * k, hh * k, px * k, py * k
                for _ in (0,):
                    for bx, by in ((0, 0), (100, -7)) if k == 1 else ((0, 0),):
                        v = decided(t, S + [p, q], (bx, by, ww, hh, bx + px, by + py), run)
                        e = 0 <= px <= ww and 0 <= py <= hh
                        R.count("positions of a point evaluated")
                        if v is None or v.op != "bool":
                            stuck = True
                        elif (v is TRUE) != e and not bad:
                            bad = True
                            R.bad("a rectangle contains the points between minimum and maximum, both included", "the rectangle at (%s, %s) of size %s x %s: (%s, %s) is %sinside" % (bx, by, ww, hh, bx + px, by + py, "" if v is TRUE else "not "), "Rect::contains_point")
    if not bad:
        R.check(True if not stuck and only_tests(t, forms) else None, "a rectangle contains the points between minimum and maximum, both included", show(t, 5))
    # inset_by
    dx, dy = mk("sym", "dx"), mk("sym", "dy")
    t = F.val("Rect", "inset_by", r, dx, dy)
    T = S + [dx, dy]
    exp = rect(F, add(x, dx), add(y, dy), maxv(ZERO, sub_(w, mul(num(2), dx))), maxv(ZERO, sub_(h, mul(num(2), dy))))
    if t is exp:
        R.ok("insetting moves every edge inward, the size never negative (normal forms equal)")
    else:
        bad = stuck = False
        for vals in ((0, 0, 10, 20, 1, 2), (5, 6, 10, 20, -3, -4), (5, 6, 10, 20, 5, 10), (5, 6, 10, 20, 6, 11), (5, 6, 0, 0, 1, 1), (5, 6, 0, 0, -1, -1),
                     (5, 6, 10, 2, 1, 3), (5, 6, 1, 20, 3, 1), (-5, -6, 7, 9, Fr(1, 2), 0), (1, 2, 7, 9, 0, Fr(3, 2)), (5, 6, 10, 12, -20, -30), (0, 0, 10, 12, -1, -1), (-50, -60, 10, 12, 7, 8),
                     *(q for f in distances(F, "inset_by") for q in ((5, 6, 10, 12, -f, -f), (f, f, 10, 12, 1, 2), (-f, -f, 10, 12, -1, 1), (3, 4, 3 * f, 3 * f, f, 2), (3, 4, f, f, f, f), (3, 4, 10, 12, f, f)))):
            v, e = decided(t, T, vals, lambda a, b, c, d, f, g: F.val("Rect", "inset_by", rect(F, a, b, c, d), f, g)), at_values(exp, T, vals)
            if v is not e:
                if opaque_ops(v) is None and not tm.tests_in(v):
                    if not bad:
                        R.bad("insetting moves every edge inward, the size never negative", "(%s, %s) %s x %s inset by %s, %s is %s" % (*vals, show(v)), "Rect::inset_by")
                    bad = True
                else:
                    stuck = True
        if not bad:
            R.unknown("insetting", "equal on all tried values, but not the same normal form: " + show(t, 8))
    for n, a, e in (("new", (pt(F, x, y), F.mk("Size", width=w, height=h)), r), ("zero", (), rect(F, ZERO, ZERO, ZERO, ZERO))):
        v = F.val("Rect", n, *a)
        linear(R, "Rect::%s" % n, v, e, S)
    for n, a, e in (("new", (x, y), pt(F, x, y)), ("zero", (), pt(F, ZERO, ZERO))):
        linear(R, "Point::%s" % n, F.val("Point", n, *a), e, S)


def linear(R, what, v, e, syms, run=None):
    if v is e:
        R.ok(what + " is the linear function its name says")
        return
    for k in range(6):
        vals = [Fr((7 * k + 3 * i * i + 5 * i + 1) % 23) for i in range(len(syms))]
        a, b = at_values(v, syms, vals), at_values(e, syms, vals)
        if a is not b and run:
            a = decided(v, syms, vals, run)
        if a is not b and opaque_ops(a) is None and not tm.tests_in(a):
            R.bad(what + " is the linear function its name says", "is %s, not %s" % (show(v, 6), show(e, 6)), what)
            return
    R.unknown(what, show(v, 6))


def C33(F, R):
    x, y, w, h, x0, y0, x1, y1 = S = [mk("sym", n) for n in ("x", "y", "w", "h", "x0", "y0", "x1", "y1")]
    t = F.val("Rect", "intersects_line", rect(F, x, y, w, h), pt(F, x0, y0), pt(F, x1, y1))
    # One representative of each order of the ends and the edges along the line, and of the line and the edges across it.
    along = (-3, -1, 0, 1, 2, 3, 4, 7)
    across = (-2, 0, 1, 3, 4, 6)
    bad = {}
    stuck = None
    n = 0
    run = lambda a, b, c, d, e, f, g, h_: F.val("Rect", "intersects_line", rect(F, a, b, c, d), pt(F, e, f), pt(F, g, h_))
    # Ends far away, and rectangles far larger than the constants the test may compare distances with.
    far = distances(F, "intersects_line")
    spread = [(a0, a1) for a0 in along for a1 in along]
    for f in far:
        spread += [p for k in (-f - 3, f + 7) for a in (-f - 5, -1, 2, 7, f + 9) for p in ((a, k), (k, a))]
    for sz in ((4, 4), (0, 4), (4, 0)) + tuple(s for f in far for s in ((f + 4, 4), (4, f + 4))):
        big = max(sz) > 4
        for a0, a1 in spread:
                if a0 == a1:
                    continue
                for c in across if not big else (-2, 2, max(sz) + 2):
                    for horizontal in (True, False):
                        lo, hi = (sz[0], sz[1]) if horizontal else (sz[1], sz[0])
                        inside = 0 < min(a0, a1) and max(a0, a1) < lo and 0 < c < hi
                        touch = min(a0, a1) <= lo and max(a0, a1) >= 0 and 0 <= c <= hi
                        want = touch and not inside
                        for b, u in ((0, 1), (50, 1), (0, Fr(1, 1 << 24))) + tuple((0, f) for f in far):
                            if u != 1 and sz != (4, 4) or u > 1 and max(abs(a0), abs(a1)) > 7 or big and (b or u != 1):
                                continue
                            p0 = ((a0 + b) * u, c * u) if horizontal else (c * u, (a0 + b) * u)
                            p1 = ((a1 + b) * u, c * u) if horizontal else (c * u, (a1 + b) * u)
                            o = (b, 0) if horizontal else (0, b)
                            v = decided(t, S, o + (sz[0] * u, sz[1] * u) + p0 + p1, run)
                            n += 1
                            if v is None or v.op != "bool":
                                stuck = v
                            elif (v is TRUE) != want:
                                k = ("inside" if inside else "touching" if touch else "apart", "horizontal" if horizontal else "vertical", "forward" if a0 < a1 else "backward")
                                bad.setdefault(k, "rectangle at %s of size %s x %s, line (%s, %s) - (%s, %s): %s" % (o, sz[0] * u, sz[1] * u, *p0, *p1, "collision" if v is TRUE else "no collision"))
    R.count("orders of line ends and edges evaluated", n)
    for k in [(a, b, c) for a in ("inside", "touching", "apart") for b in ("horizontal", "vertical") for c in ("forward", "backward")]:
        what = "collision test of a %s %s line %s the rectangle" % (k[2], k[1], {"inside": "strictly inside", "touching": "touching", "apart": "apart from"}[k[0]])
        if k in bad:
            R.bad(what, bad[k], "Rect::intersects_line")
        elif stuck is not None:
            R.unknown(what, show(stuck, 5))
        else:
            R.ok(what)
