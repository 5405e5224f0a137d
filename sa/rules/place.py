from docs import *
from rules.lower import truthful, finish

SHAPES = [(), (1,), (3,), (2, 5), (1, 2, 3), (2, 5, 1, 3), (1,) * 7, (4, 1, 1, 1, 1, 6, 2, 3, 1, 1), (3, 3, 3, 1), (1, 1, 6), (0,), (2, 0, 0, 1, 0, 2, 1), (1, 1, 1, 5, 1), (1, 2, 3, 2, 7, 4), (0, 9, 1, 1, 2, 0, 3, 2), (6, 1), (0, 0, 0, 0)]


def shapes(F, ports=False):
    """shapes of documents: small ones, and ones larger than the constants the layout could compare their size with"""
    from reach import Constants
    C = Constants(F, ("SimpleLayoutEngine", "place_terminal_ports" if ports else "place_nodes", "LayoutEngine"))
    out = SHAPES + [(40,), (1,) * 20, (2, 1) * 20, (25, 1, 1, 1, 30, 1, 1, 1, 1, 0, 28)]
    out += [(k,) for k in C.sizes(12, 400)] + [(1,) * k for k in C.sizes(12, 200)] + [(k, 1, 1, 1, 1) for k in C.sizes(6, 400)]
    for f in sorted(C.floats):
        if 36 <= f <= 14000:
            k = int(f / 35)
            out += [(k,), (k + 1,), (k + 2,), (1, k + 2, 1, 1, 1)]
            if f <= 7000:
                n = int(f / 115) + 2
                out.append((1,) * (3 * n + 1))
        elif 14000 < f <= 70000:
            out += [(int(f / 35) + 2,)]
    for f in sorted(C.narrow):
        if f > 14000:
            k = int(f / 35) + 2
            out += [(k, 1, 1, 1, 1), (1,) * (3 * int(f / 500) + 4)]
    return list(dict.fromkeys(out))


def moved(d, recs, xy, wh):
    """gives records and their rows an origin and a size"""
    V = d.view()
    for n, r in enumerate(recs):
        for i in [r] + V.children(r):
            m = opt(d.call("Document", "get_node_mut", mref(d.root), i))
            d.st = d.st.copy()
            for f, z in (("origin", xy and d.F.val("Point", "new", num(xy[0]), num(xy[1]))), ("size", wh and d.F.val("Size", "new", num(wh[0] + n), num(wh[1])))):
                if z is not None:
                    d.I.write(d.st, mref(m.args[0], m.args[1] + (("f", d.F.idx("NodeData", f)),)), some(z))


# what was there before the nodes are placed: nothing; an origin, a size, or both; the result of placing fewer or other nodes
BEFORE = ("an origin", "a size", "geometry", "been placed before rows were added", "been placed, by another engine, before records were added")


def placed(F, shape, ports=False, before=None):
    d = Doc(F)
    recs = []
    later = []
    d.engine()
    for n, k in enumerate(shape):
        names = [sym("s%d.%d" % (n, i)) for i in range(k)]
        if before == BEFORE[3]:
            # the first and the last record get their last rows later
            late = names[k // 2:] if n in (0, len(shape) - 1) else []
            recs.append(d.record(sym("r%d" % n), names[:k - len(late)]))
            later.append(late)
        else:
            if before == BEFORE[4] and n == len(shape) // 2:
                d.layout("place_nodes")
                d.engine()
            recs.append(d.record(sym("r%d" % n), names))
    if before == BEFORE[3]:
        d.layout("place_nodes")
        for r, late in zip(recs, later):
            for x in late:
                d.append(r, d.call("Document", "create_field", mref(d.root), x))
    elif before == BEFORE[0]:
        # where the first record of a grid goes
        x0, y0, x1, y1 = rect_of(F, placed(F, (1,))[0].view().rect(placed(F, (1,))[1][0]))
        moved(d, recs, (x0, y0), None)
    elif before == BEFORE[1]:
        moved(d, recs, None, (7, 3))
    elif before == BEFORE[2]:
        moved(d, recs, (1000, 2000), (7000, 3000))
    box = d.layout("place_nodes")
    if ports:
        d.layout("place_terminal_ports")
    return d, recs, box


def each(F, R, f, seen, ports=False):
    def run():
        late = Later()
        for shape, before in [(s, None) for s in shapes(F, ports)] + [(s, b) for s in ((3,), (2, 5), (2, 5, 1, 3), (1, 2, 3, 2, 7, 4)) for b in BEFORE]:
            with late:
                d, recs, box = placed(F, shape, ports, before)
                R.count("shapes of documents")
                f(shape, d.view(), recs, box, lambda: "document with records of %s rows%s" % (list(shape) if len(shape) < 30 else "%d x %s" % (len(shape), list(shape[:4])), before and ", which had %s before" % before or ""))
        finish(R, seen)
        late.done()
    R.part("shape by shape", run)


def C11(F, R):
    where = "place_nodes"
    seen = {}
    hs = set()

    def f(shape, V, recs, box, det):
        for n, r in enumerate(recs):
            rows = V.children(r)
            x0, y0, x1, y1 = rect_of(F, V.rect(r))
            for i, c in enumerate(rows):
                cr = V.rect(c)
                truthful(R, seen, cr is not None, "every row is placed", lambda: "%s: row %d of record %d isn't" % (det(), i, n), where)
                if cr is None:
                    continue
                a0, b0, a1, b1 = rect_of(F, cr)
                h = b1 - b0
                hs.add(h)
                p = lambda: "%s: record %d is %s, its row %d is %s" % (det(), n, [float(q) for q in (x0, y0, x1, y1)], i, [float(q) for q in (a0, b0, a1, b1)])
                truthful(R, seen, (a0, a1) == (x0, x1), "a row has its record's left edge and width", p, where)
                truthful(R, seen, h > 0 and len(hs) == 1, "all rows have the same positive height", p, where)
                truthful(R, seen, b0 == y0 + i * h, "the i-th row's top edge is i row heights below the record's", p, where)
            if rows and hs:
                h = max(hs)
                truthful(R, seen, y1 - y0 == h * len(rows), "a record is as high as its rows", lambda: "%s: record %d with %d rows of height %s is %s high" % (det(), n, len(rows), float(h), float(y1 - y0)), where)
    each(F, R, f, seen)


def C12(F, R):
    where = "place_nodes"
    seen = {}
    gaps = {"x": set(), "y": set()}

    def columns():
        d, recs, box = placed(F, (1,) * 10)
        ys = [rect_of(F, d.view().rect(r))[1] for r in recs]
        k = next((i for i, y in enumerate(ys) if y != ys[0]), len(ys))
        R.count("columns", k)
        return k
    k = R.part("number of columns", columns)
    if k is None:
        return

    def f(shape, V, recs, box, det):
        rects = [V.rect(r) for r in recs]
        truthful(R, seen, None not in rects, "every record is placed", det, where)
        if None in rects:
            return
        rs = [rect_of(F, r) for r in rects]
        p = lambda i: "%s: record %d is %s" % (det(), i, [float(q) for q in rs[i]])
        for i, r in enumerate(rs):
            c, g = i % k, i // k
            truthful(R, seen, r[2] - r[0] == rs[0][2] - rs[0][0] > 0, "all records have the same positive width", lambda: p(i), where)
            if g:
                above = rs[(g - 1) * k:g * k]
                truthful(R, seen, r[0] == rs[c][0], "a record has the left edge of its column", lambda: p(i), where)
                gap = r[1] - max(a[3] for a in above)
                gaps["y"].add(gap)
                truthful(R, seen, gap > 0 and len(gaps["y"]) == 1, "a grid row starts by a fixed positive gap below the tallest record of the row before", lambda: "%s, which is %s below the bottom of the tallest record of the row before" % (p(i), float(gap)), where)
            truthful(R, seen, r[1] == rs[g * k][1], "all records of a grid row have the same top edge", lambda: p(i), where)
            if c:
                gap = r[0] - rs[i - 1][2]
                gaps["x"].add(gap)
                truthful(R, seen, gap > 0 and len(gaps["x"]) == 1, "a column starts by a fixed positive gap right of the column before", lambda: p(i), where)
        for i in range(len(rs)):
            for j in range(i):
                a, b = rs[i], rs[j]
                truthful(R, seen, a[0] >= b[2] or b[0] >= a[2] or a[1] >= b[3] or b[1] >= a[3], "no two records overlap", lambda: p(i) + "; " + p(j), where)
    each(F, R, f, seen)


def C13(F, R):
    where = "place_nodes"
    seen = {}

    def f(shape, V, recs, box, det):
        b = opt(box)
        truthful(R, seen, b is not None, "a view box is returned", det, where)
        if b is None:
            return
        x0, y0, x1, y1 = rect_of(F, b)
        p = lambda: "%s: view box %s, records %s" % (det(), [float(q) for q in (x0, y0, x1, y1)], [[float(q) for q in r] for r in rs])
        rs = [rect_of(F, V.rect(r)) for r in recs]
        truthful(R, seen, (x0, y0) == (0, 0), "the view box starts at the origin", p, where)
        truthful(R, seen, x1 > x0 and y1 > y0, "the view box has a positive size", p, where)
        if not rs:
            return
        mx, my = rs[0][0], rs[0][1]
        truthful(R, seen, mx > 0 and my > 0 and all(r[0] >= mx and r[1] >= my for r in rs), "every record is at least the outer margin right of and below the view box's origin", p, where)
        truthful(R, seen, x1 >= max(r[2] for r in rs) + mx, "the view box ends at least the outer margin right of every record", p, where)
        truthful(R, seen, y1 >= max(r[3] for r in rs) + my, "the view box ends at least the outer margin below every record", p, where)
    each(F, R, f, seen)


def C14(F, R):
    where = "place_terminal_ports"
    seen = {}
    O = F.tyname("Orientation")

    def sides(r):
        x0, y0, x1, y1 = r
        return {"Up": ((x0 + x1) / 2, y0), "Down": ((x0 + x1) / 2, y1), "Left": (x0, (y0 + y1) / 2), "Right": (x1, (y0 + y1) / 2)}

    def ports(V, i, det, name):
        s = sides(rect_of(F, V.rect(i)))
        have = []
        for pid, loc, o in V.ports(i):
            if o.op != "adt":
                raise Unclear("orientation " + show(o, 4))
            d = o.args[1]
            have.append(d)
            x, y = point_of(F, loc)
            truthful(R, seen, (x, y) == s[d], "a port is at the middle of the side it faces", lambda: "%s: the port of %s facing %s is at (%s, %s), not (%s, %s)" % (det(), name, d, float(x), float(y), float(s[d][0]), float(s[d][1])), where)
        return have

    def f(shape, V, recs, box, det):
        for n, r in enumerate(recs):
            h = ports(V, r, det, "record %d" % n)
            truthful(R, seen, sorted(h) == ["Down", "Left", "Right", "Up"], "a record has one port on each side", lambda: "%s: record %d has ports %s" % (det(), n, h), where)
            rows = V.children(r)
            for i, c in enumerate(rows):
                h = ports(V, c, det, "row %d of record %d" % (i, n))
                want = ["Down"] * (i == len(rows) - 1) + ["Left", "Right"] + ["Up"] * (i == 0)
                truthful(R, seen, sorted(h) == want, "a row has a left and a right port, a top one only if it's the first and a bottom one only if it's the last", lambda: "%s: row %d of record %d has ports %s" % (det(), i, n, h), where)
    each(F, R, f, seen, True)
