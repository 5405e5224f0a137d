from collections import Counter
from fractions import Fraction
from docs import *
from strs import text, Stuck
from rules.lower import truthful, finish
import terms as tm

WHERE = "SVGRenderer::render"


# -- documents to be drawn

class Scene:
    """A hand-placed document. records: [dict(rect=(x, y, w, h) or None, bg, border, rows=[dict(rect, title, subtitle, badge, bg, border)])],
    edges: [(record or (record, row), same, points or None)]. Colors and texts are values."""

    def __init__(self, F, records, edges=(), stray=()):
        """stray: before which records the body has a child which is no record"""
        self.F, self.records, self.edges = F, records, edges
        d = self.d = Doc(F)
        self.ids = []
        for n, r in enumerate(records):
            if n in stray:
                d.append(None, d.call("Document", "create_field", mref(d.root), self.row(dict(title=lit("stray%d" % n)))))
            i = d.record(F.mk("RecordShape", rounded=TRUE, bg_color=o(r.get("bg")), border_color=o(r.get("border"))), [self.row(x) for x in r["rows"]])
            self.ids.append(i)
        self.rows = [d.view().children(i) for i in self.ids]
        for r, i, rs in zip(records, self.ids, self.rows):
            self.put(i, r)
            for x, j in zip(r["rows"], rs):
                self.put(j, x)
        for a, b, p in edges:
            e = F.val("EdgeData", "new", self.id(a), self.id(b), NONE if p is None else some(seq([one(F.val("Point", "new", v(x), v(y))) for x, y in p])))
            d.call("Document", "add_edge", mref(d.root), e)

    def id(self, a):
        return self.rows[a[0]][a[1]] if isinstance(a, tuple) else self.ids[a]

    def span(self, t, st=None):
        st = st or {}
        return self.F.mk("TextSpan", text=t, color=o(st.get("color")), font_family=o(st.get("font_family")), font_weight=o(st.get("font_weight")), font_size=o(st.get("font_size")))

    def row(self, x):
        b = x.get("badge")
        style = x.get("style")
        return self.F.mk("FieldShape", title=self.span(x["title"], style), subtitle=o(x.get("subtitle") and self.span(x["subtitle"], style)),
                         badge=o(b and self.F.mk("Badge", text=b["text"], color=o(b.get("color")), bg_color=o(b.get("bg")))),
                         bg_color=o(x.get("bg")), border_color=o(x.get("border")))

    def put(self, i, r):
        if r.get("rect") is None and "origin" not in r:
            return
        x, y, w, h = r["rect"]
        F, d = self.F, self.d
        m = opt(d.call("Document", "get_node_mut", mref(d.root), i))
        d.st = d.st.copy()
        for f, z in (("origin", F.val("Point", "new", v(x), v(y))), ("size", F.val("Size", "new", v(w), v(h)))):
            if r.get(f, True):
                d.I.write(d.st, mref(m.args[0], m.args[1] + (("f", F.idx("NodeData", f)),)), some(z))

    def draw(self, renderer=None):
        """-> Drawing"""
        F, d = self.F, self.d
        st = d.st.copy()
        st.roots[("W",)] = sym("writer")
        st.roots.pop(("IO",), None)
        np = len(d.I.panics)
        d.I.search_result = None
        I, st2, res = F.run(F.fn("SVGRenderer", "render", "Renderer"), [renderer or F.val("SVGRenderer", "new"), d.v, mref(("W",))], state=st, interp=d.I)
        if st2 is None:
            raise Unclear("the renderer never returns: %s" % (I.panics[np:][:2],))
        return Drawing(F, res, st2)


def o(x):
    return NONE if x is None else some(x)


def v(x):
    return x if isinstance(x, T) else num(Fraction(x))


class Drawing:
    def __init__(self, F, res, st):
        self.F, self.res = F, res
        log = st.roots.get(("IO",), mk("iolog", ()))
        if log.op != "iolog":
            raise Unclear("writes: " + show(log, 4))
        self.log = []
        for s in log.args[0]:
            if s.op != "one":
                raise Unclear("a loop of writes")
            self.log.append((s.args[0],) + s.args[1].args)

    def writes(self):
        return [x for x in self.log if x[1] != "flush"]

    def pieces(self):
        """the text written piece by piece, in order and without a rest; None: it isn't written so"""
        met = list(dict.fromkeys(w[3] for w in self.writes()))
        if met and met[0].op == "textpiece" and met == [mk("textpiece", met[0].args[0], i) for i in range(3)]:
            return met[0].args[0]
        return None

    def doc(self):
        """the document written"""
        ws = self.writes()
        whole = self.pieces()
        if whole is not None:
            return whole.args[0]
        if len(ws) != 1 or ws[0][0] is not TRUE or ws[0][3].op != "svgtext":
            raise Unclear("not one write of a document: " + (" ".join(show(w[3], 3) for w in ws)))
        return ws[0][3].args[0]

    def shapes(self, comments=False):
        """all elements in drawing order, groups dissolved"""
        out = []

        def go(e, parents):
            if is_text(e):
                return
            if e.op != "adt" or e.args[1] != "elem":
                raise Unclear("element: " + show(e, 4))
            kind, at, ch = e.args[2]
            if kind.args[0] == "Comment" and not comments:
                return
            kids = items(ch)
            s = Shape(kind.args[0], attributes(at), [k.args[2][0] for k in kids if is_text(k)], parents, e)
            s.n = len(out)
            out.append(s)
            for k in kids:
                go(k, parents + (s,))
        go(self.doc(), ())
        return out


def is_text(e):
    return e.op == "adt" and e.args[1] == "text"


def attributes(at):
    if at.op != "attrs":
        raise Unclear("attributes: " + show(at, 4))
    out = {}
    for k, x in at.args[0]:
        out[k.args[0] if isinstance(k, T) else k] = x
    return out


class Shape:
    def __init__(self, kind, attrs, texts, parents, term):
        self.kind, self.attrs, self.texts, self.parents, self.term = kind, attrs, texts, parents, term

    def get(self, k):
        """an attribute's text, None if it isn't there"""
        x = self.attrs.get(k)
        if x is None:
            return None
        try:
            return text(x)
        except Stuck:
            try:
                return strs_hole(x)
            except Stuck:
                raise Unclear("attribute %s: %s" % (k, show(x, 5)))

    def num(self, k):
        x = self.attrs.get(k)
        if x is None:
            return Fraction(0)
        if x.op == "disp" and const(x.args[0]) is not None:
            return const(x.args[0])
        try:
            return Fraction(self.get(k))
        except ValueError:
            raise Unclear("attribute %s: %s" % (k, self.get(k)))

    def nums(self, *ks):
        return tuple(self.num(k) for k in ks)

    def text(self):
        try:
            return "".join(text(t) for t in self.texts)
        except Stuck as e:
            raise Unclear("text: " + show(self.texts[0], 5))

    @property
    def hidden(self):
        """part of a definition"""
        return self.kind in ("Definitions", "ClipPath") or any(p.kind in ("Definitions", "ClipPath") for p in self.parents)

    def __repr__(self):
        return show(self.term, 7)


def strs_hole(x):
    import strs
    return strs.hole(x)


# -- documents used by the rules

def gray(F, n):
    return adt(F.tyname("WebColor"), "RGB", F.val("RGBColor", "new", num(n), num(n + 1), num(n + 2)))


def T_(s):
    return lit(s)


def scenes(F):
    """hand-placed documents: all combinations of what a row may have, records of several sizes, apart and of irregular geometry"""
    out = []
    c = [40]

    def color(on):
        c[0] += 3
        return gray(F, c[0] % 250) if on else None

    n = [0]

    name = [lit]

    def row(rect, bits):
        n[0] += 1
        k = n[0]
        r = dict(rect=rect, title=name[0]("title%d" % k), bits=bits)
        if bits & 1:
            r["subtitle"] = name[0]("sub%d" % k)
        if bits & 2:
            r["badge"] = dict(text=name[0]("badge%d" % k), bg=color(bits & 16), color=color(bits & 32))
        r["bg"] = color(bits & 4)
        r["border"] = color(bits & 8)
        return r

    def record(x, y, w, hs, bits, bg=False, border=False):
        rows = []
        yy = y
        for h, b in zip(hs, bits):
            rows.append(row((x, yy, w, h), b))
            yy += h
        return dict(rect=(x, y, w, yy - y), rows=rows, bg=color(bg), border=color(border))

    # every combination of subtitle, badge, background, border
    out.append(([record(50, 50, 300, [35] * 16, list(range(16)), True, True)], []))
    out.append(([record(50, 50, 300, [35] * 4, [2 + 16, 2 + 32, 2 + 48, 3 + 4 + 16], False, True), record(430, 50, 300, [35], [63], True, False), record(810, 50, 300, [], []), record(50, 270, 300, [35, 35], [4, 4], False, False)],
                [(0, 1, [(350, 120), (390, 120), (390, 60), (430, 60)]), ((0, 2), (1, 0), [(350, 130), (430, 130)]), (3, 3, [(50, 300), (20, 300), (20, 280), (50, 280)])]))
    # irregular geometry
    out.append(([record(-10, 7, 100, [40, 64, 48], [63, 7, 0], True, True), record(500, -300, 640, [90, 50], [4, 63], True, True)], [((0, 1), 1, [(90, 70), (90, 10), (200, 10), (500, 10)])]))
    out.append(([], []))
    # large and tiny ones, far away
    out.append(([record(-4000, 9000, 7000, [13.5, 800], [63, 21], True), record(12345, -6789, 64, [13, 40], [47, 3], True, True)], [(0, 1, [(3000, 9100), (12345, 9100), (12345, -6770)])]))
    # edges within records
    out.append(([record(50, 50, 300, [35] * 4, [0, 7, 3, 9], True), record(450, 50, 300, [35] * 3, [3, 0, 5])],
                [(0, 1, [(350, 60), (450, 60)]), ((0, 0), (0, 2), [(50, 60), (30, 60), (30, 140), (50, 140)]), ((1, 2), (1, 1), [(750, 140), (770, 140), (770, 100), (750, 100)]),
                 (0, (0, 3), [(200, 50), (200, 30), (30, 30), (30, 170), (50, 170)]), ((0, 1), (1, 0), [(350, 90), (450, 90)])]))
    # many rows, records and edges
    N = names(F)
    rows = max([30] + N.C.sizes(30, 300))
    recs = max([24] + N.C.sizes(24, 300))
    count = max([40] + N.C.sizes(40, 300))
    rs = [record(50 + 380 * (i % 4), 50 + 100 * (i // 4), 300, [35] if i % 2 else [35, 35], [(7 * i) % 64, 63], i % 3, i % 5) for i in range(recs)] + [record(9000, 50, 300, [35] * rows, [[0, 7, 63, 21][i % 4] for i in range(rows)], True)]
    es = []
    for i in range(count):
        a, b = i % (recs - 1), i % (recs - 1) + 1
        p, q = rs[a]["rect"], rs[b]["rect"]
        k = i // (recs - 1) + 1
        es.append((a, b, [(p[0] + p[2], p[1] + k), (p[0] + p[2] + 30, p[1] + k), (p[0] + p[2] + 30, q[1] + k + 40), (q[0], q[1] + k + 40)]))
    out.append((rs, es))
    # names of blanks
    met = {}
    name[0] = lambda k: lit((" " * (met.setdefault(k, len(met)) % 4 + 1)) + ("\u3000\u00a0\u2003" * (met[k] // 4)) + "\t" * (met[k] % 2))
    out.append(([record(50, 50, 300, [35] * 4, [0, 3 + 16 + 32, 7, 2], True), record(500, 50, 300, [35] * 2, [3 + 16, 9])], []))
    # names which could be told apart
    for what, w in N.ways[1:]:
        if what == "short":
            continue
        name[0] = w
        rs = [record(50, 50, 300, [35] * 4, [0, 3 + 16 + 32, 7, 2], True), record(500, 50, 300, [35] * 2, [3 + 16, 9])]
        ts = [text(t) for r in rs for x in r["rows"] for t in (x["title"], x.get("subtitle"), x.get("badge") and x["badge"]["text"]) if t is not None]
        if len(set(ts)) == len(ts) and all(t.strip() for t in ts):
            out.append((rs, [((0, 1), (1, 0), [(350, 100), (410, 100), (410, 67), (500, 67)])]))
    return out


_names = {}


def names(F):
    if F not in _names:
        _names[F] = Names(F, ("SVGRenderer", "render", "Renderer"), markup=False)
    return _names[F]


def scattered(F):
    """rows which aren't where their records are"""
    row = lambda k, rect, **kw: dict(rect=rect, title=lit("title%d" % k), subtitle=lit("sub%d" % k), badge=dict(text=lit("badge%d" % k), bg=gray(F, 40 + k)), bg=gray(F, 90 + k), **kw)
    return [([dict(rect=(50, 50, 300, 100), rows=[row(1, (500, 60, 300, 35)), row(2, (50, 400, 300, 35)), row(3, (-700, -300, 200, 50)), row(4, (60, 60, 100, 20)), row(5, (20, 30, 900, 300))]),
              dict(rect=(1000, 50, 300, 30), rows=[row(6, (1000, 50, 300, 35)), row(7, (1000, 85, 300, 35)), row(8, (1000, 120, 300, 35))])], [])]


def drawn(F, R, f, seen, what="document by document", strays=False, more=()):
    def run():
        late = Later()
        for n, (recs, edges) in enumerate(scenes(F) + list(more)):
            with late:
                s = Scene(F, recs, edges)
                R.count("documents")
                f(s, s.draw(), "document %d (%s rows)" % (n + 1, [len(r["rows"]) for r in recs]))
        if strays:
            for n, (recs, edges) in enumerate(scenes(F)[:3]):
                for st in ((0,), (1,), (0, 1, 2)):
                    with late:
                        s = Scene(F, recs, edges, st)
                        R.count("documents")
                        f(s, s.draw(), "document %d (%s rows) with other shapes before records %s" % (n + 1, [len(r["rows"]) for r in recs], st))
        finish(R, seen)
        late.done()
    R.part(what, run)


def want_color(F, c):
    return text(F.display("WebColor", c))


def geometry(s):
    return s.nums("x", "y", "width", "height")


def inside(p, rect):
    x, y, w, h = rect
    return x < p[0] < x + w and y < p[1] < y + h


def at(rect):
    return "(%s, %s) %s x %s" % tuple(map(float, rect)) if rect is not None else "?"


def page_backgrounds(shapes):
    return [s for s in shapes if s.kind == "Rectangle" and not s.hidden and (s.attrs.get("width") is not None and s.attrs["width"].op == "lit" and s.get("width").endswith("%"))]


def rectangles(shapes):
    bg = page_backgrounds(shapes)
    return [s for s in shapes if s.kind == "Rectangle" and not s.hidden and s not in bg]


def C20(F, R):
    seen = {}

    def f(s, dr, det):
        shapes = dr.shapes()
        rects = rectangles(shapes)
        R.count("shapes drawn", len(shapes))
        want = Counter(tuple(map(Fraction, r["rect"])) for r in s.records) + Counter(tuple(map(Fraction, x["rect"])) for r in s.records for x in r["rows"] if x.get("bg") is not None)
        have = Counter(geometry(q) for q in rects)
        for k in set(want) | set(have):
            truthful(R, seen, want[k] == have[k], "one background per record and per row which has one, with its geometry", lambda: "%s: %d rectangles at %s, not %d" % (det, have[k], at(k), want[k]), WHERE)
        lines = Counter()
        for q in shapes:
            if q.kind == "Line":
                x1, y1, x2, y2 = q.nums("x1", "y1", "x2", "y2")
                lines[(min(x1, x2), max(x1, x2), y1, y2)] += 1
        wl = Counter((Fraction(x["rect"][0]), Fraction(x["rect"][0] + x["rect"][2]), Fraction(x["rect"][1]), Fraction(x["rect"][1])) for r in s.records for x in r["rows"][1:])
        for k in set(lines) | set(wl):
            truthful(R, seen, lines[k] == wl[k], "one separating line at the top of every row but the first", lambda: "%s: %d lines from x %s to %s, y %s to %s, not %d" % ((det, lines[k]) + tuple(map(float, k)) + (wl[k],)), WHERE)
        texts = {}
        for q in shapes:
            if q.kind == "Text":
                texts.setdefault(q.text(), []).append(q)
        wt = {}
        for n, r in enumerate(s.records):
            for i, x in enumerate(r["rows"]):
                for role, t in (("title", x["title"]), ("subtitle", x.get("subtitle")), ("badge", x.get("badge") and x["badge"]["text"])):
                    if t is not None:
                        wt[text(t)] = (role, n, i, x)
        for t in set(wt) | set(texts):
            truthful(R, seen, len(texts.get(t, [])) == (t in wt), "title, subtitle and badge of every row are drawn once and nothing else", lambda: "%s: text %r is drawn %d times" % (det, t, len(texts.get(t, []))), WHERE)
            if t in wt and t in texts:
                role, n, i, x = wt[t]
                p = texts[t][0].nums("x", "y")
                truthful(R, seen, inside(p, x["rect"]), "a text is drawn inside its own row", lambda: "%s: the %s of row %d of record %d at %s is drawn at (%s, %s)" % (det, role, i, n, at(x["rect"]), float(p[0]), float(p[1])), WHERE)
        discs = [q for q in shapes if q.kind == "Circle"]
        ends = sum(2 for e in s.edges)
        wd = [(n, i, x) for n, r in enumerate(s.records) for i, x in enumerate(r["rows"]) if x.get("badge") and x["badge"].get("bg") is not None]
        got = Counter()
        for q in discs:
            for n, i, x in wd:
                if inside(q.nums("cx", "cy"), x["rect"]) and q.get("fill") == want_color(F, x["badge"]["bg"]):
                    got[(n, i)] += 1
        for n, i, x in wd:
            truthful(R, seen, got[(n, i)] == 1, "a badge with a background has one disc in its row", lambda: "%s: %d discs in row %d of record %d" % (det, got[(n, i)], i, n), WHERE)
        truthful(R, seen, len(discs) == ends + len(wd), "no other discs are drawn", lambda: "%s: %d circles for %d edges and %d badges" % (det, len(discs), len(s.edges), len(wd)), WHERE)
    drawn(F, R, f, seen, more=scattered(F))


def C21(F, R):
    seen = {}

    def f(s, dr, det):
        shapes = dr.shapes()
        clips = {}
        for q in shapes:
            if q.kind == "ClipPath":
                clips.setdefault(q.get("id"), []).append(q)
        for k, cs in clips.items():
            truthful(R, seen, len(cs) == 1, "a clip path is defined once", lambda: "%s: %d clip paths have the id %s" % (det, len(cs), k), WHERE)
        ids = Counter(q.get("id") for q in shapes if "id" in q.attrs)
        for k, c in ids.items():
            truthful(R, seen, c == 1, "ids are unique", lambda: "%s: %d elements have the id %s" % (det, c, k), WHERE)
        for q in shapes:
            ref = q.get("clip-path")
            if ref is None:
                continue
            R.count("references")
            if not (ref.startswith("url(#") and ref.endswith(")")):
                truthful(R, seen, False, "a reference names a clip path", lambda: "%s: %s" % (det, ref), WHERE)
                continue
            cs = clips.get(ref[5:-1], [])
            truthful(R, seen, len(cs) == 1, "a referenced clip path is defined", lambda: "%s: %s isn't" % (det, ref), WHERE)
            if len(cs) != 1:
                continue
            inner = [z for z in shapes if cs[0] in z.parents]
            x, y, w, h = geometry(q)
            own = [r for r in s.records if r["rect"][0] <= x and x + w <= r["rect"][0] + r["rect"][2] and r["rect"][1] <= y and y + h <= r["rect"][1] + r["rect"][3]]
            if len(own) != 1:
                raise Unclear("%d records around %s" % (len(own), at((x, y, w, h))))
            truthful(R, seen, len(inner) == 1 and inner[0].kind == "Rectangle" and geometry(inner[0]) == tuple(map(Fraction, own[0]["rect"])), "the clip path is the rectangle of the record around the referring shape",
                     lambda: "%s: the shape at %s inside the record at %s is clipped to %s" % (det, at((x, y, w, h)), at(own[0]["rect"]), [at(geometry(z)) for z in inner]), WHERE)
    drawn(F, R, f, seen, strays=True)


def C22(F, R):
    seen = {}

    def f(s, dr, det):
        shapes = [q for q in dr.shapes() if not q.hidden and q.kind not in ("SVG", "Group")]
        pb = page_backgrounds(shapes)
        truthful(R, seen, len(pb) == 1 and shapes[0] is pb[0], "the page background is the first shape and the only one of its kind", lambda: "%s: the first shape is %r" % (det, shapes[0] if shapes else None), WHERE)
        rects = rectangles(shapes)
        by = {}
        for q in rects:
            by.setdefault(geometry(q), []).append(q)
        last = -1
        texts = {q.text(): q for q in shapes if q.kind == "Text"}
        for n, r in enumerate(s.records):
            g = tuple(map(Fraction, r["rect"]))
            if g not in by:
                raise Unclear("record without a rectangle")
            mine = by[g][0]     # drawn first
            if r.get("bg") is not None and len(by[g]) > 1:
                ms = [q for q in by[g] if q.get("fill") == want_color(F, r["bg"])]
                mine = ms[0] if ms else mine
            for i, x in enumerate(r["rows"]):
                p = lambda: "%s: row %d of record %d" % (det, i, n)
                bgs = [q for q in by.get(tuple(map(Fraction, x["rect"])), []) if q is not mine] if x.get("bg") is not None else []
                for b in bgs:
                    truthful(R, seen, mine.n < b.n, "a record's background is drawn before its rows'", p, WHERE)
                ts = [texts.get(text(t)) for t in (x["title"], x.get("subtitle"), x.get("badge") and x["badge"]["text"]) if t is not None]
                lines = [q for q in shapes if q.kind == "Line" and inside_closed(q, x["rect"])]
                discs = [q for q in shapes if q.kind == "Circle" and x.get("badge") and x["badge"].get("bg") is not None and inside(q.nums("cx", "cy"), x["rect"]) and q.get("fill") == want_color(F, x["badge"]["bg"])]
                for q in [t for t in ts if t] + lines + discs:
                    truthful(R, seen, mine.n < q.n, "a record's background is drawn before what its rows show", p, WHERE)
                    last = max(last, q.n)
                for q in [t for t in ts if t] + discs:
                    for b in bgs:
                        truthful(R, seen, b.n < q.n, "a row's background is drawn before its texts and badge", p, WHERE)
                for b in bgs:
                    for l in lines:
                        if l.num("y1") == x["rect"][1]:
                            truthful(R, seen, b.n < l.n, "a row's background is drawn before its separating line", p, WHERE)
                if x.get("badge"):
                    bt = texts.get(text(x["badge"]["text"]))
                    for q in discs:
                        if bt:
                            truthful(R, seen, q.n < bt.n, "a badge's disc is drawn before its text", p, WHERE)
                last = max([last, mine.n] + [b.n for b in bgs])
        for q in shapes:
            if q.kind in ("Path", "Polyline"):
                truthful(R, seen, q.n > last, "edges are drawn after all records", lambda: "%s: %r" % (det, q), WHERE)
        ends = {tuple(map(Fraction, p[i])) for _, _, p in s.edges for i in (0, -1)}
        for q in shapes:
            if q.kind == "Circle" and q.nums("cx", "cy") in ends:
                truthful(R, seen, q.n > last, "edges' ends are drawn after all records", lambda: "%s: %r" % (det, q), WHERE)
                lines = [z for z in shapes if z.kind == "Path" and path_ends(z, q.nums("cx", "cy"))]
                if lines:
                    truthful(R, seen, any(z.n < q.n for z in lines), "an edge's line is drawn before the circles at its ends", lambda: "%s: %r" % (det, q), WHERE)
    drawn(F, R, f, seen)


def path_ends(z, p):
    d = [q for c, q in path_data(z.get("d"))]
    return bool(d) and p in (d[0][-1], d[-1][-1])


def inside_closed(q, rect):
    x, y, w, h = rect
    return y <= q.num("y1") < y + h and x <= q.num("x1") <= x + w


# -- edges

def path_data(d):
    """-> [(command, [points])]"""
    out = []
    word = ""
    toks = []
    for ch in d:
        if ch.isalpha() and ch not in "eE":
            if word:
                toks.append(word)
            word = ""
            toks.append(ch)
        elif ch in " ,\t\n":
            if word:
                toks.append(word)
            word = ""
        else:
            word += ch
    if word:
        toks.append(word)
    i = 0
    n = {"M": 1, "L": 1, "Q": 2, "T": 1, "C": 3}
    cmd = None
    while i < len(toks):
        if toks[i].isalpha():
            cmd = toks[i]
            i += 1
        if cmd == "H" or cmd == "V":
            x, y = out[-1][1][-1]
            w = Fraction(toks[i])
            i += 1
            out.append(("L", [(w, y) if cmd == "H" else (x, w)]))
            continue
        if cmd not in n:
            raise Unclear("path data " + d)
        ps = []
        for _ in range(n[cmd]):
            ps.append((Fraction(toks[i]), Fraction(toks[i + 1])))
            i += 2
        out.append((cmd, ps))
    return out


# one unit each way
U, D, L, R_ = (0, -1), (0, 1), (-1, 0), (1, 0)
TURNS = [(a, b) for a in (U, D, L, R_) for b in (U, D, L, R_) if (a[0] == 0) != (b[0] == 0)]
NAMES = {U: "up", D: "down", L: "left", R_: "right"}


def walk(start, steps):
    p = [start]
    for (dx, dy), n in steps:
        p.append((p[-1][0] + dx * n, p[-1][1] + dy * n))
    return p


def paths(N):
    """paths with every turn and straight passage, at the first, a middle and the last inner point"""
    out = []
    lens = sorted({14, 12.5, 2000} | {f + d for f in N.C.floats for d in (0, 0.5) if 12 < f < 5000})
    for a, b in TURNS:
        out.append(walk((3, -7), [(a, 100), (b, 60)]))
        back = (-a[0], -a[1])
        out.append(walk((200, 5), [(a, 40), (b, 50), (a, 30)]))
        out.append(walk((200, 5), [(a, 40), (b, 50), (back, 30), (b, 20), (b, 33)]))
        for n in lens:
            out.append(walk((-n, 7), [(a, n), (b, n + 1), (a, n), (b, 2 * n)]))
    many = max([40] + N.C.sizes(40, 300))
    zig = walk((3, 4), [[(R_, 20), (D, 30), (R_, 25), (U, 15)][i % 4] for i in range(many)])
    out += [zig, zig[::-1], [(y, x) for x, y in zig]]
    for a in (U, D, L, R_):
        out.append(walk((5, -2), [(a, 3)]))
        out.append(walk((5, -2), [(a, 0.25), (a, 9000)]))
        out.append(walk((1, 2), [(a, 17)]))
        out.append(walk((1, 2), [(a, 17), (a, 5)]))
        out.append(walk((50, 20), [(a, 25), (a, 31), (a, 40)]))
    return out


class Edges:
    """one document with an edge for every path"""

    def __init__(self, F):
        ps = paths(names(F))
        recs = [dict(rect=(1000, 1000 + 100 * i, 10, 20), rows=[]) for i in range(2)]
        self.scene = Scene(F, recs, [(0, 1, p) for p in ps])
        self.paths = [[(Fraction(x), Fraction(y)) for x, y in p] for p in ps]
        self.shapes = [q for q in self.scene.draw().shapes() if not q.hidden]
        self.lines = [q for q in self.shapes if q.kind == "Path"]


_edges = {}


def edges(F):
    if F not in _edges:
        _edges[F] = Edges(F)
    return _edges[F]


def pts(p):
    return " ".join("(%g, %g)" % (float(x), float(y)) for x, y in p)


def C23(F, R):
    seen = {}

    def run():
        E = edges(F)
        truthful(R, seen, len(E.lines) == len(E.paths), "one line per edge", lambda: "%d lines for %d edges" % (len(E.lines), len(E.paths)), WHERE)
        if len(E.lines) == len(E.paths):
            for p, q in zip(E.paths, E.lines):
                R.count("paths drawn")
                d = path_data(q.get("d"))
                t = lambda: "the edge along %s is drawn as %s" % (pts(p), q.get("d"))
                truthful(R, seen, d and d[0][0] == "M" and d[0][1][-1] == p[0] and sum(c == "M" for c, _ in d) == 1, "an edge's line starts at the first point of its path", t, WHERE)
                truthful(R, seen, d and d[-1][1][-1] == p[-1], "an edge's line ends at the last point of its path", t, WHERE)
                # every inner point is passed in order, at a distance less than half a step
                i = 0
                steps = [z for c, ps in d for z in ps]
                for z in steps:
                    if i < len(p) and z == p[i]:
                        i += 1
                truthful(R, seen, i == len(p), "an edge's line goes through every point in order", t, WHERE)
                # nothing else: every point of the line is on the path
                truthful(R, seen, all(on_path(z, p) for z in steps), "an edge's line leaves its path nowhere", t, WHERE)
        cs = Counter(q.nums("cx", "cy") for q in E.shapes if q.kind == "Circle")
        want = Counter(p[i] for p in E.paths for i in (0, -1))
        for k in set(cs) | set(want):
            truthful(R, seen, cs[k] == want[k], "one circle at the first and one at the last point of an edge", lambda: "%d circles at %s, not %d" % (cs[k], pts([k]), want[k]), WHERE)
        finish(R, seen)
    R.part("path by path", run)


def on_path(z, p):
    for a, b in zip(p, p[1:]):
        if min(a[0], b[0]) <= z[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= z[1] <= max(a[1], b[1]):
            return True
    return False


def C24(F, R):
    seen = {}

    def run():
        E = edges(F)
        radius = set()
        if len(E.lines) != len(E.paths):
            raise Unclear("%d lines for %d edges" % (len(E.lines), len(E.paths)))
        for p, q in zip(E.paths, E.lines):
            d = path_data(q.get("d"))
            for a, b, c in zip(p, p[1:], p[2:]):
                d1 = unit(a, b)
                d2 = unit(b, c)
                t = lambda: "at (%g, %g) from %s to %s, in %s" % (float(b[0]), float(b[1]), NAMES[d1], NAMES[d2], q.get("d"))
                if d1 == d2:
                    R.count("straight passages")
                    truthful(R, seen, ("L", [b]) in d, "a point without a turn is passed straight", t, WHERE)
                    truthful(R, seen, not any(b in ps[:-1] for _, ps in d), "no curve where the edge doesn't turn", t, WHERE)
                    continue
                R.count("turns")
                ks = [k for k, (cc, ps) in enumerate(d) if cc in "QC" and ps[0] == b]
                truthful(R, seen, len(ks) == 1 and d[ks[0]][0] == "Q", "a turn is a curve with the point as its control point", t, WHERE)
                if len(ks) != 1 or d[ks[0]][0] != "Q":
                    continue
                k = ks[0]
                end = d[k][1][1]
                cc, ps = d[k - 1] if k else ("", [None])
                r = (b[0] - ps[-1][0]) * d1[0] + (b[1] - ps[-1][1]) * d1[1] if k else 0
                truthful(R, seen, cc == "L" and r > 0 and ps[-1] == (b[0] - r * d1[0], b[1] - r * d1[1]), "the line goes on the incoming segment up to before the point", t, WHERE)
                r2 = (end[0] - b[0]) * d2[0] + (end[1] - b[1]) * d2[1]
                truthful(R, seen, r2 > 0 and end == (b[0] + r2 * d2[0], b[1] + r2 * d2[1]), "the curve ends after the point on the outgoing segment", t, WHERE)
                radius |= {r, r2}
                truthful(R, seen, len(radius) == 1, "the radius is the same on both sides of every turn", t, WHERE)
        finish(R, seen)
    R.part("turn by turn", run)


def unit(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    return ((dx > 0) - (dx < 0), (dy > 0) - (dy < 0))


# -- failures

def C25(F, R):
    seen = {}

    def run():
        base = lambda: [dict(rect=(50, 50, 300, 70), rows=[dict(rect=(50, 50, 300, 35), title=lit("a"), bg=gray(F, 9)), dict(rect=(50, 85, 300, 35), title=lit("b"))]),
                        dict(rect=(430, 50, 300, 35), rows=[dict(rect=(430, 50, 300, 35), title=lit("c"))]), dict(rect=(810, 50, 300, 0), rows=[])]
        E = lambda: [[0, 1, [(350, 60), (430, 60)]], [(0, 1), (1, 0), [(350, 90), (430, 90)]], [(1, 0), 0, [(430, 60), (350, 60)]]]
        spots = [(n,) for n in range(3)] + [(0, 0), (0, 1), (1, 0)]
        cases = []
        for s in spots:
            for f in ("origin", "size", "both"):
                cases.append(([(s, f)], []))
        for e in range(3):
            cases.append(([], [e]))
        cases += [([((0, 1), "origin"), ((1, 0), "size")], []), ([((2,), "size"), ((0, 0), "origin")], []), ([((1,), "origin")], [0]), ([], [0, 1]), ([], [1, 2]), ([((1, 0), "size")], [0])]
        for nodes, es in [([], [])] + cases:
            recs, ed = base(), E()
            for s, f in nodes:
                x = recs[s[0]] if len(s) == 1 else recs[s[0]]["rows"][s[1]]
                for g in ("origin", "size"):
                    if f in (g, "both"):
                        x[g] = False
                        x.setdefault("rect", None)
            for e in es:
                ed[e][2] = None
            S = Scene(F, recs, [tuple(e) for e in ed])
            dr = S.draw()
            R.count("documents")
            ids = {S.id(s if len(s) == 2 else s[0]): s for s, _ in nodes}
            for e in es:
                ids[S.id(ed[e][0])] = "edge %d" % e
            det = "document without %s" % ", ".join(["%s of %s" % ("geometry" if f == "both" else f, ("row %d of record %d" % (s[1], s[0])) if len(s) == 2 else "record %d" % s[0]) for s, f in nodes] + ["path of edge %d" % e for e in es])
            if not ids:
                continue
            ls = leafset(dr.res)
            ok_ = [x for x in ls if x.op == "adt" and x.args[1] == "Ok"]
            truthful(R, seen, not ok_, "an incomplete layout is an error", lambda: det + ": rendered without an error", WHERE)
            if ok_:
                continue
            if len(ls) != 1 or next(iter(ls)).op != "adt":
                raise Unclear("result " + show(dr.res, 6))
            e = next(iter(ls)).args[2][0]
            good = e.op == "adt" and e.args[1] == "InvalidLayout"
            truthful(R, seen, good, "the error tells that the layout is invalid", lambda: det + ": " + show(e, 5), WHERE)
            if good:
                i = e.args[2][0]
                truthful(R, seen, i in ids, "the error names the node", lambda: "%s: names %s" % (det, show(i, 5)), WHERE)
            truthful(R, seen, not dr.writes(), "nothing is written", lambda: det + ": something is written", WHERE)
        finish(R, seen)
    R.part("document by document", run)


def C26(F, R):
    seen = {}

    def f(s, dr, det):
        ws = dr.writes()
        R.count("writes", len(ws))
        whole = dr.pieces()
        if whole is not None:
            # all of it, in pieces
            for _, how, w, _, _ in ws:
                truthful(R, seen, how in ("write_all", "write_fmt", "write_str"), "the write writes everything it is given", lambda: "%s: uses %s" % (det, how), WHERE)
            oks = [g for g, x in leaves(dr.res) if x.op == "adt" and x.args[1] == "Ok"]
            for g in oks:
                for w in ws:
                    truthful(R, seen, implies(b_and(g, w[0]), mk_ok(w[4])), "success means that all was written", lambda: "%s: the result is %s" % (det, show(dr.res, 4)), WHERE)
            return
        truthful(R, seen, len(ws) == 1 and ws[0][0] is TRUE, "one write per document", lambda: "%s: %d writes" % (det, len(ws)), WHERE)
        if len(ws) != 1:
            return
        _, how, w, what, res = ws[0]
        truthful(R, seen, how in ("write_all", "write_fmt", "write_str"), "the write writes everything it is given", lambda: "%s: uses %s" % (det, how), WHERE)
        if w is not sym("writer"):
            raise Unclear("writes to " + show(w, 4))
        if what.op != "svgtext" and opaque_ops(what) is not None:
            raise Unclear("writes " + show(what, 4))
        truthful(R, seen, what.op == "svgtext" and what.args[0].op == "adt" and what.args[0].args[2][0] is lit("SVG"), "the write gets the text of the document", lambda: "%s: %s" % (det, show(what, 4)), WHERE)
        # the result is that of the write
        for g, x in leaves(dr.res):
            if x.op != "adt":
                raise Unclear("result " + show(x, 4))
        oks = [g for g, x in leaves(dr.res) if x.args[1] == "Ok"]
        errs = [(g, x) for g, x in leaves(dr.res) if x.args[1] == "Err"]
        truthful(R, seen, bool(oks) and bool(errs), "a failed write is an error, a successful one isn't", lambda: "%s: the result is %s" % (det, show(dr.res, 4)), WHERE)
        for g in oks:
            truthful(R, seen, implies(g, mk_ok(res)), "success means that all was written", lambda: "%s: the result is %s" % (det, show(dr.res, 4)), WHERE)
        for g, x in errs:
            truthful(R, seen, tm.contains(x, "ioerr", lambda y: y is res), "the writer's error is returned", lambda: "%s: the result is %s" % (det, show(x, 6)), WHERE)
    drawn(F, R, f, seen)
    C26_nothing(F, R)


def mk_ok(res):
    return is_variant(res, "core::result::Result", "Ok")


def C26_nothing(F, R):
    seen = {}

    def run():
        for miss in ("record", "row", "edge"):
            recs = [dict(rect=(50, 50, 300, 35), rows=[dict(rect=(50, 50, 300, 35), title=lit("a"))]), dict(rect=(430, 50, 300, 35), rows=[dict(rect=(430, 50, 300, 35), title=lit("b"))])]
            ed = [(0, 1, [(350, 60), (430, 60)]), (1, 0, [(430, 60), (350, 60)])]
            if miss == "edge":
                ed[1] = (1, 0, None)
            else:
                x = recs[1] if miss == "record" else recs[1]["rows"][0]
                x["size"] = False
            dr = Scene(F, recs, ed).draw()
            truthful(R, seen, not dr.writes(), "nothing is written if the layout is invalid", lambda: "the last %s isn't laid out: something is written" % miss, WHERE)
        finish(R, seen)
    R.part("failing documents", run)


# -- texts

SPECIAL = [0, 1, 8, 9, 10, 11, 12, 13, 14, 31, 32, 33, 34, 37, 38, 39, 45, 47, 48, 59, 60, 61, 62, 63, 65, 91, 93, 96, 97, 126, 127, 128, 133, 160, 233, 0x2028, 0x3042, 0xD7FF, 0xE000, 0xFDD0, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x1FFFE, 0x10FFFF]
ESC = {38: ("&amp;", "&#38;", "&#x26;"), 60: ("&lt;", "&#60;", "&#x3C;", "&#x3c;"), 62: ("&gt;", "&#62;", "&#x3E;", "&#x3e;")}


def forbidden(c):
    return (c < 32 and c not in (9, 10, 13)) or c in (0xFFFE, 0xFFFF)


def unescape(t):
    """text in the output -> the text it stands for, None if it isn't character data"""
    out = []
    i = 0
    while i < len(t):
        if t[i] in "<>":
            return None
        if t[i] == "&":
            for c, es in ESC.items():
                e = [x for x in es if t.startswith(x, i)]
                if e:
                    out.append(chr(c))
                    i += len(e[0])
                    break
            else:
                return None
            continue
        if forbidden(ord(t[i])):
            return None
        out.append(t[i])
        i += 1
    return "".join(out)


def meant(s):
    return "".join("\uFFFD" if forbidden(ord(c)) else c for c in s)


def C19(F, R):
    R.part("where texts go", c19_where, F, R)
    R.part("how texts are written", c19_how, F, R)
    R.part("large documents", c19_everywhere, F, R)


ROLES = ("title", "subtitle", "badge")


def one_row(F, t, s, b):
    return Scene(F, [dict(rect=(50, 50, 300, 35), rows=[dict(rect=(50, 50, 300, 35), title=t, subtitle=s, badge=dict(text=b, bg=gray(F, 9)), bg=gray(F, 3))])])


def c19_where(F, R):
    """texts of unknown content reach text nodes only"""
    seen = {}
    names = [sym("title"), sym("subtitle"), sym("badge")]
    shapes = one_row(F, *names).draw().shapes(True)
    for q in shapes:
        if q.kind == "Comment":
            truthful(R, seen, not any(tm.contains(x, ("sym", n), lambda y, n=n: y is n) for n in names for x in q.texts), "no text of the document reaches a comment", lambda: show(q.texts[0], 5), WHERE)
    consts = set()
    for q in shapes:
        for k, x in q.attrs.items():
            R.count("attribute values")
            truthful(R, seen, not any(tm.contains(x, ("sym", n), lambda y, n=n: y is n) for n in names), "no text of the document reaches an attribute", lambda: "%s of %s is %s" % (k, q.kind, show(x, 6)), WHERE)
    where = {n: 0 for n in names}
    for q in shapes:
        for t in q.texts:
            R.count("text nodes")
            for y in tm.subterms(t):
                if y in where:
                    where[y] += 1
                c = breakpoint_of(y)
                if c is not None:
                    consts.add(c)
    for n, role in zip(names, ROLES):
        truthful(R, seen, where[n] > 0, "the text of a row is in the output", lambda: "the %s isn't" % role, WHERE)
    finish(R, seen)
    R.char_consts = consts


def breakpoint_of(y):
    if y.op in ("sgn", "iseq") :
        a = y.args[0]
        try:
            p = poly(a)
        except Exception:
            return None
        c = [k for m, k in p.items() if m == ()] or [0]
        rest = [k for m, k in p.items() if m != ()]
        if len(rest) == 1 and abs(rest[0]) == 1:
            x = -c[0] * rest[0]
            if x == int(x) and 0 <= x <= 0x10FFFF:
                return int(x)
    return None


MARKUP = "<zq7z&'\">"


def c19_everywhere(F, R):
    """the names of large documents"""
    seen = {}

    def f(s, dr, det):
        ts = {text(t) for r in s.records for x in r["rows"] for t in (x["title"], x.get("subtitle"), x.get("badge") and x["badge"]["text"]) if t is not None}
        ts = {t for t in ts if re.fullmatch(r"(title|sub|badge)\d+", t)}
        for q in dr.shapes(True):
            R.count("elements of large documents")
            for k in q.attrs:
                ws = re.findall(r"(?:title|sub|badge)\d+", str(q.get(k) or ""))
                truthful(R, seen, not set(ws) & ts, "no text of the document reaches an attribute", lambda: "%s: %s of %s is %s" % (det, k, q.kind, q.get(k)), WHERE)
            if q.kind == "Comment":
                truthful(R, seen, not set(re.findall(r"(?:title|sub|badge)\d+", q.text())) & ts, "no text of the document reaches a comment", lambda: "%s: a comment is %r" % (det, q.text()), WHERE)
    drawn(F, R, f, seen)


def c19_how(F, R):
    """the texts written for characters of every class"""
    seen = {}
    cs = set(SPECIAL)
    for c in getattr(R, "char_consts", ()):
        cs |= {c - 1, c, c + 1}
    cs = sorted(c for c in cs if 0 <= c <= 0x10FFFF and not 0xD800 <= c < 0xE000)
    R.count("classes of characters", len(cs))
    some_ = [chr(c) for c in (0, 9, 31, 38, 60, 62, 34, 59, 65, 35, 0xFFFE, 0x1F600)]
    texts = ["".join(map(chr, cs)), "".join(a + b for a in some_ for b in some_), "", "&amp;", "]]>", "<![CDATA[x]]>", "&#38;lt;", "</text><script>", "a\0b"]
    # ones which could be told apart
    for what, w in names(F).ways[1:]:
        for a, b in (("", MARKUP), (MARKUP, "")):
            texts.append(a + text(w("name")) + b)
    late = Later()
    # every text in every role
    for s, role in [(s, role) for s in texts for role in range(3)]:
        with late:
            t = [lit("t"), lit("s"), lit("b")]
            t[role] = lit(s)
            shapes = one_row(F, *t).draw().shapes()
            for q in shapes:
                if MARKUP in s:
                    for k in q.attrs:
                        truthful(R, seen, MARKUP[1:5] not in (q.get(k) or ""), "no text of the document reaches an attribute", lambda: "%s of %s is %s" % (k, q.kind, q.get(k)), WHERE)
                if q.kind not in ("Text", "Style") and q.texts:
                    R.count("other texts")
                    truthful(R, seen, unescape(q.text()) is not None, "only character data is written for a text", lambda: "the %s %r is written as %r" % (ROLES[role], brief(s, q.text()), brief2(s, q.text())), WHERE)
            got = sorted(q.text() for q in shapes if q.kind == "Text")
            rest = sorted(text(x) for i, x in enumerate(t) if i != role)
            mine = list(got)
            for r in rest:
                if r in mine:
                    mine.remove(r)
            R.count("texts")
            if len(mine) != 1:
                # left to C20
                raise Unclear("%d texts in the output" % len(got))
            u = unescape(mine[0])
            truthful(R, seen, u is not None, "only character data is written for a text", lambda: "the %s %r is written as %r" % (ROLES[role], brief(s, mine[0]), brief2(s, mine[0])), WHERE)
            if u is not None:
                truthful(R, seen, u == meant(s), "the characters written are those of the text, forbidden ones replaced by U+FFFD", lambda: "the %s %r is written as %r" % (ROLES[role], brief(s, mine[0]), brief2(s, mine[0])), WHERE)
    finish(R, seen)
    late.done()


def brief(s, got):
    return s[:80]


def brief2(s, got):
    return got[:120]


def C27(F, R):
    seen = {}

    def f(s, dr, det):
        shapes = [q for q in dr.shapes() if not q.hidden and q.kind not in ("SVG", "Group")]
        c = Counter(q.kind for q in shapes)
        rows = [x for r in s.records for x in r["rows"]]
        texts = sum(1 + (x.get("subtitle") is not None) + bool(x.get("badge")) for x in rows)
        discs = sum(1 for x in rows if x.get("badge") and x["badge"].get("bg") is not None)
        want = {"Rectangle": 1 + len(s.records) + sum(1 for x in rows if x.get("bg") is not None), "Line": sum(max(0, len(r["rows"]) - 1) for r in s.records), "Text": texts, "Circle": discs + 2 * len(s.edges), "Path": len(s.edges)}
        for k in set(c) | set(want):
            truthful(R, seen, c[k] <= want.get(k, 0), "without a route graph nothing is drawn beyond records and edges", lambda: "%s: %d %s elements, not %d" % (det, c[k], k, want.get(k, 0)), WHERE)
    drawn(F, R, f, seen)

    def new():
        n = F.val("SVGRenderer", "new")
        g = field(n, F.idx("SVGRenderer", "edge_route_graph"))
        seen2 = {}
        if g.op != "adt":
            raise Unclear("route graph of a new renderer: " + show(g, 4))
        truthful(R, seen2, g is NONE or g.args[1] == "None", "a new renderer has no route graph", lambda: show(g, 4), "SVGRenderer::new")
        finish(R, seen2)
    R.part("new renderer", new)

    def tool():
        from rules.effects import worlds
        seen2 = {}
        for W, det in worlds(F):
            W.run()
            R.count("shapes of runs")
            for e in W.tried("render"):
                g = field(e.args[0], F.idx("SVGRenderer", "edge_route_graph"))
                try:
                    x = opt(g)
                except Unclear:
                    seen2.setdefault("the tool draws no route graph", "undecided: %s: %s" % (det, show(g, 4)))
                    continue
                truthful(R, seen2, x is None, "the tool draws no route graph", lambda: "%s: %s" % (det, show(g, 4)), "main")
        finish(R, seen2)
    R.part("the tool", tool)
