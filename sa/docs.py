"""Syntax trees and documents of a given shape (how many entries, fields, records; their contents unknown), made and read through the
public interface of the crate only."""
from facts import *
import vals

NONE = adt(NONE_T, "None")


def force(x):
    """iterator -> its elements"""
    if x.op == "iter":
        import models
        _, x = models.collect_items(Interp(PROGRAM[0]), State({}, TRUE), x, "seq")
    return x


PROGRAM = [None]


class Unclear(Exception):
    """a value is not of the expected shape, e.g. a list of unknown length"""


class Later:
    """what one input leaves open doesn't keep others from being looked at: `with late:` around each, late.done() at the end"""

    def __init__(self):
        self.first = None

    def __enter__(self):
        return self

    def __exit__(self, kind, e, tb):
        if e is None or not isinstance(e, Exception):
            return False
        from facts import Missing
        if isinstance(e, Missing):
            return False
        self.first = self.first or e
        return True

    def done(self):
        if self.first is not None:
            raise self.first


def items(x):
    """the elements of a list of known length and without conditions"""
    if x is None:
        raise Unclear("no value")
    x = force(x)
    segs = segs_of(x)
    out = []
    for s in flat(segs):
        if s.op != "one":
            raise Unclear("list of unknown length: " + show(x, 5))
        if s.args[0] is TRUE:
            out.append(s.args[1])
        elif s.args[0] is not FALSE:
            raise Unclear("conditional element: " + show(s, 5))
    return out


def opt(x):
    """Option -> None or the value"""
    if x.op == "adt" and x.args[1] == "None":
        return None
    if x.op == "adt" and x.args[1] == "Some":
        return x.args[2][0]
    raise Unclear("neither None nor Some: " + show(x, 5))


class Obj:
    """an object made by a constructor, and changed by methods taking &mut self"""

    def __init__(self, F, ty, v):
        self.F, self.ty, self.v = F, ty, v

    def do(self, name, *args, trait=None, ty=None):
        b = self.F.fn(ty or self.ty, name, trait)
        root = ("OBJ",)
        I, st, v = self.F.run(b, [mref(root), *args], state=State({root: self.v}, TRUE))
        if st is None:
            raise Unclear("%s::%s never returns" % (self.ty, name))
        self.v = st.roots[root]
        return v


class Shapes:
    def __init__(self, F):
        self.F = F
        PROGRAM[0] = F.p

    # -- syntax trees

    def path(self, e, f=None):
        n = self.F.tyname("EntityPath")
        return adt(n, "Entity", e) if f is None else adt(n, "Field", e, f)

    def field(self, name, ty, key=NONE):
        return self.F.val("EntityField", "new", name, ty, key)

    def entity(self, name, fields):
        o = Obj(self.F, "EntityDefinition", self.F.val("EntityDefinition", "new", name))
        for f in fields:
            o.do("add_field", f)
        return o.v

    def relation(self, a, b):
        return self.F.val("EntityRelation", "new", a, b)

    def module(self, name, entries):
        """entries: ("entity", x) or ("relation", x)"""
        o = Obj(self.F, "Module", self.F.val("Module", "new", name))
        for k, x in entries:
            o.do("add_entity_definition" if k == "entity" else "add_entity_relation", x)
        return o.v

    # -- documents

    def doc(self):
        return Obj(self.F, "Document", self.F.val("Document", "new"))

    def view(self, doc):
        return View(self.F, doc)


class View:
    def __init__(self, F, doc):
        self.F, self.doc = F, doc

    def get(self, ty, name, *a):
        return self.F.val(ty, name, *a)

    def body(self):
        return items(self.get("NodeData", "children", self.get("Document", "body", self.doc)))

    def node(self, i):
        return opt(self.get("Document", "get_node", self.doc, i))

    def kind(self, i):
        return self.get("NodeData", "kind", self.node(i))

    def children(self, i):
        return items(self.get("NodeData", "children", self.node(i)))

    def rect(self, i):
        return opt(self.get("NodeData", "rect", self.node(i)))

    def ports(self, i):
        out = []
        for p in items(self.get("NodeData", "terminal_ports", self.node(i))):
            out.append((self.get("TerminalPort", "id", p), self.get("TerminalPort", "location", p), self.get("TerminalPort", "orientation", p)))
        return out

    def edges(self):
        out = []
        for e in items(self.get("Document", "edges", self.doc)):
            out.append((self.get("EdgeData", "source_id", e), self.get("EdgeData", "target_id", e), self.get("EdgeData", "path_points", e)))
        return out

    def endpoints(self):
        out = []
        for e in items(self.get("Document", "edge_ids", self.doc)):
            x = opt(self.get("Document", "edge_endpoints", self.doc, e))
            out.append((field(x, 0), field(x, 1)))
        return out


def tree_of(F, m):
    """a syntax tree, read through its accessors: (name, [("entity", name, [(name, type, key)]) or ("relation", path, path)])"""
    g = F.val

    def path(p):
        if p.op == "adt" and p.args[1] == "Entity":
            return p.args[2][0], None
        if p.op == "adt" and p.args[1] == "Field":
            return p.args[2][0], p.args[2][1]
        raise Unclear("path " + show(p, 5))
    out = []
    for e in items(g("Module", "entries", m)):
        if e.op != "adt" or len(e.args[2]) != 1:
            raise Unclear("entry " + show(e, 5))
        x = e.args[2][0]
        if e.args[1] == "EntityDefinition":
            fs = [(g("EntityField", "name", f), g("EntityField", "field_type", f), opt(g("EntityField", "field_key", f))) for f in items(g("EntityDefinition", "fields", x))]
            out.append(("entity", g("EntityDefinition", "name", x), fs))
        elif e.args[1] == "EntityRelation":
            out.append(("relation", path(g("EntityRelation", "start_path", x)), path(g("EntityRelation", "end_path", x))))
        else:
            raise Unclear("entry " + show(e, 3))
    return opt(g("Module", "name", m)), out


class Doc:
    """a document made through its own methods"""

    def __init__(self, F):
        self.F = F
        self.root = ("DOC",)
        PROGRAM[0] = F.p
        self.I = Interp(F.p)
        _, self.st, d = F.run(F.fn("Document", "new"), [], interp=self.I)
        self.st = self.st.copy()
        self.st.roots[self.root] = d

    @property
    def v(self):
        return self.st.roots[self.root]

    def call(self, ty, name, *args, trait=None):
        b = self.F.fn(ty, name, trait)
        I, st, v = self.F.run(b, list(args), state=self.st, interp=self.I)
        if st is None:
            raise Unclear("%s::%s never returns%s" % (ty, name, (": " + str([p[:2] for p in I.panics])) if I.panics else ""))
        self.st = st
        return v

    def record(self, shape, rows=()):
        r = self.call("Document", "create_record", mref(self.root), shape)
        for x in rows:
            f = self.call("Document", "create_field", mref(self.root), x)
            self.append(r, f)
        self.append(None, r)
        return r

    def append(self, parent, child):
        n = self.call("Document", "body_mut", mref(self.root)) if parent is None else opt(self.call("Document", "get_node_mut", mref(self.root), parent))
        self.call("NodeData", "append_child", n, child)

    def edge(self, a, b):
        e = self.F.val("EdgeData", "new", a, b, NONE)
        return self.call("Document", "add_edge", mref(self.root), e)

    def engine(self):
        self.st = self.st.copy()
        self.st.roots[("ENGINE",)] = self.F.val("SimpleLayoutEngine", "new")

    def layout(self, name):
        return self.call("SimpleLayoutEngine", name, mref(("ENGINE",)), mref(self.root), trait="LayoutEngine")

    def view(self):
        return View(self.F, self.v)


class Names:
    """ways to name things: key -> text. What a function does to names must not depend on what they are, so besides unknown
    names ones it could single out are used: long ones, ones equal to or made from its own constants, ..."""

    def __init__(self, F, *roots, markup=True):
        from reach import Constants
        C = self.C = Constants(F, *roots)
        n = max([64] + [c for c in C.ints if c <= 4000]) + 10
        self.ways = [("unknown", sym)]
        w = lambda what, f: self.ways.append((what, lambda k: lit(f(k))))
        w("long", lambda k: k + "x" * n)
        w("long and differing at the end", lambda k: "x" * n + k)
        w("of mixed case", lambda k: "\u00c4\u00e4\u0130" + k.upper() + "z")
        w("padded", lambda k: "  " + k + " \t")
        w("numeric", lambda k: "00" + "".join(str(ord(c) % 10) for c in k) + ".0")
        w("short", lambda k: k[-1:])
        for i in range(2):
            # each byte up to n is inside of a character in one of them
            w("long and of characters of several bytes", lambda k, i=i: "x" * i + "\u00e9\u20ac\U0001F600" * (n // 9 + 2) + k)
        for i in range(3):
            met = []

            def empty(k, i=i, met=met):
                if k not in met:
                    met.append(k)
                return "" if met.index(k) == i else k
            w("empty for one", empty)
        if markup:
            w("of special characters", lambda k: "<&>\"'\\\0\n" + k)
        self.consts = sorted(c for c in C.strs | C.chars if markup or not set(c) & set("<>&") and c.isprintable() and c.strip())
        for i in range(min(len(self.consts), 12)):
            self.ways.append(("like constants", self.rotate(i)))
        parts = [c for c in self.consts if len(c) < 5]
        for i in range(min(len(parts), 8)):
            w("beginning like constants", lambda k, c=parts[i]: c + k)
            w("ending like constants", lambda k, c=parts[i]: k + c)

    def rotate(self, i):
        seen = {}

        def f(k):
            if k not in seen:
                seen[k] = self.consts[(i + len(seen)) % len(self.consts)] + ("" if len(seen) < len(self.consts) else k)
            return lit(seen[k])
        return f


def numbers(*ts):
    out = []
    for t in ts:
        c = const(t)
        if c is None:
            raise Unclear("not a known number: " + show(t, 6))
        out.append(c)
    return out


def rect_of(F, r):
    """-> min x, min y, max x, max y"""
    return numbers(*[F.val("Rect", n, r) for n in ("min_x", "min_y", "max_x", "max_y")])


def point_of(F, p):
    return numbers(field(p, F.idx("Point", "x")), field(p, F.idx("Point", "y")))
