"""Constructors of the values of the value-flow graph, in normal form, and their elimination."""
from terms import *
import terms as tm

NONE_T = "core::option::Option"


def lit(s): return mk("lit", s)


def adt(name, variant, *fields): return mk("adt", name, variant, fields)


def tup(*xs): return mk("tup", *xs)


def some(x): return adt(NONE_T, "Some", x)


NONE = adt(NONE_T, "None")


def ok(x): return adt("core::result::Result", "Ok", x)


def err(x): return adt("core::result::Result", "Err", x)


# adt name -> tuple of (variant name, discriminant)
VARIANTS = {
    NONE_T: (("None", 0), ("Some", 1)),
    "core::result::Result": (("Ok", 0), ("Err", 1)),
    "core::ops::control_flow::ControlFlow": (("Continue", 0), ("Break", 1)),
    "core::cmp::Ordering": (("Less", -1), ("Equal", 0), ("Greater", 1)),
}


def variants(name):
    return VARIANTS.get(name)


# ---------------------------------------------------------------- fields

def field(v, i, variant=None):
    if v.op == "case":
        return amap(("field", i, variant), lambda x: field(x, i, variant), v)
    o = v.op
    if o == "adt":
        if variant is not None and v.args[1] != variant:
            return UNDEF
        return v.args[2][i] if i < len(v.args[2]) else UNDEF
    if o == "tup":
        return v.args[i] if i < len(v.args) else UNDEF
    if o == "clo":
        return v.args[1][i]
    if o == "upd":
        b, var, j, x = v.args
        if j == i and var == variant:
            return x
        return field(b, i, variant)
    if o == "never":
        return UNDEF
    if o == "mapentry":
        return mk("mapslot", v.args[0], v.args[1])
    if o == "nodew":
        r = read_weight(v, i, variant)
        if r is not None:
            return r
    if variant is not None and v.op != "undef":
        return mk("vfld", v, variant, i)
    return mk("fld", v, i)


def set_field(v, i, new, variant=None):
    if v.op == "case":
        return amap2(None, lambda x, n: set_field(x, i, n, variant), v, new) if new.op == "case" else amap(None, lambda x: set_field(x, i, new, variant), v)
    if v.op == "adt":
        if variant is not None and v.args[1] != variant:
            return UNDEF
        f = list(v.args[2])
        while len(f) <= i:
            f.append(UNDEF)
        f[i] = new
        return mk("adt", v.args[0], v.args[1], tuple(f))
    if v.op == "tup":
        f = list(v.args)
        while len(f) <= i:
            f.append(UNDEF)
        f[i] = new
        return mk("tup", *f)
    if v.op == "clo":
        f = list(v.args[1])
        f[i] = new
        return mk("clo", v.args[0], tuple(f))
    if v.op == "undef":
        return mk("tup", *([UNDEF] * i + [new]))
    # overlay on an opaque value; canonical order of the layers
    layers = {}
    b = v
    while b.op == "upd":
        layers.setdefault((b.args[1], b.args[2]), b.args[3])
        b = b.args[0]
    layers[(variant, i)] = new
    if field(b, i, variant) is new:
        del layers[(variant, i)]
    for (var, j), x in sorted(layers.items(), key=lambda kv: (str(kv[0][0]), kv[0][1])):
        b = mk("upd", b, var, j, x)
    return b


CONS["fld"] = lambda v, i: field(v, i)
CONS["vfld"] = lambda v, var, i: field(v, i, var)


def discr_cases(v, name, vs):
    """diagram with leaves lit(variant name)"""
    def f(x):
        if x.op == "adt":
            return lit(x.args[1])
        if x.op in ("undef", "never"):
            return UNDEF
        if x.op == "upd":
            return f(x.args[0])
        if x.op == "mapentry":
            return ite(x.args[2], lit("Occupied"), lit("Vacant"))
        names = tuple(n for n, _ in vs)
        return case(mk("discr", x, name, names), {k: lit(n) for k, n in enumerate(names)})
    return amap(("discr", name), f, v)


def is_variant(v, name, variant, vs=None):
    return amap(("isv", variant), lambda x: B(x.args[0] == variant), discr_cases(v, name, vs or variants(name)))


def is_some(v):
    return is_variant(v, NONE_T, "Some")


def t_discr(x, name, names):
    vs = tuple((n, k) for k, n in enumerate(names))
    ix = {n: k for k, n in enumerate(names)}
    return amap(None, lambda l: mk("key", ix[l.args[0]]) if l.op == "lit" and l.args[0] in ix else UNDEF, discr_cases(x, name, vs))


TESTS["discr"] = t_discr


def keyed(b):
    """condition -> diagram with leaves key(True), key(False)"""
    return amap(None, lambda x: mk("key", x is TRUE) if x.op == "bool" else UNDEF, b)


def truth(v):
    """value of type bool -> condition"""
    def f(x):
        if x.op in ("bool", "undef"):
            return x
        return btest("truth", x)
    return amap("truth", f, v)


TESTS["truth"] = lambda v: keyed(truth(v))


# ---------------------------------------------------------------- equality

def eq(a, b):
    if a is b:
        return B(a is not tm.NAN)
    return amap2("eq", _eq, a, b)


NUMERIC_OPS = {"num", "ix", "rix", "len", "quot", "idiv", "rem", "max", "min", "sqrt", "absv", "trunc", "nan", "divzero", "count", "powf", "infinity", "floor", "frem", "wrap", "narrow", "bin"}


def is_num(t):
    return t.op in NUMERIC_OPS


def _eq(a, b):
    if a is b:
        return B(a is not tm.NAN)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if is_num(a) or is_num(b):
        return eqn(a, b)
    if a.op == "bool" or b.op == "bool":
        x, y = truth(a), truth(b)
        return b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
    if a.op in ("adt", "tup") and b.op == a.op:
        if a.op == "adt":
            if a.args[1] != b.args[1]:
                return FALSE
            fa, fb = a.args[2], b.args[2]
        else:
            fa, fb = a.args, b.args
        return b_all([eq(x, y) for x, y in zip(fa, fb)])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt":
            vs = variants(x.args[0])
            r = TRUE
            if vs is not None and len(vs) > 1:
                r = is_variant(y, x.args[0], x.args[1], vs)
            var = x.args[1] if vs is not None and len(vs) > 1 else None
            for i, f in enumerate(x.args[2]):
                r = b_and(r, eq(f, field(y, i, var)))
            return r
        if x.op == "tup":
            return b_all([eq(f, field(y, i)) for i, f in enumerate(x.args)])
    if a.op == "lit" and b.op == "lit":
        return B(a.args[0] == b.args[0])
    if a.op == "alloc" and b.op == "alloc":
        if a.args[0] != b.args[0]:
            return FALSE
        # the same allocation site in different iterations
        return b_all([btest("samevar", *sorted(p)) if p[0] is not p[1] else TRUE for p in zip(a.args[1:], b.args[1:])])
    if a.id > b.id:
        a, b = b, a
    return btest("eq", a, b)


TESTS["eq"] = lambda a, b: keyed(eq(a, b))


# ---------------------------------------------------------------- sequences
# segment: one(guard, value) | for(dom, bv, segs) | mseg(owner, k): what earlier iterations added
#          | pre(dom, bv, segs, upto): the iterations before `upto` | sub(iterator)

def one(v, g=TRUE): return mk("one", g, v)


def seq(segs=()): return mk("seq", tuple(segs))


def guard_segs(g, segs):
    if g is TRUE:
        return tuple(segs)
    out = []
    for s in segs:
        if s.op == "one":
            ng = b_and(g, s.args[0])
            if ng is not FALSE and ng is not UNDEF:
                out.append(one(restrict_leaf(s.args[1], ng), ng))
        elif s.op in ("for", "pre"):
            tv, (inner,), _ = open_binder(s)
            out.extend(rebuild_binder(s.op, s.args[0], tv, (guard_segs(g, inner),), tm.binder_out(s)))
        else:
            out.append(mk("gseg", g, s) if s.op != "gseg" else mk("gseg", b_and(g, s.args[0]), s.args[1]))
    return tuple(out)


def restrict_leaf(v, g):
    return restrict(v, g) if v.op == "case" else v


def mkfor(dom, tv, segs):
    """-> tuple of segments"""
    segs = tuple(segs)
    if not segs:
        return ()
    bv, (inner,) = close_binder(tv, (segs,))
    return (mk("for", dom, bv, inner),)


def mkpre(dom, tv, segs, upto):
    segs = tuple(segs)
    if not segs:
        return ()
    bv, (inner,) = close_binder(tv, (segs,))
    return (mk("pre", dom, bv, inner, upto),)


def nonempty(dom):
    return gt(domlen(dom), ZERO)


def domlen(dom):
    if dom.op == "range0":
        return dom.args[0]
    if dom.op == "rev":
        return domlen(dom.args[0])
    return mk("len", dom)


def mkany(dom, tv, cond):
    """condition: some element satisfies cond"""
    if cond is FALSE or cond is UNDEF:
        return FALSE
    if tv not in support(cond):
        return b_and(nonempty(dom), cond)
    bv, (c,) = close_binder(tv, (cond,))
    return btest("any", dom, bv, c)


def mkfirst(dom, tv, cond):
    bv, (c,) = close_binder(tv, (cond,))
    return mk("first", dom, bv, c)


def mkgrp(dom, tv, inits, nexts):
    bv, (n,) = close_binder(tv, (nexts,))
    return mk("grp", dom, bv, inits, n)


def mklam(tv, body):
    bv, (b,) = close_binder(tv, (body,))
    return mk("lam", UNIT, bv, b)


def apply_lam(lam, v):
    tv, (b,), _ = open_binder(lam)
    return Subst({tv: v})(b)


BINDER_CONS["lam"] = lambda dom, tv, body: mklam(tv, body)
BINDER_CONS["for"] = mkfor      # a tuple: spliced by the owner of the segments
BINDER_CONS["pre"] = mkpre
BINDER_CONS["any"] = mkany
BINDER_CONS["first"] = mkfirst
BINDER_CONS["grp"] = lambda dom, tv, nexts, inits: mkgrp(dom, tv, inits, nexts)


def flat(segs):
    """splices tuples left by substitution into for/pre segments, merges neighbours"""
    out = []
    for s in segs:
        if isinstance(s, tuple):
            out.extend(flat(s))
        elif s.op == "one" and (s.args[0] is FALSE or s.args[0] is UNDEF):
            continue
        elif s.op == "gseg":
            out.extend(guard_segs(s.args[0], flat((s.args[1],)) if s.args[1].op != "mseg" else (s.args[1],)) if s.args[1].op != "mseg" else (s,))
        else:
            out.append(s)
    return tuple(out)


SEGOWNERS = {"seq": 0, "str": 0, "graph": 1, "hmap": 1, "iolog": 0}


def mkseg_one(g, v):
    return mk("one", g, restrict_leaf(v, g) if g.op == "case" else v)


CONS["one"] = mkseg_one
CONS["gseg"] = lambda g, s: (guard_segs(g, s) if isinstance(s, tuple) else guard_segs(g, (s,)))


def seglen(segs):
    """number of items"""
    n = ZERO
    for s in segs:
        n = add(n, _seglen1(s))
    return n


def _seglen1(s):
    if s.op == "one":
        return ite(s.args[0], num(1), ZERO)
    if s.op in ("for", "pre"):
        tv, (inner,), _ = open_binder(s)
        k = seglen(inner)
        if tv not in support(k) and k.op != "case":
            if s.op == "for":
                return mul(k, domlen(s.args[0]))
            return mul(k, index_of(s.args[0], s.args[3]))
        return mk("count", s)
    if s.op == "mseg":
        return mk("count", s)
    return mk("count", s)


CONS["count"] = lambda s: seglen(s) if isinstance(s, tuple) else _seglen1(s)


def index_of(dom, v):
    return t_ix(dom, v)


def elem(dom, v):
    if dom.op == "rev":
        return elem(dom.args[0], v)
    if dom.op == "range0":
        return t_ix(dom, v)
    return t_el(dom, v)


def t_ix(dom, v):
    """rank of the element v of the domain in the order of iteration; a variable over rev(X) is a position of X"""
    if dom.op == "rev":
        return sub(sub(domlen(dom), num(1)), t_ix(dom.args[0], v))
    if v.op == "pos":
        return v.args[0]
    if v.op == "case":
        return amap(None, lambda x: t_ix(dom, x), v)
    return mk("ix", dom, v)


def posn(dom, i):
    """the variable standing for the i-th element in the order of iteration"""
    if dom.op == "rev":
        return mk("pos", sub(sub(domlen(dom), num(1)), i)) if dom.args[0].op != "rev" else posn(dom.args[0].args[0], i)
    return mk("pos", i)


CONS["ix"] = t_ix


def at(x, i):
    """element i of the sequence x"""
    if x.op == "case" or i.op == "case":
        return amap2("at", at, x, i)
    if x.op == "seq":
        segs = x.args[0]
        c = const(i)
        if all(s.op == "one" and s.args[0] is TRUE for s in segs) and c is not None:
            return segs[int(c)].args[1] if 0 <= c < len(segs) else UNDEF
        if segs and c is not None and c >= 0:
            k = int(c)
            if all(s.op == "one" and s.args[0] is TRUE for s in segs[:k + 1]) and k < len(segs):
                return segs[k].args[1]
        if len(segs) == 1 and segs[0].op == "for":
            s = segs[0]
            tv, (inner,), _ = open_binder(s)
            if len(inner) == 1 and inner[0].op == "one" and inner[0].args[0] is TRUE:
                dom = s.args[0]
                if i.op == "ix" and i.args[0] is dom:
                    return Subst({tv: i.args[1]})(inner[0].args[1])
                return Subst({tv: mk("pos", i)})(inner[0].args[1])
        return mk("at", x, i)
    if x.op == "slice":
        return at(x.args[0], add(i, x.args[1]))
    if x.op == "str" or x.op == "lit":
        return mk("at", x, i)
    if i.op == "ix" and i.args[0] is dom_of(x):
        return mk("el", i.args[0], i.args[1])
    return mk("at", x, i)


CONS["at"] = at


def t_el(dom, v):
    if dom.op == "rev":
        return t_el(dom.args[0], v)
    if dom.op == "range0":
        return t_ix(dom, v)
    if v.op == "pos":
        return at(dom, v.args[0])
    if dom.op in ("seq", "slice", "case"):
        return at(dom, mk("ix", dom, v))
    return mk("el", dom, v)


CONS["el"] = t_el


def dom_of(x):
    return x


def seqlen(x):
    if x.op == "case":
        return amap("seqlen", seqlen, x)
    if x.op == "seq":
        return seglen(x.args[0])
    if x.op == "slice":
        return x.args[2]
    if x.op == "lit":
        return num(len(x.args[0].encode()))
    if x.op == "range0":
        return x.args[0]
    if x.op == "rev":
        return seqlen(x.args[0])
    return mk("len", x)


CONS["len"] = seqlen


def segs_of(x):
    """segments of a sequence value"""
    if x.op == "seq":
        return x.args[0]
    if x.op == "case":
        out = ()
        for g, v in leaves(x):
            out += guard_segs(g, segs_of(v))
        return out
    if x.op == "mapd":
        pass
    if x.op == "lit":
        return tuple(one(num(ord(c))) for c in x.args[0])
    if x.op == "slice":
        b, off, n = x.args
        tv = fresh()
        d = mkrange(n)
        return mkfor(d, tv, (one(at(b, add(mk("ix", d, tv), off))),))
    tv = fresh()
    return mkfor(x, tv, (one(elem(x, tv)),))


def mkrange(n):
    """domain of the indices below n"""
    if n.op == "len":
        return mk("range0", n)
    return mk("range0", n)


def push(x, v, g=TRUE):
    return append_segs(x, (one(v, g),))


def append_segs(x, segs):
    if not segs:
        return x
    if x.op == "case":
        return amap(None, lambda y: append_segs(y, segs), x)
    if x.op == "undef":
        return UNDEF
    if x.op == "seq":
        return seq(x.args[0] + tuple(segs))
    return seq(segs_of(x) + tuple(segs))


# ---------------------------------------------------------------- strings

def mkstr(segs):
    out = []
    for s in segs:
        if s.op == "one":
            g, v = s.args
            if v.op == "str":
                out.extend(guard_segs(g, v.args[0]))
                continue
            if v.op == "num" and const(v) is not None:
                v = lit(chr(int(const(v))))
            if v.op == "lit":
                if v.args[0] == "":
                    continue
                if out and out[-1].op == "one" and out[-1].args[0] is g and out[-1].args[1].op == "lit":
                    out[-1] = one(lit(out[-1].args[1].args[0] + v.args[0]), g)
                    continue
            out.append(one(v, g))
        else:
            out.append(s)
    if not out:
        return lit("")
    if len(out) == 1 and out[0].op == "one" and out[0].args[0] is TRUE and out[0].args[1].op not in ("num",) and not is_char(out[0].args[1]):
        return out[0].args[1]
    return mk("str", tuple(out))


def is_char(v):
    return v.op == "chr" or (v.op == "el" and v.args[0].op == "chars")


CONS["str"] = lambda segs: mkstr(segs)
CONS["seq"] = lambda segs: seq(segs)


def strsegs(v):
    if v.op == "str":
        return v.args[0]
    if v.op == "lit":
        return (one(v),) if v.args[0] else ()
    if v.op == "case":
        return (one(v),)
    return (one(v),)


def concat(*vs):
    out = ()
    for v in vs:
        if v is UNDEF:
            return UNDEF
        if v.op == "case" and any(x.op == "str" and len(x.args[0]) > 8 for x in leafset(v)):
            for g, x in leaves(v):
                out += guard_segs(g, strsegs(x))
        else:
            out += strsegs(v)
    return mkstr(out)


# ---------------------------------------------------------------- graphs
# graph(base, segs); entries: addnode(key, weight) | setn(key, path, value) | addedge(key, a, b, weight)
# | sete(key, path, value)

EMPTY = mk("emptygraph")


def graph_parts(g):
    if g.op == "graph":
        return g.args
    return g, ()


def mkgraph(base, segs):
    if not segs:
        return base
    return mk("graph", base, tuple(segs))


CONS["graph"] = mkgraph


def nodew(g, key):
    if g.op == "case" or key.op == "case":
        return amap2("nodew", nodew, g, key)
    return mk("nodew", g, key)


CONS["nodew"] = nodew


def _entries(segs):
    for s in segs:
        if s.op == "one":
            yield s.args[1]
        elif s.op in ("for", "pre"):
            yield from _entries(s.args[2])
        elif s.op == "gseg":
            yield from _entries((s.args[1],))
        else:
            yield s


def _may_write(s, key, i, variant, edge=False):
    """may the segment write field i of the weight of the node `key`"""
    for e in _entries((s,)):
        if e.op == ("sete" if edge else "setn"):
            p = e.args[1]
            if not p:
                if _distinct(e.args[0], key):
                    continue
                return True
            h = p[0]
            if h[0] == "f" and h[1] == i:
                if _distinct(e.args[0], key):
                    continue
                return True
            if h[0] not in ("f",):
                return True
        elif e.op == "mskip":
            if i in e.args[1] or None in e.args[1]:
                return True
        elif e.op in ("mseg",):
            return True
        elif e.op == ("addedge" if edge else "addnode"):
            if key.op == "alloc" and (key.args[0] == e.args[0].args[0] if e.args[0].op == "alloc" else True):
                return True
            if key.op in ("esrc", "etgt", "eid", "tv", "sym") or key.op == "el" and key.args[0].op in ("nodeidx", "edgeidx") and any(x is e for x in _entries(graph_parts(key.args[0].args[0])[1])):
                # a key not known to be older than this node
                return True
    return False


def _distinct(a, b):
    if a.op == "alloc" and b.op == "alloc":
        return a.args[0] != b.args[0]
    return False


def read_weight(v, i, variant, edge=False):
    """field i of nodew(graph, key), where the log of the graph tells; otherwise with the log shortened"""
    g, key = v.args
    base, segs = graph_parts(g)
    if not segs:
        return None
    k = len(segs)
    while k > 0:
        s = segs[k - 1]
        if not _may_write(s, key, i, variant, edge):
            k -= 1
            continue
        if s.op == "one":
            e = s.args[1]
            val = None
            if e.op == ("sete" if edge else "setn") and e.args[0] is key:
                rest = mk(v.op, mkgraph(base, segs[:k - 1]), key)
                if not e.args[1]:
                    val = field(e.args[2], i, variant)
                elif e.args[1][0][0] == "f" and e.args[1][0][1] == i:
                    val = set_path(field(rest, i, variant), e.args[1][1:], e.args[2])
            elif e.op == ("addedge" if edge else "addnode") and e.args[0] is key:
                w = e.args[-1]
                rest = mk(v.op, mkgraph(base, segs[:k - 1]), key)
                val = field(w, i, variant)
            if val is not None:
                if s.args[0] is TRUE:
                    return val
                return ite(s.args[0], val, field(rest, i, variant))
        break
    if k == len(segs):
        return None
    return field(mk(v.op, mkgraph(base, segs[:k]), key), i, variant)


def hasnode(g, key):
    if g.op == "case" or key.op == "case":
        return amap2("hasnode", hasnode, g, key)
    base, segs = graph_parts(g)
    if key.op == "alloc":
        for s in segs:
            for e in _entries((s,)):
                if e.op == "addnode" and e.args[0].op == "alloc" and e.args[0].args[0] == key.args[0]:
                    return TRUE
    if key.op == "el" and key.args[0].op == "nodeidx":
        return TRUE
    if base is EMPTY:
        if not any(e.op in ("addnode", "mseg") for e in _entries(segs)):
            return FALSE
    # nodes are never removed, and the identifiers kept in a document come from that document
    return TRUE


TESTS["hasnode"] = lambda g, k: keyed(hasnode(g, k))


def graph_node_segs(g):
    base, segs = graph_parts(g)
    out = []
    if any(s.op != "one" and any(e.op in ("addnode", "mseg") for e in _entries((s,))) for s in segs):
        # nodes added in loops: the nodes of this graph, whatever they are
        k = max(i for i, s in enumerate(segs) if any(e.op in ("addnode", "mseg") for e in _entries((s,)))) + 1
        d = mk("nodeidx", mkgraph(base, segs[:k]))
        tv = fresh()
        return tuple(mkfor(d, tv, (one(mk("el", d, tv)),)))
    if base is not EMPTY:
        d = mk("nodeidx", base)
        tv = fresh()
        out.extend(mkfor(d, tv, (one(mk("el", d, tv)),)))
    out.extend(_filter_log(segs, "addnode", "nodeidx"))
    return tuple(out)


def graph_edge_segs(g):
    base, segs = graph_parts(g)
    out = []
    if base is not EMPTY:
        d = mk("edgeidx", base)
        tv = fresh()
        out.extend(mkfor(d, tv, (one(mk("el", d, tv)),)))
    out.extend(_filter_log(segs, "addedge", "edgeidx"))
    return tuple(out)


def _filter_log(segs, what, itemdom):
    out = []
    for s in segs:
        if s.op == "one":
            if s.args[1].op == what:
                out.append(one(s.args[1].args[0], s.args[0]))
        elif s.op in ("for", "pre"):
            tv, (inner,), _ = open_binder(s)
            x = _filter_log(inner, what, itemdom)
            out.extend(mkfor(s.args[0], tv, x) if s.op == "for" else mkpre(s.args[0], tv, x, s.args[3]))
        elif s.op in ("mseg", "gseg"):
            d = mk(itemdom, s)
            tv = fresh()
            out.extend(mkfor(d, tv, (one(mk("el", d, tv)),)))
    return tuple(out)


def edgew(g, key):
    if g.op == "case" or key.op == "case":
        return amap2("edgew", edgew, g, key)
    base, segs = graph_parts(g)
    if key.op == "alloc":
        w = None
        for s in segs:
            if s.op == "one" and s.args[1].op == "addedge" and s.args[1].args[0] is key:
                w = s.args[1].args[3]
            elif w is None or not any(e.op in ("sete", "mseg", "mskip") for e in _entries((s,))):
                continue
            elif s.op == "one" and s.args[1].op == "sete" and s.args[1].args[0] is key:
                w = ite(s.args[0], set_path(w, s.args[1].args[1], s.args[1].args[2]), w)
            elif s.op == "one" and s.args[1].op == "sete" and s.args[1].args[0].op == "alloc" and len(s.args[1].args[0].args) == len(key.args) == 1:
                pass
            else:
                w = None
                break
        if w is not None:
            return w
    # only the edge log matters
    es = tuple(s for s in segs if any(e.op in ("sete", "addedge", "mseg") for e in _entries((s,))))
    return mk("edgew", mkgraph(base, es), key)


CONS["edgew"] = edgew


def known_edges(g, a):
    """the edges at a node of a graph whose log has no loops: [(guard, edge, other end)], in petgraph's order; None if not known"""
    base, segs = graph_parts(g)
    if base is not EMPTY or a.op != "alloc" or len(a.args) != 1:
        return None
    out, inc = [], []
    for s in segs:
        if s.op != "one":
            return None
        e = s.args[1]
        if e.op == "addedge":
            k, x, y = e.args[:3]
            if any(n.op != "alloc" or len(n.args) != 1 for n in (k, x, y)):
                return None
            if x is a:
                out.append((s.args[0], k, y))
            elif y is a:
                inc.append((s.args[0], k, x))
        elif e.op not in ("addnode", "setn", "sete"):
            return None
    return out[::-1] + inc[::-1]


# ---------------------------------------------------------------- paths

def get_path(v, path):
    var = None
    for p in path:
        k = p[0]
        if k == "v":
            var = p[1]
            continue
        if k == "f":
            v = field(v, p[1], var)
        elif k == "ix":
            v = at(v, p[1])
        elif k == "el":
            v = t_el(p[1], p[2]) if p[1] is v else at(v, mk("ix", p[1], p[2]))
        elif k == "sub":
            v = CONS["slice"](v, p[1], p[2])
        elif k == "node":
            v = nodew(v, p[1])
        elif k == "edgew":
            v = edgew(v, p[1])
        elif k == "hval":
            v = CONS["lookup"](v, p[1])
        else:
            raise KeyError(k)
        var = None
    return v


def set_path(v, path, new):
    """v with the part at `path` replaced"""
    if not path:
        return new
    var = None
    i = 0
    if path[0][0] == "v":
        var = path[0][1]
        i = 1
        if len(path) == 1:
            return new
    p, rest = path[i], path[i + 1:]
    k = p[0]
    if k == "f":
        if not rest:
            return set_field(v, p[1], new, var)
        return set_field(v, p[1], set_path(field(v, p[1], var), rest, new), var)
    if k in ("node", "edgew"):
        if v.op == "case":
            return amap(None, lambda x: set_path(x, path, new), v)
        base, segs = graph_parts(v)
        return mkgraph(base, segs + (one(mk("setn" if k == "node" else "sete", p[1], rest, new)),))
    if k in ("ix", "el"):
        idx = p[1] if k == "ix" else mk("ix", p[1], p[2])
        if v.op == "case":
            return amap(None, lambda x: set_path(x, path, new), v)
        if v.op == "seq" and const(idx) is not None and all(s.op == "one" and s.args[0] is TRUE for s in v.args[0]):
            j = int(const(idx))
            segs = list(v.args[0])
            if 0 <= j < len(segs):
                segs[j] = one(set_path(segs[j].args[1], rest, new) if rest else new)
                return seq(segs)
        # a log of element writes
        b, segs = (v.args if v.op == "arrlog" else (v, ()))
        return mk("arrlog", b, segs + (one(mk("seti", idx, rest, new)),))
    if k == "sub":
        if v.op == "case":
            return amap(None, lambda x: set_path(x, path, new), v)
        part = set_path(CONS["slice"](v, p[1], p[2]), rest, new) if rest else new
        o, n = const(p[1]), const(p[2])
        if v.op == "seq" and part.op == "seq" and o is not None and n is not None and all(s.op == "one" and s.args[0] is TRUE for s in v.args[0] + part.args[0]) and len(part.args[0]) == n and 0 <= o <= o + n <= len(v.args[0]):
            return seq(v.args[0][:int(o)] + part.args[0] + v.args[0][int(o + n):])
        return mk("spliced", v, p[1], p[2], part)
    if k == "hval":
        b, segs = (v.args if v.op == "hmap" else (v, ()))
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if s.op != "one" or s.args[1].op not in ("hins", "hset"):
                break
            e = eq(s.args[1].args[0], p[1])
            if e is TRUE and s.args[0] is TRUE and s.args[1].op == "hins":
                x = s.args[1]
                return mk("hmap", b, segs[:i] + (one(mk("hins", x.args[0], set_path(x.args[1], rest, new) if rest else new)),) + segs[i + 1:])
            if e is not FALSE:
                break
        return mk("hmap", b, segs + (one(mk("hset", p[1], rest, new)),))
    raise KeyError(k)


# ---------------------------------------------------------------- hash maps

def hmap_parts(h):
    return h.args if h.op == "hmap" else (h, ())


EMPTYMAP = mk("emptymap")


def mkhmap(base, segs):
    return mk("hmap", base, tuple(segs)) if segs else base


CONS["hmap"] = mkhmap


def hget(h, key):
    """-> Option of the value"""
    if h.op == "case" or key.op == "case":
        return amap2("hget", hget, h, key)
    base, segs = hmap_parts(h)
    if not segs and base is EMPTYMAP:
        return NONE
    if segs:
        s = segs[-1]
        if s.op == "one" and s.args[1].op in ("hins", "hset"):
            if s.args[1].op == "hins" and s.args[1].args[0] is key:
                return ite(s.args[0], some(s.args[1].args[1]), hget(mkhmap(base, segs[:-1]), key))
            if eq(s.args[1].args[0], key) is FALSE:
                return hget(mkhmap(base, segs[:-1]), key)
    return ite(btest("haskey", h, key), some(mk("lookup", h, key)), NONE)


TESTS["haskey"] = lambda h, k: keyed(is_some(hget(h, k)))


def _lookup(h, k):
    r = hget(h, k)
    return field(r, 0, "Some")


CONS["lookup"] = lambda h, k: field(hget(h, k), 0, "Some")

# mseg is replaced by the segments of the iterations before
ABSENT = mk("absent")


def show_segs(segs, ind=0):
    out = []
    for s in segs:
        p = "  " * ind
        if s.op in ("for", "pre"):
            out.append(p + s.op + " " + show(s.args[1]) + " in " + show(s.args[0]) + (" before " + show(s.args[3]) if s.op == "pre" else "") + ":")
            out.append(show_segs(s.args[2], ind + 1))
        elif s.op == "one":
            out.append(p + ("" if s.args[0] is TRUE else "[" + show(s.args[0]) + "] ") + show(s.args[1]))
        else:
            out.append(p + show(s))
    return "\n".join(out)
