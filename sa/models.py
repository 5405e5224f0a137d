"""What the functions of other crates do to values: std, petgraph, smallvec, svg. Functions not listed stay
opaque: their result is an unknown value depending on their arguments."""
from fractions import Fraction
from vals import *
import terms as tm
from interp import (State, mref, norm_path, base_name, Program, merge, join_val, order_of, mkslice, log_append,
                    LOGKIND, is_boolish)

O = NONE_T
R = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


# ------------------------------------------------------------------ helpers

def branch(I, st, c, f, g):
    """evaluates f on the states where c holds and g on the others -> (state, value)"""
    c = restrict(c, st.pc)
    if c is TRUE:
        return f(st)
    if c is FALSE:
        return g(st)
    if c is UNDEF:
        return None, UNDEF
    pa, pb = b_and(st.pc, c), b_and(st.pc, b_not(c))
    if pa is FALSE:
        return g(st.copy(pb))
    if pb is FALSE:
        return f(st.copy(pa))
    s1, v1 = f(st.copy(pa))
    s2, v2 = g(st.copy(pb))
    if s1 is None:
        return s2, v2
    if s2 is None:
        return s1, v1
    s1, s2 = s1.copy(), s2.copy()
    I.nt += 1
    r = ("RV", I.nt)
    s1.roots[r], s2.roots[r] = v1, v2
    m = merge(s1, s2)
    v = m.roots.pop(r)
    return m, v


def ret(v):
    return lambda st: (st, v)


def opt_field(o):
    return field(o, 0, "Some")


def elem_ty(body, ti):
    t = body.types[ti]
    while t["k"] in ("ref", "ptr"):
        t = body.types[t["t"]]
    return t


def ty_arg(fn, body, i=-1):
    a = [x for x in fn.get("a", []) if isinstance(x, int)]
    if not a:
        return None
    try:
        return elem_ty(body, a[i])
    except IndexError:
        return None


def raw_ty(fn, body, i):
    a = [x for x in fn.get("a", []) if isinstance(x, int)]
    try:
        return body.types[a[i]]
    except IndexError:
        return None


NUM_TYPES = ("f32", "f64", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def disp_num(v):
    return amap("disp", lambda x: x if x.op in ("lit", "str", "disp") else mk("disp", x), v)


def diverge(I, st, body, what, cond=None):
    I.panics.append((body.path if body is not None else "?", what, st.pc))
    return None, UNDEF


# ------------------------------------------------------------------ iterators

def mkiter(segs, stages=()):
    return mk("iter", tuple(segs), tuple(stages))


def stg(kind, *args):
    return mk("stg", kind, *args)


def opaque_items(x):
    tv = fresh()
    return mkiter(mkfor(x, tv, (one(elem(x, tv)),)))


def to_iter(I, v, ty=None, st=None):
    if v.op == "mref" and st is not None:
        inner = I.read(st, v)
        if inner.op == "iter":
            return inner
        if inner.op == "adt" and inner.args[0].startswith("core::ops::range"):
            return to_iter(I, inner, ty, st)
        return mut_iter(I, st, v)
    o = v.op
    if o == "iter":
        return v
    if o == "case":
        out = []
        for g, x in leaves(v):
            it = to_iter(I, x, ty, st)
            if it is None:
                return None
            if it.args[1]:
                out.append(mk("gseg", g, mk("sub", it)))
            else:
                out.extend(guard_segs(g, it.args[0]))
        return mkiter(out)
    if o == "adt":
        n = v.args[0]
        if n == O:
            return mkiter((one(v.args[2][0]),) if v.args[1] == "Some" else ())
        if n == "core::ops::range::Range":
            a, b = v.args[2][:2]
            return range_iter(a, sub(b, a))
        if n == "core::ops::range::RangeInclusive":
            a, b = v.args[2][:2]
            return range_iter(a, add(sub(b, a), num(1)))
        gb = next_impl(I, v)
        if gb is not None:
            return mkiter((mk("gen", "adt", v, mk("key", gb.key)),))
        if n == "core::ops::range::RangeFrom":
            tv = fresh()
            d = mk("naturals")
            return mkiter(mkfor(d, tv, (one(add(v.args[2][0], mk("ix", d, tv))),)))
        return None
    if o == "undef":
        return mkiter(())
    if o in ("seq", "str", "lit", "slice"):
        return mkiter(segs_of(v))
    if o in ("havoc", "iterating"):
        return None
    return opaque_items(v)


def next_impl(I, v):
    for b in I.p.impls.get((base_name(v.args[0]), "core::iter::traits::iterator::Iterator", "next"), []):
        return b
    return None


def range_iter(a, n):
    if n.op == "case" or a.op == "case":
        d = mkrange(maxv(n, ZERO)) if n.op != "case" else mkrange(n)
    else:
        d = mkrange(n)
    k = const(n)
    if k is not None and k <= 0:
        return mkiter(())
    tv = fresh()
    return mkiter(mkfor(d, tv, (one(add(a, t_ix(d, tv))),)))


def opt_iter(v):
    c = is_some(v)
    return mkiter((one(opt_field(v), c),) if c is not FALSE else ())


def mut_iter(I, st, ref):
    """mutable references to the elements"""
    outs = []
    v = I.read(st, ref)
    for g, r in leaves(ref):
        if r.op != "mref":
            return None
        root, path = r.args
        x = I.read(st, r)
        if x.op == "adt" and x.args[0] == O:
            if x.args[1] == "Some":
                outs.append(one(mref(root, path + (("v", "Some"), ("f", 0))), g))
            continue
        if x.op == "seq" and all(s.op == "one" and s.args[0] is TRUE for s in x.args[0]):
            outs.extend(one(mref(root, path + (("ix", num(i)),)), g) for i in range(len(x.args[0])))
            continue
        tv = fresh()
        d = mkrange(seqlen(x))
        outs.extend(guard_segs(g, mkfor(d, tv, (one(mref(root, path + (("ix", t_ix(d, tv)),))),))))
    return mkiter(outs)


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if s.op == "for":
            tv, (inner,), _ = open_binder(s)
            d = s.args[0]
            out.extend(mkfor(d.args[0] if d.op == "rev" else mk("rev", d), tv, rev_segs(inner)))
        elif s.op == "one":
            out.append(s)
        else:
            return None
    return tuple(out)


def reverse_iter(it):
    it = expand(it)
    if any(s.args[0] not in ("map", "filter", "filter_map", "copied", "inspect", "flat_map") for s in it.args[1]):
        return None
    r = rev_segs(it.args[0])
    return mkiter(r, it.args[1]) if r is not None else None


def exhausted(it):
    return mkiter(())


def expand(it, limit=64):
    """runs over a known, small range of numbers become their items"""
    if not any(s.op == "for" and short_range(s.args[0], limit) for s in it.args[0]):
        return it
    out = []
    for s in it.args[0]:
        n = short_range(s.args[0], limit) if s.op == "for" else None
        if n is None:
            out.append(s)
            continue
        for i in range(n):
            tv, (inner,), _ = open_binder(s)
            out.extend(Subst({tv: posn(s.args[0], num(i))})(inner))
        if len(out) > 4 * limit:
            return it
    return mkiter(expand(mkiter(out), limit).args[0], it.args[1])


def short_range(d, limit):
    while d.op == "rev":
        d = d.args[0]
    n = const(d.args[0]) if d.op == "range0" else None
    return int(n) if n is not None and 0 <= n <= limit else None


def gen_step(I, st, g):
    """the next item of a generator -> (state, Option, generator)"""
    kind, v, f = g.args
    if kind == "succ":
        if v.op != "adt" or v is NONE:
            return st, v, g
        x = field(v, 0, "Some")
        st, nx = I.call_value(f, [x], st)
        return (None, UNDEF, g) if st is None else (st, v, mk("gen", kind, nx, f))
    if kind == "cycle":
        return st, some(v.args[0][0].args[1]), mk("gen", kind, seq(v.args[0][1:] + v.args[0][:1]), f)
    st = st.copy()
    r = I.temp(st, v)
    if kind == "with":
        st, o = I.call_value(mref(r), [], st)
        o = some(o)
    elif kind == "fn":
        st, o = I.call_value(mref(r), [], st)
    else:
        st, o = I.run_body(I.p.get(f.args[0]), [mref(r)], st)
    if st is None:
        return None, UNDEF, g
    st = st.copy()
    v2 = st.roots.pop(r)
    return st, o, mk("gen", kind, v2, f)


def plain(it):
    """the iterator's items are known"""
    return all(s.op == "one" and s.args[0] is TRUE for s in it.args[0]) and all(s.args[0] in ("copied", "peekable") for s in it.args[1])


def add_stage(it, s):
    k = s.args[0]
    if k in ("take", "skip", "step_by", "enumerate", "zip"):
        if k == "take" and not it.args[1] and len(it.args[0]) == 1 and it.args[0][0].op == "for" and it.args[0][0].args[0].op == "naturals":
            x = it.args[0][0]
            tv, (inner,), _ = open_binder(x)
            d = mkrange(s.args[1])
            t2 = fresh()
            it = mkiter(mkfor(d, t2, Subst({tv: posn(x.args[0], mk("ix", d, t2))})(inner)))
            return expand(it)
        it = expand(it)
        if k == "zip":
            s = stg("zip", expand(s.args[1]))
    if k in ("take", "skip", "step_by") and plain(it):
        n = const(s.args[1]) if s.args[1].op == "num" else None
        if n is not None:
            n = int(n)
            segs = it.args[0]
            return mkiter(segs[:n] if k == "take" else segs[n:] if k == "skip" else segs[::max(n, 1)], it.args[1])
    if k == "enumerate" and plain(it):
        return mkiter(tuple(one(tup(num(i), x.args[1])) for i, x in enumerate(it.args[0])), it.args[1])
    if k == "zip" and plain(it) and plain(s.args[1]):
        return mkiter(tuple(one(tup(a.args[1], b.args[1])) for a, b in zip(it.args[0], s.args[1].args[0])), it.args[1])
    return mkiter(it.args[0], it.args[1] + (s,))


def stage(I, S, v, prep, k):
    kind, x, root, sg = prep
    if kind in ("copied", "peekable"):
        return k(S, v)
    if kind == "map":
        S2, r = I.call_value(x, [v], S)
        return (None, []) if S2 is None else k(S2, r)
    if kind == "inspect":
        S2, r = I.call_value(x, [v], S)
        return (None, []) if S2 is None else k(S2, v)
    if kind == "filter":
        S2, r = I.call_value(x, [v], S)
        if S2 is None:
            return None, []
        return guarded(S2, truth(r), v, k)
    if kind in ("filter_map", "map_while"):
        S2, r = I.call_value(x, [v], S)
        if S2 is None:
            return None, []
        c = is_variant(r, O, "Some")
        if r.op not in ("adt", "case"):
            c = is_some(r)
        if kind == "map_while":
            S2 = S2.copy()
            c = S2.roots[root] = b_and(truth(S2.roots[root]), c)
        return guarded(S2, c, opt_field(r), k)
    if kind == "flat_map":
        S2, r = I.call_value(x, [v], S) if x is not None else (S, v)
        if S2 is None:
            return None, []
        it = sub_iter(I, r, S2)
        if it is None:
            it = opaque_items(r)
        return I.drain(S2, it, k)
    if kind == "enumerate":
        i = S.roots[root]
        S = S.copy()
        S.roots[root] = add(i, num(1))
        return k(S, tup(i, v))
    if kind in ("skip", "take", "step_by"):
        i = S.roots[root]
        S = S.copy()
        S.roots[root] = add(i, num(1))
        c = ge(i, x) if kind == "skip" else lt(i, x) if kind == "take" else eqn(rem(i, x), ZERO)
        return guarded(S, c, v, k)
    if kind in ("take_while", "skip_while"):
        f = S.roots[root]
        S2, r = I.call_value(x, [v], S)
        if S2 is None:
            return None, []
        S2 = S2.copy()
        g = b_and(truth(f), truth(r))
        S2.roots[root] = g
        return guarded(S2, g if kind == "take_while" else b_not(g), v, k)
    if kind == "zip":
        i = S.roots[root]
        S = S.copy()
        S.roots[root] = add(i, num(1))
        S, w, c = nth_item(I, S, x, i)
        if S is None:
            return None, []
        return guarded(S, c, tup(v, w), k)
    I.note("iterator stage", kind)
    return k(S, mk("staged", sg, v))


def sub_iter(I, r, st):
    if r.op == "adt" and r.args[0] == R:
        return mkiter((one(r.args[2][0]),) if r.args[1] == "Ok" else ())
    if r.op in ("case",) and all(x.op == "adt" and x.args[0] == O or x.op not in ("adt",) for x in leafset(r)) and any(x.op == "adt" for x in leafset(r)):
        return opt_iter(r)
    return to_iter(I, r, None, st)


def guarded(S, c, v, k):
    c = restrict(c, S.pc)
    if c is TRUE:
        return k(S, v)
    if c is FALSE or c is UNDEF:
        return S, []
    pa = b_and(S.pc, c)
    if pa is FALSE:
        return S, []
    a = S.copy(pa)
    pb = b_and(S.pc, b_not(c))
    r, ex = k(a, restrict(v, c))
    b = S.copy(pb) if pb is not FALSE else None
    return merge(r, b), ex


def nth_item(I, S, it, i):
    """-> state, the i-th item of it, whether there is one"""
    segs, stages = it.args
    if any(s.args[0] not in ("map", "copied", "skip", "enumerate", "peekable") for s in stages):
        return S, mk("at", it, i), btest("hasitem", it, i)
    # undo skips from the outside in: an index of the result -> index of the source
    j = i
    idx = []
    for s in reversed(stages):
        if s.args[0] == "skip":
            j = add(j, s.args[1])
        idx.append(j)
    idx.reverse()
    if len(segs) == 1 and segs[0].op == "for" and len(segs[0].args[2]) == 1 and segs[0].args[2][0].op == "one" and segs[0].args[2][0].args[0] is TRUE:
        s = segs[0]
        d = s.args[0]
        tv, (inner,), _ = open_binder(s)
        if j.op == "ix" and j.args[0] is d and d.op != "rev":
            v = Subst({tv: j.args[1]})(inner[0].args[1])
        else:
            v = Subst({tv: posn(d, j)})(inner[0].args[1])
        c = lt(j, domlen(d)) if d.op != "naturals" else TRUE
    elif all(s.op == "one" and s.args[0] is TRUE for s in segs):
        v = at(seq(segs), j)
        c = lt(j, num(len(segs)))
    else:
        return S, mk("at", it, i), btest("hasitem", it, i)
    for s, ji in zip(stages, idx):
        if s.args[0] == "map":
            S, v = I.call_value(s.args[1], [v], S)
            if S is None:
                return None, UNDEF, FALSE
        elif s.args[0] == "enumerate":
            v = tup(ji, v)
    return S, v, c


TESTS["hasitem"] = lambda it, i: keyed(btest("hasitem", it, i))


def fold_items(I, st, it, init, f):
    """f(state, accumulator, item) -> (state, accumulator)"""
    st = st.copy()
    r = I.temp(st, init)

    def g(S, v):
        S2, a = f(S, S.roots[r], v)
        if S2 is None:
            return None, []
        S2 = S2.copy()
        S2.roots[r] = a
        return S2, []
    final, exits = I.drain(st, it, g)
    if final is None:
        return None, UNDEF
    return taken(final, r)


def collect_items(I, st, it, kind):
    it = expand(it)
    if not it.args[1] and not any(s.op in ("sub", "gen", "gseg") for s in it.args[0]):
        segs = it.args[0]
        if kind == "str":
            return st, mkstr(segs)
        if kind == "seq":
            if len(segs) == 1 and segs[0].op == "for":
                s = segs[0]
                if len(s.args[2]) == 1 and s.args[2][0].op == "one" and s.args[2][0].args[0] is TRUE and s.args[2][0].args[1] is mk("el", s.args[0], s.args[1]):
                    return st, s.args[0]
            return st, seq(segs)
    if kind == "map":
        return fold_items(I, st, it, EMPTYMAP, lambda S, a, v: (S, mkhmap(hmap_parts(a)[0], hmap_parts(a)[1] + (one(mk("hins", field(v, 0), field(v, 1))),))))
    if kind == "set":
        return fold_items(I, st, it, EMPTYMAP, lambda S, a, v: (S, mkhmap(hmap_parts(a)[0], hmap_parts(a)[1] + (one(mk("hins", v, UNIT)),))))
    if kind == "str":
        def app(S, a, v):
            if is_char(v) or v.op in ("num", "case", "chr"):
                return S, mkstr(strsegs(a) + (one(v),)) if a.op in ("str", "lit") else concat(a, v)
            return S, concat(a, v)
        return fold_items(I, st, it, lit(""), app)
    return fold_items(I, st, it, seq(), lambda S, a, v: (S, push(a, v)))


def search(I, st, it, f, missing):
    """f(state, item) -> (state, condition, result); -> (state, value of the first hit or `missing`)"""
    st = st.copy()
    r = I.temp(st, missing)
    tag = ("HIT", r)

    def g(S, v):
        S2, c, res = f(S, v)
        if S2 is None:
            return None, []
        c = restrict(c, S2.pc)
        if c is FALSE or c is UNDEF:
            return S2, []
        pa, pb = b_and(S2.pc, c), b_and(S2.pc, b_not(c))
        ex = []
        if pa is not FALSE:
            a = S2.copy(pa)
            a.roots[r] = restrict(res, c)
            ex = [(tag, a)]
        return (S2.copy(pb) if pb is not FALSE else None), ex
    final, exits = I.drain(st, it, g)
    m = final
    for t, s in exits:
        if t == tag:
            m = merge(m, s)
    if m is None:
        return None, UNDEF
    return taken(m, r)


def taken(st, r):
    """the value of a place which is forgotten"""
    st = st.copy()
    return st, st.roots.pop(r)


def first_item(I, st, it):
    if it.args[0] and plain(it):
        return st, some(it.args[0][0].args[1])
    return search(I, st, it, lambda S, v: (S, TRUE, some(v)), NONE)


def rest_of(it):
    """the iterator after its first item is taken"""
    segs, stages = it.args
    if not segs:
        return it
    if all(s.args[0] in ("map", "copied", "peekable", "inspect") for s in stages):
        s = segs[0]
        if s.op == "one" and s.args[0] is TRUE:
            return mkiter(segs[1:], stages)
        if s.op == "for" and len(s.args[2]) == 1 and s.args[2][0].op == "one" and s.args[2][0].args[0] is TRUE and len(segs) == 1:
            d = s.args[0]
            n = domlen(d)
            d2 = mkrange(sub(n, num(1)))
            if d.op == "chars":
                d2 = mk("chars", mk("strfrom", d.args[0], num(1)))
                t2 = fresh()
                tv, (inner,), _ = open_binder(s)
                return mkiter(mkfor(d2, t2, Subst({tv: t2, mk("el", d, tv): mk("el", d2, t2)})(inner)), stages)
            t2 = fresh()
            tv, (inner,), _ = open_binder(s)
            return mkiter(mkfor(d2, t2, Subst({tv: posn(d, add(mk("ix", d2, t2), num(1)))})(inner)), stages)
    if it.op == "iter":
        # unknown position: skip one
        return mkiter(segs, stages + (stg("skip", num(1)),))
    return mk("restof", it)


def next_back(m, r):
    it = to_iter(m.I, m.val(r), None, m.st)
    if it is None:
        return None
    it = expand(it)
    if not it.args[0]:
        return m.st, NONE
    if plain(it):
        return m.write(r, mkiter(it.args[0][:-1], it.args[1])), some(it.args[0][-1].args[1])
    return None


def it_next(I, ref, st):
    it = I.read(st, ref)
    root = None
    i2 = to_iter(I, it, None, st)
    if i2 is None:
        return I.opaque_call("Iterator::next", [ref], st)
    i2 = expand(i2)
    if i2.args[0] and i2.args[0][0].op == "gen" and not i2.args[1]:
        st2, v, g = gen_step(I, st, i2.args[0][0])
        if st2 is None:
            return None, UNDEF
        if v is NONE and len(i2.args[0]) > 1:
            st2 = st2.copy()
            I.write(st2, ref, mkiter(i2.args[0][1:]))
            return it_next(I, ref, st2)
        st2 = st2.copy()
        I.write(st2, ref, mkiter((g,) + i2.args[0][1:]))
        return st2, v
    st2, v = first_item(I, st, i2)
    if st2 is None:
        return None, UNDEF
    st2 = st2.copy()
    I.write(st2, ref, rest_of(i2))
    return st2, v


# ------------------------------------------------------------------ formatting

def find_impl(I, ty, trait, name, argty=None, body=None):
    if ty["k"] != "adt":
        return None
    for b in I.p.impls.get((I.p.tyname(ty["n"]), trait, name), []):
        if argty is None:
            return b
        p = b.types[b.locals[1][0]]
        if p.get("s") == argty.get("s") or strip_s(b, p) == argty.get("s"):
            return b
    return None


def strip_s(b, t):
    return t.get("s")


def find_impl_val(I, v, trait, name):
    if v.op == "adt":
        for b in I.p.impls.get((base_name(v.args[0]), trait, name), []):
            return b
    return None


def uncow(v):
    return amap(None, lambda x: x.args[2][0] if x.op == "adt" and x.args[0].endswith("::Cow") else x, v)


def display(I, st, ty, v):
    """-> (state, string value) of Display"""
    if ty is not None and ty["k"] == "prim":
        s = ty.get("s")
        if s in NUM_TYPES:
            if s == "f32" and const(v) is not None:
                import strs
                k = const(v)
                if k != int(k):
                    return st, disp_num(num(strs.f32_round(k)))
            return st, disp_num(v)
        if s == "char":
            return st, amap(None, lambda x: mkstr((one(x),)) if const(x) is not None else mk("str", (one(x),)), v)
        if s == "str":
            return st, v
        if s == "bool":
            return st, ite(truth(v), lit("true"), lit("false"))
    if ty is not None and ty["k"] == "adt":
        n = base_name(ty["n"])
        if n.split("::")[-1] in ("String", "Cow"):
            return st, uncow(v)
        b = find_impl(I, ty, "core::fmt::Display", "fmt")
        if b is not None:
            return display_body(I, st, b, v)
        if n.startswith("petgraph"):
            return st, mk("disp", v)
    if v.op in ("lit", "str"):
        return st, v
    b = find_impl_val(I, v, "core::fmt::Display", "fmt")
    if b is not None:
        return display_body(I, st, b, v)
    if v.op in tm_numeric:
        return st, disp_num(v)
    return st, amap(None, lambda x: x if x.op in ("lit", "str") else mk("disp", x), v)


tm_numeric = NUMERIC_OPS


def display_body(I, st, b, v):
    st = st.copy()
    r = I.temp(st, lit(""))
    s2, res = I.run_body(b, [v, mref(r)], st)
    if s2 is None:
        return None, UNDEF
    out = s2.roots.pop(r)
    s2.roots.pop(r, None)
    return s2, out


def parse_template(bs):
    """-> list of ('lit', s) or ('arg', index, options)"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode()))
            i += n
        else:
            opts = []
            if b & 1:
                opts.append(("flags", int.from_bytes(bytes(bs[i:i + 4]), "little")))
                i += 4
            if b & 2:
                opts.append(("width*" if b & 16 else "width", int.from_bytes(bytes(bs[i:i + 2]), "little")))
                i += 2
            if b & 4:
                opts.append(("prec*" if b & 32 else "prec", int.from_bytes(bytes(bs[i:i + 2]), "little")))
                i += 2
            if b & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            out.append(("arg", nxt, tuple(opts)))
            nxt += 1
    return out


FORMATS = ("upper_hex", "lower_hex", "octal", "binary")


def fmt_args(I, st, tmpl, args):
    """-> string value of format arguments"""
    if tmpl.op == "bytes":
        bs = list(tmpl.args[0])
    else:
        return mk("call", "fmt", (tmpl, args))
    if args.op != "seq":
        items = None
    else:
        items = [s.args[1] for s in args.args[0]]
    parts = []
    for p in parse_template(bs):
        if p[0] == "lit":
            parts.append(lit(p[1]))
            continue
        a = items[p[1]] if items is not None and p[1] < len(items) else mk("fmtarg", "?", args, ZERO)
        kind, v = a.args[0], a.args[1]
        if kind in ("display",) + FORMATS and (p[2] or kind != "display"):
            how = a.args[2] if len(a.args) > 2 else mk("padding", "", "")
            r = models4.format_one(kind, p[2], v, items, how.args[0] in ("f32", "f64"), how.args[1] != "never")
            if r is not None:
                parts.append(r)
                continue
            if kind == "display" and how.args[1] == "never":
                parts.append(v)
                continue
        if kind == "display":
            if p[2] and not all(o == ("flags", 0) for o in p[2]) and not plain_flags(p[2]):
                v = mk("padded", tuple(p[2]), v)
            parts.append(v)
        else:
            parts.append(mk("fmtd", kind, p[2], v))
    return concat(*parts)


def plain_flags(opts):
    # fill ' ' and default alignment only
    for k, n in opts:
        if k != "flags":
            return False
        if n & 0x1FFFFF != 0x20 or n >> 21 & 0x3FF not in (0, 0x300) and (n >> 21) not in (0,):
            return False
    return True


# ------------------------------------------------------------------ svg elements

ABS = mk("absent")


def elem_new(tag):
    return adt("svg::elem", "elem", lit(tag), mk("attrs", ()), seq())


TESTS["absent"] = None
TESTS.pop("absent")


def attrs_rebuild(items):
    return mk("attrs", items)


def elem_set(e, name, val):
    def f(x, n, v):
        if x.op != "adt" or n.op != "lit":
            return mk("call", "svg::set", (x, n, v))
        at_ = x.args[2][1]
        d = dict(at_.args[0])
        d[n.args[0]] = v
        return adt("svg::elem", "elem", x.args[2][0], mk("attrs", tuple(sorted(d.items()))), *x.args[2][2:])
    if name.op == "case" or e.op == "case":
        return amap(None, lambda x, n: f(x, n, val), e, name)
    return f(e, name, val)


def elem_add(e, child):
    def f(x):
        if x.op != "adt":
            return mk("call", "svg::add", (x, child))
        fs = list(x.args[2])
        fs[2] = push(fs[2], child)
        return mk("adt", x.args[0], x.args[1], tuple(fs))
    return amap(None, f, e)


def attr_value(I, st, ty, v):
    if ty is not None and ty["k"] == "adt":
        n = base_name(ty["n"])
        if n.split("::")[-1] == "Value":
            return st, v
        if n.split("::")[-1] not in ("String",):
            for b in I.p.impls.get(("svg::node::value::Value", "core::convert::From", "from"), []):
                if I.p.tyname(strip_ref(b, b.types[b.locals[1][0]]).get("n", "")) == I.p.tyname(n):
                    return I.run_body(b, [v], st)
            return st, mk("call", "svg::Value::from", (v,))
    if ty is not None and ty["k"] == "prim" and ty.get("s") in NUM_TYPES:
        return st, disp_num(v)
    if ty is not None and ty["k"] == "tup":
        return st, mk("call", "svg::Value::from", (v,))
    return st, v


def strip_ref(b, t):
    while t["k"] in ("ref", "ptr"):
        t = b.types[t["t"]]
    return t


# ------------------------------------------------------------------ the dispatcher

def call(I, fn, body, path, args, st, t):
    ow, name = norm_path(path)
    if path.startswith("core::panicking") or path.startswith("std::rt::panic") or path.startswith("std::panicking"):
        return diverge(I, st, body, "panic")
    root = path.lstrip("<&'amut ").split("::")[0]
    f = TABLE.get((ow, name)) or TABLE.get(("*", name))
    if "chumsky" in path or "ariadne" in path:
        if name in ("clone", "into_iter") and len(args) == 1:
            return st, I.read(st, args[0]) if name == "clone" else args[0]
        if ow not in ("Iterator", "IntoIterator", "Into", "From"):
            return I.opaque_call(path_name(path), args, st)
    if f is not None:
        r = f(M(I, fn, body, path, ow, name, st, t), *args)
        if r is not None:
            if ow == "Iterator" and name in CONSUMING and args and args[0].op == "mref" and r[0] is not None and I.read(st, args[0]).op == "iter":
                s2 = r[0].copy()
                I.write(s2, args[0], mkiter(()))
                return s2, r[1]
            return r
    I.note("opaque:", path_name(path))
    return I.opaque_call(path_name(path), args, st)


CONSUMING = ("last", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "for_each", "collect", "sum", "product", "count", "fold", "reduce", "unzip", "partition")


def path_name(path):
    return path


class M:
    """a call being modelled"""
    __slots__ = ("I", "fn", "body", "path", "ow", "name", "st", "t")

    def __init__(self, I, fn, body, path, ow, name, st, t):
        self.I, self.fn, self.body, self.path, self.ow, self.name, self.st, self.t = I, fn, body, path, ow, name, st, t

    def val(self, v):
        return self.I.read(self.st, v)

    def iter(self, v):
        return to_iter(self.I, v if v.op != "mref" else v, None, self.st)

    def ty(self, i=-1):
        return ty_arg(self.fn, self.body, i)

    def write(self, ref, v):
        st = self.st.copy()
        self.I.write(st, ref, v)
        return st


TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            o, m = n.rsplit(".", 1)
            TABLE[(o, m)] = f
        return f
    return deco


def _id(m, x, *rest):
    v = m.val(x)
    return m.st, v if m.name == "clone" else uncow(v)


for _n in ("Deref.deref", "AsRef.as_ref", "Borrow.borrow", "Clone.clone", "ToOwned.to_owned", "String.as_str", "String.as_ref",
           "str.as_str", "Vec.as_slice", "[T].to_vec", "hint.must_use", "String.into_boxed_str", "Option.as_ref", "Option.copied",
           "Option.cloned", "Option.as_deref", "Option.as_slice", "Result.as_ref", "Result.copied", "Result.cloned", "Result.as_deref",
           "Box.new", "Rc.new", "Arc.new", "Cow.into_owned", "SmallVec.from_vec", "SmallVec.into_vec", "SmallVec.as_slice",
           "boxed.box_assume_init_into_vec_unsafe", "[T].into_vec", "str.into_string", "String.into_string", "String.clone",
           "Vec.into_boxed_slice", "mem.drop_", "AsDisplay.as_display", "VecDeque.from", "slice.as_slice",
           "array.as_slice", "[T; N].as_slice", "str.to_owned", "String.leak", "Formatter.by_ref", "black_box.black_box", "BorrowMut.borrow",
           "SmallVec.from_slice", "str.as_ref", "Vec.from", "Vec.as_ref", "identity.identity", "convert.identity", "str.borrow",
           "NodeIndex.from", "FromIterator.from", "Stdout.lock", "str.to_string", "From.from_iter_", "TryInto.ok_", "Box.into_inner"):
    TABLE[tuple(_n.rsplit(".", 1))] = _id


@model("DerefMut.deref_mut", "BorrowMut.borrow_mut", "Vec.as_mut_slice", "AsMut.as_mut", "String.as_mut_str", "Iterator.by_ref", "Read.by_ref", "Write.by_ref")
def _same(m, x):
    if m.name == "deref_mut" and x.op == "mref":
        # a guard: what it gives access to
        ty = m.ty(0)
        if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).split("::")[-1] in ("RefMut", "MutexGuard", "PeekMut", "Pin"):
            y = get_path(m.st.roots.get(x.args[0], UNDEF), x.args[1])
            if y.op == "mref":
                return m.st, y
    return m.st, x


@model("mem.take")
def _take_mem(m, x):
    v = m.val(x)
    return m.write(x, default_like(m, v)), v


def default_like(m, v):
    d = default_of(m, m.ty(-1))
    return d if d is not None else mk("call", "Default::default", ())


@model("mem.replace")
def _replace_mem(m, x, y):
    v = m.val(x)
    return m.write(x, y), v


@model("mem.swap")
def _swap(m, x, y):
    a, b = m.val(x), m.val(y)
    st = m.write(x, b)
    m.I.write(st, y, a)
    return st, UNIT


@model("mem.drop", "mem.forget")
def _drop(m, x):
    return m.st, UNIT


def default_of(m, ty):
    if ty is None:
        return None
    s = ty.get("s")
    if ty["k"] == "prim":
        if s in NUM_TYPES:
            return ZERO
        if s == "bool":
            return FALSE
        if s == "str":
            return lit("")
    if ty["k"] == "adt":
        n = base_name(ty["n"]).split("::")[-1]
        if n == "String":
            return lit("")
        if n in ("Vec", "VecDeque", "SmallVec"):
            return seq()
        if n == "Option":
            return NONE
        if n in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            return EMPTYMAP
        if n == "Graph":
            return EMPTY
    if ty["k"] == "tup":
        xs = [default_of(m, m.body.types[a]) for a in ty["a"]]
        if all(x is not None for x in xs):
            return tup(*xs)
    return None


@model("Default.default")
def _default(m):
    ty = raw_ty(m.fn, m.body, 0)
    d = default_of(m, ty)
    if d is not None:
        return m.st, d
    if ty is not None:
        b = find_impl(m.I, ty, "core::default::Default", "default")
        if b is not None:
            return m.I.run_body(b, [], m.st)


# --- conversions

@model("Into.into", "From.from", "TryFrom.try_from", "TryInto.try_into")
def _into(m, x):
    if m.name in ("into", "try_into"):
        src, dst = raw_ty(m.fn, m.body, 0), raw_ty(m.fn, m.body, 1)
    else:
        dst, src = raw_ty(m.fn, m.body, 0), raw_ty(m.fn, m.body, 1)
    return convert(m.I, m.st, m.body, src, dst, x, m.name.startswith("try"))


def convert(I, st, body, src, dst, x, trying=False):
    if dst is None or src is None:
        return None
    if dst.get("s") == src.get("s"):
        return st, x
    dn = base_name(dst.get("n", "")) if dst["k"] == "adt" else ""
    for b in I.p.impls.get((I.p.tyname(dn), "core::convert::From", "from"), []):
        p = b.types[b.locals[1][0]]
        if norm_s(p) == norm_s(src):
            return I.run_body(b, [x], st)
    sn = base_name(src.get("n", "")) if src["k"] == "adt" else ""
    if sn:
        for b in I.p.impls.get((I.p.tyname(sn), "core::convert::Into", "into"), []):
            return I.run_body(b, [x], st)
    last = dn.split("::")[-1]
    if last == "Value" and dn.startswith("svg"):
        return attr_value(I, st, strip_ref(body, src), I.read(st, x))
    if last in ("String", "Box", "Rc", "Arc", "Cow", "Vec", "SmallVec", "VecDeque", "Source", "PathBuf", "OsString"):
        v = I.read(st, x)
        return st, v
    if last == "Option":
        return st, some(x)
    if last in ("NodeIndex", "EdgeIndex"):
        return st, mk("mkindex", x)
    if dst["k"] == "prim" and src["k"] == "prim":
        if trying:
            return None
        if dst.get("s") in ("f32", "f64", "usize", "u64", "u32", "i64", "i32", "u16", "u128"):
            return st, I.read(st, x)
    return None


def norm_s(t):
    import re
    return re.sub(r"'[a-z_{}]+ ?|&|mut ", "", t.get("s") or "").replace("seiren::", "crate::")


@model("ToString.to_string")
def _to_string(m, x):
    ty = m.ty(0)
    v = m.val(x)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).startswith("svg::"):
        return m.st, mk("svgtext", v)
    return display(m.I, m.st, ty, v)


@model("Argument.new_display")
def _new_display(m, x):
    st, s = display(m.I, m.st, m.ty(-1), m.val(x))
    if st is None:
        return None, UNDEF
    ty = m.ty(-1)
    pads = models4.pads_itself(m.I, m, ty)
    return st, mk("fmtarg", "display", s, mk("padding", (ty or {}).get("s") or "", "always" if pads else "never" if pads is False else "unknown"))


@model("Argument.new_debug", "Argument.new_upper_hex", "Argument.new_lower_hex", "Argument.new_octal", "Argument.new_binary", "Argument.new_lower_exp", "Argument.new_upper_exp", "Argument.new_pointer")
def _new_other(m, x):
    if m.name == "new_debug":
        try:
            return m.st, mk("fmtarg", "display", lit(models4.debug_text(m.I, m.body, m.ty(-1), m.val(x), m.st)), mk("padding", "", "unknown"))
        except (models4.strs.Stuck, KeyError, IndexError, TypeError):
            pass
    return m.st, mk("fmtarg", m.name[4:], m.val(x))


@model("Argument.from_usize")
def _from_usize(m, x):
    return m.st, mk("fmtarg", "usize", m.val(x))


@model("Arguments.new")
def _args_new(m, t, a):
    return m.st, mk("fmtargs", fmt_args(m.I, m.st, m.val(t), m.val(a)))


@model("Arguments.from_str", "Arguments.new_const", "Arguments.from_str_nonconst")
def _args_from_str(m, s):
    v = m.val(s)
    if v.op == "seq":
        v = concat(*[x.args[1] for x in v.args[0]]) if v.args[0] else lit("")
    return m.st, mk("fmtargs", v)


def unfmt(v):
    return amap(None, lambda x: x.args[0] if x.op == "fmtargs" else mk("disp", x), v)


@model("fmt.format")
def _format(m, a):
    return m.st, unfmt(a)


@model("Formatter.write_fmt", "Write.write_fmt", "String.write_fmt")
def _write_fmt(m, f, a):
    return write_text(m, f, unfmt(a))


@model("Formatter.write_str", "Write.write_str", "Formatter.pad", "String.write_str")
def _write_str(m, f, s):
    return write_text(m, f, m.val(s))


@model("Write.write_char", "Formatter.write_char", "String.write_char")
def _write_char(m, f, c):
    return write_text(m, f, mkstr((one(c),)) if const(c) is not None else mk("str", (one(c),)))


def write_text(m, f, text):
    """text goes to a Formatter, a String or an io::Write"""
    v = m.val(f)
    if m.path.startswith("core::io") or "io::" in m.path or v.op == "writer":
        return io_write(m, f, text, m.name)
    if v.op in ("lit", "str") or LOGKIND.get(v) == "str":
        return m.write(f, concat(v, text)), ok(UNIT)
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).endswith("String"):
        return m.write(f, concat(v, text)), ok(UNIT)
    if m.ow == "Formatter":
        return m.write(f, concat(v, text)), ok(UNIT)
    return io_write(m, f, text, m.name)


def io_write(m, f, text, how):
    I = m.I
    st = m.st.copy()
    log = st.roots.get(("IO",), mk("iolog", ()))
    I.nalloc += 1
    res = mk("ioresult", I.nalloc, *I.tvs)
    w = I.deep(st, f)
    if f.op == "mref" and w.op == "seq":
        # into memory
        if text.op == "bytes":
            text = seq([one(num(x)) for x in text.args[0]])
        try:
            import strs
            more = [num(x) for x in strs.text(text).encode("utf-8")] if how != "flush" else []
        except strs.Stuck:
            more = None
        if text.op == "seq" and how != "flush":
            I.write(st, f, seq(w.args[0] + text.args[0]))
            return st, ok(seqlen(text) if how == "write" else UNIT)
        I.write(st, f, seq(w.args[0] + tuple(one(x) for x in more)) if more is not None else mk("call", "write", (w, text)))
        return st, ok(num(len(more)) if how == "write" and more is not None else UNIT)
    st.roots[("IO",)] = mk("iolog", log.args[0] + (one(mk("io", how, w, text, res)),)) if log.op == "iolog" else log
    return st, res


@model("Write.write_all", "Write.write", "Write.flush", "BufWriter.flush")
def _write_all(m, f, b=None):
    return io_write(m, f, m.val(b) if b is not None else UNIT, m.name)


@model("stdio._print", "stdio._eprint")
def _print(m, a):
    return io_write(m, lit("stdout" if m.name == "_print" else "stderr"), unfmt(a), m.name)[0], UNIT


# --- strings

@model("String.new", "String.with_capacity")
def _str_new(m, *a):
    return m.st, lit("")


@model("String.push")
def _str_push(m, s, c):
    v = m.val(s)
    return m.write(s, append_char(v, c)), UNIT


def append_char(v, c):
    def f(x):
        return mkstr(strsegs(x) + (one(c),)) if (x.op == "str" or x.args[0:1] != ("",) or const(c) is not None) and not (x.op == "lit" and x.args[0] == "" and const(c) is None) else mk("str", (one(c),))
    if c.op == "case":
        return concat_seg(v, one(c))
    return amap(None, f, v)


def concat_seg(v, s):
    segs = () if v.op == "lit" and not v.args[0] else strsegs(v)
    return mk("str", segs + (s,))


@model("String.push_str")
def _str_push_str(m, s, x):
    return m.write(s, concat(m.val(s), m.val(x))), UNIT


@model("Add.add")
def _add_tr(m, a, b):
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).endswith("String"):
        return m.st, concat(m.val(a), m.val(b))
    if ty is None or ty["k"] == "prim":
        return m.st, add(m.val(a), m.val(b))


@model("AddAssign.add_assign")
def _add_assign(m, a, b):
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).endswith("String"):
        return m.write(a, concat(m.val(a), m.val(b))), UNIT
    if ty is None or ty["k"] == "prim":
        return m.write(a, add(m.val(a), m.val(b))), UNIT


@model("Sub.sub")
def _sub_tr(m, a, b):
    ty = m.ty(0)
    if ty is None or ty["k"] == "prim":
        return m.st, sub(m.val(a), m.val(b))


@model("Mul.mul")
def _mul_tr(m, a, b):
    ty = m.ty(0)
    if ty is None or ty["k"] == "prim":
        return m.st, mul(m.val(a), m.val(b))


@model("Neg.neg")
def _neg_tr(m, a):
    return m.st, neg(m.val(a))


@model("Not.not")
def _not_tr(m, a):
    return m.st, b_not(truth(m.val(a)))


@model("str.chars")
def _chars(m, s):
    v = m.val(s)
    if v.op == "lit":
        return m.st, mkiter(segs_of(v))
    return m.st, opaque_items(mk("chars", v))


@model("String.as_bytes", "str.as_bytes", "String.into_bytes")
def _as_bytes(m, s):
    v = m.val(s)
    if v.op == "lit" and not v.args[0].isascii():
        return m.st, seq([one(num(x)) for x in v.args[0].encode("utf-8", "surrogatepass")])
    return m.st, v


@model("String.from_utf8", "str.from_utf8", "String.from_utf8_lossy")
def _from_utf8(m, v):
    x = m.val(v)
    if x.op == "written":
        return m.st, ok(x)
    if x.op == "seq" and x.args[0] and all(s.op == "one" and s.args[0] is TRUE and const(s.args[1]) is not None for s in x.args[0]):
        b = bytes(int(const(s.args[1])) for s in x.args[0])
        try:
            t = lit(b.decode("utf-8"))
        except UnicodeDecodeError as e:
            if m.name == "from_utf8":
                return m.st, err(mk("call", "core::str::Utf8Error", (num(e.start),)))
            return None
        return m.st, ok(t) if m.name == "from_utf8" else t
    return m.st, ok(x) if m.name != "from_utf8_lossy" else x


@model("str.len", "String.len", "Vec.len", "[T].len", "VecDeque.len", "SmallVec.len", "[T; N].len", "ExactSizeIterator.len")
def _len(m, s):
    v = m.val(s)
    if v.op == "iter":
        if all(x.args[0] in ("map", "copied", "enumerate", "peekable", "inspect") for x in v.args[1]):
            return m.st, seglen(v.args[0])
        return m.st, mk("len", v)
    if v.op in ("hmap", "emptymap"):
        return m.st, ZERO if v is EMPTYMAP else mk("len", v)
    if v.op == "disp" and const(v.args[0]) is not None:
        import strs
        return m.st, num(len(strs.hole(v)))
    return m.st, seqlen(v)


@model("str.is_empty", "String.is_empty", "Vec.is_empty", "[T].is_empty", "VecDeque.is_empty", "SmallVec.is_empty", "HashMap.is_empty", "ExactSizeIterator.is_empty")
def _is_empty(m, s):
    st, n = _len(m, s)
    return st, eqn(n, ZERO)


@model("Vec.new", "Vec.with_capacity", "VecDeque.new", "VecDeque.with_capacity", "SmallVec.new", "SmallVec.with_capacity")
def _vec_new(m, *a):
    return m.st, seq()


@model("Vec.push", "VecDeque.push_back", "SmallVec.push")
def _vec_push(m, s, x):
    return m.write(s, push(m.val(s), x)), UNIT


@model("VecDeque.push_front")
def _push_front(m, s, x):
    return m.write(s, seq((one(x),) + tuple(segs_of(m.val(s))))), UNIT


@model("Vec.insert")
def _vec_insert(m, s, i, x):
    if const(i) == 0:
        return m.write(s, seq((one(x),) + tuple(segs_of(m.val(s))))), UNIT


@model("Vec.clear", "VecDeque.clear", "SmallVec.clear")
def _vec_clear(m, s):
    return m.write(s, seq()), UNIT


@model("String.clear")
def _str_clear(m, s):
    return m.write(s, lit("")), UNIT


@model("Extend.extend", "Vec.extend_from_slice", "Vec.extend", "SmallVec.extend_from_slice", "VecDeque.extend")
def _extend(m, s, x):
    it = to_iter(m.I, x, None, m.st)
    if it is None:
        return None
    v = m.val(s)
    ty = m.ty(0)
    st = m.st.copy()
    isstr = v.op in ("lit", "str")
    ismap = v.op in ("hmap", "emptymap")
    leaf = s
    if leaf.op != "mref":
        return None

    def f(S, y):
        S = S.copy()
        old = m.I.read(S, leaf)
        if isstr:
            new = append_char(old, y) if is_char(y) or y.op == "num" else concat(old, y)
        elif ismap:
            b, segs = hmap_parts(old)
            new = mkhmap(b, segs + (one(mk("hins", field(y, 0), field(y, 1))),))
        else:
            new = push(old, y)
        m.I.write(S, leaf, new)
        return S, []
    if not it.args[1] and not isstr and not ismap and not any(q.op in ("sub", "gseg") for q in it.args[0]):
        return m.write(s, append_segs(v, it.args[0])), UNIT
    final, ex = m.I.drain(st, it, f)
    return final, UNIT


@model("Vec.append", "VecDeque.append", "SmallVec.append")
def _append_vec(m, s, x):
    v = m.val(x)
    st = m.write(s, append_segs(m.val(s), segs_of(v)))
    m.I.write(st, x, seq())
    return st, UNIT


@model("Vec.reverse", "[T].reverse")
def _reverse(m, s):
    r = rev_segs(segs_of(m.val(s)))
    if r is None:
        return None
    return m.write(s, seq(r)), UNIT


@model("Vec.retain")
def _retain(m, s, f):
    it = mkiter(segs_of(m.val(s)), (stg("filter", f),))
    st, v = collect_items(m.I, m.st, it, "seq")
    if st is None:
        return None, UNDEF
    st = st.copy()
    m.I.write(st, s, v)
    return st, UNIT


@model("Vec.pop", "VecDeque.pop_back")
def _vec_pop(m, s):
    v = m.val(s)
    if v.op == "seq":
        if not v.args[0]:
            return m.st, NONE
        l = v.args[0][-1]
        if l.op == "one" and l.args[0] is TRUE:
            return m.write(s, seq(v.args[0][:-1])), some(l.args[1])


@model("VecDeque.pop_front")
def _pop_front(m, s):
    v = m.val(s)
    if v.op == "seq":
        if not v.args[0]:
            return m.st, NONE
        l = v.args[0][0]
        if l.op == "one" and l.args[0] is TRUE:
            return m.write(s, seq(v.args[0][1:])), some(l.args[1])
    # the n-th call takes the n-th item: a queue is read through a cursor
    if v.op == "queue":
        x, k = v.args
        return m.write(s, mk("queue", x, add(k, num(1)))), ite(lt(k, seqlen(x)), some(at(x, k)), NONE)
    if v.op in ("iterating", "havoc", "undef", "case"):
        return None
    return m.write(s, mk("queue", v, num(1))), ite(lt(ZERO, seqlen(v)), some(at(v, ZERO)), NONE)


CONS["queue"] = lambda x, k: mk("queue", x, k)


@model("Vec.truncate", "Vec.drain", "Vec.dedup", "Vec.swap_remove", "Vec.remove")
def _opaque_vec(m, *a):
    return None


@model("[T].get", "Vec.get", "VecDeque.get", "SmallVec.get", "[T].first", "[T].last", "VecDeque.front", "VecDeque.back")
def _get(m, s, i=None):
    v = m.val(s)
    n = seqlen(v)
    if m.name in ("first", "front"):
        i = ZERO
    elif m.name in ("last", "back"):
        i = sub(n, num(1))
        return m.st, ite(gt(n, ZERO), some(at(v, i)), NONE)
    if i.op == "adt":
        return None
    return m.st, ite(lt(i, n), some(at(v, i)), NONE)


@model("[T].get_mut", "[T].first_mut", "[T].last_mut", "Vec.get_mut", "VecDeque.front_mut", "VecDeque.back_mut")
def _get_mut(m, s, i=None):
    v = m.val(s)
    n = seqlen(v)
    if m.name in ("first_mut", "front_mut"):
        i = ZERO
    elif m.name in ("last_mut", "back_mut"):
        i = sub(n, num(1))
    if s.op != "mref":
        return None
    c = lt(i, n) if m.name == "get_mut" else gt(n, ZERO)
    return m.st, ite(c, some(mref(s.args[0], s.args[1] + (("ix", i),))), NONE)


@model("Index.index")
def _index(m, s, i):
    v = m.val(s)
    if i.op == "adt" and i.args[0].startswith("core::ops::range"):
        ty = m.ty(0)
        if ty is not None and (ty.get("s") == "str" or ty["k"] == "adt" and base_name(ty["n"]).split("::")[-1] == "String"):
            from models2 import known, cut, limits, Unknown
            try:
                t = known(m, v)
                l = None if t is None else limits(i, len(t.encode("utf-8", "surrogatepass")))
            except Unknown:
                l = None
            if l is not None:
                x = cut(t, *l)
                return diverge(m.I, m.st, m.body, "not a range of the text") if x is None else (m.st, lit(x))
        r = range_of(v, i)
        if r.op == "slice" and v.op == "seq":
            o, n, l = (const(x) if x.op == "num" else None for x in (r.args[1], r.args[2], seqlen(v)))
            if None not in (o, n, l) and not (0 <= o and 0 <= n and o + n <= l):
                return diverge(m.I, m.st, m.body, "range out of bounds")
        return m.st, r
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt":
        n = base_name(ty["n"]).split("::")[-1]
        if n in ("Graph", "StableGraph"):
            ity = raw_ty(m.fn, m.body, 1)
            return m.st, edgew(v, i) if ity is not None and "EdgeIndex" in ity.get("s", "") else nodew(v, i)
        if n in ("HashMap", "BTreeMap"):
            r = hget(v, m.val(i))
            if r is NONE:
                return diverge(m.I, m.st, m.body, "no such key")
            return m.st, field(r, 0, "Some")
    if beyond(v, i):
        return diverge(m.I, m.st, m.body, "index out of bounds")
    return m.st, at(v, i)


def beyond(v, i):
    """is the index known to be out of bounds?"""
    c = const(i) if i.op == "num" else None
    if c is None or v.op not in ("seq", "slice"):
        return False
    n = seqlen(v)
    n = const(n) if n.op == "num" else None
    return n is not None and not 0 <= c < n


def range_of(v, r):
    n = r.args[0].split("::")[-1]
    f = r.args[2]
    if n == "Range":
        return mkslice(v, f[0], sub(f[1], f[0]))
    if n == "RangeFrom":
        return mkslice(v, f[0], sub(seqlen(v), f[0]))
    if n == "RangeTo":
        return mkslice(v, ZERO, f[0])
    if n == "RangeToInclusive":
        return mkslice(v, ZERO, add(f[0], num(1)))
    if n == "RangeInclusive":
        return mkslice(v, f[0], add(sub(f[1], f[0]), num(1)))
    return v


@model("IndexMut.index_mut")
def _index_mut(m, s, i):
    if s.op != "mref":
        return None
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).split("::")[-1] in ("Graph",):
        ity = raw_ty(m.fn, m.body, 1)
        k = "edgew" if ity is not None and "EdgeIndex" in ity.get("s", "") else "node"
        return m.st, mref(s.args[0], s.args[1] + ((k, i),))
    if i.op == "adt" and i.args[0].startswith("core::ops::range"):
        r = range_of(m.val(s), i)
        if r.op not in ("slice", "seq"):
            return m.st, s if r is m.val(s) else mref(s.args[0], s.args[1] + (("ix", i),))
        v = m.val(s)
        f = i.args[2]
        n = i.args[0].split("::")[-1]
        o = f[0] if n in ("Range", "RangeFrom", "RangeInclusive") else ZERO
        e = seqlen(v) if n in ("RangeFrom", "RangeFull") else f[1] if n == "Range" else f[0] if n == "RangeTo" else add(f[-1] if n == "RangeToInclusive" else f[1], num(1))
        c = [const(x) if x.op == "num" else None for x in (o, e, seqlen(v))]
        if None not in c and not 0 <= c[0] <= c[1] <= c[2]:
            return diverge(m.I, m.st, m.body, "range out of bounds")
        return m.st, mref(s.args[0], s.args[1] + (("sub", o, sub(e, o)),))
    if beyond(m.val(s), i):
        return diverge(m.I, m.st, m.body, "index out of bounds")
    return m.st, mref(s.args[0], s.args[1] + (("ix", i),))


@model("RangeInclusive.new")
def _rinc(m, a, b):
    return m.st, adt("core::ops::range::RangeInclusive", "RangeInclusive", a, b)


@model("Range.contains", "RangeInclusive.contains")
def _rcontains(m, r, x):
    v = m.val(r)
    x = m.val(x)
    if v.op == "adt":
        hi = lt if v.args[0].endswith("::Range") else le
        return m.st, b_and(le(v.args[2][0], x), hi(x, v.args[2][1]))


@model("[T].join", "Join.join", "[T].concat")
def _join(m, s, sep=None):
    v = m.val(s)
    sep = m.val(sep) if sep is not None else lit("")
    return m.st, amap(None, lambda x: join_str(x, sep), v)


def join_str(v, sep):
    if v.op == "sorted":
        return mk("joined", v, sep)
    segs = segs_of(v)
    out = []
    n = ZERO
    for s in segs:
        if s.op == "one" and s.args[0] is TRUE:
            c = gt(n, ZERO)
            if c is not FALSE:
                out.append(one(sep, c))
            out.append(s)
            n = add(n, num(1))
        elif s.op == "for" and len(s.args[2]) == 1 and s.args[2][0].op == "one" and s.args[2][0].args[0] is TRUE:
            tv, (inner,), _ = open_binder(s)
            c = gt(add(n, index_of(s.args[0], tv)), ZERO)
            parts = (() if c is FALSE else (one(sep, c),)) + tuple(inner)
            out.extend(mkfor(s.args[0], tv, parts))
            n = add(n, domlen(s.args[0]))
        elif s.op == "one":
            c = b_and(gt(n, ZERO), s.args[0])
            if c is not FALSE:
                out.append(one(sep, c))
            out.append(s)
            n = add(n, ite(s.args[0], num(1), ZERO))
        else:
            return mk("joined", v, sep)
    if any(s.op == "one" and (is_char(s.args[1])) for s in out):
        return mk("str", tuple(out))
    return mkstr(out)


def plain_key(v):
    """Python value of a constant with a natural order, or None"""
    if v.op == "lit":
        return v.args[0]
    if v.op == "str":
        import strs
        try:
            return strs.text(v)
        except Exception:
            return None
    if v is TRUE or v is FALSE:
        return v is TRUE
    if v.op == "tup":
        xs = [plain_key(x) for x in v.args]
        return None if any(x is None for x in xs) else tuple(xs)
    return const(v) if v.op == "num" else None


def in_order(I, st, body, ks, xs):
    """xs in the order of the keys, None if that isn't known"""
    import functools
    ps = [plain_key(k) for k in ks]
    if not any(p is None for p in ps):
        try:
            return [x for k, x in sorted(zip(ps, xs), key=lambda p: p[0])]
        except TypeError:
            return None

    class Unknown(Exception):
        pass

    def cmp(a, b):
        o = order_vals(I, st, body, None, a[0], b[0])
        if o is None or o.op != "adt" or o.args[1] not in ("Less", "Equal", "Greater"):
            raise Unknown
        return {"Less": -1, "Equal": 0, "Greater": 1}[o.args[1]]
    try:
        return [x for k, x in sorted(zip(ks, xs), key=functools.cmp_to_key(cmp))]
    except Unknown:
        return None


def sort_items(m, xs, f):
    """the elements in order, None if that depends on unknown values"""
    import functools
    name = m.name.replace("_unstable", "")
    keys = None
    if name in ("sort", "sort_by_key", "sort_by_cached_key"):
        ks = []
        for x in xs:
            k = m.I.deep(m.st, x)
            if name != "sort":
                st, k = m.I.call_value(f, [x], m.st)
                if st is None:
                    return None
            ks.append(m.I.deep(m.st, k))
        r = in_order(m.I, m.st, m.body, ks, xs)
        if r is not None:
            return r

    class Unknown(Exception):
        pass

    if f is None or name in ("sort_by_key", "sort_by_cached_key"):
        return None

    def cmp(a, b):
        st, o = m.I.call_value(f, [a, b], m.st)
        if st is None or o.op != "adt" or o.args[1] not in ("Less", "Equal", "Greater"):
            raise Unknown
        return {"Less": -1, "Equal": 0, "Greater": 1}[o.args[1]]
    try:
        return sorted(xs, key=functools.cmp_to_key(cmp))
    except Unknown:
        return None


@model("[T].sort", "[T].sort_unstable", "[T].sort_by", "[T].sort_by_key", "[T].sort_unstable_by", "[T].sort_unstable_by_key", "[T].sort_by_cached_key")
def _sort(m, s, f=None):
    v = m.val(s)
    if v.op == "seq" and all(x.op == "one" and x.args[0] is TRUE for x in v.args[0]):
        r = sort_items(m, [x.args[1] for x in v.args[0]], f)
        if r is not None:
            return m.write(s, seq([one(x) for x in r])), UNIT
    how = UNIT
    if f is not None:
        how = m.I.deep(m.st, f)
    return m.write(s, mk("sorted", v, how)), UNIT


@model("[T].contains", "VecDeque.contains")
def _contains(m, s, x):
    x = m.val(x)
    return search(m.I, m.st, mkiter(segs_of(m.val(s))), lambda S, v: (S, eq(v, x), TRUE), FALSE)


@model("[T].swap")
def _swap_arr(m, s, i, j):
    v = m.val(s)
    a, b = at(v, i), at(v, j)
    if v.op == "seq" and const(i) is not None and const(j) is not None:
        return m.write(s, set_path(set_path(v, (("ix", i),), b), (("ix", j),), a)), UNIT


@model("[T].windows")
def _windows(m, s, n):
    v = m.val(s)
    k = const(n)
    if k is None or not 1 <= k <= 4:
        return None
    k = int(k)
    if v.op == "seq" and all(x.op == "one" and x.args[0] is TRUE for x in v.args[0]):
        xs = v.args[0]
        return m.st, mkiter(one(seq(xs[i:i + k])) for i in range(len(xs) - k + 1))
    d = mkrange(sub(seqlen(v), num(k - 1)))
    tv = fresh()
    return m.st, mkiter(mkfor(d, tv, (one(seq(one(at(v, add(t_ix(d, tv), num(j)))) for j in range(k))),)))


@model("[T].split_first", "[T].split_last")
def _split(m, s):
    v = m.val(s)
    n = seqlen(v)
    if m.name == "split_first":
        p = tup(at(v, ZERO), mkslice(v, num(1), sub(n, num(1))))
    else:
        p = tup(at(v, sub(n, num(1))), mkslice(v, ZERO, sub(n, num(1))))
    return m.st, ite(gt(n, ZERO), some(p), NONE)


@model("[T].iter", "Vec.iter", "VecDeque.iter", "SmallVec.iter", "slice.iter", "[T; N].iter", "IntoIterator.into_iter", "Option.iter", "Option.into_iter", "HashMap.iter", "BTreeMap.iter")
def _iter(m, s):
    v = s if s.op != "mref" else s
    if s.op == "mref" and m.name == "iter":
        v = m.val(s)
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).endswith("Option") or m.ow == "Option":
        return m.st, opt_iter(m.val(s))
    if m.name == "into_iter" and s.op == "adt" and (base_name(s.args[0]), "core::iter::traits::iterator::Iterator", "next") in m.I.p.impls:
        return m.st, s
    it = to_iter(m.I, v, None, m.st)
    if it is None:
        return m.st, v
    if v.op == "mref" and m.I.read(m.st, v).op == "iter":
        return m.st, v
    return m.st, it


@model("[T].iter_mut", "Vec.iter_mut", "VecDeque.iter_mut", "SmallVec.iter_mut", "Option.iter_mut")
def _iter_mut(m, s):
    it = mut_iter(m.I, m.st, s)
    return None if it is None else (m.st, it)


@model("Vec.into_iter_")
def _x(m):
    return None


# --- iterators

def owned_iter(m, x):
    """the iterator value, and a reference to clear when it was borrowed"""
    if x.op == "mref":
        v = m.val(x)
        it = to_iter(m.I, v, None, m.st)
        return it, x
    return to_iter(m.I, x, None, m.st), None


def consumed(m, st, ref, it=None):
    if st is not None and ref is not None:
        st = st.copy()
        m.I.write(st, ref, it if it is not None else mkiter(()))
    return st


def _stage_model(kind):
    def f(m, x, *a):
        it, ref = owned_iter(m, x)
        if it is None:
            return None
        r = add_stage(it, stg(kind, *[m.I.deep(m.st, y) if y.op in ("mref",) else y for y in a]))
        if ref is not None and m.val(ref).op == "iter":
            return borrowed_stage(m, kind, it, ref, r, a)
        return m.st, r
    return f


def borrowed_stage(m, kind, it, ref, r, a):
    """an adapter of a borrowed iterator, which goes on afterwards"""
    it = expand(it)
    if plain(it):
        xs = it.args[0]
        n = const(m.val(a[0])) if kind in ("take", "skip") else None
        if kind == "take" and n is not None:
            return m.write(ref, mkiter(xs[int(n):], it.args[1])), r
        if kind in ("take_while", "map_while"):
            st = m.st
            f = a[0]
            if f.op == "clo":
                st = st.copy()
                f = mref(m.I.temp(st, f))
            out = []
            for i, s in enumerate(xs):
                st, c = m.I.call_value(f, [s.args[1]], st)
                if st is None:
                    return None, UNDEF
                v = s.args[1]
                if kind == "map_while":
                    v, c = opt_field(c), is_some(c)
                c = truth(c)
                if c is FALSE:
                    st = st.copy()
                    m.I.write(st, ref, mkiter(xs[i + 1:], it.args[1]))
                    return st, mkiter(out)
                if c is not TRUE:
                    break
                out.append(one(v))
            else:
                st = st.copy()
                m.I.write(st, ref, mkiter(()))
                return st, mkiter(out)
    return m.write(ref, mk("call", "the rest of a borrowed iterator", (it,))), r


for _k in ("map", "filter", "filter_map", "flat_map", "inspect", "skip", "take", "step_by", "take_while", "skip_while", "enumerate", "map_while"):
    TABLE[("Iterator", _k)] = _stage_model(_k)
for _k in ("copied", "cloned", "fuse"):
    TABLE[("Iterator", _k)] = _stage_model("copied")


@model("Iterator.peekable")
def _peekable(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    if it.args[1] and not plain(it):
        # the items, if making them does nothing else
        st, v = collect_items(m.I, m.st, it, "seq")
        if st is not None and v.op == "seq" and all(s.op == "one" and s.args[0] is TRUE for s in v.args[0]) and all(st.roots.get(r) is y for r, y in m.st.roots.items()):
            return m.st, mkiter(v.args[0], (stg("peekable"),))
    return m.st, add_stage(it, stg("peekable"))


@model("Iterator.flatten")
def _flatten(m, x):
    it, ref = owned_iter(m, x)
    return None if it is None else (m.st, add_stage(it, stg("flat_map")))


@model("Iterator.chain")
def _chain(m, a, b):
    x = to_iter(m.I, a, None, m.st)
    ty = raw_ty(m.fn, m.body, -1)
    y = opt_iter(m.val(b)) if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).endswith("Option") else to_iter(m.I, b, None, m.st)
    if x is None or y is None:
        return None
    segs = ()
    for it in (x, y):
        segs += it.args[0] if not it.args[1] else (mk("sub", it),)
    return m.st, mkiter(segs)


@model("Iterator.zip", "iter.zip", "zip.zip")
def _zip(m, a, b):
    x = to_iter(m.I, a, None, m.st)
    y = to_iter(m.I, b, None, m.st)
    if x is None or y is None:
        return None
    return m.st, add_stage(x, stg("zip", y))


@model("Iterator.rev")
def _rev(m, a):
    x = to_iter(m.I, a, None, m.st)
    if x is None:
        return None
    y = reverse_iter(x)
    if y is not None:
        return m.st, y
    # enumerate and the like: materialise first
    st, v = collect_items(m.I, m.st, x, "seq")
    if st is None:
        return None, UNDEF
    r = rev_segs(segs_of(v))
    return None if r is None else (st, mkiter(r))


@model("iter.once")
def _once(m, x):
    return m.st, mkiter((one(x),))


@model("iter.empty")
def _empty(m):
    return m.st, mkiter(())


@model("iter.repeat", "iter.repeat_n")
def _repeat(m, x, n=None):
    d = mk("naturals") if n is None else mkrange(n)
    tv = fresh()
    return m.st, mkiter(mkfor(d, tv, (one(x),)))


@model("Iterator.next", "DoubleEndedIterator.next_back")
def _next(m, r):
    if r.op != "mref":
        return None
    if m.name == "next_back":
        return next_back(m, r)
    root = (r.args[0], r.args[1])
    return it_next(m.I, r, m.st)


@model("Peekable.peek")
def _peek(m, r):
    I = m.I
    if r.op == "mref":
        p = I.peek.get(r.args, UNDEF)
        if p is not UNDEF and p is not None:
            if p.op == "peekrest":
                return first_item(I, m.st, mkiter(p.args[0]))
            return m.st, p
        if p is None:
            return m.st, mk("call", "peek", (I.deep(m.st, r),) + tuple(I.tvs))
    it = to_iter(I, m.val(r), None, m.st)
    if it is None:
        return None
    return first_item(I, m.st, it)


@model("Iterator.nth")
def _nth(m, r, n):
    it, ref = owned_iter(m, r)
    if it is None:
        return None
    st, v, c = nth_item(m.I, m.st, it, n)
    if st is None:
        return None, UNDEF
    if ref is not None:
        st = st.copy()
        m.I.write(st, ref, mkiter(it.args[0], it.args[1] + (stg("skip", add(n, num(1))),)))
    return st, ite(c, some(v), NONE)


@model("Iterator.last")
def _last(m, r):
    it, ref = owned_iter(m, r)
    if it is None:
        return None
    if len(it.args[0]) == 1 and it.args[0][0].op == "for" and all(s.args[0] in ("map", "copied", "enumerate") for s in it.args[1]):
        n = domlen(it.args[0][0].args[0])
        st, v, c = nth_item(m.I, m.st, it, sub(n, num(1)))
        return (None, UNDEF) if st is None else (st, ite(gt(n, ZERO), some(v), NONE))
    return fold_items(m.I, m.st, it, NONE, lambda S, a, v: (S, some(v)))


@model("Iterator.collect", "FromIterator.from_iter", "iter.collect")
def _collect(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    ty = m.ty(-1) if m.name == "collect" else m.ty(0)
    kind = "seq"
    if ty is not None and ty["k"] == "adt":
        n = base_name(ty["n"]).split("::")[-1]
        if n in ("String", "Cow"):
            kind = "str"
        elif n in ("HashMap", "BTreeMap"):
            kind = "map"
        elif n in ("HashSet", "BTreeSet"):
            kind = "set"
        elif n in ("Option", "Result"):
            return collect_try(m, it, n, ty)
    st, v = collect_items(m.I, m.st, it, kind)
    return consumed(m, st, ref), v


def collect_try(m, it, n, ty):
    I = m.I
    st = m.st.copy()
    acc = I.temp(st, seq())
    good = "Some" if n == "Option" else "Ok"
    adtn = O if n == "Option" else R
    inner = m.body.types[ty["a"][0]]
    isstr = inner["k"] == "adt" and base_name(inner["n"]).endswith("String")
    if isstr:
        st.roots[acc] = lit("")

    def f(S, v):
        c = is_variant(v, adtn, good)
        S = S.copy()
        x = field(v, 0, good)
        S.roots[acc] = push(S.roots[acc], x) if not isstr else concat(S.roots[acc], x)
        return S, b_not(c), (NONE if n == "Option" else err(field(v, 0, "Err")))
    tag = mk("ok!")
    st2, r = search(I, st, it, f, tag)
    if st2 is None:
        return None, UNDEF
    w = st2.roots[acc]
    return st2, amap2(None, lambda q, y: adt(adtn, good, y) if q is tag else q, r, w) if w.op != "case" else amap(None, lambda q: adt(adtn, good, w) if q is tag else q, r)


@model("Iterator.fold")
def _fold_m(m, x, init, f):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    st, v = fold_items(m.I, m.st, it, init, lambda S, a, y: m.I.call_value(f, [a, y], S))
    return consumed(m, st, ref), v


@model("Iterator.reduce")
def _reduce(m, x, f):
    it, ref = owned_iter(m, x)
    if it is None:
        return None

    def g(S, a, y):
        return branch(m.I, S, is_some(a), lambda s: _somev(m.I.call_value(f, [opt_field(a), y], s)), ret(some(y)))
    st, v = fold_items(m.I, m.st, it, NONE, g)
    return consumed(m, st, ref), v


def _somev(sv):
    return sv[0], some(sv[1])


@model("Iterator.sum", "Iterator.product")
def _sum(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    f = add if m.name == "sum" else mul
    st, v = fold_items(m.I, m.st, it, ZERO if m.name == "sum" else num(1), lambda S, a, y: (S, f(a, m.I.read(S, y))))
    return consumed(m, st, ref), v


@model("Iterator.count")
def _count(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    if not it.args[1] or all(s.args[0] in ("map", "copied", "enumerate") for s in it.args[1]):
        return consumed(m, m.st, ref), seglen(it.args[0])
    st, v = fold_items(m.I, m.st, it, ZERO, lambda S, a, y: (S, add(a, num(1))))
    return consumed(m, st, ref), v


@model("Iterator.max", "Iterator.min")
def _itmax(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    f = maxv if m.name == "max" else minv
    st, v = fold_items(m.I, m.st, it, NONE, lambda S, a, y: (S, ite(is_some(a), some(f(opt_field(a), y)), some(y)) if a.op != "adt" else some(y) if a is NONE else some(f(opt_field(a), y))))
    return st, v


@model("Iterator.max_by", "Iterator.min_by", "Iterator.max_by_key", "Iterator.min_by_key")
def _maxby(m, x, f):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    I = m.I
    ismax = m.name.startswith("max")
    bykey = m.name.endswith("key")

    def g(S, a, y):
        def h(s):
            old = opt_field(a)
            if bykey:
                s, k1 = I.call_value(f, [old], s)
                if s is None:
                    return None, UNDEF
                s, k2 = I.call_value(f, [y], s)
                if s is None:
                    return None, UNDEF
                k1, k2 = I.read(s, k1), I.read(s, k2)
                o = None
                if not is_num(k1):
                    try:
                        # the type of keys is the parameter before the closure's
                        o = order_vals(I, s, m.body, m.ty(-2), k1, k2)
                    except (IndexError, KeyError):
                        pass
                if o is None:
                    o = order_of(k1, k2) if is_num(k1) or k1.op == "case" else mk("call", "cmp", (k1, k2))
            else:
                s, o = I.call_value(f, [old, y], s)
                if s is None:
                    return None, UNDEF
            OR = "core::cmp::Ordering"
            keep_new = is_variant(o, OR, "Greater") if not ismax else b_not(is_variant(o, OR, "Greater"))
            return s, ite(keep_new, some(y), a)
        return branch(I, S, is_some(a), h, ret(some(y)))
    st, v = fold_items(I, m.st, it, NONE, g)
    return st, v


@model("Iterator.for_each")
def _for_each(m, x, f):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    st = m.st.copy()
    fr = f
    if f.op == "clo":
        fr = mref(m.I.temp(st, f))

    def g(S, y):
        S2, _ = m.I.call_value(fr, [y], S)
        return S2, []
    final, ex = m.I.drain(st, it, g)
    return (None if final is None else consumed(m, final, ref)), UNIT


@model("Iterator.any", "Iterator.all", "Iterator.find", "Iterator.position", "Iterator.find_map", "Iterator.rposition")
def _search(m, x, f):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    I = m.I
    name = m.name
    if name == "position":
        it = add_stage(it, stg("enumerate"))

    def g(S, y):
        arg = field(y, 1) if name == "position" else y
        S2, r = I.call_value(f, [arg], S)
        if S2 is None:
            return None, FALSE, UNDEF
        if name == "any":
            return S2, truth(r), TRUE
        if name == "all":
            return S2, b_not(truth(r)), FALSE
        if name == "find":
            return S2, truth(r), some(y)
        if name == "position":
            return S2, truth(r), some(field(y, 0))
        return S2, is_some(r), some(opt_field(r))
    miss = {"any": FALSE, "all": TRUE}.get(name, NONE)
    st, v = search(I, m.st, it, g, miss)
    return consumed(m, st, ref, mk("restof", it)), v


# --- Option and Result

def opt_case(m, o, f, g):
    """f on the states where the option is Some (with its value), g where it is None"""
    v = m.val(o)
    return branch(m.I, m.st, is_some(v), lambda s: f(s, opt_field(v)), g)


@model("Option.is_some", "Option.is_none")
def _is_some(m, o):
    c = is_some(m.val(o))
    return m.st, c if m.name == "is_some" else b_not(c)


@model("Option.map")
def _opt_map(m, o, f):
    return opt_case(m, o, lambda s, x: _somev(m.I.call_value(f, [x], s)), ret(NONE))


@model("Option.and_then", "Option.is_some_and", "Option.map_or_", "Option.is_none_or")
def _and_then(m, o, f):
    z = {"and_then": NONE, "is_some_and": FALSE, "is_none_or": TRUE}[m.name]
    return opt_case(m, o, lambda s, x: m.I.call_value(f, [x], s), ret(z))


@model("Option.map_or")
def _map_or(m, o, d, f):
    return opt_case(m, o, lambda s, x: m.I.call_value(f, [x], s), ret(d))


@model("Option.map_or_else")
def _map_or_else(m, o, d, f):
    return opt_case(m, o, lambda s, x: m.I.call_value(f, [x], s), lambda s: m.I.call_value(d, [], s))


@model("Option.filter")
def _opt_filter(m, o, f):
    def g(s, x):
        s, r = m.I.call_value(f, [x], s)
        return (None, UNDEF) if s is None else (s, ite(truth(r), some(x), NONE))
    return opt_case(m, o, g, ret(NONE))


@model("Option.or")
def _or(m, a, b):
    return m.st, ite(is_some(m.val(a)), m.val(a), b)


@model("Option.or_else")
def _or_else(m, a, f):
    v = m.val(a)
    return branch(m.I, m.st, is_some(v), ret(v), lambda s: m.I.call_value(f, [], s))


@model("Option.and")
def _opt_and(m, a, b):
    return m.st, ite(is_some(m.val(a)), b, NONE)


@model("Option.xor")
def _opt_xor(m, a, b):
    x, y = is_some(a), is_some(b)
    return m.st, ite(x, ite(y, NONE, a), b)


@model("Option.zip")
def _opt_zip(m, a, b):
    return m.st, ite(b_and(is_some(a), is_some(b)), some(tup(opt_field(a), opt_field(b))), NONE)


@model("Option.flatten")
def _opt_flatten(m, a):
    return m.st, ite(is_some(a), opt_field(a), NONE)


@model("Option.unzip")
def _opt_unzip(m, a):
    c = is_some(a)
    return m.st, tup(ite(c, some(field(opt_field(a), 0)), NONE), ite(c, some(field(opt_field(a), 1)), NONE))


@model("Option.unwrap_or")
def _unwrap_or(m, a, d):
    v = m.val(a)
    return m.st, ite(is_some(v), opt_field(v), d)


@model("Option.unwrap_or_default")
def _unwrap_or_default(m, a):
    v = m.val(a)
    d = default_of(m, m.ty(0))
    if d is None:
        return None
    return m.st, ite(is_some(v), opt_field(v), d)


@model("Option.unwrap_or_else")
def _unwrap_or_else(m, a, f):
    return opt_case(m, a, lambda s, x: (s, x), lambda s: m.I.call_value(f, [], s))


@model("Option.unwrap", "Option.expect", "Option.unwrap_unchecked")
def _unwrap(m, o, *a):
    v = m.val(o)
    c = is_some(v)
    return demand(m, c, opt_field(v))


def demand(m, c, v):
    c = restrict(c, m.st.pc)
    if c is TRUE:
        return m.st, v
    if c is not UNDEF:
        bad = b_and(m.st.pc, b_not(c))
        if bad is not FALSE:
            m.I.panics.append((m.body.path if m.body else "?", m.t.get("sp") if m.t else None, bad))
    pc = b_and(m.st.pc, c)
    if pc is FALSE or pc is UNDEF:
        return None, UNDEF
    return m.st.copy(pc), restrict(v, c)


@model("Option.ok_or")
def _ok_or(m, o, e):
    v = m.val(o)
    return m.st, ite(is_some(v), ok(opt_field(v)), err(e))


@model("Option.ok_or_else")
def _ok_or_else(m, o, f):
    def g(s):
        s, e = m.I.call_value(f, [], s)
        return s, err(e)
    return opt_case(m, o, lambda s, x: (s, ok(x)), g)


@model("Option.take")
def _take(m, o):
    v = m.val(o)
    return m.write(o, NONE), v


@model("Option.replace")
def _replace(m, o, x):
    v = m.val(o)
    return m.write(o, some(x)), v


@model("Option.insert")
def _insert(m, o, x):
    if o.op != "mref":
        return None
    return m.write(o, some(x)), mref(o.args[0], o.args[1] + (("v", "Some"), ("f", 0)))


@model("Option.get_or_insert_with", "Option.get_or_insert")
def _goi(m, o, f):
    if o.op != "mref":
        return None
    v = m.val(o)
    r = mref(o.args[0], o.args[1] + (("v", "Some"), ("f", 0)))

    def g(s):
        s, x = m.I.call_value(f, [], s) if m.name.endswith("with") else (s, f)
        if s is None:
            return None, UNDEF
        s = s.copy()
        m.I.write(s, o, some(x))
        return s, r
    return branch(m.I, m.st, is_some(v), ret(r), g)


@model("Option.as_mut", "Option.as_deref_mut", "Option.as_pin_mut")
def _as_mut(m, o):
    if o.op == "mref":
        v = m.val(o)
        return m.st, ite(is_some(v), some(mref(o.args[0], o.args[1] + (("v", "Some"), ("f", 0)))), NONE)
    return m.st, o


def is_ok(v):
    return is_variant(v, R, "Ok")


@model("Result.is_ok", "Result.is_err")
def _is_ok(m, r):
    c = is_ok(m.val(r))
    return m.st, c if m.name == "is_ok" else b_not(c)


@model("Result.map", "Result.map_err", "Result.and_then", "Result.or_else")
def _res_map(m, r, f):
    v = m.val(r)
    n = m.name

    def good(s):
        x = field(v, 0, "Ok")
        if n == "map":
            s, y = m.I.call_value(f, [x], s)
            return s, ok(y)
        if n == "and_then":
            return m.I.call_value(f, [x], s)
        return s, ok(x)

    def bad(s):
        e = field(v, 0, "Err")
        if n == "map_err":
            s, y = m.I.call_value(f, [e], s)
            return s, err(y)
        if n == "or_else":
            return m.I.call_value(f, [e], s)
        return s, err(e)
    return branch(m.I, m.st, is_ok(v), good, bad)


@model("Result.unwrap", "Result.expect")
def _res_unwrap(m, r, *a):
    v = m.val(r)
    return demand(m, is_ok(v), field(v, 0, "Ok"))


@model("Result.unwrap_err", "Result.expect_err")
def _res_unwrap_err(m, r, *a):
    v = m.val(r)
    return demand(m, b_not(is_ok(v)), field(v, 0, "Err"))


@model("Result.ok", "Result.err")
def _res_ok(m, r):
    v = m.val(r)
    c = is_ok(v)
    if m.name == "ok":
        return m.st, ite(c, some(field(v, 0, "Ok")), NONE)
    return m.st, ite(c, NONE, some(field(v, 0, "Err")))


@model("Result.unwrap_or")
def _res_unwrap_or(m, r, d):
    v = m.val(r)
    return m.st, ite(is_ok(v), field(v, 0, "Ok"), d)


@model("Result.unwrap_or_else")
def _res_uoe(m, r, f):
    v = m.val(r)
    return branch(m.I, m.st, is_ok(v), ret(field(v, 0, "Ok")), lambda s: m.I.call_value(f, [field(v, 0, "Err")], s))


@model("Result.map_or", "Result.map_or_else", "Result.unwrap_or_default")
def _res_other(m, *a):
    return None


@model("Try.branch")
def _branch(m, v):
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt" and base_name(ty["n"]).endswith("Option"):
        return m.st, ite(is_some(v), adt(CF, "Continue", opt_field(v)), adt(CF, "Break", NONE))
    c = is_ok(v)
    return m.st, ite(c, adt(CF, "Continue", field(v, 0, "Ok")), adt(CF, "Break", err(field(v, 0, "Err"))))


@model("FromResidual.from_residual")
def _residual(m, r):
    dst = raw_ty(m.fn, m.body, 0)
    src = raw_ty(m.fn, m.body, 1)
    if dst is None or dst["k"] != "adt" or base_name(dst["n"]).endswith("Option"):
        return m.st, NONE
    e = field(r, 0, "Err")
    et, ef = m.body.types[dst["a"][1]], m.body.types[src["a"][1]] if src is not None and src["k"] == "adt" else None
    if ef is None:
        return m.st, err(e)
    c = convert(m.I, m.st, m.body, ef, et, e)
    if c is None:
        return m.st, err(mk("from", e))
    return c[0], err(c[1])


@model("Try.from_output")
def _from_output(m, x):
    return m.st, ok(x)


# --- comparison

@model("PartialEq.eq", "PartialEq.ne")
def _eq_m(m, a, b):
    x, y = m.I.deep(m.st, m.val(a)), m.I.deep(m.st, m.val(b))
    ty = m.ty(0)
    if ty is not None and ty["k"] == "adt":
        bs = find_impl(m.I, ty, "core::cmp::PartialEq", "eq")
        if bs is not None and not bs.j.get("derived"):
            s, r = m.I.run_body(bs, [x, y], m.st)
            return s, (r if m.name == "eq" else b_not(truth(r)))
    r = eq(x, y)
    return m.st, r if m.name == "eq" else b_not(r)


OR = "core::cmp::Ordering"


def order_vals(I, st, body, ty, x, y):
    """three-way comparison of two values of a type -> Ordering, or None"""
    if ty is None:
        return None
    if ty["k"] == "ref":
        return order_vals(I, st, body, body.types[ty["t"]], x, y)
    if ty["k"] == "prim":
        return order_of(x, y) if ty.get("s") != "str" else None
    if ty["k"] == "tup":
        r = adt(OR, "Equal")
        for i in reversed(range(len(ty["a"]))):
            o = order_vals(I, st, body, body.types[ty["a"][i]], field(x, i), field(y, i))
            if o is None:
                return None
            r = ite(is_variant(o, OR, "Equal"), r, o)
        return r
    if ty["k"] != "adt":
        return None
    n = base_name(ty["n"])
    if n.endswith("NodeIndex"):
        return order_of(rank(I, x), rank(I, y))
    if n.endswith("cmp::Reverse"):
        return order_vals(I, st, body, body.types[ty["a"][0]], field(y, 0), field(x, 0))
    for tr, nm in (("core::cmp::Ord", "cmp"), ("core::cmp::PartialOrd", "partial_cmp")):
        b = find_impl(I, ty, tr, nm)
        if b is not None:
            s2, r = I.run_body(b, [x, y], st)
            return r if nm == "cmp" else opt_field(r)
    return None


@model("PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def _ord(m, a, b):
    ty = m.ty(0)
    x, y = m.val(a), m.val(b)
    if ty is not None and ty["k"] == "prim" and ty.get("s") != "str":
        return m.st, {"lt": lt, "le": le, "gt": gt, "ge": ge}[m.name](x, y)
    o = order_vals(m.I, m.st, m.body, ty, m.I.deep(m.st, x), m.I.deep(m.st, y))
    if o is None:
        return None
    l, e, g = (is_variant(o, OR, v) for v in ("Less", "Equal", "Greater"))
    return m.st, {"lt": l, "le": b_or(l, e), "gt": g, "ge": b_or(g, e)}[m.name]


@model("PartialOrd.partial_cmp", "Ord.cmp", "f32.total_cmp", "f32.partial_cmp", "f64.total_cmp")
def _cmp_m(m, a, b):
    x, y = m.I.deep(m.st, m.val(a)), m.I.deep(m.st, m.val(b))
    ty = m.ty(0)
    o = order_of(x, y) if ty is None else order_vals(m.I, m.st, m.body, ty, x, y)
    if o is None:
        return None
    return m.st, some(o) if m.name == "partial_cmp" else o


@model("Ordering.reverse")
def _ord_rev(m, o):
    OR = "core::cmp::Ordering"
    return m.st, amap(None, lambda x: adt(OR, {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[x.args[1]]) if x.op == "adt" else mk("call", "reverse", (x,)), o)


@model("Ordering.is_lt", "Ordering.is_le", "Ordering.is_gt", "Ordering.is_ge", "Ordering.is_eq", "Ordering.is_ne")
def _ord_is(m, o):
    OR = "core::cmp::Ordering"
    l, e, g = (is_variant(o, OR, v) for v in ("Less", "Equal", "Greater"))
    return m.st, {"is_lt": l, "is_le": b_or(l, e), "is_gt": g, "is_ge": b_or(g, e), "is_eq": e, "is_ne": b_not(e)}[m.name]


def _adt_minmax(m, a, b, larger):
    ty = m.ty(0)
    if ty is None or ty["k"] == "prim":
        return None
    x, y = m.val(a), m.val(b)
    o = order_vals(m.I, m.st, m.body, ty, x, y)
    if o is None:
        return None
    g = is_variant(o, OR, "Greater")
    return ite(g, x, y) if larger else ite(g, y, x)


@model("f32.max", "f64.max", "Ord.max", "cmp.max")
def _max(m, a, b):
    r = _adt_minmax(m, a, b, True)
    if r is not None:
        return m.st, r
    return m.st, maxv(m.val(a), m.val(b))


@model("f32.min", "f64.min", "Ord.min", "cmp.min")
def _min(m, a, b):
    r = _adt_minmax(m, a, b, False)
    if r is not None:
        return m.st, r
    return m.st, minv(m.val(a), m.val(b))


@model("f32.clamp", "Ord.clamp")
def _clamp(m, x, a, b):
    return m.st, minv(maxv(x, a), b)


# --- numbers

@model("f32.powi", "usize.pow", "u32.pow", "i32.pow", "f64.powi")
def _powi(m, x, n):
    k = const(n)
    if k is None or not 0 <= k <= 8:
        return m.st, mk("powf", x, n)
    r = num(1)
    for _ in range(int(k)):
        r = mul(r, x)
    return m.st, r


@model("f32.sqrt", "f64.sqrt")
def _sqrt(m, x):
    return m.st, amap("sqrt", sqrtv, x)


def sqrtv(x):
    c = const(x)
    if c in (0, 1):
        return x
    if c is not None and c > 0:
        import math
        c = Fraction(c)
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    return mk("sqrt", x)


CONS["sqrt"] = lambda x: amap("sqrt", sqrtv, x)


@model("f32.hypot")
def _hypot(m, x, y):
    return m.st, amap("sqrt", sqrtv, add(mul(x, x), mul(y, y)))


@model("f32.abs", "i32.abs", "i64.abs", "isize.abs", "f64.abs", "i8.abs")
def _abs(m, x):
    return m.st, absval(x)


def absval(x):
    return ite(lt(x, ZERO), neg(x), x)


@model("usize.abs_diff", "u32.abs_diff", "i32.abs_diff")
def _abs_diff(m, x, y):
    return m.st, absval(sub(x, y))


@model("usize.saturating_sub", "u32.saturating_sub", "u8.saturating_sub")
def _sat_sub(m, x, y):
    return m.st, maxv(sub(x, y), ZERO)


@model("usize.saturating_add", "usize.wrapping_add", "u32.wrapping_add", "u32.saturating_add")
def _sat_add(m, x, y):
    return m.st, add(x, y)


@model("usize.div_ceil", "u32.div_ceil")
def _div_ceil(m, x, y):
    return m.st, idiv(sub(add(x, y), num(1)), y)


@model("usize.rem_euclid", "u32.rem_euclid", "i32.rem_euclid")
def _reme(m, x, y):
    return m.st, rem(x, y)


@model("usize.is_multiple_of", "u32.is_multiple_of")
def _mult(m, x, y):
    return m.st, eqn(rem(x, y), ZERO)


@model("usize.checked_sub")
def _checked_sub(m, x, y):
    return m.st, ite(ge(x, y), some(sub(x, y)), NONE)


@model("usize.checked_add", "u32.checked_add")
def _checked_add(m, x, y):
    return m.st, some(add(x, y))


@model("f32.mul_add")
def _mul_add(m, x, y, z):
    return m.st, add(mul(x, y), z)


@model("f32.is_nan")
def _is_nan(m, x):
    return m.st, FALSE


@model("Rem.rem")
def _rem_tr(m, a, b):
    return m.st, rem(m.val(a), m.val(b))


@model("Div.div")
def _div_tr(m, a, b):
    ty = m.ty(0)
    if ty is None or ty["k"] == "prim":
        return m.st, div(m.val(a), m.val(b)) if ty is None or ty.get("s") in ("f32", "f64") else idiv(m.val(a), m.val(b))


# --- chars

@model("char.from_u32")
def _from_u32(m, n):
    return m.st, ite(valid_scalar(n), some(n), NONE)


def valid_scalar(n):
    return b_and(le(n, num(0x10FFFF)), b_or(lt(n, num(0xD800)), gt(n, num(0xDFFF))))


def char_class(m, c, ranges):
    v = m.val(c)
    return m.st, b_any([b_and(ge(v, num(a)), le(v, num(b))) for a, b in ranges])


ASCII = {"is_ascii_digit": [(48, 57)], "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
         "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)],
         "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)], "is_ascii_control": [(0, 31), (127, 127)], "is_ascii": [(0, 127)],
         "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_graphic": [(33, 126)],
         "is_control": [(0, 31), (127, 159)]}
for _k, _r in ASCII.items():
    TABLE[("char", _k)] = (lambda r: lambda m, c: char_class(m, c, r))(_r)
    TABLE.setdefault(("u8", _k), TABLE[("char", _k)])


@model("char.is_digit")
def _is_digit(m, c, radix):
    r = const(radix)
    if r is None:
        return None
    r = int(r)
    rs = [(48, 47 + min(r, 10))]
    if r > 10:
        rs += [(65, 65 + r - 11), (97, 97 + r - 11)]
    return char_class(m, c, rs)


def _radix(m, s, radix, lo, hi):
    r = const(radix)
    v = m.val(s)
    if r is None or not (v.op == "lit" or v.op == "str"):
        return None
    import strs
    try:
        w = strs.text(v)
    except Exception:
        return None
    bad = err(mk("adt", "core::num::error::ParseIntError", "ParseIntError", (lit(w),)))
    d = w[1:] if w[:1] == "+" or (lo < 0 and w[:1] == "-") else w
    if not d or not d.isascii() or not d.isalnum():
        return m.st, bad
    try:
        n = int(d, int(r))
    except ValueError:
        return m.st, bad
    if w[:1] == "-":
        n = -n
    return m.st, ok(num(n)) if lo <= n <= hi else bad


for _t, _lo, _hi in (("u8", 0, 2**8 - 1), ("u16", 0, 2**16 - 1), ("u32", 0, 2**32 - 1), ("u64", 0, 2**64 - 1), ("usize", 0, 2**64 - 1), ("i32", -2**31, 2**31 - 1), ("i64", -2**63, 2**63 - 1)):
    TABLE[(_t, "from_str_radix")] = (lambda lo, hi: lambda m, s, r: _radix(m, s, r, lo, hi))(_lo, _hi)


@model("char.to_digit")
def _to_digit(m, c, radix):
    r = const(radix)
    if r is None:
        return None
    r = int(r)
    v = m.val(c)
    out = NONE
    if r > 10:
        for a in (65, 97):
            out = ite(b_and(ge(v, num(a)), le(v, num(a + r - 11))), some(sub(v, num(a - 10))), out)
    return m.st, ite(b_and(ge(v, num(48)), le(v, num(47 + min(r, 10)))), some(sub(v, num(48))), out)


@model("char.to_string")
def _ch_to_string(m, c):
    return m.st, mk("str", (one(m.val(c)),))


# --- maps

@model("HashMap.new", "HashMap.with_capacity", "BTreeMap.new", "HashSet.new", "BTreeSet.new", "HashSet.with_capacity")
def _map_new(m, *a):
    return m.st, EMPTYMAP


@model("HashMap.insert", "BTreeMap.insert")
def _map_insert(m, h, k, v):
    x = m.val(h)
    old = amap(None, lambda y: hget(y, k), x)

    def f(y):
        b, segs = hmap_parts(y)
        return mkhmap(b, segs + (one(mk("hins", k, v)),))
    return m.write(h, amap(None, f, x)), old


@model("HashSet.insert", "BTreeSet.insert")
def _set_insert(m, h, k):
    x = m.val(h)
    old = is_some(amap(None, lambda y: hget(y, k), x))
    b, segs = hmap_parts(x)
    return m.write(h, mkhmap(b, segs + (one(mk("hins", k, UNIT)),))), b_not(old)


@model("HashMap.get", "BTreeMap.get", "HashSet.get")
def _map_get(m, h, k):
    return m.st, hget(m.val(h), m.I.deep(m.st, m.val(k)))


@model("HashMap.contains_key", "BTreeMap.contains_key", "HashSet.contains", "BTreeSet.contains")
def _map_has(m, h, k):
    return m.st, is_some(hget(m.val(h), m.I.deep(m.st, m.val(k))))


def map_items(I, h, ordered):
    """the (key, value) pairs of a map whose keys are known to differ, None if they aren't"""
    if h is EMPTYMAP:
        return []
    if h.op != "hmap" or h.args[0] is not EMPTYMAP:
        return None
    ks = []
    for s in h.args[1]:
        if s.op != "one" or s.args[0] is not TRUE or s.args[1].op not in ("hins", "hset", "hdel"):
            return None
        k = s.args[1].args[0]
        hit = None
        for x in ks:
            e = eq(x, k)
            if e is TRUE:
                hit = x
            elif e is not FALSE:
                return None
        if s.args[1].op == "hdel":
            ks = [x for x in ks if x is not hit]
        elif hit is None:
            ks.append(k)
    if ordered:
        ks = in_order(I, State({}, TRUE), None, ks, ks)
        if ks is None:
            return None
    elif getattr(I, "hash_order", 1) < 0:
        ks.reverse()
    I.hash_iterated = getattr(I, "hash_iterated", 0) + (0 if ordered else 1)
    return [(k, field(hget(h, k), 0, "Some")) for k in ks]


def map_iter(m, name, h):
    v = m.val(h)
    its = map_items(m.I, v, "btree" in m.path)
    if its is None:
        return None
    if name in ("iter_mut", "values_mut"):
        if h.op != "mref":
            return None
        its = [(k, mref(h.args[0], h.args[1] + (("hval", k),))) for k, _ in its]
    if name == "drain":
        st = m.write(h, EMPTYMAP)
    else:
        st = m.st
    n = name.replace("into_", "").replace("_mut", "")
    isset = "Set" in m.path or "::set::" in m.path
    if n == "keys" or isset:
        xs = [k for k, _ in its]
    elif n == "values":
        xs = [x for _, x in its]
    else:
        xs = [tup(k, x) for k, x in its]
    return st, mkiter(tuple(one(x) for x in xs))


MAP_ITERS = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain")


@model("HashMap.remove", "BTreeMap.remove", "HashSet.remove", "BTreeSet.remove")
def _map_remove(m, h, k):
    x = m.val(h)
    kv = m.I.deep(m.st, m.val(k))
    its = map_items(m.I, x, False) if x.op == "hmap" or x is EMPTYMAP else None
    if its is None:
        return None
    hits = [eq(a, kv) for a, _ in its]
    if any(e is not TRUE and e is not FALSE for e in hits):
        return None
    old = [b for (a, b), e in zip(its, hits) if e is TRUE]
    new = EMPTYMAP
    for (a, b), e in zip(its, hits):
        if e is FALSE:
            bb, segs = hmap_parts(new)
            new = mkhmap(bb, segs + (one(mk("hins", a, b)),))
    st = m.write(h, new)
    if "Set" in m.ow:
        return st, TRUE if old else FALSE
    return st, some(old[0]) if old else NONE


@model("HashMap.entry", "BTreeMap.entry")
def _entry(m, h, k):
    if h.op != "mref":
        return None
    k = m.I.deep(m.st, k)
    return m.st, mk("mapentry", h, k, is_some(hget(m.val(h), k)))


def entry_or(m, e, f):
    if e.op != "mapentry":
        return None
    h, k = e.args[:2]
    have = is_some(hget(m.val(h), k))

    def new(st):
        st, x = f(st)
        if st is None:
            return None, UNDEF
        st = st.copy()

        def g(y):
            b, segs = hmap_parts(y)
            return mkhmap(b, segs + (one(mk("hins", k, x)),))
        m.I.write(st, h, amap(None, g, m.I.read(st, h)))
        return st, UNIT
    st, _ = branch(m.I, m.st, have, ret(UNIT), new)
    return st, mref(h.args[0], h.args[1] + (("hval", k),))


@model("Entry.or_insert")
def _or_insert(m, e, x):
    return entry_or(m, e, lambda st: (st, x))


@model("Entry.or_insert_with")
def _or_insert_with(m, e, f):
    return entry_or(m, e, lambda st: m.I.call_value(f, [], st))


@model("Entry.or_default")
def _or_default(m, e):
    return None


@model("HashMap.get_mut", "BTreeMap.get_mut")
def _map_get_mut(m, h, k):
    kv = m.I.deep(m.st, m.val(k))
    v = hget(m.val(h), kv)
    if h.op != "mref":
        return None
    return m.st, ite(is_some(v), some(mref(h.args[0], h.args[1] + (("hval", kv),))), NONE)


# --- boxes

@model("Box.new_uninit", "Box.new_uninit_slice")
def _box_new_uninit(m):
    st = m.st.copy()
    r = m.I.temp(st, UNDEF)
    return st, mref(r)


@model("boxed.box_assume_init_into_vec_unsafe")
def _into_vec(m, b):
    v = m.val(b)
    return m.st, v


@model("SmallVec.inline_size")
def _inline_size(m, *a):
    return m.st, num(64)


# --- functions as values

@model("FnOnce.call_once", "FnMut.call_mut", "Fn.call")
def _call_once(m, f, a):
    v = m.val(a)
    if v.op != "tup":
        return None
    return m.I.call_value(f, list(v.args), m.st)


# --- graphs

@model("Graph.new_undirected", "Graph.new", "Graph.with_capacity", "Graph.default")
def _graph_new(m, *a):
    return m.st, EMPTY


def log_graph(m, g, entry):
    x = m.val(g)
    if x.op == "case":
        new = amap(None, lambda y: mkgraph(graph_parts(y)[0], graph_parts(y)[1] + (one(entry),)), x)
    else:
        b, segs = graph_parts(x)
        new = mkgraph(b, segs + (one(entry),))
    return m.write(g, new)


@model("Graph.add_node")
def _add_node(m, g, w):
    m.I.nalloc += 1
    key = mk("alloc", m.I.nalloc, *m.I.tvs)
    rank_known(m, g, key, graph_node_segs)
    if full(m, key):
        return diverge(m.I, m.st, m.body, "the graph has no index left for a node")
    return log_graph(m, g, mk("addnode", key, w)), key


def rank_known(m, g, key, segs):
    """the index of a new node or edge, if all before it are known"""
    x = m.val(g)
    if x.op == "case" or m.I.tvs or m.st.pc is not TRUE:
        return
    n = const(seglen(segs(x)))
    if n is not None:
        m.I.ranks[key] = num(n)


def full(m, key):
    """indices of a small type: the largest one isn't used"""
    t = m.ty()
    most = {"u8": 255, "u16": 65535}.get(t.get("s")) if t else None
    n = const(m.I.ranks[key]) if key in m.I.ranks else None
    return most is not None and n is not None and n >= most


def rank(I, k):
    return I.ranks.get(k) or mk("rank", k)


@model("Graph.add_edge", "Graph.update_edge")
def _add_edge(m, g, a, b, w):
    if m.name == "update_edge":
        st, r = find_edge(m, g, a, b)
        if st is None:
            return None, UNDEF
        m.st = st
        c = is_some(r)
        if c is TRUE:
            k = field(r, 0, "Some")
            return (m.write(mref(g.args[0], g.args[1] + (("edgew", k),)), w), k) if g.op == "mref" else None
        if c is not FALSE:
            return None
    m.I.nalloc += 1
    key = mk("alloc", m.I.nalloc, *m.I.tvs)
    rank_known(m, g, key, graph_edge_segs)
    if full(m, key):
        return diverge(m.I, m.st, m.body, "the graph has no index left for an edge")
    return log_graph(m, g, mk("addedge", key, a, b, w)), key


@model("Graph.node_weight")
def _node_weight(m, g, k):
    x = m.val(g)
    return m.st, ite(hasnode(x, k), some(nodew(x, k)), NONE)


@model("Graph.node_weight_mut")
def _node_weight_mut(m, g, k):
    if g.op != "mref":
        return None
    x = m.val(g)
    r = amap(None, lambda kk: mref(g.args[0], g.args[1] + (("node", kk),)), k)
    return m.st, ite(hasnode(x, k), some(r), NONE)


def key_items(segs, f):
    tv0 = None
    out = []
    for s in segs:
        if s.op == "one":
            out.append(one(f(s.args[1]), s.args[0]))
        elif s.op in ("for", "pre"):
            tv, (inner,), _ = open_binder(s)
            ks = key_items(inner, f)
            out.extend(mkfor(s.args[0], tv, ks) if s.op == "for" else mkpre(s.args[0], tv, ks, s.args[3]))
        else:
            out.append(s)
    return tuple(out)


@model("Graph.node_weights", "Graph.node_indices", "Graph.node_references", "IntoNodeReferences.node_references", "IntoNodeIdentifiers.node_identifiers")
def _nodes(m, g):
    x = m.val(g)
    segs = graph_node_segs(x) if x.op != "case" else None
    if segs is None:
        return None
    if m.name == "node_weights":
        segs = key_items(segs, lambda k: nodew(x, k))
    elif m.name == "node_references":
        segs = key_items(segs, lambda k: tup(k, nodew(x, k)))
    return m.st, mkiter(segs)


@model("Graph.edge_weights", "Graph.edge_indices", "Graph.edge_references")
def _edges(m, g):
    x = m.val(g)
    if x.op == "case":
        return None
    segs = graph_edge_segs(x)
    if m.name == "edge_weights":
        segs = key_items(segs, lambda k: edgew(x, k))
    elif m.name == "edge_references":
        segs = key_items(segs, lambda k: mk("edgeref", x, k))
    return m.st, mkiter(segs)


@model("Graph.edge_weights_mut", "Graph.node_weights_mut")
def _edges_mut(m, g):
    if g.op != "mref":
        return None
    x = m.val(g)
    if x.op == "case":
        return None
    e = m.name.startswith("edge")
    segs = graph_edge_segs(x) if e else graph_node_segs(x)
    return m.st, mkiter(key_items(segs, lambda k: mref(g.args[0], g.args[1] + (("edgew" if e else "node", k),))))


@model("Graph.edge_weight")
def _edge_weight(m, g, k):
    x = m.val(g)
    return m.st, ite(hasedge(x, k), some(edgew(x, k)), NONE)


def hasedge(g, k):
    if k.op == "alloc" or (k.op == "el" and k.args[0].op == "edgeidx"):
        return TRUE
    return TRUE


def strip_nodes(g):
    return graph_parts(g)[0]


TESTS["hasedge"] = lambda g, k: keyed(hasedge(g, k))


@model("Graph.edge_weight_mut")
def _edge_weight_mut(m, g, k):
    if g.op != "mref":
        return None
    return m.st, ite(hasedge(m.val(g), k), some(mref(g.args[0], g.args[1] + (("edgew", k),))), NONE)


def find_entry(segs, key, depth=0):
    """the log entry adding the edge `key`"""
    for s in segs:
        if s.op == "one":
            if s.args[1].op == "addedge" and s.args[1].args[0] is key:
                return s.args[1]
        elif s.op in ("for", "pre") and key.op == "alloc" and len(key.args) > depth + 1:
            if any(e.op == "addedge" and e.args[0].op == "alloc" and e.args[0].args[0] == key.args[0] for e in entries(s.args[2])):
                # the variable of the loop: try each, the deepest binder may be any of the key's arguments
                for a in key.args[1:]:
                    tv, (inner,), _ = open_binder(s, a)
                    r = find_entry(inner, key, depth + 1)
                    if r is not None:
                        return r
    return None


def entries(segs):
    import vals
    return vals._entries(segs)


def endp(g, k, i):
    def f(x, kk):
        base, segs = graph_parts(x)
        e = find_entry(segs, kk)
        if e is not None:
            return e.args[1 + i]
        return mk("endp", base, kk, i)
    return amap(None, f, g, k)


CONS["endp"] = lambda g, k, i: endp(g, k, i)


@model("Graph.edge_endpoints")
def _endpoints(m, g, k):
    x = m.val(g)
    return m.st, ite(hasedge(x, k), some(tup(endp(x, k, 0), endp(x, k, 1))), NONE)


@model("Graph.edges")
def _inc(m, g, a):
    x = m.val(g)
    es = known_edges(x, a) if a.op == "alloc" else None
    if es is not None:
        return m.st, mkiter(tuple(one(mk("edgeref", mk("adjacent", x, a, y), k), c) for c, k, y in es))
    d = mk("incident", x, a)
    tv = fresh()
    return m.st, mkiter(mkfor(d, tv, (one(mk("edgeref", d, mk("el", d, tv))),)))


@model("Graph.neighbors")
def _nbr(m, g, a):
    return m.st, opaque_items(mk("neighbors", m.val(g), a))


def eref(n, x):
    if x.op == "edgeref":
        g, k = x.args
        if g.op == "adjacent":
            return {"source": g.args[1], "target": g.args[2], "id": k}[n] if n != "weight" else edgew(g.args[0], k)
        if g.op == "incident":
            if n == "source":
                return g.args[1]
            if n == "target":
                return mk("other", k)
            if n == "id":
                return mk("eid", k)
            return edgew(g.args[0], mk("eid", k))
        if n == "id":
            return k
        if n == "weight":
            return edgew(g, k)
        return endp(g, k, 0 if n == "source" else 1)
    return mk({"source": "esrc", "target": "etgt", "id": "eid", "weight": "ewgt"}[n], x)


for _n, _o in (("source", "esrc"), ("target", "etgt"), ("id", "eid"), ("weight", "ewgt")):
    CONS[_o] = lambda x, n=_n: amap(None, lambda y: eref(n, y), x)


@model("EdgeRef.source", "EdgeRef.target", "EdgeRef.id", "EdgeRef.weight", "EdgeReference.weight", "EdgeReference.source", "EdgeReference.target", "EdgeReference.id")
def _eref(m, e):
    n = m.name
    return m.st, amap(None, lambda x: eref(n, x), m.val(e))


@model("Graph.node_count", "Graph.edge_count")
def _ncount(m, g):
    x = m.val(g)
    if x.op == "case":
        return None
    return m.st, seglen(graph_node_segs(x) if m.name == "node_count" else graph_edge_segs(x))


@model("NodeIndex.index", "EdgeIndex.index")
def _nindex(m, k):
    return m.st, amap(None, lambda x: rank(m.I, x), m.val(k))


@model("Graph.find_edge", "Graph.contains_edge")
def _find_edge(m, g, a, b):
    st, r = find_edge(m, g, a, b)
    if st is None:
        return None, UNDEF
    return st, r if m.name == "find_edge" else is_some(r)


def find_edge(m, g, a, b):
    def f(S, e):
        return S, eq(eref("target", e), b), some(eref("id", e))
    _, it = _inc(m, g, a)
    return search(m.I, m.st, it, f, NONE)


def closure_lam(m, f, n=1):
    """a function value as a lambda over a symbolic argument"""
    x = fresh()
    st = m.st.copy()
    s, v = m.I.call_value(f, [x], st)
    if s is None:
        return mk("opaquefn", m.I.deep(m.st, f))
    return mklam(x, m.I.deep(s, v))


@model("astar.astar")
def _astar(m, g, start, goal, cost, heur):
    r = (m.val(g), start, closure_lam(m, goal), closure_lam(m, cost), closure_lam(m, heur))
    if m.I.search_result is not None:
        # the caller of the analysis says what is assumed about the search's result
        x = m.I.search_result(*r)
        if x is not None:
            return m.st, x
    return m.st, mk("astar", *r)


@model("dijkstra.dijkstra")
def _dijkstra(m, *a):
    return None


# --- svg

def elem_path(path):
    import re
    x = re.search(r"svg::node::element::(?:element::)?(\w+)(?:::| as)", path)
    return x.group(1) if x else None


def _svg(m, *a):
    e = elem_path(m.path)
    if m.path.startswith("svg::node::text::Text::new") or m.path.startswith("svg::node::Text::new"):
        return m.st, adt("svg::text", "text", m.val(a[0]))
    if m.path.startswith("svg::node::comment::Comment::new") or m.path.startswith("svg::node::Comment::new"):
        x = m.val(a[0])
        return m.st, adt("svg::elem", "elem", lit("Comment"), mk("attrs", ()), seq([one(adt("svg::text", "text", x))]))
    if e is None:
        return None
    if m.name == "new":
        return m.st, elem_new(e)
    if m.name in ("set", "assign"):
        tys = [x for x in m.fn.get("a", []) if isinstance(x, int)]
        vty = strip_ref(m.body, m.body.types[tys[-1]]) if tys else None
        st, v = attr_value(m.I, m.st, vty, m.val(a[2]))
        if st is None:
            return None, UNDEF
        x = m.val(a[0])
        new = elem_set(x, m.val(a[1]), v)
        if m.name == "assign" or a[0].op == "mref":
            st = st.copy()
            m.I.write(st, a[0], new)
            return st, UNIT if m.name == "assign" else a[0]
        return st, new
    if m.name in ("add", "append"):
        x = m.val(a[0])
        new = elem_add(x, m.val(a[1]))
        if m.name == "append" or a[0].op == "mref":
            return m.write(a[0], new), UNIT if m.name == "append" else a[0]
        return m.st, new


_oldcall = call


def call(I, fn, body, path, args, st, t):
    if ("collections::hash" in path or "btree" in path or "hashbrown" in path) and args:
        ow, name = norm_path(path)
        if name in MAP_ITERS:
            r = map_iter(M(I, fn, body, path, ow, name, st, t), name, args[0])
            if r is not None:
                return r
    if "svg::" in path:
        ow, name = norm_path(path)
        r = _svg(M(I, fn, body, path, ow, name, st, t), *args)
        if r is not None:
            return r
        if "svg::node::element" in path and name in ("deref",):
            return st, args[0]
    return _oldcall(I, fn, body, path, args, st, t)


import models2
import models3
import models4
