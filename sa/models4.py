"""More of std: iterators, slices, orders, texts, formatting, cells and maps, mostly where the values are known."""
import struct
from fractions import Fraction
from vals import *
import terms as tm
import models
import models2
import strs
from models import (TABLE, NUM_TYPES, M, O, R, OR, mkiter, stg, to_iter, owned_iter, consumed, collect_items, fold_items, expand, plain, branch, ret, diverge, model, search,
                    elem_ty, raw_ty, order_vals, find_impl, first_item, rest_of, add_stage, it_next, hget, mkhmap, hmap_parts, EMPTYMAP, map_items, display)
from models2 import known, elements, seq_model, vec_model, text_model, with_pattern, texts, matches_of, ix, S as mkseq, PANIC, limits, cut, u8, opt_text, parts
from interp import mref, merge, base_name, Program, INT_RANGE, wrapped


def listed(m, x, st=None):
    """the items of an iterator which are all known to come -> (state, values, reference), None if they aren't"""
    st = st or m.st
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    it = expand(it)
    if not it.args[1] and plain(it):
        return st, [s.args[1] for s in it.args[0]], ref
    if any(s.op == "for" for s in it.args[0]) and not it.args[1]:
        return None
    np = len(m.I.panics)
    st2, v = collect_items(m.I, st, it, "seq")
    xs = elements(v) if st2 is not None else None
    if xs is None:
        del m.I.panics[np:]
        return None
    return st2, xs, ref


def callee(m, st, f):
    """a closure called several times keeps its own state"""
    if f.op == "clo":
        st = st.copy()
        return st, mref(m.I.temp(st, f))
    return st, f


def decided(b):
    b = truth(b)
    return True if b is TRUE else False if b is FALSE else None


# ------------------------------------------------------------------ iterators

@model("Iterator.partition")
def _partition(m, x, f):
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    st, f = callee(m, st, f)
    a, b = [], []
    for v in xs:
        st, c = m.I.call_value(f, [v], st)
        if st is None:
            return None, UNDEF
        c = truth(c)
        if c is not FALSE:
            a.append(one(v, c))
        if c is not TRUE:
            b.append(one(v, b_not(c)))
    return st, tup(seq(a), seq(b))


@model("Iterator.unzip")
def _unzip(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    ty = m.body.types
    st, v = collect_items(m.I, m.st, it, "seq")
    if st is None:
        return None, UNDEF

    def part(segs, k):
        out = []
        for s in segs:
            if s.op == "one":
                out.append(one(field(s.args[1], k), s.args[0]))
            elif s.op == "for":
                tv, (inner,), _ = open_binder(s)
                p = part(inner, k)
                if p is None:
                    return None
                out.extend(mkfor(s.args[0], tv, p))
            else:
                return None
        return tuple(out)
    a, b = part(segs_of(v), 0), part(segs_of(v), 1)
    return None if a is None or b is None else (st, tup(seq(a), seq(b)))


@model("Iterator.scan")
def _scan(m, x, init, f):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    st = m.st.copy()
    r = m.I.temp(st, init)
    if f.op == "clo":
        f = mref(m.I.temp(st, f))
    n = "scan%s" % r[1]

    def step(st, v):
        return m.I.call_value(f, [mref(r), v], st)
    m.I.pyfns[n] = step
    return st, add_stage(it, stg("map_while", mk("pyfn", n)))


@model("successors.successors", "iter.successors")
def _successors(m, o, f):
    return m.st, mkiter((mk("gen", "succ", m.val(o), f),))


@model("from_fn.from_fn", "iter.from_fn")
def _from_fn(m, f):
    if m.path.startswith("core::array"):
        return array_from_fn(m, f)
    return m.st, mkiter((mk("gen", "fn", f, UNIT),))


@model("array.from_fn")
def array_from_fn(m, f):
    n = array_len(m)
    if n is None:
        return None
    st, f = callee(m, m.st, f)
    out = []
    for i in range(n):
        st, v = m.I.call_value(f, [num(i)], st)
        if st is None:
            return None, UNDEF
        out.append(v)
    return st, mkseq(out)


def array_len(m):
    """the length of the array type a call results in"""
    d = m.t.get("d") if m.t else None
    if d is None or d[1]:
        return None
    ty = m.body.types[m.body.locals[d[0]][0]]
    return ty_len(m, ty)


def ty_len(m, ty):
    while ty["k"] == "ref":
        ty = m.body.types[ty["t"]]
    s = ty.get("s") or ""
    if ty["k"] == "adt" and ty.get("a"):
        return ty_len(m, m.body.types[ty["a"][0]])
    if ty.get("n") is not None and str(ty["n"]).isdigit():
        return int(ty["n"])
    import re
    h = re.search(r"; (\d+)(?:_usize)?\]$", s)
    return int(h.group(1)) if h else None


@model("once.once", "iter.once", "option.once")
def _once(m, x):
    return m.st, mkiter((one(x),))


@model("repeat.repeat", "repeat_n.repeat_n", "iter.repeat", "iter.repeat_n")
def _repeat(m, x, n=None):
    if m.ow == "[T]" or m.ow == "str":
        return None
    d = mk("naturals") if n is None else mkrange(n)
    tv = fresh()
    return m.st, mkiter(mkfor(d, tv, (one(x),)))


@model("empty.empty")
def _empty(m):
    return m.st, mkiter(())


@model("once_with.once_with", "repeat_with.repeat_with", "iter.repeat_with", "iter.once_with")
def _with(m, f):
    if m.name == "once_with":
        st, v = m.I.call_value(f, [], m.st)
        return (None, UNDEF) if st is None else (st, mkiter((one(v),)))
    return m.st, mkiter((mk("gen", "with", f, UNIT),))


@model("Iterator.cycle")
def _cycle(m, x):
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    if not xs:
        return st, mkiter(())
    return st, mkiter((mk("gen", "cycle", mkseq(xs), UNIT),))


@model("Peekable.next_if", "Peekable.next_if_eq")
def _next_if(m, r, f):
    if r.op != "mref":
        return None
    I = m.I
    if I.peek.get(r.args, UNDEF) is None:
        return None
    it = to_iter(I, m.val(r), None, m.st)
    if it is None:
        return None
    st, o = first_item(I, m.st, it)
    if st is None:
        return None, UNDEF

    def f1(s):
        v = opt_f(o)
        if m.name == "next_if":
            s, c = I.call_value(f, [v], s)
            if s is None:
                return None, UNDEF
        else:
            c = eq(v, m.val(f))
        return branch(I, s, truth(c), lambda s2: it_next(I, r, s2), ret(NONE))
    return branch(I, st, is_some(o), f1, ret(NONE))


def opt_f(o):
    return field(o, 0, "Some")


@model("Peekable.peek_mut")
def _peek_mut(m, r):
    v = m.val(r)
    if r.op != "mref" or v.op != "iter" or m.I.peek.get(r.args, UNDEF) is not UNDEF:
        return None
    it = expand(v)
    if not it.args[0]:
        return m.st, NONE
    return None


def compare_lists(m, a, b, xs, ys, ty):
    """lexicographic three-way comparison"""
    I = m.I
    r = models.order_of(num(len(xs)), num(len(ys)))
    for x, y in reversed(list(zip(xs, ys))):
        o = order_vals(I, m.st, m.body, ty, I.deep(m.st, x), I.deep(m.st, y)) if ty is not None else order_any(I, m.st, m.body, x, y)
        if o is None:
            return None
        r = ite(is_variant(o, OR, "Equal"), r, o)
    return r


def order_any(I, st, body, x, y):
    """comparison by the values alone"""
    x, y = I.deep(st, x), I.deep(st, y)
    if x.op in ("lit", "str") and y.op in ("lit", "str"):
        try:
            a, b = strs.text(x).encode("utf-8", "surrogatepass"), strs.text(y).encode("utf-8", "surrogatepass")
        except strs.Stuck:
            return None
        return adt(OR, "Less" if a < b else "Greater" if a > b else "Equal")
    if x.op == "bool" and y.op == "bool":
        return models.order_of(num(x is TRUE), num(y is TRUE))
    if x.op == "tup" and y.op == "tup":
        r = adt(OR, "Equal")
        for a, b in reversed(list(zip(x.args, y.args))):
            o = order_any(I, st, body, a, b)
            if o is None:
                return None
            r = ite(is_variant(o, OR, "Equal"), r, o)
        return r
    if x.op == "num" and y.op == "num" and const(x) is not None and const(y) is not None:
        return models.order_of(x, y)
    if x.op == "adt" and y.op == "adt" and x.args[0] in (O, R):
        order = ("None", "Some") if x.args[0] == O else ("Ok", "Err")
        i, j = order.index(x.args[1]), order.index(y.args[1])
        if i != j:
            return models.order_of(num(i), num(j))
        if x.args[1] == "None":
            return adt(OR, "Equal")
        return order_any(I, st, body, x.args[2][0], y.args[2][0])
    if x.op == "seq" and y.op == "seq":
        xs, ys = elements(x), elements(y)
        if xs is None or ys is None:
            return None
        r = models.order_of(num(len(xs)), num(len(ys)))
        for a, b in reversed(list(zip(xs, ys))):
            o = order_any(I, st, body, a, b)
            if o is None:
                return None
            r = ite(is_variant(o, OR, "Equal"), r, o)
        return r
    if x.op == "adt" and y.op == "adt" and x.args[0] == y.args[0]:
        # a derived order
        n = x.args[0]
        if n == "core::cmp::Reverse":
            return order_any(I, st, body, y.args[2][0], x.args[2][0])
        b = None
        for tr, nm in (("core::cmp::Ord", "cmp"), ("core::cmp::PartialOrd", "partial_cmp")):
            for q in I.p.impls.get((base_name(n), tr, nm), []):
                b = b or (q, nm)
        if b is None:
            return None
        s, r = I.run_body(b[0], [x, y], st)
        if s is None:
            return None
        return r if b[1] == "cmp" else opt_f(r)
    return None


_old_order = models.order_vals


def _order_vals(I, st, body, ty, x, y):
    r = None
    if ty is not None and ty["k"] == "prim" and ty.get("s") == "bool":
        a, b = ite(truth(x), num(1), ZERO), ite(truth(y), num(1), ZERO)
        return models.order_of(a, b)
    if ty is not None and ty["k"] == "prim" and ty.get("s") == "str" or ty is None or ty["k"] in ("adt", "ref", "array", "slice", "seq"):
        r = order_any(I, st, body, x, y)
    return r if r is not None else _old_order(I, st, body, ty, x, y)


models.order_vals = order_vals = _order_vals


@model("Iterator.eq", "Iterator.ne", "Iterator.lt", "Iterator.le", "Iterator.gt", "Iterator.ge", "Iterator.cmp", "Iterator.partial_cmp")
def _iter_cmp(m, a, b):
    r = listed(m, a)
    if r is None:
        return None
    st, xs, _ = r
    r = listed(m, b, st)
    if r is None:
        return None
    st, ys, _ = r
    return cmp_result(m, st, xs, ys)


def cmp_result(m, st, xs, ys):
    if m.name in ("eq", "ne"):
        c = FALSE if len(xs) != len(ys) else tm.b_all([eq(m.I.deep(st, x), m.I.deep(st, y)) for x, y in zip(xs, ys)]) if xs else TRUE
        return st, c if m.name == "eq" else b_not(c)
    o = compare_lists(m, None, None, xs, ys, None)
    if o is None:
        return None
    if m.name == "cmp":
        return st, o
    if m.name == "partial_cmp":
        return st, some(o)
    l, e, g = (is_variant(o, OR, v) for v in ("Less", "Equal", "Greater"))
    return st, {"lt": l, "le": b_or(l, e), "gt": g, "ge": b_or(g, e)}[m.name]


def _ord_fallback(old):
    def g(m, a, b):
        r = old(m, a, b)
        if r is not None:
            return r
        o = order_any(m.I, m.st, m.body, m.val(a), m.val(b))
        if o is None:
            return None
        if m.name == "cmp":
            return m.st, o
        if m.name == "partial_cmp":
            return m.st, some(o)
        l, e, gr = (is_variant(o, OR, v) for v in ("Less", "Equal", "Greater"))
        return m.st, {"lt": l, "le": b_or(l, e), "gt": gr, "ge": b_or(gr, e)}.get(m.name)
    return g


for _n in ("lt", "le", "gt", "ge", "partial_cmp"):
    TABLE[("PartialOrd", _n)] = _ord_fallback(TABLE[("PartialOrd", _n)])
TABLE[("Ord", "cmp")] = _ord_fallback(TABLE[("Ord", "cmp")])


@model("Iterator.is_sorted", "Iterator.is_sorted_by", "[T].is_sorted", "[T].is_sorted_by", "Iterator.is_sorted_by_key", "[T].is_sorted_by_key")
def _is_sorted(m, x, f=None):
    if m.ow == "[T]":
        xs = elements(m.val(x))
        st = m.st
    else:
        r = listed(m, x)
        st, xs = (r[0], r[1]) if r is not None else (None, None)
    if xs is None:
        return None
    if f is not None:
        st, f = callee(m, st, f)
    if m.name.endswith("by_key"):
        ks = []
        for v in xs:
            st, k = m.I.call_value(f, [v], st)
            if st is None:
                return None, UNDEF
            ks.append(k)
        xs = ks
    cs = []
    for a, b in zip(xs, xs[1:]):
        if m.name.endswith("_by"):
            st, c = m.I.call_value(f, [a, b], st)
            if st is None:
                return None, UNDEF
            cs.append(truth(c))
        else:
            o = order_any(m.I, st, m.body, a, b)
            if o is None:
                if m.I.deep(st, a).op not in NUMERIC_OPS:
                    return None
                cs.append(le(m.I.deep(st, a), m.I.deep(st, b)))
            else:
                cs.append(b_not(is_variant(o, OR, "Greater")))
    return st, tm.b_all(cs) if cs else TRUE


@model("Iterator.rposition")
def _rposition(m, x, f):
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    st, f = callee(m, st, f)
    for i in range(len(xs) - 1, -1, -1):
        st, c = m.I.call_value(f, [xs[i]], st)
        if st is None:
            return None, UNDEF
        d = decided(c)
        if d is None:
            return None
        if d:
            return st, some(num(i))
    return st, NONE


@model("DoubleEndedIterator.rfind")
def _rfind(m, x, f):
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    if ref is not None:
        return None
    st, f = callee(m, st, f)

    def go(st, i):
        if i < 0:
            return st, NONE
        st, c = m.I.call_value(f, [xs[i]], st)
        if st is None:
            return None, UNDEF
        return branch(m.I, st, truth(c), ret(some(xs[i])), lambda s: go(s, i - 1))
    return go(st, len(xs) - 1)


@model("DoubleEndedIterator.rfold")
def _rfold(m, x, init, f):
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    st, f = callee(m, st, f)
    for v in reversed(xs):
        st, init = m.I.call_value(f, [init, v], st)
        if st is None:
            return None, UNDEF
    return st, init


@model("DoubleEndedIterator.nth_back")
def _nth_back(m, x, n):
    r = listed(m, x)
    k = const(n)
    if r is None or k is None or x.op != "mref":
        return None
    st, xs, ref = r
    k = int(k)
    st = st.copy()
    m.I.write(st, x, mkiter(tuple(one(v) for v in (xs[:len(xs) - 1 - k] if k < len(xs) else []))))
    return st, some(xs[len(xs) - 1 - k]) if k < len(xs) else NONE


@model("Iterator.array_chunks", "Iterator.intersperse")
def _intersperse(m, x, sep=None):
    r = listed(m, x)
    if r is None or sep is None:
        return None
    st, xs, _ = r
    out = []
    for v in xs:
        if out:
            out.append(sep)
        out.append(v)
    return st, mkiter(tuple(one(v) for v in out))


@model("Iterator.size_hint", "ExactSizeIterator.len")
def _size(m, x):
    it, ref = owned_iter(m, x)
    if it is None:
        return None
    it = expand(it)
    if it.args[1] and any(s.args[0] not in ("map", "copied", "enumerate", "peekable") for s in it.args[1]):
        return None
    if any(s.op not in ("one", "for") for s in it.args[0]):
        return None
    n = seglen(it.args[0])
    return m.st, n if m.name == "len" else tup(n, some(n))


_old_sum = TABLE[("Iterator", "sum")]


def _sum_try(m, x):
    """sums of options and results"""
    ty = m.ty(-1)
    n = base_name(ty["n"]).split("::")[-1] if ty is not None and ty["k"] == "adt" else ""
    if n not in ("Option", "Result"):
        return _old_sum(m, x)
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    good = "Some" if n == "Option" else "Ok"
    f = add if m.name == "sum" else mul
    acc = ZERO if m.name == "sum" else num(1)
    out = None
    for v in reversed(xs):
        c = is_variant(v, O if n == "Option" else R, good)
        fail = NONE if n == "Option" else err(field(v, 0, "Err"))
        if out is None and c is FALSE:
            out = ("fail", [(c, fail)])
        out = (out[0], out[1] + [(c, fail)]) if out else ("ok", [(c, fail)])
    for v in xs:
        acc = f(acc, field(v, 0, good)) if is_variant(v, O if n == "Option" else R, good) is not FALSE else acc
    res = some(acc) if n == "Option" else ok(acc)
    for v in reversed(xs):
        c = is_variant(v, O if n == "Option" else R, good)
        res = ite(c, res, NONE if n == "Option" else err(field(v, 0, "Err")))
    return consumed(m, st, ref), res


TABLE[("Iterator", "sum")] = TABLE[("Iterator", "product")] = _sum_try

_old_max = TABLE[("Iterator", "max")]


def _max_known(m, x):
    """largest of known items which aren't numbers"""
    r = listed(m, x)
    if r is not None and r[1] and any(m.I.deep(r[0], v).op in ("adt", "lit", "str", "tup", "seq", "bool") for v in r[1]):
        st, xs, ref = r
        best = xs[0]
        for v in xs[1:]:
            o = order_any(m.I, st, m.body, best, v)
            if o is None:
                return None
            g = is_variant(o, OR, "Greater")
            best = ite(g, best, v) if m.name == "max" else ite(g, v, best)
        return st, some(best)
    return _old_max(m, x)


TABLE[("Iterator", "max")] = TABLE[("Iterator", "min")] = _max_known


# ------------------------------------------------------------------ Option, Result, Ordering

@model("Ordering.then")
def _then(m, a, b):
    return m.st, ite(is_variant(m.val(a), OR, "Equal"), m.val(b), m.val(a))


@model("Ordering.then_with")
def _then_with(m, a, f):
    return branch(m.I, m.st, is_variant(m.val(a), OR, "Equal"), lambda s: m.I.call_value(f, [], s), ret(m.val(a)))


@model("Result.unwrap_or_default")
def _uod(m, x):
    ty = m.ty(0)
    d = TABLE.get(("Option", "unwrap_or_default"))
    v = m.val(x)
    c = is_variant(v, R, "Ok")
    if c is TRUE:
        return m.st, field(v, 0, "Ok")
    z = zero_of(m, ty)
    return None if z is None else (m.st, ite(c, field(v, 0, "Ok"), z))


def zero_of(m, ty):
    if ty is None:
        return None
    if ty["k"] == "prim":
        s = ty.get("s")
        return ZERO if s in NUM_TYPES or s == "char" else FALSE if s == "bool" else lit("") if s == "str" else None
    if ty["k"] == "adt":
        n = base_name(ty["n"]).split("::")[-1]
        return {"String": lit(""), "Vec": seq(), "VecDeque": seq(), "SmallVec": seq(), "Option": NONE, "HashMap": EMPTYMAP, "BTreeMap": EMPTYMAP, "HashSet": EMPTYMAP, "BTreeSet": EMPTYMAP}.get(n)
    if ty["k"] == "tup" and not ty["a"]:
        return UNIT
    return None


@model("Option.transpose", "Result.transpose")
def _transpose(m, x):
    v = m.val(x)
    if m.ow == "Option" or "option::Option" in m.path.split("::transpose")[0][:40]:
        i = opt_f(v)
        return m.st, ite(is_some(v), ite(is_variant(i, R, "Ok"), ok(some(field(i, 0, "Ok"))), err(field(i, 0, "Err"))), ok(NONE))
    i = field(v, 0, "Ok")
    return m.st, ite(is_variant(v, R, "Ok"), ite(is_some(i), some(ok(opt_f(i))), NONE), some(err(field(v, 0, "Err"))))


@model("Result.is_ok_and", "Result.is_err_and")
def _res_and(m, r, f):
    good = m.name == "is_ok_and"
    return branch(m.I, m.st, is_variant(r, R, "Ok"), *(lambda a, b: (a, b) if good else (b, a))(lambda s: m.I.call_value(f, [field(r, 0, "Ok" if good else "Err")], s), ret(FALSE)))


@model("Result.map_or")
def _res_map_or(m, x, d, f):
    v = m.val(x)
    return branch(m.I, m.st, is_variant(v, R, "Ok"), lambda s: m.I.call_value(f, [field(v, 0, "Ok")], s), ret(d))


@model("Result.map_or_else")
def _res_map_or_else(m, x, d, f):
    v = m.val(x)
    return branch(m.I, m.st, is_variant(v, R, "Ok"), lambda s: m.I.call_value(f, [field(v, 0, "Ok")], s), lambda s: m.I.call_value(d, [field(v, 0, "Err")], s))


@model("Option.get_or_insert_with", "Option.get_or_insert", "Option.insert")
def _get_or_insert(m, r, f):
    if r.op != "mref":
        return None
    st, v = m.st, m.val(r)
    c = FALSE if m.name == "insert" else is_some(v)

    def put(s):
        x = f
        if m.name == "get_or_insert_with":
            s, x = m.I.call_value(f, [], s)
            if s is None:
                return None, UNDEF
        s = s.copy()
        m.I.write(s, r, some(x))
        return s, UNIT
    st, _ = branch(m.I, st, c, ret(UNIT), put)
    return st, mref(r.args[0], r.args[1] + (("v", "Some"), ("f", 0)))


@model("Option.is_none_or")
def _is_none_or(m, x, f):
    v = m.val(x)
    return branch(m.I, m.st, is_some(v), lambda s: m.I.call_value(f, [opt_f(v)], s), ret(TRUE))


@model("Option.unzip")
def _opt_unzip(m, x):
    v = m.val(x)
    return m.st, ite(is_some(v), tup(some(field(opt_f(v), 0)), some(field(opt_f(v), 1))), tup(NONE, NONE))


@model("Option.xor")
def _opt_xor(m, a, b):
    x, y = m.val(a), m.val(b)
    p, q = is_some(x), is_some(y)
    return m.st, ite(p, ite(q, NONE, x), y)


@model("Result.iter", "Result.into_iter")
def _res_iter(m, x):
    v = m.val(x)
    c = is_variant(v, R, "Ok")
    return m.st, mkiter((one(field(v, 0, "Ok"), c),) if c is not FALSE else ())


# ------------------------------------------------------------------ slices and vectors

@seq_model("starts_with", "ends_with")
def _(m, xs, p):
    ys = elements(m.val(p))
    if ys is None:
        return None
    if len(ys) > len(xs):
        return FALSE
    zs = xs[:len(ys)] if m.name == "starts_with" else xs[len(xs) - len(ys):]
    return tm.b_all([eq(a, b) for a, b in zip(zs, ys)]) if ys else TRUE


@seq_model("split", "rsplit", "splitn", "split_inclusive")
def _(m, xs, *a):
    f = a[-1]
    out, cur = [], []
    if m.name == "splitn":
        return None
    for v in xs:
        st, c = m.I.call_value(f, [v], m.st.copy())
        d = decided(c) if st is not None else None
        if d is None:
            return None
        if d:
            if m.name == "split_inclusive":
                cur.append(v)
            out.append(cur)
            cur = []
        else:
            cur.append(v)
    if m.name != "split_inclusive" or cur:
        out.append(cur)
    return mkiter(tuple(one(mkseq(x)) for x in (out if m.name != "rsplit" else out[::-1])))


@seq_model("chunk_by")
def _(m, xs, f):
    out = []
    for v in xs:
        if out:
            st, c = m.I.call_value(f, [out[-1][-1], v], m.st.copy())
            d = decided(c) if st is not None else None
            if d is None:
                return None
            if d:
                out[-1].append(v)
                continue
        out.append([v])
    return mkiter(tuple(one(mkseq(x)) for x in out))


@seq_model("rchunks")
def _(m, xs, n):
    n = ix(n)
    if not n:
        return None
    out = []
    e = len(xs)
    while e > 0:
        out.append(xs[max(0, e - n):e])
        e -= n
    return mkiter(tuple(one(mkseq(x)) for x in out))


@seq_model("binary_search", "binary_search_by", "binary_search_by_key", "partition_point")
def _(m, xs, *a):
    def order(v):
        if m.name == "binary_search":
            return order_any(m.I, m.st, m.body, v, m.val(a[0]))
        st, r = m.I.call_value(a[-1], [v], m.st.copy())
        if st is None:
            return None
        if m.name == "binary_search_by":
            return r
        if m.name == "partition_point":
            d = decided(r)
            return None if d is None else adt(OR, "Less" if d else "Greater")
        return order_any(m.I, m.st, m.body, r, m.val(a[0]))
    # as in std: halving
    size, base = len(xs), 0
    os = [order(v) for v in xs]
    if any(o is None or o.op != "adt" for o in os):
        return None
    ks = [o.args[1] for o in os]
    if m.name == "partition_point":
        n = ks.count("Less")
        return num(n) if ks == ["Less"] * n + ["Greater"] * (len(ks) - n) else None
    hits = [i for i, k in enumerate(ks) if k == "Equal"]
    if len(hits) > 1 or sorted(ks, key=("Less", "Equal", "Greater").index) != ks:
        return None
    return ok(num(hits[0])) if hits else err(num(ks.count("Less")))


@vec_model("resize")
def _(m, xs, n, x):
    n = ix(n)
    return None if n is None or n > 5000 else (xs[:n] + [x] * (n - len(xs)), UNIT)


@vec_model("resize_with")
def _(m, xs, n, f):
    n = ix(n)
    if n is None or n > 500:
        return None
    ys = xs[:n]
    st = m.st
    while len(ys) < n:
        st, v = m.I.call_value(f, [], st)
        if st is None:
            return None
        ys = ys + [v]
    m.st = st
    return ys, UNIT


@vec_model("splice")
def _(m, xs, r, by):
    if r.op != "adt":
        return None
    l = limits(r, len(xs))
    ys = listed(m, by)
    if l is None or ys is None:
        return None
    if not 0 <= l[0] <= l[1] <= len(xs):
        return PANIC
    return xs[:l[0]] + ys[1] + xs[l[1]:], mkiter(tuple(one(x) for x in xs[l[0]:l[1]]))


@vec_model("extend_from_within")
def _(m, xs, r):
    l = limits(r, len(xs)) if r.op == "adt" else None
    return None if l is None else (xs + xs[l[0]:l[1]], UNIT)


@vec_model("dedup_by_key")
def _(m, xs, f):
    out, ks = [], []
    for x in xs:
        st, k = m.I.call_value(f, [x], m.st.copy())
        if st is None:
            return None
        if out:
            e = eq(ks[-1], m.I.deep(st, k))
            if e is TRUE:
                continue
            if e is not FALSE:
                return None
        out.append(x)
        ks.append(m.I.deep(st, k))
    return out, UNIT


@vec_model("dedup_by")
def _(m, xs, f):
    out = []
    for x in xs:
        if out:
            st, c = m.I.call_value(f, [x, out[-1]], m.st.copy())
            d = decided(c) if st is not None else None
            if d is None:
                return None
            if d:
                continue
        out.append(x)
    return out, UNIT


@vec_model("copy_from_slice", "clone_from_slice")
def _(m, xs, ys):
    zs = elements(m.val(ys))
    return None if zs is None else PANIC if len(zs) != len(xs) else (zs, UNIT)


@vec_model("pop_if")
def _(m, xs, f):
    if not xs:
        return xs, NONE
    st, c = m.I.call_value(f, [xs[-1]], m.st.copy())
    d = decided(c) if st is not None else None
    return None if d is None else (xs[:-1], some(xs[-1])) if d else (xs, NONE)


@model("[T].split_at_mut", "Vec.split_at_mut")
def _split_at_mut(m, s, i):
    xs = elements(m.val(s))
    k = ix(i)
    if s.op != "mref" or xs is None or k is None:
        return None
    if k > len(xs):
        return diverge(m.I, m.st, m.body, "split_at_mut out of bounds")
    a = mref(s.args[0], s.args[1] + (("sub", ZERO, num(k)),))
    return m.st, tup(a, mref(s.args[0], s.args[1] + (("sub", num(k), num(len(xs) - k)),)))


@model("vec.from_elem")
def _from_elem(m, x, n):
    k = ix(n)
    return (m.st, seq([one(m.I.deep(m.st, x))] * k)) if k is not None and k < 5000 else None


# --- entries of maps

@model("OccupiedEntry.get", "OccupiedEntry.get_mut", "OccupiedEntry.into_mut", "OccupiedEntry.insert", "OccupiedEntry.remove", "OccupiedEntry.remove_entry", "OccupiedEntry.key",
       "VacantEntry.key", "VacantEntry.into_key", "VacantEntry.insert")
def _slot(m, e, x=None):
    e = m.val(e)
    if e.op != "mapslot":
        return None
    h, k = e.args[:2]
    r = mref(h.args[0], h.args[1] + (("hval", k),))
    if m.name in ("key", "into_key"):
        return m.st, k
    if m.name == "get":
        return m.st, m.val(r)
    if m.name in ("get_mut", "into_mut"):
        return m.st, r
    if m.name == "insert" and m.ow == "OccupiedEntry":
        return m.write(r, x), m.val(r)
    if m.name == "insert":
        b, segs = hmap_parts(m.val(h))
        return (m.write(h, mkhmap(b, segs + (one(mk("hins", k, x)),))), r) if m.val(h).op != "case" else None
    f = TABLE.get(("HashMap", "remove"))
    q = f(m, h, k)
    if q is None or q[1].op != "adt":
        return None
    return q[0], tup(k, q[1].args[2][0]) if m.name == "remove_entry" else q[1].args[2][0]


# --- places which may change through shared references

@model("Cell.new", "RefCell.new", "Cell.from", "RefCell.from")
def _new_cell(m, x):
    st = m.st.copy()
    return st, mk("cell", mref(m.I.temp(st, x)))


def cell_model(*names):
    def deco(f):
        def h(m, c, *a):
            c = m.val(c)
            return f(m, c.args[0], *a) if c.op == "cell" else None
        for n in names:
            TABLE[("Cell", n)] = TABLE[("RefCell", n)] = h
        return f
    return deco


cell_model("get", "into_inner")(lambda m, r: (m.st, m.val(r)))
cell_model("set")(lambda m, r, x: (m.write(r, x), UNIT))
cell_model("replace")(lambda m, r, x: (m.write(r, x), m.val(r)))
cell_model("borrow")(lambda m, r: (m.st, m.val(r)))
cell_model("borrow_mut", "get_mut", "as_ptr")(lambda m, r: (m.st, r))
cell_model("try_borrow")(lambda m, r: (m.st, ok(m.val(r))))
cell_model("try_borrow_mut")(lambda m, r: (m.st, ok(r)))


@cell_model("take")
def _(m, r):
    z = zero_of(m, m.ty(0))
    return None if z is None else (m.write(r, z), m.val(r))


@cell_model("update")
def _(m, r, f):
    st, v = m.I.call_value(f, [m.val(r)], m.st)
    if st is None:
        return None, UNDEF
    st = st.copy()
    m.I.write(st, r, v)
    return st, UNIT


@model("[T].concat", "Concat.concat")
def _concat(m, x):
    v = m.val(x)
    xs = elements(v)
    if xs is None:
        return None
    xs = [m.I.read(m.st, y) for y in xs]
    if xs and all(y.op == "seq" for y in xs):
        return m.st, seq(tuple(s for y in xs for s in y.args[0]))
    return None if not all(y.op in ("lit", "str") for y in xs) else (m.st, concat(*xs) if xs else lit(""))


_old_concat = TABLE.get(("[T]", "concat"))
_old_join = TABLE.get(("[T]", "join"))


def _join(m, x, sep):
    xs = elements(m.val(x))
    if xs is not None:
        ys = [m.I.read(m.st, y) for y in xs]
        w = m.val(sep)
        if ys and all(y.op == "seq" for y in ys):
            out = []
            for i, y in enumerate(ys):
                if i:
                    out += list(w.args[0]) if w.op == "seq" else [one(w)]
                out += list(y.args[0])
            return m.st, seq(out)
    return _old_join(m, x, sep) if _old_join else None


if _old_join:
    TABLE[("[T]", "join")] = _join


# ------------------------------------------------------------------ texts

@with_pattern("split_inclusive", 2)
def _(m, s, p):
    out, i = [], 0
    for a, b in matches_of(p, s):
        out.append(s[i:b])
        i = b
    return texts(out + ([s[i:]] if i < len(s) else []))


def splitn(s, p, n):
    out, i = [], 0
    ms = matches_of(p, s)
    for a, b in ms[:max(0, n - 1)]:
        out.append(s[i:a])
        i = b
    return out + [s[i:]] if n > 0 else []


def _splitn(m, s, n, p):
    t, q = known(m, s), models2.pattern(m, p)
    k = const(m.val(n))
    if t is None or q is None or k is None:
        return None
    try:
        if m.name == "splitn":
            return m.st, texts(splitn(t, q, int(k)))
        ms = matches_of(q, t)
        out, j = [], len(t)
        for a, b in list(reversed(ms))[:max(0, int(k) - 1)]:
            out.append(t[b:j])
            j = a
        return m.st, texts(out + [t[:j]])
    except models2.Unknown:
        return None


TABLE[("str", "splitn")] = TABLE[("str", "rsplitn")] = _splitn


@with_pattern("match_indices", 2)
def _(m, s, p):
    return mkiter(tuple(one(tup(u8(s[:a]), lit(s[a:b]))) for a, b in matches_of(p, s)))


@with_pattern("rmatches", 2)
def _(m, s, p):
    return texts([s[a:b] for a, b in matches_of(p, s)][::-1])


@text_model("split_ascii_whitespace", 1)
def _(m, s):
    return texts(s.split())


def debug_char(c, quote):
    r = {"\0": "\\0", "\t": "\\t", "\r": "\\r", "\n": "\\n", "\\": "\\\\"}.get(c)
    if r:
        return r
    if c == quote:
        return "\\" + c
    if c.isprintable() or c == " ":
        return c
    return "\\u{%x}" % ord(c)


def debug_str(s):
    return '"' + "".join(debug_char(c, '"') for c in s) + '"'


def escapes(name, f):
    @text_model(name, 1)
    def _(m, s):
        return mkiter(tuple(one(num(ord(c))) for c in "".join(f(x) for x in s)))

    def g(m, c):
        k = const(m.val(c)) if m.val(c).op == "num" else None
        return None if k is None else (m.st, mkiter(tuple(one(num(ord(x))) for x in f(chr(int(k))))))
    TABLE[("char", name)] = g


def esc_debug(c):
    return "\\" + c if c in "\"'" else debug_char(c, "")


def esc_default(c):
    if c in "\"'\\":
        return "\\" + c
    if c in "\t\r\n":
        return {"\t": "\\t", "\r": "\\r", "\n": "\\n"}[c]
    return c if " " <= c <= "~" else "\\u{%x}" % ord(c)


escapes("escape_debug", esc_debug)
escapes("escape_default", esc_default)
escapes("escape_unicode", lambda c: "\\u{%x}" % ord(c))

_old_to_string = TABLE[("ToString", "to_string")]


def _to_string(m, x):
    v = m.val(x)
    if v.op == "iter" and not v.args[1]:
        return collect_items(m.I, m.st, v, "str")
    return _old_to_string(m, x)


TABLE[("ToString", "to_string")] = _to_string


def str_edit(name, n):
    """functions changing a known text in place: f(m, text, ...) -> (text, result) or None"""
    def deco(f):
        old = TABLE.get(("String", name))

        def g(m, r, *args):
            t = known(m, r) if r.op == "mref" else None
            x = None
            if t is not None and len(args) == n:
                try:
                    x = f(m, t, *args)
                except models2.Unknown:
                    x = None
            if x is None:
                return old(m, r, *args) if old else None
            if x is PANIC:
                return diverge(m.I, m.st, m.body, "String::%s out of bounds" % name)
            return m.write(r, lit(x[0])), x[1]
        TABLE[("String", name)] = g
        return f
    return deco


def split_bytes(t, i):
    e = t.encode("utf-8", "surrogatepass")
    a, b = cut(t, 0, i) if i <= len(e) else None, cut(t, i, len(e)) if i <= len(e) else None
    return None if a is None or b is None else (a, b)


@str_edit("insert_str", 2)
def _(m, t, i, s):
    i, s = ix(i), known(m, s)
    if i is None or s is None:
        return None
    p = split_bytes(t, i)
    return PANIC if p is None else (p[0] + s + p[1], UNIT)


@str_edit("insert", 2)
def _(m, t, i, c):
    i, c = ix(i), const(m.val(c))
    if i is None or c is None:
        return None
    p = split_bytes(t, i)
    return PANIC if p is None else (p[0] + chr(int(c)) + p[1], UNIT)


@str_edit("truncate", 1)
def _(m, t, i):
    i = ix(i)
    if i is None:
        return None
    if i >= len(t.encode("utf-8", "surrogatepass")):
        return t, UNIT
    p = split_bytes(t, i)
    return PANIC if p is None else (p[0], UNIT)


@str_edit("split_off", 1)
def _(m, t, i):
    i = ix(i)
    if i is None:
        return None
    p = split_bytes(t, i)
    return PANIC if p is None else (p[0], lit(p[1]))


@str_edit("remove", 1)
def _(m, t, i):
    i = ix(i)
    if i is None:
        return None
    p = split_bytes(t, i)
    return PANIC if p is None or not p[1] else (p[0] + p[1][1:], num(ord(p[1][0])))


@str_edit("retain", 1)
def _(m, t, f):
    return "".join(c for c in t if models2.holds(m, f, c)), UNIT


@str_edit("clear", 0)
def _(m, t):
    return "", UNIT


@str_edit("pop", 0)
def _(m, t):
    return (t[:-1], some(num(ord(t[-1])))) if t else ("", NONE)


@str_edit("drain", 1)
def _(m, t, r):
    r = m.val(r)
    e = t.encode("utf-8", "surrogatepass")
    l = limits(r, len(e)) if r.op == "adt" else None
    if l is None:
        return None
    if not 0 <= l[0] <= l[1] <= len(e):
        return PANIC
    a, b, c = cut(t, 0, l[0]), cut(t, *l), cut(t, l[1], len(e))
    return PANIC if None in (a, b, c) else (a + c, mkiter(tuple(one(num(ord(x))) for x in b)))


@str_edit("replace_range", 2)
def _(m, t, r, by):
    r, by = m.val(r), known(m, by)
    e = t.encode("utf-8", "surrogatepass")
    l = limits(r, len(e)) if r.op == "adt" else None
    if l is None or by is None:
        return None
    if not 0 <= l[0] <= l[1] <= len(e):
        return PANIC
    a, c = cut(t, 0, l[0]), cut(t, l[1], len(e))
    return PANIC if None in (a, c) else (a + by + c, UNIT)


@model("Chars.as_str")
def _as_str(m, x):
    it = to_iter(m.I, m.val(x), None, m.st)
    if it is None:
        return None
    it = expand(it)
    if it.args[1] or not all(s.op == "one" and s.args[0] is TRUE for s in it.args[0]):
        return None
    return collect_items(m.I, m.st, it, "str")


@model("char.len_utf16")
def _len16(m, c):
    k = const(m.val(c)) if m.val(c).op == "num" else None
    return None if k is None else (m.st, num(2 if k > 0xFFFF else 1))


@model("char.from_digit", "convert.from_digit")
def _from_digit(m, d, r):
    a, b = const(m.val(d)), const(m.val(r))
    if a is None or b is None:
        return None
    return m.st, some(num(ord("0123456789abcdefghijklmnopqrstuvwxyz"[int(a)]))) if a < b <= 36 else NONE


# -- numbers from texts

def parse_int(s, ty):
    lo, hi = INT_RANGE[ty]
    d = s[1:] if s[:1] == "+" or (lo < 0 and s[:1] == "-") else s
    bad = err(mk("adt", "core::num::error::ParseIntError", "ParseIntError", (lit(s),)))
    if not d or not all("0" <= c <= "9" for c in d):
        return bad
    n = int(d) * (-1 if s[:1] == "-" else 1)
    return ok(num(n)) if lo <= n <= hi else bad


def parse_float(s):
    import re
    bad = err(mk("adt", "core::num::dec2flt::ParseFloatError", "ParseFloatError", (lit(s),)))
    if re.fullmatch(r"[+-]?(inf|infinity)", s, re.I):
        return ok(tm.NINF if s[0] == "-" else tm.INF)
    if re.fullmatch(r"[+-]?nan", s, re.I):
        return ok(tm.NAN)
    if not re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", s):
        return bad
    return ok(num(Fraction(s)))


def _parse(m, s):
    ty = raw_ty(m.fn, m.body, -1)
    if ty is None:
        return None
    if ty["k"] == "adt":
        b = find_impl(m.I, ty, "core::str::traits::FromStr", "from_str")
        if b is not None:
            return m.I.run_body(b, [s], m.st)
        if base_name(ty["n"]).split("::")[-1] == "String":
            return m.st, ok(m.val(s))
        return None
    t = known(m, s)
    if t is None or ty["k"] != "prim":
        return None
    n = ty.get("s")
    if n in INT_RANGE:
        return m.st, parse_int(t, n)
    if n in ("f32", "f64"):
        return m.st, parse_float(t)
    if n == "bool":
        return m.st, ok(B(t == "true")) if t in ("true", "false") else err(mk("adt", "core::str::error::ParseBoolError", "ParseBoolError", (lit(t),)))
    if n == "char":
        return m.st, ok(num(ord(t))) if len(t) == 1 else err(mk("adt", "core::char::ParseCharError", "ParseCharError", (lit(t),)))
    return None


TABLE[("str", "parse")] = _parse


@model("FromStr.from_str")
def _from_str(m, s):
    return _parse(m, s)


# -- bytes

def byte_list(v):
    if v.op == "bytes":
        return list(v.args[0])
    xs = elements(v)
    if xs is not None and all(const(x) is not None for x in xs):
        return [int(const(x)) for x in xs]
    return None


def utf8(m, x):
    bs = byte_list(m.val(x))
    return None if bs is None else bytes(bs)


def _wrap_old(key, f):
    old = TABLE.get(key)

    def g(m, *a):
        r = f(m, *a)
        return r if r is not None else old(m, *a) if old else None
    TABLE[key] = g


def _from_utf8(m, x):
    b = utf8(m, x)
    if b is None:
        return None
    try:
        return m.st, ok(lit(b.decode("utf-8")))
    except UnicodeDecodeError:
        return m.st, err(mk("adt", "core::str::error::Utf8Error", "Utf8Error", ()))


def _from_utf8_lossy(m, x):
    b = utf8(m, x)
    return None if b is None else (m.st, lit(b.decode("utf-8", "replace")))


_wrap_old(("String", "from_utf8"), _from_utf8)
_wrap_old(("converts", "from_utf8"), _from_utf8)
_wrap_old(("str", "from_utf8"), _from_utf8)
_wrap_old(("String", "from_utf8_lossy"), _from_utf8_lossy)


def _bytes_of(m, x):
    t = known(m, x)
    return None if t is None else (m.st, seq(tuple(one(num(b)) for b in t.encode("utf-8", "surrogatepass"))))


# ------------------------------------------------------------------ formatting

def f32_text(k):
    """shortest decimal which reads back as the same f32"""
    try:
        x = struct.unpack("f", struct.pack("f", float(k)))[0]
    except OverflowError:
        return str(float(k))
    for p in range(1, 18):
        s = "%.*e" % (p - 1, x)
        if struct.unpack("f", struct.pack("f", float(s)))[0] == x:
            break
    return plain_decimal(s)


def plain_decimal(s):
    from decimal import Decimal
    d = format(Decimal(s), "f")
    if "." in d:
        d = d.rstrip("0").rstrip(".")
    return d


strs.f32_text = f32_text

ALIGNS = {0: "<", 1: ">", 2: "^", 3: None}


def padded(text, opts, numeric, args=None, digits=None):
    """applies width, fill, alignment, sign and precision; None if something isn't known"""
    o = dict(opts)
    fl = o.get("flags", 0x60000020)
    fill, align = chr(fl & 0x1FFFFF), ALIGNS[fl >> 29 & 3]

    def count(k):
        if k in o:
            return o[k]
        if k + "*" in o:
            if args is None:
                raise strs.Stuck(None)
            a = args[o[k + "*"]]
            n = const(a.args[1]) if a.op == "fmtarg" else None
            if n is None:
                raise strs.Stuck(None)
            return int(n)
        return None
    w = count("width") or 0
    prec = count("prec")
    if prec is None and fl >> 28 & 1:
        prec = 0
    if numeric:
        sign = "-" if text.startswith("-") else "+" if fl >> 21 & 1 else ""
        body = text.lstrip("-")
        if fl >> 24 & 1:
            return sign + body.rjust(w - len(sign), "0")
        text = sign + body
        align = align or ">"
    else:
        if prec is not None:
            text = text[:prec]
        align = align or "<"
    k = max(0, w - len(text))
    if align == "<":
        return text + fill * k
    if align == ">":
        return fill * k + text
    return fill * (k // 2) + text + fill * (k - k // 2)


def known_prec(o, args):
    o = dict(o)
    if "prec" in o:
        return o["prec"]
    if "prec*" in o:
        if args is None:
            raise strs.Stuck(None)
        a = args[o["prec*"]]
        n = const(a.args[1]) if a.op == "fmtarg" else None
        if n is None:
            raise strs.Stuck(None)
        return int(n)
    return 0 if o.get("flags", 0) >> 28 & 1 else None


def fixed(k, prec):
    """round half to even on the exact value, as std does for floats"""
    from decimal import Decimal, ROUND_HALF_EVEN, localcontext
    with localcontext() as c:
        c.prec = 200
        d = Decimal(k.numerator) / Decimal(k.denominator)
        return format(d.quantize(Decimal(1).scaleb(-prec), rounding=ROUND_HALF_EVEN), "f")


def format_one(kind, opts, v, args, is_float=False, pads=True):
    """text of one format argument with options -> value, None to leave it symbolic"""
    try:
        if kind == "display":
            k = const(v.args[0]) if v.op == "disp" else None
            if v.op == "disp":
                if k is None:
                    return None
                p = known_prec(opts, args)
                t = fixed(k, p) if p is not None and (is_float or k != int(k)) else strs.hole(v)
                return lit(padded(t, opts, True, args))
            if not pads:
                return v
            if v.op in ("lit", "str"):
                return lit(padded(strs.text(v), opts, False, args))
            return None
        k = const(v)
        if k is None or k != int(k):
            return None
        n = int(k)
        c = {"upper_hex": "X", "lower_hex": "x", "octal": "o", "binary": "b"}.get(kind)
        if c is None:
            return None
        if n < 0:
            return None
        t = format(n, c)
        fl = dict(opts).get("flags", 0x60000020)
        if fl >> 23 & 1:
            pre = "0" + c.lower()
            w = dict(opts).get("width", 0) or 0
            if fl >> 24 & 1:
                return lit(pre + t.rjust(w - 2, "0"))
            return lit(padded(pre + t, opts, True, args))
        return lit(padded(t, opts, True, args))
    except (strs.Stuck, IndexError, KeyError):
        return None


def debug_text(I, body, ty, v, st):
    """what {:?} writes for a known value of a type; Stuck if unknown"""
    if ty is None:
        raise strs.Stuck(v)
    v = I.read(st, v)
    if ty["k"] in ("ref", "ptr"):
        return debug_text(I, body, body.types[ty["t"]], v, st)
    if ty["k"] == "prim":
        s = ty.get("s")
        if s == "bool":
            d = decided(v)
            if d is None:
                raise strs.Stuck(v)
            return "true" if d else "false"
        if s == "str":
            return debug_str(strs.text(v))
        k = const(v)
        if k is None:
            raise strs.Stuck(v)
        if s == "char":
            return "'" + debug_char(chr(int(k)), "'") + "'"
        if s in ("f32", "f64"):
            t = f32_text(k)
            return t if "." in t else t + ".0"
        return str(int(k))
    if ty["k"] == "tup":
        xs = [debug_text(I, body, body.types[t], field(v, i), st) for i, t in enumerate(ty["a"])]
        return "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
    if ty["k"] == "adt":
        n = base_name(ty["n"]).split("::")[-1]
        if n in ("String", "Cow"):
            return debug_str(strs.text(v))
        if n in ("Box", "Rc", "Arc"):
            return debug_text(I, body, body.types[ty["a"][0]], v, st)
        if n in ("Option", "Result") and v.op == "adt":
            if v.args[1] == "None":
                return "None"
            return "%s(%s)" % (v.args[1], debug_text(I, body, body.types[ty["a"][1 if v.args[1] == "Err" else 0]], v.args[2][0], st))
        if n in ("Vec", "VecDeque", "SmallVec"):
            xs = elements(v)
            if xs is None or n == "SmallVec":
                raise strs.Stuck(v)
            return "[" + ", ".join(debug_text(I, body, body.types[ty["a"][0]], x, st) for x in xs) + "]"
        d = I.p.adts.get(I.p.tyname(ty["n"]))
        b = find_impl(I, ty, "core::fmt::Debug", "fmt")
        if b is not None and not b.j.get("derived"):
            s2, out = models.display_body(I, st, b, v)
            if s2 is None:
                raise strs.Stuck(v)
            return strs.text(out)
        if d is not None and v.op == "adt":
            a, types = d
            for va in a["v"]:
                if va["n"] != v.args[1] and len(a["v"]) > 1:
                    continue
                if not va["f"]:
                    return va["n"]
                raise strs.Stuck(v)
    if ty["k"] in ("array", "slice", "seq") or ty.get("s", "").startswith("["):
        xs = elements(v)
        if xs is not None and "t" in ty:
            return "[" + ", ".join(debug_text(I, body, body.types[ty["t"]], x, st) for x in xs) + "]"
    raise strs.Stuck(v)


def pads_itself(I, m, ty):
    """may the Display implementation of the type look at width and fill?"""
    if ty is None:
        return None
    if ty["k"] == "prim":
        return True
    if ty["k"] == "adt":
        n = base_name(ty["n"]).split("::")[-1]
        if n in ("String", "Cow"):
            return True
        b = find_impl(I, ty, "core::fmt::Display", "fmt")
        if b is None:
            return None
        for bl in b.blocks:
            t = bl["t"]
            if t["t"] == "call" and "k" in t["f"] and "fn" in t["f"]["k"]:
                fn = t["f"]["k"]["fn"]
                nm = (fn.get("rp") or fn["p"]).split("::")[-1]
                if nm in ("fmt", "pad", "pad_integral", "width", "precision", "fill", "alternate", "sign_plus", "align"):
                    return None
        return False
    return None


# ------------------------------------------------------------------ maps

def _hlen(m, h):
    its = map_items(m.I, m.val(h), False)
    if its is None:
        return None
    m.I.hash_iterated -= 1
    return m.st, num(len(its)) if m.name == "len" else B(not its)


for _o in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
    for _n in ("len", "is_empty"):
        TABLE[(_o, _n)] = _hlen
    TABLE[(_o, "clear")] = lambda m, h: (m.write(h, EMPTYMAP), UNIT)


def from_items(m, x):
    r = listed(m, x)
    if r is None:
        return None
    st, xs, ref = r
    isset = "Set" in m.path
    return st, mkhmap(EMPTYMAP, tuple(one(mk("hins", v, UNIT) if isset else mk("hins", field(v, 0), field(v, 1))) for v in xs)) if xs else EMPTYMAP


@model("Entry.or_default")
def _or_default(m, e):
    ts = [m.body.types[i] for i in m.fn.get("a", []) if isinstance(i, int)]
    # K, V and maybe an allocator
    ts = [t for t in ts if t["k"] not in ("region",)]
    z = zero_of(m, ts[1]) if len(ts) > 1 else None
    if z is None and len(ts) > 1 and ts[1]["k"] == "adt":
        b = find_impl(m.I, ts[1], "core::default::Default", "default")
        if b is not None:
            return models.entry_or(m, e, lambda st: m.I.run_body(b, [], st))
    return None if z is None else models.entry_or(m, e, lambda st: (st, z))


@model("Entry.and_modify")
def _and_modify(m, e, f):
    if e.op != "mapentry":
        return None
    h, k = e.args[:2]
    ref = mref(h.args[0], h.args[1] + (("hval", k),))

    def g(st):
        st, _ = m.I.call_value(f, [ref], st)
        return st, UNIT
    st, _ = branch(m.I, m.st, is_some(hget(m.val(h), k)), g, ret(UNIT))
    return st, e


@model("Entry.key")
def _entry_key(m, e):
    e = m.val(e)
    return (m.st, e.args[1]) if e.op == "mapentry" else None


@model("Entry.or_insert_with_key")
def _or_insert_with_key(m, e, f):
    return models.entry_or(m, e, lambda st: m.I.call_value(f, [e.args[1]], st)) if e.op == "mapentry" else None


@model("BTreeMap.range", "BTreeSet.range")
def _range(m, h, r):
    its = map_items(m.I, m.val(h), True)
    r = m.val(r)
    if its is None or r.op != "adt" or not all(const(k) is not None for k, _ in its):
        return None
    kind = r.args[0].split("::")[-1]
    f = [const(x) for x in r.args[2][:2]]
    if any(x is None for x in f):
        return None
    t = {"Range": lambda k: f[0] <= k < f[1], "RangeFrom": lambda k: k >= f[0], "RangeTo": lambda k: k < f[0], "RangeInclusive": lambda k: f[0] <= k <= f[1],
         "RangeToInclusive": lambda k: k <= f[0], "RangeFull": lambda k: True}[kind]
    return m.st, mkiter(tuple(one(k if "Set" in m.ow else tup(k, v)) for k, v in its if t(const(k))))


@model("BTreeMap.first_key_value", "BTreeMap.last_key_value", "BTreeSet.first", "BTreeSet.last", "BTreeMap.pop_first", "BTreeMap.pop_last", "BTreeSet.pop_first", "BTreeSet.pop_last")
def _first(m, h):
    its = map_items(m.I, m.val(h), True)
    if its is None:
        return None
    if not its:
        return m.st, NONE
    k, v = its[0 if "first" in m.name else -1]
    x = k if "Set" in m.ow else tup(k, v)
    if m.name.startswith("pop"):
        rest = its[1:] if "first" in m.name else its[:-1]
        return m.write(h, mkhmap(EMPTYMAP, tuple(one(mk("hins", a, b)) for a, b in rest)) if rest else EMPTYMAP), some(x)
    return m.st, some(x)


@model("HashMap.get_or_insert_with", "HashMap.get_key_value", "BTreeMap.get_key_value")
def _gkv(m, h, k):
    kk = m.I.deep(m.st, m.val(k))
    o = hget(m.val(h), kk)
    return m.st, ite(is_some(o), some(tup(kk, opt_f(o))), NONE)


@model("HashMap.retain", "BTreeMap.retain", "HashSet.retain", "BTreeSet.retain")
def _hretain(m, h, f):
    its = map_items(m.I, m.val(h), False)
    if its is None:
        return None
    st, f = callee(m, m.st, f)
    out = []
    for k, v in its:
        st = st.copy()
        r = mref(m.I.temp(st, v))
        st, c = m.I.call_value(f, [k] if "Set" in m.ow else [k, r], st)
        if st is None:
            return None, UNDEF
        d = decided(c)
        if d is None:
            return None
        if d:
            out.append((k, m.I.read(st, r)))
    st = st.copy()
    m.I.write(st, h, mkhmap(EMPTYMAP, tuple(one(mk("hins", a, b)) for a, b in out)) if out else EMPTYMAP)
    return st, UNIT


def set_op(f):
    def g(m, a, b):
        x, y = map_items(m.I, m.val(a), "BTree" in m.ow), map_items(m.I, m.val(b), "BTree" in m.ow)
        if x is None or y is None:
            return None
        xs, ys = [k for k, _ in x], [k for k, _ in y]

        def has(k, zs):
            es = [eq(k, z) for z in zs]
            if any(e is TRUE for e in es):
                return True
            if any(e is not FALSE for e in es):
                raise models2.Unknown
            return False
        try:
            r = f(xs, ys, has)
        except models2.Unknown:
            return None
        if isinstance(r, bool):
            return m.st, B(r)
        return m.st, mkiter(tuple(one(k) for k in r))
    return g


for _o in ("HashSet", "BTreeSet"):
    TABLE[(_o, "is_subset")] = set_op(lambda a, b, has: all(has(k, b) for k in a))
    TABLE[(_o, "is_superset")] = set_op(lambda a, b, has: all(has(k, a) for k in b))
    TABLE[(_o, "is_disjoint")] = set_op(lambda a, b, has: not any(has(k, b) for k in a))
    TABLE[(_o, "intersection")] = set_op(lambda a, b, has: [k for k in a if has(k, b)])
    TABLE[(_o, "difference")] = set_op(lambda a, b, has: [k for k in a if not has(k, b)])
TABLE[("HashSet", "union")] = set_op(lambda a, b, has: a + [k for k in b if not has(k, a)])


def set_union(m, a, b):
    x, y = m.val(a), m.val(b)
    if any(z is not EMPTYMAP and (z.op != "hmap" or z.args[0] is not EMPTYMAP) for z in (x, y)):
        return None
    its = map_items(m.I, mkhmap(EMPTYMAP, sum((z.args[1] for z in (x, y) if z is not EMPTYMAP), ())), True)
    return None if its is None else (m.st, mkiter(tuple(one(k) for k, _ in its)))


TABLE[("BTreeSet", "union")] = set_union


_old_eq = TABLE[("PartialEq", "eq")]


@model("PartialEq.eq", "PartialEq.ne")
def _eq_maps(m, a, b):
    x, y = m.val(a), m.val(b)
    if x.op in ("hmap", "emptymap") and y.op in ("hmap", "emptymap"):
        xs, ys = map_items(m.I, x, False), map_items(m.I, y, False)
        if xs is not None and ys is not None:
            m.I.hash_iterated -= 2
            r = B(len(xs) == len(ys))
            for k, v in xs:
                o = hget(y, k)
                r = b_and(r, b_and(is_some(o), eq(m.I.deep(m.st, opt_f(o)), m.I.deep(m.st, v))))
            return m.st, r if m.name == "eq" else b_not(r)
    return _old_eq(m, a, b)


@model("VecDeque.make_contiguous", "VecDeque.as_mut_slices")
def _contiguous(m, q):
    return (m.st, q) if m.name == "make_contiguous" else None


# -- heaps: kept as lists

@model("BinaryHeap.new", "BinaryHeap.with_capacity")
def _heap_new(m, *a):
    return m.st, seq()


@model("BinaryHeap.push")
def _heap_push(m, h, x):
    v = m.val(h)
    return (m.write(h, push(v, x)), UNIT) if elements(v) is not None else None


def largest(m, xs):
    if not xs:
        return -1
    b = 0
    for i in range(1, len(xs)):
        o = order_any(m.I, m.st, m.body, xs[b], xs[i])
        if o is None or o.op != "adt":
            return None
        if o.args[1] == "Less":
            b = i
    return b


@model("BinaryHeap.pop", "BinaryHeap.peek")
def _heap_pop(m, h):
    xs = elements(m.val(h))
    b = largest(m, xs) if xs is not None else None
    if b is None:
        return None
    if b < 0:
        return m.st, NONE
    if m.name == "peek":
        return m.st, some(xs[b])
    return m.write(h, mkseq(xs[:b] + xs[b + 1:])), some(xs[b])


@model("BinaryHeap.len", "BinaryHeap.is_empty")
def _heap_len(m, h):
    xs = elements(m.val(h))
    return None if xs is None else (m.st, num(len(xs)) if m.name == "len" else B(not xs))


# ------------------------------------------------------------------ conversions

_old_convert = models.convert


def _convert(I, st, body, src, dst, x, trying=False):
    if not trying and dst is not None and dst["k"] == "adt":
        kind = base_name(dst["n"]).split("::")[-1]
        if kind in ("HashMap", "BTreeMap", "HashSet", "BTreeSet") and not (src is not None and src["k"] == "adt"):
            xs = elements(I.read(st, x))
            if xs is not None:
                v = EMPTYMAP
                for y in xs:
                    b, segs = hmap_parts(v)
                    y = I.deep(st, y) if "Set" in kind else y
                    v = mkhmap(b, segs + (one(mk("hins", y, UNIT) if "Set" in kind else mk("hins", I.deep(st, field(y, 0)), field(y, 1))),))
                return st, v
    if dst is not None and src is not None and dst["k"] == "prim" and src["k"] == "prim" and dst.get("s") in NUM_TYPES:
        v = I.read(st, x)
        if src.get("s") == "bool":
            v = ite(truth(v), num(1), ZERO)
            return st, ok(v) if trying else v
        if trying and dst.get("s") in INT_RANGE:
            lo, hi = INT_RANGE[dst["s"]]
            bad = mk("adt", "core::num::error::TryFromIntError", "TryFromIntError", (UNIT,))
            c = const(v) if v.op == "num" else None
            if c is not None:
                return st, ok(v) if lo <= c <= hi else err(bad)
            a, b = INT_RANGE.get(src.get("s"), (None, None))
            if a is None:
                return None
            cond = TRUE
            if a < lo:
                cond = b_and(cond, ge(v, num(lo)))
            if b > hi:
                cond = b_and(cond, le(v, num(hi)))
            return st, ite(cond, ok(v), err(bad))
        if not trying:
            return st, v
    if dst is not None and src is not None and src.get("k") == "prim" and src.get("s") in ("u8", "u32", "char") and dst.get("s") in ("char", "u32") and not trying:
        return st, I.read(st, x)
    if trying and dst is not None and (dst.get("s") or "").startswith("["):
        import re
        h = re.search(r"; (\d+)(?:_usize)?\]$", dst["s"])
        xs = elements(I.read(st, x))
        if h and xs is not None:
            return st, ok(I.read(st, x)) if len(xs) == int(h.group(1)) else err(I.read(st, x))
        return None
    if trying and dst is not None and dst["k"] == "adt":
        for b in I.p.impls.get((I.p.tyname(base_name(dst["n"])), "core::convert::TryFrom", "try_from"), []):
            p = b.types[b.locals[1][0]]
            if models.norm_s(p) == models.norm_s(src):
                return I.run_body(b, [x], st)
    if dst is not None and src is not None and src["k"] == "adt" and dst["k"] in ("prim", "adt"):
        # From implemented on a foreign type
        for (ty, tr, nm), bs in I.p.impls.items():
            if tr == "core::convert::From" and nm == "from":
                for b in bs:
                    p, q = b.types[b.locals[1][0]], b.types[b.locals[0][0]]
                    if models.norm_s(p) == models.norm_s(src) and models.norm_s(q) == models.norm_s(dst):
                        return I.run_body(b, [x], st)
    return _old_convert(I, st, body, src, dst, x, trying)


models.convert = _convert


@model("mem.size_of")
def _size_of(m):
    ty = raw_ty(m.fn, m.body, -1)
    n = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}.get(ty.get("s") if ty else None)
    return None if n is None else (m.st, num(n))


@model("Cow.into_owned", "Cow.to_mut", "Cow.as_ref")
def _cow(m, x):
    v = m.val(x)
    if m.name == "to_mut":
        return None

    def f(y):
        return y.args[2][0] if y.op == "adt" and y.args[1] in ("Borrowed", "Owned") else y
    return m.st, amap(None, f, v)
