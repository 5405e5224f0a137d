"""More of std: functions of texts on known texts, and of vectors of known length."""
from vals import *
import terms as tm
import models
from models import TABLE, mkiter, diverge, elem_ty, O, owned_iter, consumed, search, model, base_name
from interp import mref, merge
import strs

# White_Space of Unicode
SPACE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def known(m, x):
    """value -> its text, None if it isn't known"""
    v = m.val(x)
    if v.op in ("lit", "str"):
        try:
            return strs.text(v)
        except strs.Stuck:
            return None
    return None


def is_text(m, x):
    return m.val(x).op in ("lit", "str", "sym")


def pattern(m, p):
    """a search pattern -> a set of characters or a text, None if it isn't known"""
    v = m.val(p)
    if v.op in ("lit", "str"):
        return known(m, v)
    c = const(v) if v.op == "num" else None
    if c is not None:
        return chr(int(c))
    if v.op == "seq" and v.args[0] and all(s.op == "one" and s.args[0] is TRUE and const(s.args[1]) is not None for s in v.args[0]):
        return {chr(int(const(s.args[1]))) for s in v.args[0]}
    if v.op in ("clo", "fn"):
        return lambda ch: holds(m, p, ch)
    return None


class Unknown(Exception):
    pass


def holds(m, f, ch):
    st, r = m.I.call_value(f, [num(ord(ch))], m.st.copy())
    b = truth(r) if st is not None else None
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    raise Unknown


def matches_of(p, s, ch_only=False):
    """-> [(start, end)] of the non-overlapping matches"""
    out = []
    if isinstance(p, str):
        i = 0
        if p == "":
            return [(k, k) for k in range(len(s) + 1)]
        while True:
            i = s.find(p, i)
            if i < 0:
                return out
            out.append((i, i + len(p)))
            i += len(p)
    t = p if callable(p) else (lambda c: c in p)
    return [(i, i + 1) for i, c in enumerate(s) if t(c)]


def u8(s):
    return num(len(s.encode("utf-8", "surrogatepass")))


def text_model(name, n):
    def deco(f):
        def g(m, *args):
            if len(args) != n:
                return None
            s = known(m, args[0])
            if s is None:
                return None
            try:
                r = f(m, s, *args[1:])
            except Unknown:
                return None
            if r is PANIC:
                return diverge(m.I, m.st, m.body, "str::%s out of bounds" % name)
            return None if r is None else (m.st, r)
        TABLE[("str", name)] = g
        return f
    return deco


def opt_text(x):
    return NONE if x is None else some(lit(x))


def simple(name, f):
    text_model(name, 1)(lambda m, s: lit(f(s)))


simple("trim", lambda s: s.strip(SPACE))
simple("trim_start", lambda s: s.lstrip(SPACE))
simple("trim_end", lambda s: s.rstrip(SPACE))
simple("trim_left", lambda s: s.lstrip(SPACE))
simple("trim_right", lambda s: s.rstrip(SPACE))
simple("to_lowercase", lambda s: s.lower())
simple("to_uppercase", lambda s: s.upper())
simple("to_ascii_lowercase", lambda s: "".join(c.lower() if c.isascii() else c for c in s))
simple("to_ascii_uppercase", lambda s: "".join(c.upper() if c.isascii() else c for c in s))


def with_pattern(name, n):
    def deco(f):
        def g(m, s, p, *rest):
            p = pattern(m, p)
            return None if p is None else f(m, s, p, *rest)
        text_model(name, n)(g)
        return f
    return deco


@with_pattern("trim_matches", 2)
def _(m, s, p):
    return lit(trim_by(trim_by(s, p, 0), p, 1))


@with_pattern("trim_start_matches", 2)
def _(m, s, p):
    return lit(trim_by(s, p, 0))


@with_pattern("trim_end_matches", 2)
def _(m, s, p):
    return lit(trim_by(s, p, 1))


def trim_by(s, p, end):
    while s:
        if isinstance(p, str):
            if not p or not (s.endswith(p) if end else s.startswith(p)):
                return s
            k = len(p)
        else:
            c = s[-1] if end else s[0]
            if not (p(c) if callable(p) else c in p):
                return s
            k = 1
        s = s[:-k] if end else s[k:]
    return s


@with_pattern("contains", 2)
def _(m, s, p):
    return B(bool(matches_of(p, s)))


@with_pattern("starts_with", 2)
def _(m, s, p):
    return B(s.startswith(p) if isinstance(p, str) else bool(s) and (p(s[0]) if callable(p) else s[0] in p))


@with_pattern("ends_with", 2)
def _(m, s, p):
    return B(s.endswith(p) if isinstance(p, str) else bool(s) and (p(s[-1]) if callable(p) else s[-1] in p))


@with_pattern("find", 2)
def _(m, s, p):
    r = matches_of(p, s)
    return some(u8(s[:r[0][0]])) if r else NONE


@with_pattern("rfind", 2)
def _(m, s, p):
    if isinstance(p, str):
        i = s.rfind(p)
        return some(u8(s[:i])) if i >= 0 else NONE
    r = matches_of(p, s)
    return some(u8(s[:r[-1][0]])) if r else NONE


def replaced(s, p, by, n=None):
    out, i = [], 0
    for a, b in matches_of(p, s)[:n]:
        out += [s[i:a], by]
        i = b
    return "".join(out) + s[i:]


@with_pattern("replace", 3)
def _(m, s, p, by):
    by = known(m, by)
    return None if by is None else lit(replaced(s, p, by))


@with_pattern("replacen", 4)
def _(m, s, p, by, n):
    by = known(m, by)
    return None if by is None or const(n) is None else lit(replaced(s, p, by, int(const(n))))


@text_model("eq_ignore_ascii_case", 2)
def _(m, s, t):
    t = known(m, t)
    f = lambda s: "".join(c.lower() if c.isascii() else c for c in s)
    return None if t is None else B(f(s) == f(t))


@text_model("is_ascii", 1)
def _(m, s):
    return B(s.isascii())


@text_model("repeat", 2)
def _(m, s, n):
    return None if const(n) is None or const(n) > 10000 else lit(s * int(const(n)))


@with_pattern("strip_prefix", 2)
def _(m, s, p):
    if isinstance(p, str):
        return opt_text(s[len(p):] if s.startswith(p) else None)
    return opt_text(s[1:] if s and (p(s[0]) if callable(p) else s[0] in p) else None)


@with_pattern("strip_suffix", 2)
def _(m, s, p):
    if isinstance(p, str):
        return opt_text(s[:len(s) - len(p)] if s.endswith(p) else None)
    return opt_text(s[:-1] if s and (p(s[-1]) if callable(p) else s[-1] in p) else None)


def parts(s, p):
    out, i = [], 0
    for a, b in matches_of(p, s):
        out.append(s[i:a])
        i = b
    return out + [s[i:]]


def texts(xs):
    return mkiter(tuple(one(lit(x)) for x in xs))


@with_pattern("split", 2)
def _(m, s, p):
    return texts(parts(s, p))


@with_pattern("split_terminator", 2)
def _(m, s, p):
    ps = parts(s, p)
    return texts(ps[:-1] if ps and ps[-1] == "" else ps)


@with_pattern("rsplit", 2)
def _(m, s, p):
    return texts(parts(s, p)[::-1])


@with_pattern("split_once", 2)
def _(m, s, p):
    r = matches_of(p, s)
    return some(tup(lit(s[:r[0][0]]), lit(s[r[0][1]:]))) if r else NONE


@with_pattern("rsplit_once", 2)
def _(m, s, p):
    r = matches_of(p, s)
    return some(tup(lit(s[:r[-1][0]]), lit(s[r[-1][1]:]))) if r else NONE


@with_pattern("matches", 2)
def _(m, s, p):
    return texts([s[a:b] for a, b in matches_of(p, s)])


@text_model("split_whitespace", 1)
def _(m, s):
    out, w = [], ""
    for c in s + " ":
        if c in SPACE:
            if w:
                out.append(w)
            w = ""
        else:
            w += c
    return texts(out)


@text_model("lines", 1)
def _(m, s):
    ls = s.split("\n")
    if ls[-1] == "":
        ls.pop()
    return texts([l[:-1] if l.endswith("\r") and i < len(ls) else l for i, l in enumerate(ls)])


@text_model("char_indices", 1)
def _(m, s):
    return mkiter(tuple(one(tup(u8(s[:i]), num(ord(c)))) for i, c in enumerate(s)))


@text_model("bytes", 1)
def _(m, s):
    return mkiter(tuple(one(num(b)) for b in s.encode("utf-8", "surrogatepass")))


@text_model("is_char_boundary", 2)
def _(m, s, i):
    if const(i) is None:
        return None
    b = s.encode("utf-8", "surrogatepass")
    i = int(const(i))
    return B(i == 0 or i == len(b) or (i < len(b) and b[i] & 0xC0 != 0x80))


def cut(s, a, b):
    """bytes a..b of a text, None if that isn't possible"""
    e = s.encode("utf-8", "surrogatepass")
    if not 0 <= a <= b <= len(e):
        return None
    try:
        return e[:a].decode() and e[a:b].decode() if a else e[a:b].decode()
    except UnicodeDecodeError:
        return None


def limits(r, n):
    """range -> start, end as numbers, None if unknown"""
    k = r.args[0].split("::")[-1]
    f = [const(x) if x.op == "num" else None for x in r.args[2]]
    if k == "RangeFull":
        return 0, n
    if any(x is None for x in f[:2]):
        return None
    f = [int(x) for x in f[:2]]
    return {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (0, f[0]), "RangeToInclusive": lambda: (0, f[0] + 1),
            "RangeInclusive": lambda: (f[0], f[1] + 1)}[k]()


@text_model("get", 2)
def _(m, s, r):
    r = m.val(r)
    if r.op != "adt":
        return None
    l = limits(r, len(s.encode("utf-8", "surrogatepass")))
    return None if l is None else opt_text(cut(s, *l))


@text_model("split_at", 2)
def _(m, s, i):
    if const(i) is None:
        return None
    e = s.encode("utf-8", "surrogatepass")
    i = int(const(i))
    a, b = cut(s, 0, i), cut(s, i, len(e))
    return PANIC if a is None or b is None else tup(lit(a), lit(b))


# -- characters

def char_model(name, f):
    def g(m, c, *rest):
        v = m.val(c)
        k = const(v) if v.op == "num" else None
        if k is None or rest:
            return None
        return m.st, B(f(chr(int(k))))
    TABLE.setdefault(("char", name), g)


char_model("is_whitespace", lambda c: c in SPACE)
char_model("is_alphabetic", lambda c: c.isalpha())
char_model("is_numeric", lambda c: c.isnumeric())
char_model("is_alphanumeric", lambda c: c.isalpha() or c.isnumeric())
char_model("is_lowercase", lambda c: c.islower())
char_model("is_uppercase", lambda c: c.isupper())


def char_case(name, f, many):
    def g(m, c):
        v = m.val(c)
        k = const(v) if v.op == "num" else None
        if k is None:
            return None
        r = f(chr(int(k)))
        return m.st, mkiter(tuple(one(num(ord(x))) for x in r)) if many else num(ord(r))
    TABLE.setdefault(("char", name), g)


char_case("to_lowercase", lambda c: c.lower(), True)
char_case("to_uppercase", lambda c: c.upper(), True)
char_case("to_ascii_lowercase", lambda c: c.lower() if c.isascii() else c, False)
char_case("to_ascii_uppercase", lambda c: c.upper() if c.isascii() else c, False)


def _len_utf8(m, c):
    v = m.val(c)
    k = const(v) if v.op == "num" else None
    return None if k is None else (m.st, u8(chr(int(k))))


TABLE.setdefault(("char", "len_utf8"), _len_utf8)


# -- vectors of known length

def elements(v):
    if v.op == "seq" and all(s.op == "one" and s.args[0] is TRUE for s in v.args[0]):
        return [s.args[1] for s in v.args[0]]
    return None


def vec_model(*names):
    def deco(f):
        def h(m, s, *args):
            xs = elements(m.val(s)) if s.op == "mref" else None
            if xs is None:
                return None
            cs = []
            for a in args:
                a = m.val(a) if a.op == "mref" else a
                cs.append(a)
            r = f(m, xs, *cs)
            if r is None:
                return None
            if r is PANIC:
                return diverge(m.I, m.st, m.body, m.name + " out of bounds")
            ys, v = r
            return m.write(s, seq(tuple(one(y) for y in ys))), v
        def put(o, n):
            old = TABLE.get((o, n))

            def g(m, s, *args):
                r = h(m, s, *args)
                return old(m, s, *args) if r is None and old else r
            TABLE[(o, n)] = g
        for n in names:
            for o in ("Vec", "VecDeque", "SmallVec", "[T]"):
                put(o, n)
        return f
    return deco


PANIC = object()


def ix(i):
    return int(const(i)) if i.op == "num" and const(i) is not None else None


@vec_model("truncate")
def _(m, xs, n):
    n = ix(n)
    return None if n is None else (xs[:n], UNIT)


@vec_model("remove")
def _(m, xs, i):
    i = ix(i)
    if i is None:
        return None
    if m.ow == "VecDeque":
        return (xs[:i] + xs[i + 1:], some(xs[i])) if i < len(xs) else (xs, NONE)
    return PANIC if i >= len(xs) else (xs[:i] + xs[i + 1:], xs[i])


@vec_model("swap_remove")
def _(m, xs, i):
    i = ix(i)
    if i is None or m.ow == "VecDeque":
        return None
    if i >= len(xs):
        return PANIC
    ys = list(xs)
    ys[i] = ys[-1]
    return ys[:-1], xs[i]


@vec_model("insert")
def _(m, xs, i, x):
    i = ix(i)
    if i is None:
        return None
    return PANIC if i > len(xs) else (xs[:i] + [x] + xs[i:], UNIT)


@vec_model("swap")
def _(m, xs, i, j):
    i, j = ix(i), ix(j)
    if i is None or j is None:
        return None
    if max(i, j) >= len(xs):
        return PANIC
    ys = list(xs)
    ys[i], ys[j] = ys[j], ys[i]
    return ys, UNIT


@vec_model("split_off")
def _(m, xs, i):
    i = ix(i)
    if i is None:
        return None
    return PANIC if i > len(xs) else (xs[:i], seq(tuple(one(x) for x in xs[i:])))


@vec_model("drain")
def _(m, xs, r):
    if r.op != "adt":
        return None
    l = limits(r, len(xs))
    if l is None:
        return None
    if not 0 <= l[0] <= l[1] <= len(xs):
        return PANIC
    return xs[:l[0]] + xs[l[1]:], mkiter(tuple(one(x) for x in xs[l[0]:l[1]]))


@vec_model("rotate_left")
def _(m, xs, i):
    i = ix(i)
    if i is None:
        return None
    return PANIC if i > len(xs) else (xs[i:] + xs[:i], UNIT)


@vec_model("rotate_right")
def _(m, xs, i):
    i = ix(i)
    if i is None:
        return None
    return PANIC if i > len(xs) else ((xs[len(xs) - i:] + xs[:len(xs) - i]) if i else xs, UNIT)


@vec_model("dedup")
def _(m, xs):
    out = []
    for x in xs:
        if out:
            e = eq(out[-1], x)
            if e is TRUE:
                continue
            if e is not FALSE:
                return None
        out.append(x)
    return out, UNIT


@vec_model("reverse")
def _(m, xs):
    return xs[::-1], UNIT


@vec_model("fill")
def _(m, xs, x):
    return [x] * len(xs), UNIT


def _get_range(old):
    def g(m, s, i=None):
        r = m.val(i) if i is not None and i.op == "mref" else i
        if r is not None and r.op == "adt":
            v = m.val(s)
            if v.op == "lit":
                return TABLE[("str", "get")](m, s, r)
            xs = elements(v)
            l = limits(r, len(xs)) if xs is not None else None
            if l is None:
                return None
            ok_ = 0 <= l[0] <= l[1] <= len(xs)
            return m.st, some(seq(tuple(one(x) for x in xs[l[0]:l[1]]))) if ok_ else NONE
        return old(m, s, i)
    return g


for _o in ("[T]", "Vec", "VecDeque", "SmallVec"):
    if (_o, "get") in TABLE:
        TABLE[(_o, "get")] = _get_range(TABLE[(_o, "get")])


def seq_model(*names):
    """functions of slices of known length; result is a value"""
    def deco(f):
        def g(m, s, *args):
            x = m.val(s)
            if x.op == "svgtext" and m.name.split("::")[-1] in ("chunks", "chunks_exact") and args[0] is not num(0):
                # a text of two whole pieces and a smaller one
                return m.st, mkiter(tuple(one(mk("textpiece", x, i)) for i in range(3 if m.name.split("::")[-1] == "chunks" else 2)))
            xs = elements(x)
            if xs is None:
                return None
            r = f(m, xs, *args)
            if r is None:
                return None
            return diverge(m.I, m.st, m.body, m.name + " panics") if r is PANIC else (m.st, r)
        for n in names:
            for o in ("Vec", "VecDeque", "SmallVec", "[T]"):
                TABLE.setdefault((o, n), g)
        return f
    return deco


def S(xs):
    return seq(tuple(one(x) for x in xs))


@seq_model("chunks")
def _(m, xs, n):
    n = ix(n)
    return PANIC if n == 0 else None if n is None else mkiter(tuple(one(S(xs[i:i + n])) for i in range(0, len(xs), n)))


@seq_model("chunks_exact")
def _(m, xs, n):
    n = ix(n)
    return PANIC if n == 0 else None if n is None else mkiter(tuple(one(S(xs[i:i + n])) for i in range(0, len(xs) - n + 1, n)))


@seq_model("windows")
def _(m, xs, n):
    n = ix(n)
    return PANIC if n == 0 else None if n is None else mkiter(tuple(one(S(xs[i:i + n])) for i in range(len(xs) - n + 1)))


@seq_model("split_first")
def _(m, xs):
    return some(tup(xs[0], S(xs[1:]))) if xs else NONE


@seq_model("split_last")
def _(m, xs):
    return some(tup(xs[-1], S(xs[:-1]))) if xs else NONE


@seq_model("split_at")
def _(m, xs, i):
    i = ix(i)
    return None if i is None else PANIC if i > len(xs) else tup(S(xs[:i]), S(xs[i:]))


@seq_model("contains")
def _(m, xs, x):
    return tm.b_any([eq(m.val(x), y) for y in xs]) if xs else FALSE


@seq_model("repeat")
def _(m, xs, n):
    n = ix(n)
    return None if n is None or n * len(xs) > 5000 else S(xs * n)


@model("[T; N].map", "array.map")
def _array_map(m, x, f):
    v = m.val(x)
    if v.op != "seq" or not all(s.op == "one" and len(s.args) > 1 and s.args[0] is TRUE for s in v.args[0]):
        return None
    I = m.I
    st = m.st.copy()
    if f.op == "clo":
        f = mref(I.temp(st, f))
    out = []
    for s in v.args[0]:
        st, r = I.call_value(f, [s.args[1]], st)
        if st is None:
            return None, UNDEF
        out.append(one(r))
    return st, seq(out)


@model("Iterator.try_for_each", "Iterator.try_fold")
def _try_each(m, x, *a):
    it, ref = owned_iter(m, x)
    ty = m.ty(-1)
    if it is None or ty is None or ty["k"] != "adt":
        return None
    n = base_name(ty["n"]).split("::")[-1]
    if n not in ("Option", "Result", "ControlFlow"):
        return None
    adtn = base_name(ty["n"])
    good, bad = {"Option": ("Some", "None"), "Result": ("Ok", "Err"), "ControlFlow": ("Continue", "Break")}[n]
    I = m.I
    f = a[-1]
    st = m.st.copy()
    if f.op == "clo":
        f = mref(I.temp(st, f))
    acc = I.temp(st, a[0] if m.name == "try_fold" else UNIT)

    def g(S, v):
        args = [S.roots[acc], v] if m.name == "try_fold" else [v]
        S2, r = I.call_value(f, args, S)
        if S2 is None:
            return None, FALSE, UNDEF
        c = is_variant(r, adtn, good)
        S2 = S2.copy()
        if m.name == "try_fold":
            S2.roots[acc] = field(r, 0, good) if c is TRUE else ite(c, field(r, 0, good), S.roots[acc])
        return S2, b_not(c), r if c is FALSE else NONE if n == "Option" else adt(adtn, bad, field(r, 0, bad))
    tag = mk("ok!")
    st2, r = search(I, st, it, g, tag)
    if st2 is None:
        return None, UNDEF
    w = st2.roots[acc]
    r = amap2(None, lambda q, y: adt(adtn, good, y) if q is tag else q, r, w) if w.op != "case" else amap(None, lambda q: adt(adtn, good, w) if q is tag else q, r)
    return consumed(m, st2, ref), r
