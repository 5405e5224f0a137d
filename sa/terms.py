"""Hash-consed terms of the value-flow graph.

A value is a term. A conditional value is a decision node `case(test; key -> value, ...)`; tests are
ordered, so conditional values with leaves in normal form are in normal form themselves (multi-way
decision diagrams). Path conditions are such diagrams with the leaves TRUE and FALSE. Numbers are
polynomials with rational coefficients over atoms.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(200000)

_table = {}


class T:
    __slots__ = ("op", "args", "id", "_s")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_table)
        t._s = None
        _table[k] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNDEF = mk("undef")
UNIT = mk("tup")


def B(x):
    return TRUE if x else FALSE


# ---------------------------------------------------------------- numbers

def num(c):
    return mk("num", (((), Fraction(c)),)) if c else ZERO


ZERO = mk("num", ())


def poly(t):
    if t.op == "num":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def unpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda mc: [(a.id, e) for a, e in mc[0]]))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    return mk("num", items)


def is_const(t):
    return t.op == "num" and all(m == () for m, _ in t.args[0])


def const(t):
    if t.op != "num":
        return None
    if not t.args[0]:
        return Fraction(0)
    if len(t.args[0]) == 1 and t.args[0][0][0] == ():
        return t.args[0][0][1]
    return None


def _add(a, b, k=1):
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + k * c
    return unpoly(d)


def _mulmono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


NAN = mk("nan")


def _numeric(*ts):
    return all(t is not NAN for t in ts)


INF, NINF = mk("infinity", False), mk("infinity", True)


def _inf(t):
    """the sign of an infinite value, 0 for any other"""
    return 0 if t.op != "infinity" else -1 if t.args[0] else 1


def _sum(a, b, k=1):
    if not _numeric(a, b):
        return NAN
    x, y = _inf(a), k * _inf(b)
    if x or y:
        return NAN if x + y == 0 else INF if x + y > 0 else NINF
    return _add(a, b, k)


def add(a, b):
    return amap2("add", _sum, a, b)


def sub(a, b):
    return amap2("sub", lambda a, b: _sum(a, b, -1), a, b)


def _mul(a, b):
    if not _numeric(a, b):
        return NAN
    if _inf(a) or _inf(b):
        x, y = [_inf(t) or (const(t) if const(t) is not None else None) for t in (a, b)]
        if x is None or y is None:
            return mk("mulinf", a, b)
        return NAN if x == 0 or y == 0 else INF if (x > 0) == (y > 0) else NINF
    d = {}
    for m, c in poly(a).items():
        for n, e in poly(b).items():
            k = _mulmono(m, n)
            d[k] = d.get(k, 0) + c * e
    return unpoly(d)


def mul(a, b):
    return amap2("mul", _mul, a, b)


def neg(a):
    return mul(num(-1), a)


def _div(a, b):
    if not _numeric(a, b):
        return NAN
    if _inf(b):
        return NAN if _inf(a) else ZERO
    c = const(b)
    if c:
        return _mul(a, num(1 / c))
    if c == 0:
        x = _inf(a) or const(a)
        if x is not None:
            return NAN if x == 0 else INF if x > 0 else NINF
    if _inf(a):
        return mk("divinf", a, b)
    if a is b:
        return num(1)
    # canonical: monic denominator
    p = poly(b)
    if not p:
        return mk("divzero", a)
    lead = unpoly_lead(p)
    if lead != 1:
        b2 = _mul(b, num(1 / lead))
        return _mul(_div(a, b2), num(1 / lead))
    d = {}
    for m, c in poly(a).items():
        # numerator distributed so that sums of quotients are canonical
        q = mk("quot", unpoly({m: Fraction(1)}), b)
        d[((q, 1),)] = d.get(((q, 1),), 0) + c
    return unpoly(d)


def unpoly_lead(p):
    return sorted(p.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]])[-1][1]


def div(a, b):
    return amap2("div", _div, a, b)


def _idiv(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb > 0) else -q)
    if cb == 1:
        return a
    return mk("idiv", a, b)


def idiv(a, b):
    return amap2("idiv", _idiv, a, b)


def _rem(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb:
        return num(ca - cb * const(_idiv(a, b)))
    return mk("rem", a, b)


def rem(a, b):
    return amap2("rem", _rem, a, b)


def nonneg(t):
    return t.op in ("ix", "len", "rix", "rank", "absv", "sqrt", "count") or t.op == "trunc" and nonneg_poly(t.args[0]) or (t.op in ("rem", "idiv") and nonneg_poly(t.args[0]) and nonneg_poly(t.args[1]))


def nonneg_poly(t):
    return all(c > 0 and all(nonneg(a) or e % 2 == 0 for a, e in m) for m, c in poly(t).items())


def _bound(d):
    """possible signs of the polynomial term d -> tuple subset of (-1, 0, 1)"""
    p = poly(d)
    ixs = [a for m, _ in p.items() for a, _ in m if a.op == "ix"]
    for x in ixs:
        ln = mk("len", x.args[0])
        if ((ln, 1),) in p and ((x, 1),) in p:
            # an index is below the length of its sequence
            k = p.pop(((x, 1),))
            r = mk("rix", *x.args)
            for m, c in ((((ln, 1),), k), ((), -k), (((r, 1),), -k)):
                p[m] = p.get(m, 0) + c
            p = {m: c for m, c in p.items() if c}
    if not p:
        return (0,)
    if all(all(nonneg(a) or e % 2 == 0 for a, e in m) for m in p):
        if all(c > 0 for c in p.values()):
            return (1,) if () in p else (0, 1)
        if all(c < 0 for c in p.values()):
            return (-1,) if () in p else (-1, 0)
    # len - c with c <= 0 and the like are covered above; rem(x, n) < n
    for m in list(p):
        if len(m) == 1 and m[0][0].op == "rem" and m[0][1] == 1:
            n = const(m[0][0].args[1])
            if n and n > 0 and set(p) <= {m, ()} and p[m] == 1 and p.get((), 0) <= -n:
                return (-1,)
    return (-1, 0, 1)


def sgn(a, b):
    """-> decision diagram with leaves num(-1), num(0), num(1): the sign of a - b"""
    return amap2("sgn", _sgn, a, b)


def _sgn(a, b):
    if not _numeric(a, b):
        return mk("unordered")
    if _inf(a) or _inf(b):
        return num((_inf(a) > _inf(b)) - (_inf(a) < _inf(b)))
    d = _add(a, b, -1)
    c = const(d)
    if c is not None:
        return num((c > 0) - (c < 0))
    p = poly(d)
    lead = unpoly_lead(p)
    flip = 1 if lead > 0 else -1
    if abs(lead) != 1 or flip < 0:
        d = _mul(d, num(1 / lead))
    dom = _bound(d)
    if len(dom) == 1:
        return num(dom[0] * flip)
    return case(mk("sgn", d, dom), {k: num(k * flip) for k in dom})


def cmp(a, b, signs):
    def f(s):
        return B(s.op == "num" and const(s) in signs)
    return amap(("cmp", signs), f, sgn(a, b))


def lt(a, b): return cmp(a, b, (-1,))
def le(a, b): return cmp(a, b, (-1, 0))
def gt(a, b): return cmp(a, b, (1,))
def ge(a, b): return cmp(a, b, (0, 1))
def eqn(a, b): return cmp(a, b, (0,))


def maxv(a, b):
    return _minmax("max", a, b)


def minv(a, b):
    return _minmax("min", a, b)


def _minmax(which, a, b):
    def f(a, b):
        # f32::max and min ignore NaN
        if a is NAN:
            return b
        if b is NAN:
            return a
        xs = set()
        for t in (a, b):
            if t.op == which:
                xs.update(t.args[0])
            else:
                xs.add(t)
        # drop dominated members
        out = []
        for x in xs:
            dominated = False
            for y in xs:
                if y is x:
                    continue
                s = _bound_sign(x, y)
                if s is None:
                    continue
                if which == "max" and (max(s) < 0 or (max(s) == 0 and (s != (0,) or y.id < x.id))):
                    dominated = True
                if which == "min" and (min(s) > 0 or (min(s) == 0 and (s != (0,) or y.id < x.id))):
                    dominated = True
            if not dominated:
                out.append(x)
        if len(out) == 1:
            return out[0]
        return mk(which, tuple(sorted(out)))
    return amap2(which, f, a, b)


def _bound_sign(x, y):
    if _inf(x) or _inf(y):
        return ((_inf(x) > _inf(y)) - (_inf(x) < _inf(y)),)
    d = _add(x, y, -1)
    c = const(d)
    if c is not None:
        return ((c > 0) - (c < 0),)
    b = _bound(d)
    return b if len(b) < 3 else None


# ---------------------------------------------------------------- decision diagrams

def domain(test):
    if test.op == "sgn":
        return test.args[1]
    if test.op == "discr":
        return tuple(range(len(test.args[2])))
    if test.op == "sw":
        return None
    return (True, False)


def case(test, kids, default=None):
    dom = domain(test)
    if dom is not None:
        ks = dom
        vs = tuple(kids[k] if k in kids else (default if default is not None else UNDEF) for k in ks)
        real = [v for v in vs if v is not UNDEF]
        if not real:
            return UNDEF
        if all(v is real[0] for v in real):
            return real[0]
        return mk("case", test, ks, vs, None)
    default = UNDEF if default is None else default
    real = set(kids.values()) | {default}
    real.discard(UNDEF)
    if not real:
        return UNDEF
    if len(real) == 1:
        return next(iter(real))
    it = sorted(((k, v) for k, v in kids.items() if v is not default), key=lambda kv: repr(kv[0]))
    return mk("case", test, tuple(k for k, _ in it), tuple(v for _, v in it), default)


def child(t, key):
    _, ks, vs, d = t.args
    for k, v in zip(ks, vs):
        if k == key and type(k) == type(key):
            return v
    return d if d is not None else UNDEF


_memo = {}


def amap(name, f, *vals):
    """applies f to the leaves"""
    if all(v.op != "case" for v in vals):
        for v in vals:
            if v is UNDEF:
                return UNDEF
        return f(*vals)
    key = (name,) + vals if name is not None else None
    if key is not None:
        r = _memo.get(key)
        if r is not None:
            return r
    top = min((v.args[0] for v in vals if v.op == "case"), key=lambda t: t.id)
    dom = domain(top)
    if dom is None:
        ks = set()
        for v in vals:
            if v.op == "case" and v.args[0] is top:
                ks.update(v.args[1])
        kids = {k: amap(name, f, *[child(v, k) if v.op == "case" and v.args[0] is top else v for v in vals]) for k in ks}
        d = amap(name, f, *[v.args[3] if v.op == "case" and v.args[0] is top else v for v in vals])
        r = case(top, kids, d)
    else:
        kids = {k: amap(name, f, *[child(v, k) if v.op == "case" and v.args[0] is top else v for v in vals]) for k in dom}
        r = case(top, kids)
    if key is not None:
        _memo[key] = r
    return r


def amap2(name, f, a, b):
    return amap(name, f, a, b)


def b_not(a):
    return amap("not", lambda a: FALSE if a is TRUE else TRUE if a is FALSE else mk("not", a), a)


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a

    def f(a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        return a
    return _bop("and", f, a, b, FALSE)


def b_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a

    def f(a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        return a
    return _bop("or", f, a, b, TRUE)


def _bop(name, f, a, b, absorbing):
    if a.id > b.id:
        a, b = b, a
    key = (name, a, b)
    r = _memo.get(key)
    if r is not None:
        return r
    if a is absorbing or b is absorbing:
        r = absorbing
    elif a is UNDEF:
        r = b
    elif b is UNDEF:
        r = a
    elif a.op != "case" and b.op != "case":
        r = f(a, b)
    else:
        top = min((v.args[0] for v in (a, b) if v.op == "case"), key=lambda t: t.id)

        def ch(v, k):
            return child(v, k) if v.op == "case" and v.args[0] is top else v
        dom = domain(top)
        if dom is None:
            ks = set()
            for v in (a, b):
                if v.op == "case" and v.args[0] is top:
                    ks.update(v.args[1])
            d = _bop(name, f, a.args[3] if a.op == "case" and a.args[0] is top else a, b.args[3] if b.op == "case" and b.args[0] is top else b, absorbing)
            r = case(top, {k: _bop(name, f, ch(a, k), ch(b, k), absorbing) for k in ks}, d)
        else:
            r = case(top, {k: _bop(name, f, ch(a, k), ch(b, k), absorbing) for k in dom})
    _memo[key] = r
    return r


def b_all(xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
    return r


def b_any(xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
    return r


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    key = ("ite", c, a, b)
    r = _memo.get(key)
    if r is not None:
        return r
    top = min((v.args[0] for v in (c, a, b) if v.op == "case"), key=lambda t: t.id, default=None)
    if top is None:
        r = UNDEF if c is UNDEF else mk("ite", c, a, b)
    else:
        def ch(v, k):
            return child(v, k) if v.op == "case" and v.args[0] is top else v

        def df(v):
            return v.args[3] if v.op == "case" and v.args[0] is top else v
        dom = domain(top)
        if dom is None:
            ks = set()
            for v in (c, a, b):
                if v.op == "case" and v.args[0] is top:
                    ks.update(v.args[1])
            r = case(top, {k: ite(ch(c, k), ch(a, k), ch(b, k)) for k in ks}, ite(df(c), df(a), df(b)))
        else:
            r = case(top, {k: ite(ch(c, k), ch(a, k), ch(b, k)) for k in dom})
    _memo[key] = r
    return r


def restrict(f, c):
    """simplifies f where only the values under the condition c matter"""
    if c is TRUE or f.op != "case":
        return f
    if c is FALSE or c is UNDEF:
        return UNDEF
    key = ("restrict", f, c)
    r = _memo.get(key)
    if r is not None:
        return r
    if c.op != "case":
        r = f
    else:
        tf, tc = f.args[0], c.args[0]
        if tc.id < tf.id:
            # does f depend on tc deeper? (ordered: no)
            cc = b_any(c.args[2] + ((c.args[3],) if c.args[3] is not None else ()))
            r = restrict(f, cc)
        elif tf.id < tc.id:
            r = case(tf, {k: restrict(v, c) for k, v in zip(f.args[1], f.args[2])}, restrict(f.args[3], c) if f.args[3] is not None else None)
        else:
            ks = set(f.args[1]) | set(c.args[1])
            kids = {k: restrict(child(f, k), child(c, k)) for k in ks}
            d = None
            if domain(tf) is None:
                d = restrict(f.args[3], c.args[3])
            r = case(tf, kids, d)
    _memo[key] = r
    return r


def cofactor(v, test, key):
    """v where `test` is known to have the outcome `key`"""
    if v.op != "case":
        return v
    k = ("cof", v, test, key)
    r = _memo.get(k)
    if r is not None:
        return r
    if v.args[0] is test:
        r = child(v, key)
    else:
        r = case(v.args[0], {kk: cofactor(x, test, key) for kk, x in zip(v.args[1], v.args[2])}, cofactor(v.args[3], test, key) if v.args[3] is not None else None)
    _memo[k] = r
    return r


def implies(a, b):
    return b_and(a, b_not(b)) is FALSE


def disjoint(a, b):
    return b_and(a, b) is FALSE


def leafset(v):
    """the distinct leaves of a conditional value, in order"""
    if v.op != "case":
        return () if v is UNDEF else (v,)
    key = ("leafset", v)
    r = _memo.get(key)
    if r is not None:
        return r
    out, seen = [], set()

    def go(v):
        if v in seen:
            return
        seen.add(v)
        if v.op != "case":
            if v is not UNDEF:
                out.append(v)
            return
        for x in v.args[2]:
            go(x)
        if v.args[3] is not None:
            go(v.args[3])
    go(v)
    r = _memo[key] = tuple(out)
    return r


def leaf_guard(v, leaf):
    """when is the leaf chosen?"""
    key = ("leafguard", v, leaf)
    r = _memo.get(key)
    if r is None:
        if v.op == "case":
            t, ks, vs, d = v.args
            r = case(t, {k: leaf_guard(x, leaf) for k, x in zip(ks, vs)}, None if d is None else leaf_guard(d, leaf))
        else:
            r = TRUE if v is leaf else FALSE
        _memo[key] = r
    return r


def leaves(v, guard=TRUE):
    """-> [(guard, leaf)]; the guards are disjoint"""
    out = []
    for x in leafset(v):
        g = b_and(guard, leaf_guard(v, x)) if v.op == "case" else guard
        if g is not FALSE and g is not UNDEF:
            out.append((g, x))
    return out


def test_is(test, key):
    return case(test, {key: TRUE}, FALSE)


def btest(op, *args):
    t = mk(op, *args)
    return case(t, {True: TRUE, False: FALSE})


def tests_in(v, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(v):
        if v.op != "case" or v in seen:
            return
        seen.add(v)
        acc.add(v.args[0])
        for x in v.args[2]:
            go(x)
        if v.args[3] is not None:
            go(v.args[3])
    go(v)
    return acc


# ---------------------------------------------------------------- substitution

CONS = {}  # op -> function(args) rebuilding a term with simplification


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x not in seen:
                seen.add(x)
                stack.extend(x.args)
    return seen


_contains_memo = {}


def contains(t, pred_id, pred):
    """does some subterm satisfy pred (memoised under pred_id)"""
    key = (pred_id, t)
    r = _contains_memo.get(key)
    if r is not None:
        return r

    def args_have(a):
        for x in a:
            if isinstance(x, T):
                if contains(x, pred_id, pred):
                    return True
            elif isinstance(x, tuple):
                if args_have(x):
                    return True
        return False
    r = pred(t) or args_have(t.args)
    _contains_memo[key] = r
    return r


VARS = {"tv", "mv", "mseg", "bv", "sym", "hole"}
BINDERS = {"for": 2, "any": 2, "first": 2, "grp": 2, "pre": 2, "lam": 2}   # op -> index of the first argument in scope
_support = {}


def _support_args(a, acc):
    for x in a:
        if isinstance(x, T):
            acc |= support(x)
        elif isinstance(x, tuple):
            _support_args(x, acc)


def support(t):
    """the variables occurring free in t"""
    r = _support.get(t)
    if r is not None:
        return r
    acc = set()
    if t.op in VARS:
        acc.add(t)
    _support_args(t.args, acc)
    if t.op in BINDERS:
        bv = t.args[1]
        inner = set()
        _support_args(binder_scope(t), inner)
        outer = set()
        _support_args((t.args[0],) + binder_out(t), outer)
        h = bv.args[0]
        acc = outer | {v for v in inner if not (v.op in ("bv", "mv", "mseg") and v.args[0] == h)}
    r = frozenset(acc)
    _support[t] = r
    return r


def binder_scope(t):
    """the arguments of a binder in the scope of its variable"""
    if t.op == "pre":       # pre(dom, bv, segs, upto)
        return (t.args[2],)
    if t.op == "grp":       # grp(dom, bv, inits, nexts)
        return (t.args[3],)
    return t.args[2:]


def binder_out(t):
    if t.op == "pre":
        return (t.args[3],)
    if t.op == "grp":
        return (t.args[2],)
    return ()


_height = {}


def height(t):
    if isinstance(t, tuple):
        return max([height(x) for x in t if isinstance(x, (T, tuple))], default=0)
    r = _height.get(t)
    if r is None:
        r = height(t.args)
        if t.op in BINDERS:
            r = max(r, t.args[1].args[0])
        _height[t] = r
    return r


_fresh = [0]


def fresh(op="tv", *args):
    _fresh[0] += 1
    return mk(op, "t%d" % _fresh[0], *args)


def open_binder(t, var=None):
    """-> (variable, arguments in scope with the variable in place of the bound one, substitution)"""
    bv = t.args[1]
    h = bv.args[0]
    tv = var or fresh()
    m = {bv: tv}
    for v in _scope_vars(t):
        if v.op in ("mv", "mseg") and v.args[0] == h:
            m[v] = mk(v.op, tv.args[0], *v.args[1:])
    s = Subst(m)
    return tv, tuple(s(x) for x in binder_scope(t)), s


def _scope_vars(t):
    acc = set()
    _support_args(binder_scope(t), acc)
    return acc


def close_binder(tv, parts):
    """-> (bound variable, parts over it); mv and mseg variables belonging to tv are bound with it"""
    h = 1 + height(parts)
    bv = mk("bv", h)
    acc = set()
    _support_args(parts, acc)
    m = {tv: bv}
    for v in acc:
        if v.op in ("mv", "mseg") and v.args[0] == tv.args[0]:
            m[v] = mk(v.op, h, *v.args[1:])
    s = Subst(m)
    return bv, tuple(s(p) for p in parts)


class Subst:
    def __init__(self, mapping, fn=None):
        self.m = dict(mapping)
        self.fn = fn
        self.memo = {}
        self.keys = frozenset(self.m)
        self.simple = fn is None and all(k.op in VARS for k in self.m)

    def __call__(self, t):
        if isinstance(t, tuple):
            out = []
            for x in t:
                if isinstance(x, T):
                    y = self(x)
                    if isinstance(y, tuple):
                        out.extend(y)       # a segment that became several, or none
                    elif y.op == "one" and y is not x and (y.args[0] is FALSE or y.args[0] is UNDEF):
                        pass
                    else:
                        out.append(y)
                else:
                    out.append(self(x) if isinstance(x, tuple) else x)
            return tuple(out)
        r = self.m.get(t)
        if r is not None:
            return r
        r = self.memo.get(t)
        if r is not None:
            return r
        if self.simple and not (support(t) & self.keys):
            return t
        if self.fn is not None:
            r = self.fn(t)
            if r is not None:
                self.memo[t] = r
                return r
        if not t.args:
            return t
        if t.op == "case":
            r = self._case(t)
        elif t.op == "num":
            r = self._num(t)
        elif t.op in BINDERS:
            r = self._binder(t)
        else:
            a = self(t.args)
            r = t if a == t.args else rebuild(t.op, a)
        self.memo[t] = r
        return r

    def _binder(self, t):
        a = self.binder_args(t)
        if a is None:
            return t
        return rebuild_binder(t.op, *a)

    def binder_args(self, t):
        tv, parts, _ = open_binder(t)
        dom = self(t.args[0])
        out = self(binder_out(t))
        np = self(parts)
        if dom is t.args[0] and np == parts and out == binder_out(t):
            return None
        return dom, tv, np, out

    def _num(self, t):
        changed = False
        for m, _ in t.args[0]:
            for a, _ in m:
                if self(a) is not a:
                    changed = True
        if not changed:
            return t
        r = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a, e in m:
                b = self(a)
                for _ in range(e):
                    x = mul(x, b)
            r = add(r, x)
        return r

    def _case(self, t):
        test, ks, vs, d = t.args
        nt = self.test(test)
        nv = [self(v) for v in vs]
        nd = self(d) if d is not None else None
        if nt is test or (nt.op == "rawtest"):
            return select(nt if nt is not test else mk("rawtest", test), ks, nv, nd)
        return select(nt, ks, nv, nd)

    def test(self, test):
        """-> diagram whose leaves are mk('key', k), or the same test"""
        if test.op == "sgn":
            d = self(test.args[0])
            if d is test.args[0]:
                return test
            s = sgn(d, ZERO)
            return amap(None, lambda x: mk("key", int(const(x))) if x.op == "num" else UNDEF, s)
        if test.op in BINDERS:
            a = self.binder_args(test)
            if a is None:
                return test
            r = rebuild_binder(test.op, *a)
            return amap(None, lambda x: mk("key", x is TRUE) if x.op == "bool" else UNDEF, r)
        a = self(test.args)
        if a == test.args:
            return test
        return mktest(test.op, a)


def mktest(op, a):
    """-> diagram with leaves mk('key', k)"""
    f = TESTS.get(op)
    if f is not None:
        return f(*a)
    nt = mk(op, *a)
    dom = domain(nt)
    if dom is None:
        return mk("rawtest", nt)
    return case(nt, {k: mk("key", k) for k in dom})


TESTS = {}
BINDER_CONS = {}


def rebuild_binder(op, dom, tv, parts, out):
    return BINDER_CONS[op](dom, tv, *parts, *out)


def select(nt, ks, vs, d):
    if nt.op == "rawtest":
        # same or renamed test over already substituted children: children may be diagrams with
        # smaller tests, so rebuild with ite
        test = nt.args[0]
        dom = domain(test)
        r = None
        if dom is None:
            r = d
            for k, v in zip(ks, vs):
                r = ite(case(test, {k: TRUE}, FALSE), v, r)
            return r
        r = UNDEF
        for k, v in zip(ks, vs):
            r = _ite_undef(case(test, {k: TRUE}, FALSE), v, r)
        return r
    kv = dict(zip(ks, vs))

    def f(key):
        k = key.args[0]
        if k in kv:
            return kv[k]
        return d if d is not None else UNDEF
    r = UNDEF
    for g, leaf in leaves(nt):
        r = _ite_undef(g, f(leaf), r)
    return r


def _ite_undef(c, a, b):
    if b is UNDEF and c is not FALSE:
        return ite(c, a, b) if c is not TRUE else a
    return ite(c, a, b)


def rebuild(op, args):
    f = CONS.get(op)
    if f is not None:
        return f(*args)
    if any(isinstance(a, T) and a.op == "case" for a in args) and op in LIFT:
        return amap(None, lambda *xs: rebuild(op, xs), *args)
    return mk(op, *args)


LIFT = set()
CONS["quot"] = lambda a, b: div(a, b)
CONS["idiv"] = idiv
CONS["rem"] = rem
CONS["max"] = lambda xs: _fold(maxv, xs)
CONS["min"] = lambda xs: _fold(minv, xs)


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


# ---------------------------------------------------------------- printing

def show(t, depth=12):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t) if not isinstance(t, str) else t
    if depth <= 0:
        return "…"
    if t._s is not None and depth >= 12:
        return t._s
    o, a = t.op, t.args
    d = depth - 1
    if o == "num":
        if not a[0]:
            s = "0"
        else:
            ps = []
            for m, c in a[0]:
                ms = "*".join(show(x, d) + ("^%d" % e if e != 1 else "") for x, e in m)
                cs = str(c) if abs(c) < 10**12 else "%.3g" % float(c)
                ps.append(cs if not ms else ms if c == 1 else cs + "*" + ms)
            s = "+".join(ps)
            if len(ps) > 1:
                s = "(" + s + ")"
    elif o == "bool":
        s = str(a[0])
    elif o == "case":
        s = "{" + show(a[0], d) + ": " + ", ".join("%s=>%s" % (k, show(v, d)) for k, v in zip(a[1], a[2]))
        if a[3] is not None:
            s += ", _=>" + show(a[3], d)
        s += "}"
    elif o == "sgn":
        s = "sgn " + show(a[0], d)
    elif o == "discr":
        s = "discr " + show(a[0], d)
    elif o == "fld":
        s = show(a[0], d) + "." + str(a[1])
    elif o == "vfld":
        s = show(a[0], d) + "@" + str(a[1]) + "." + str(a[2])
    elif o == "lit":
        s = repr(a[0])
    elif o == "sym":
        s = a[0]
    elif o == "adt":
        n = a[0].split("::")[-1]
        s = (n if n == a[1] else n + "::" + a[1]) + (show(a[2], d) if a[2] else "")
    elif o == "one":
        s = ("" if a[0] is TRUE else "[%s] " % show(a[0], d)) + show(a[1], d)
    elif o in ("for", "pre"):
        s = "%s<%s:%s%s> %s" % (o, show(a[1], d), show(a[0], d), "" if o == "for" else " before " + show(a[3], d), show(a[2], d))
    elif o in ("bv", "tv", "mv", "mseg"):
        s = o + ".".join(str(x) for x in a)
    else:
        s = o + "(" + ", ".join(show(x, d) for x in a) + ")"
    if depth >= 12:
        t._s = s
    return s
