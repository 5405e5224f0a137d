"""The grammars of the program: the terms of chumsky's combinators which the parser functions build, as parsing expressions; the languages of
parsing expressions as Boolean automata, whose equality is decided; the values parsing expressions give for a token sequence."""
from docs import *
import terms as tm


# ---------------------------------------------------------------- parsing expressions

class E:
    """kind and parts:
    set s | seq a b how | alt es | star a lo hi | opt a | map a f | to a v | chain a b | end | eps | not a | word a v | recover a | validate a f | mark a m
    or es | kleene a (only in reference grammars: unordered choice, any number of times)"""
    __slots__ = ("k", "a", "n")
    count = [0]

    def __init__(self, k, *a):
        self.k, self.a = k, a
        E.count[0] += 1
        self.n = E.count[0]

    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join(repr(x) if isinstance(x, E) else str(x)[:40] for x in self.a))

    def parts(self):
        for x in self.a:
            if isinstance(x, E):
                yield x
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, E):
                        yield y

    def all(self, seen=None):
        seen = {} if seen is None else seen
        if self.n in seen:
            return seen.values()
        seen[self.n] = self
        for p in self.parts():
            p.all(seen)
        return seen.values()


def seq_(*es, how="both"):
    r = es[0]
    for e in es[1:]:
        r = E("seq", r, e, how)
    return r


SPAN = None


def call_parts(t):
    """call term -> (name, arguments)"""
    if t.op == "call":
        p = t.args[0]
        return p, list(t.args[1])
    return None, None


def wordlike(e):
    """a set of letters followed by any number of another's, read as a text: the two sets"""
    if e.k == "word" or e.k == "map" and e.a[1] is collect:
        x = e.a[0]
        while x.k == "map" and x.a[1] in (listed_chain,):
            x = x.a[0]
        if x.k == "seq" and x.a[0].k == "set" and x.a[1].k == "star" and x.a[1].a[0].k == "set" and x.a[1].a[1:] == (0, None):
            return x.a[0], x.a[1].a[0]
    return None


def subtests(v):
    out = set()
    for x in tm.subterms(v):
        if x.op == "case":
            out |= tm.tests_in(x)
    return out


def leaf_else(v, x, words):
    """the value for any word but these"""
    def go(v):
        while v.op == "case":
            t, ks, vs, d = v.args
            if not (t.op == "eq" and x in t.args):
                return v
            k = dict(zip(ks, vs))
            v = k.get(False, d)
            if v is None:
                return None
        return v
    r = go(v)
    if r is None or any(t.op == "eq" and x in t.args for t in subtests(r)):
        return None
    return r


def listed_chain(v):
    return listed(listing(v.args[0]) + listing(v.args[1]))


class Closures:
    """calls to the closures kept in a grammar"""

    def __init__(self, F):
        self.F = F
        self.memo = {}

    def __call__(self, f, *args):
        key = (f, args)
        if key in self.memo:
            return self.memo[key]
        I = Interp(self.F.p)
        if hasattr(self, "fns"):
            I.fns = self.fns
        st, v = I.call_value(f, list(args), State({}, TRUE))
        self.F.functions |= I.seen_bodies
        panics = [p for p in I.panics]
        if st is None:
            v = UNDEF
        self.memo[key] = v
        self.panics = getattr(self, "panics", []) + panics
        return v

    def emitting(self, f, v, span):
        """a validating closure -> (value, number of errors emitted)"""
        I = Interp(self.F.p)
        if hasattr(self, "fns"):
            I.fns = self.fns
        out = []

        def emit(st, *a):
            out.append(st.pc)
            return st, UNIT
        I.pyfns["emit"] = emit
        st, r = I.call_value(f, [v, span, mk("pyfn", "emit")], State({}, TRUE))
        self.F.functions |= I.seen_bodies
        self.panics = getattr(self, "panics", []) + list(I.panics)
        if any(g is not TRUE for g in out):
            raise Unclear("error emitted under a condition")
        if st is None:
            return UNDEF, 0
        return r, len(out)


class Alphabet:
    """letters: terms (num(c) for characters, tokens)"""

    def __init__(self, letters, chars):
        self.letters, self.chars = list(letters), chars
        self.index = {x: i for i, x in enumerate(self.letters)}


def char_letters(extra):
    cs = set(range(0, 129)) | {0x85, 0xA0, 0xE9, 0x661, 0x2028, 0x2029, 0x3000, 0x3042, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}
    for c in extra:
        cs |= {c - 1, c, c + 1}
    return [num(c) for c in sorted(cs) if 0 <= c <= 0x10FFFF and not 0xD800 <= c < 0xE000]


def breakpoints(t):
    """constants characters are compared with"""
    out = set()
    for y in tm.subterms(t):
        if y.op in ("sgn", "case"):
            a = y.args[0]
            if y.op == "case":
                if not isinstance(a, T) or a.op != "sgn":
                    continue
                a = a.args[0]
            try:
                p = tm.poly(a)
            except Exception:
                continue
            c = sum(k for m, k in p.items() if m == ())
            rest = [k for m, k in p.items() if m != ()]
            if len(rest) == 1 and abs(rest[0]) == 1:
                x = -c * rest[0]
                if x == int(x) and 0 <= x <= 0x10FFFF:
                    out.add(int(x))
    return out


class Builder:
    """combinator term -> parsing expression"""

    def __init__(self, F, alphabet, closures):
        self.F, self.A, self.call = F, alphabet, closures
        self.memo = {}
        self.span = sym("span")

    # sets of letters

    def pred(self, f):
        out = set()
        for i, x in enumerate(self.A.letters):
            r = self.call(f, x)
            if r is TRUE:
                out.add(i)
            elif r is not FALSE:
                raise Unclear("filter on %s: %s" % (show(x, 3), show(r, 5)))
        return frozenset(out)

    def letter(self, x):
        if x not in self.A.index:
            raise Unclear("letter " + show(x, 4))
        return E("set", frozenset([self.A.index[x]]))

    def letters(self, x):
        """a container of letters"""
        if x.op == "lit":
            return [num(ord(c)) for c in x.args[0]]
        if x.op == "seq":
            return items(x)
        if x.op == "num" or x.op == "adt" and x in self.A.index:
            return [x]
        if x.op == "adt" and x.args[1] in ("RangeInclusive", "Range") or x.op == "tup" and len(x.args) == 2:
            a, b = (x.args[2] if x.op == "adt" else x.args)[:2]
            a, b = numbers(a, b)
            return [y for y in self.A.letters if a <= const(y) < b + (x.args[1] == "RangeInclusive")]
        raise Unclear("letters " + show(x, 5))

    def one_of(self, xs, neg=False):
        s = frozenset(self.A.index[x] for x in xs if x in self.A.index)
        if any(x not in self.A.index for x in xs):
            raise Unclear("letters")
        return E("set", frozenset(range(len(self.A.letters))) - s if neg else s)

    def build(self, t):
        if t not in self.memo:
            self.memo[t] = self._build(t)
        return self.memo[t]

    def _build(self, t):
        if t.op == "adt" and t.args[1] in ("Box", "Rc", "Arc") and len(t.args[2]) == 1:
            return self.build(t.args[2][0])
        p, a = call_parts(t)
        if p is None:
            raise Unclear("grammar: " + show(t, 4))
        n = base_name(p).split("::")[-1]
        b = self.build
        if "chumsky" not in p:
            raise Unclear("grammar: call of " + p)
        if n == "just":
            xs = self.letters(a[0])
            if not xs:
                return E("to", E("eps"), a[0])
            return E("to", seq_(*[self.letter(x) for x in xs]), a[0])
        if n == "one_of":
            return self.one_of(self.letters(a[0]))
        if n == "none_of":
            return self.one_of(self.letters(a[0]), True)
        if n == "any":
            return E("set", frozenset(range(len(self.A.letters))))
        if n == "filter":
            return E("set", self.pred(a[0]))
        if n == "filter_map":
            return E("map", E("set", self.accepted(lambda x: self.call(a[0], self.span, x))), lambda v: self.okval(self.call(a[0], self.span, v)))
        if n == "try_map":
            e = b(a[0])
            if wordlike(e):
                return self.by_text(e, lambda v, f=a[1]: self.call(f, v, self.span), True)
            if e.k != "set":
                raise Unclear("try_map on more than a letter")
            return E("map", E("set", frozenset(i for i in e.a[0] if i in self.accepted(lambda x: self.call(a[1], x, self.span), e.a[0]))), lambda v: self.okval(self.call(a[1], v, self.span)))
        if n == "end":
            return E("end")
        if n == "empty":
            return E("eps")
        if n == "ident" and self.A.chars:
            return E("word", seq_(self.ascii("_", "az", "AZ"), E("star", self.ascii("_", "az", "AZ", "09"), 0, None)), None)
        if n == "keyword" and self.A.chars:
            if a[0].op != "lit":
                raise Unclear("keyword")
            w = a[0].args[0]
            import re
            if not re.fullmatch("[A-Za-z_][A-Za-z_0-9]*", w):
                return E("fail")
            return E("to", seq_(*[self.letter(num(ord(c))) for c in w], E("not", self.ascii("_", "az", "AZ", "09"))), UNIT)
        if n == "newline" and self.A.chars:
            return E("to", E("alt", [seq_(self.chars("\r"), self.chars("\n")), self.chars("\n\r\x0b\x0c\x85\u2028\u2029")]), UNIT)
        if n == "whitespace" and self.A.chars:
            raise Unclear("whitespace")
        if n in ("then", "ignore_then", "then_ignore"):
            return E("seq", b(a[0]), b(a[1]), {"then": "both", "ignore_then": "right", "then_ignore": "left"}[n])
        if n == "padded_by":
            return E("seq", E("seq", b(a[1]), b(a[0]), "right"), b(a[1]), "left")
        if n == "delimited_by":
            return E("seq", E("seq", b(a[1]), b(a[0]), "right"), b(a[2]), "left")
        if n == "or":
            return E("alt", [b(a[0]), b(a[1])])
        if n == "choice":
            xs = a[0].args if a[0].op == "tup" else items(a[0])
            return E("alt", [b(x) for x in xs])
        if n == "or_not":
            return E("opt", b(a[0]))
        if n == "repeated":
            return E("star", b(a[0]), 0, None)
        if n in ("at_least", "at_most", "exactly") and a:
            e = b(a[0])
            k = numbers(a[1])[0]
            if e.k == "star":
                lo, hi = e.a[1], e.a[2]
                k = int(k)
                return E("star", e.a[0], k if n != "at_most" else lo, k if n != "at_least" else hi)
            if e.k == "sep" and n != "at_most":
                return E("sep", *e.a[:4], int(k), int(k) if n == "exactly" else e.a[5])
            raise Unclear(n)
        if n == "separated_by":
            return E("sep", b(a[0]), b(a[1]), False, False, 0, None)
        if n in ("allow_leading", "allow_trailing"):
            e = b(a[0])
            if e.k != "sep":
                raise Unclear(n)
            x = list(e.a)
            x[2 if n == "allow_leading" else 3] = True
            return E("sep", *x)
        if n == "to":
            return E("to", b(a[0]), a[1])
        if n == "ignored":
            return E("to", b(a[0]), UNIT)
        if n in ("map", "map_with_span"):
            f = (lambda v, f=a[1]: self.call(f, v)) if n == "map" else (lambda v, f=a[1]: self.call(f, v, self.span))
            e = b(a[0])
            return self.by_text(e, f) if wordlike(e) else E("map", e, f)
        if n == "foldl":
            return E("map", b(a[0]), lambda v, f=a[1]: self.foldl(f, v))
        if n == "foldr":
            return E("map", b(a[0]), lambda v, f=a[1]: self.foldr(f, v))
        if n == "validate":
            return E("validate", b(a[0]), a[1])
        if n == "collect":
            return E("map", b(a[0]), collect)
        if n == "flatten":
            return E("map", b(a[0]), lambda v: listed([y for x in listing(v) for y in listing(x)]))
        if n == "chain":
            return E("map", E("seq", b(a[0]), b(a[1]), "both"), listed_chain)
        if n == "rewind":
            return E("not", E("not", b(a[0])))
        if n in ("labelled", "map_err", "map_err_with_span", "boxed", "debug", "by_ref", "clone", "cut"):
            return b(a[0])
        if n == "recover_with":
            s = call_parts(a[1])
            if s[0] is None or not s[0].split("::")[-1].startswith("skip_then_retry_until") or not (s[1][0].op == "seq" and not s[1][0].args[0]):
                raise Unclear("recovery " + show(a[1], 4))
            return E("recover", b(a[0]))
        raise Unclear("combinator " + p)

    def by_text(self, e, f, partial=False):
        """a function of the word read, which tells some words from all others"""
        first, cont = wordlike(e)
        x = sym("word read")
        v = f(x)
        if v.op != "case" and not partial:
            return E("map", e, f)
        words = []
        for t in subtests(v):
            if t.op == "eq" and len(t.args) == 2 and x in t.args and any(y.op == "lit" for y in t.args):
                words += [y.args[0] for y in t.args if y.op == "lit"]
            elif tm.contains(t, "word read", lambda y: y is x):
                if not partial:
                    return E("map", e, f)
                raise Unclear("a word is told from others by " + show(t, 4))
        out, other = [], []
        for w in sorted(set(words), key=lambda w: (-len(w), w)):
            ls = [self.A.index.get(num(ord(c))) for c in w]
            if not w or ls[0] not in first.a[0] or any(i not in cont.a[0] for i in ls[1:]):
                continue
            this = seq_(*[E("set", frozenset([i])) for i in ls], E("not", cont))
            r = f(lit(w))
            if partial:
                if r.op != "adt" or r.args[1] not in ("Ok", "Err"):
                    raise Unclear("the word %s: %s" % (w, show(r, 5)))
                if r.args[1] == "Err":
                    other.append(this)
                    continue
                r = r.args[2][0]
            out.append(E("to", this, r))
            other.append(this)
        rest = leaf_else(v, x, set(words))
        if rest is None:
            raise Unclear("a word read: " + show(v, 5))
        if partial:
            if rest.op != "adt" or rest.args[1] not in ("Ok", "Err"):
                raise Unclear("a word read: " + show(rest, 5))
            if rest.args[1] == "Ok":
                e2 = E("seq", E("not", E("alt", other)), e, "right") if other else e
                out.append(E("map", e2, lambda y: Subst({x: y})(rest.args[2][0])))
        else:
            e2 = E("seq", E("not", E("alt", other)), e, "right") if other else e
            out.append(E("map", e2, lambda y: Subst({x: y})(rest)))
        return E("alt", out) if out else E("fail")

    def okval(self, r):
        if r.op == "adt" and r.args[1] == "Ok":
            return r.args[2][0]
        raise Unclear("result " + show(r, 4))

    def accepted(self, f, among=None):
        out = set()
        for i, x in enumerate(self.A.letters):
            if among is not None and i not in among:
                continue
            r = f(x)
            if r.op != "adt" or r.args[1] not in ("Ok", "Err"):
                raise Unclear("filter on %s: %s" % (show(x, 3), show(r, 5)))
            if r.args[1] == "Ok":
                out.add(i)
        return frozenset(out)

    def chars(self, s):
        return E("set", frozenset(self.A.index[num(ord(c))] for c in s))

    def ascii(self, *rs):
        cs = set()
        for r in rs:
            cs |= {r} if len(r) == 1 else {chr(c) for c in range(ord(r[0]), ord(r[1]) + 1)}
        return self.chars(sorted(cs))

    def foldl(self, f, v):
        acc = field(v, 0)
        for x in listing(field(v, 1)):
            acc = self.call(f, acc, x)
        return acc

    def foldr(self, f, v):
        acc = field(v, 1)
        for x in reversed(listing(field(v, 0))):
            acc = self.call(f, x, acc)
        return acc


def listing(v):
    """what chaining and flattening take a value for"""
    if v.op == "seq":
        return items(v)
    if v.op == "lit":
        return [num(ord(c)) for c in v.args[0]]
    if v.op == "adt" and v.args[1] == "None":
        return []
    if v.op == "adt" and v.args[1] == "Some":
        return [v.args[2][0]]
    return [v]


def listed(xs):
    return seq([one(x) for x in xs])


def collect(v):
    xs = listing(v) if v.op in ("seq", "lit") else [v]
    if all(x.op in ("num", "lit") for x in xs):
        return lit("".join(x.args[0] if x.op == "lit" else chr(int(const(x))) for x in xs))
    if any(x.op == "seq" for x in xs):
        ys = [y for x in xs for y in listing(x)]
        if all(y.op == "num" for y in ys):
            return collect(listed(ys))
    return listed(xs)


# ---------------------------------------------------------------- languages

class BDD:
    """Boolean functions of the states of an automaton"""

    def __init__(self):
        self.nodes = [None, None]     # 0 false, 1 true
        self.uniq = {}
        self.memo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            self.nodes.append(k)
            r = self.uniq[k] = len(self.nodes) - 1
        return r

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in k if x > 1)
        cof = lambda x, s: x if x < 2 or self.nodes[x][0] != v else self.nodes[x][2 if s else 1]
        r = self.mk(v, self.ite(cof(c, 0), cof(a, 0), cof(b, 0)), self.ite(cof(c, 1), cof(a, 1), cof(b, 1)))
        self.memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)


class Language:
    """Languages of parsing expressions over letters (indices >= 0) and marks (strings). A word of the main language is what is read, with the marks
    put in where the marked parts end; looking ahead, marks are skipped."""

    def __init__(self, nletters):
        self.B = BDD()
        self.vars = {}
        self.defs = []
        self.expanding = set()
        self.exp = {}
        self.dmemo = {}
        self.cmemo = {}
        self.nmemo = {}
        self.nletters = nletters

    def var(self, key):
        v = self.vars.get(key)
        if v is None:
            v = self.vars[key] = len(self.defs)
            self.defs.append(key)
        return self.B.mk(v, 0, 1)

    def lang(self, e, K, la):
        """words which e reads a beginning of, leaving one of K"""
        B = self.B
        k, a = e.k, e.a
        if k == "set":
            return self.var(("ch", a[0], K, la)) if a[0] and K else 0
        if k == "eps":
            return K
        if k == "fail":
            return 0
        if k == "end":
            return B.and_(self.var(("eps",)), K)
        if k == "seq":
            return self.lang(a[0], self.lang(a[1], K, la), la)
        if k in ("map", "to", "word", "validate"):
            return self.lang(a[0], K, la)
        if k == "mark":
            return self.lang(a[0], K if la else self.var(("mark", a[1], K)), la)
        if k == "alt":
            r = 0
            no = 1
            for x in a[0]:
                if any(y.k == "recover" for y in x.all()):
                    raise Unclear("recovery inside a choice")
                r = B.or_(r, B.and_(no, self.lang(x, K, la)))
                no = B.and_(no, B.not_(self.lang(x, 1, True)))
            return r
        if k == "or":
            r = 0
            for x in a[0]:
                r = B.or_(r, self.lang(x, K, la))
            return r
        if k == "opt":
            if any(y.k == "recover" for y in a[0].all()):
                raise Unclear("recovery inside an option")
            return B.or_(self.lang(a[0], K, la), B.and_(B.not_(self.lang(a[0], 1, True)), K))
        if k == "not":
            return B.and_(B.not_(self.lang(a[0], 1, True)), K)
        if k == "star":
            x, lo, hi = a
            if lo:
                return self.lang(x, self.lang(E_star(x, lo - 1, None if hi is None else hi - 1), K, la), la)
            if hi is not None:
                if hi == 0:
                    return K
                return B.or_(self.lang(x, self.lang(E_star(x, 0, hi - 1), K, la), la), B.and_(B.not_(self.lang(x, 1, True)), K))
            return self.var(("star", e, K, la))
        if k == "kleene":
            return self.var(("star", e, K, la))
        if k == "sep":
            return self.lang(desugar_sep(e), K, la)
        if k == "recover":
            if la:
                return self.var(("skip", a[0], K, la))
            return self.lang(a[0], K, la)
        raise Unclear("expression " + k)

    def expand(self, v):
        if v in self.exp:
            return self.exp[v]
        if v in self.expanding:
            raise Unclear("a repeated parser which may read nothing")
        self.expanding.add(v)
        kind, e, K, la = self.defs[v]
        me = self.B.mk(v, 0, 1)
        B = self.B
        if kind == "star":
            x = e.a[0]
            r = B.or_(self.lang(x, me, la), K if e.k == "kleene" else B.and_(B.not_(self.lang(x, 1, True)), K))
        else:       # skip: any letters, then e
            r = B.or_(self.lang(e, K, la), self.var(("ch", frozenset(range(self.nletters)), me, la)))
        if v in self.support(r):
            # after one iteration nothing was read
            raise Unclear("a repeated parser which may read nothing")
        self.exp[v] = r
        self.expanding.discard(v)
        return r

    def support(self, f):
        out = set()
        todo = [f]
        seen = set()
        while todo:
            x = todo.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.B.nodes[x]
            out.add(v)
            todo += [lo, hi]
        return out

    def dvar(self, v, x):
        key = (v, x)
        r = self.dmemo.get(key)
        if r is not None:
            return r
        d = self.defs[v]
        if d[0] == "ch":
            if isinstance(x, str):
                r = self.B.mk(v, 0, 1) if d[3] else 0
            else:
                r = d[2] if x in d[1] else 0
        elif d[0] == "eps":
            r = self.B.mk(v, 0, 1) if isinstance(x, str) else 0
        elif d[0] == "mark":
            r = d[2] if d[1] == x else 0
        elif d[0] in ("star", "skip"):
            if d[3] and isinstance(x, str):
                r = self.B.mk(v, 0, 1)
            else:
                r = self.delta(self.expand(v), x)
        self.dmemo[key] = r
        return r

    def delta(self, f, x):
        if f < 2:
            return f
        key = (f, x)
        r = self.cmemo.get(key)
        if r is None:
            v, lo, hi = self.B.nodes[f]
            r = self.B.ite(self.dvar(v, x), self.delta(hi, x), self.delta(lo, x))
            self.cmemo[key] = r
        return r

    def null(self, f):
        while f > 1:
            v, lo, hi = self.B.nodes[f]
            f = hi if self.nullvar(v) else lo
        return f == 1

    def nullvar(self, v):
        d = self.defs[v]
        if d[0] == "eps":
            return True
        if d[0] in ("ch", "mark"):
            return False
        r = self.nmemo.get(v)
        if r is None:
            r = self.nmemo[v] = self.null(self.expand(v))
        return r


_stars = {}


def E_star(x, lo, hi):
    k = (x.n, lo, hi)
    if k not in _stars:
        _stars[k] = E("star", x, lo, hi)
    return _stars[k]


_seps = {}


def desugar_sep(e):
    if e.n not in _seps:
        item, d, lead, trail, lo, hi = e.a
        more = E_star(E("seq", d, item, "right"), max(0, lo - 1), None if hi is None else hi - 1)
        r = E("seq", item, more, "both")
        if lead:
            r = E("seq", E("opt", d), r, "right")
        if trail:
            r = E("seq", r, E("opt", d), "left")
        r = E("map", r, lambda v: listed([v.args[0]] + listing(v.args[1])))
        if lo == 0:
            r = E("alt", [r, E("to", E("opt", d) if lead else E("eps"), listed([]))])
        _seps[e.n] = r
    return _seps[e.n]


def compare(a, b, nletters, marks, limit=200000):
    """are the languages of two expressions equal? -> (None or (word, accepted by a), number of states)"""
    L = Language(nletters)
    fa, fb = L.lang(a, L.var(("eps",)), False), L.lang(b, L.var(("eps",)), False)
    # letters no set tells apart
    sets = {x.a[0] for e in (a, b) for x in e.all() if x.k == "set"}
    groups = {}
    for i in range(nletters):
        groups.setdefault(tuple(i in s for s in sorted(sets, key=lambda s: tuple(sorted(s)))), i)
    letters = sorted(groups.values()) + sorted(marks)
    start = (fa, fb)
    from collections import deque
    prev = {start: None}
    todo = deque([start])
    while todo:
        s = todo.popleft()
        f, g = s
        if L.null(f) != L.null(g):
            w = []
            acc = L.null(f)
            while prev[s] is not None:
                s, x = prev[s]
                w.append(x)
            return (w[::-1], acc), len(prev), len(letters)
        for x in letters:
            n = (L.delta(f, x), L.delta(g, x))
            if n[0] == n[1]:
                continue
            if n not in prev:
                prev[n] = (s, x)
                todo.append(n)
                if len(prev) > limit:
                    raise Unclear("too many states")
    return None, len(prev), len(letters)


def accepts_somewhere(e, word, marks, nletters):
    """does the language have the word's letters with this sequence of marks, wherever these are put?"""
    L = Language(nletters)
    f = L.lang(e, L.var(("eps",)), False)
    cur = {(f, 0)}

    def close(s):
        todo = list(s)
        while todo:
            f, i = todo.pop()
            if i < len(marks):
                n = (L.delta(f, marks[i]), i + 1)
                if n[0] and n not in s:
                    s.add(n)
                    todo.append(n)
        return s
    cur = close(cur)
    for x in word:
        cur = close({(L.delta(f, x), i) for f, i in cur if L.delta(f, x)})
    return any(i == len(marks) and L.null(f) for f, i in cur)


# ---------------------------------------------------------------- values

FAIL = object()


class Values:
    """the value a parsing expression gives for a sequence of letters (terms)"""

    def __init__(self, B):
        self.B = B
        self.errors = 0

    def run(self, e, w):
        """-> value, or None if the sequence isn't accepted"""
        self.w = w
        self.errors = 0
        self.memo = {}
        r = self.go(e, 0)
        if r is FAIL or r[1] != len(w):
            return None
        return r[0]

    def go(self, e, i):
        k, a = e.k, e.a
        if k == "set":
            if i < len(self.w) and self.member(self.w[i], a[0]):
                return self.w[i], i + 1
            return FAIL
        if k == "eps":
            return UNIT, i
        if k == "fail":
            return FAIL
        if k == "end":
            return (UNIT, i) if i == len(self.w) else FAIL
        if k == "seq":
            x = self.go(a[0], i)
            if x is FAIL:
                return FAIL
            y = self.go(a[1], x[1])
            if y is FAIL:
                return FAIL
            return (tup(x[0], y[0]) if a[2] == "both" else x[0] if a[2] == "left" else y[0]), y[1]
        if k == "map":
            x = self.go(a[0], i)
            return x if x is FAIL else (a[1](x[0]), x[1])
        if k == "to":
            x = self.go(a[0], i)
            return x if x is FAIL else (a[1], x[1])
        if k == "word":
            x = self.go(a[0], i)
            return x if x is FAIL else (collect(listed(self.w[i:x[1]])), x[1])
        if k == "mark":
            return self.go(a[0], i)
        if k == "validate":
            x = self.go(a[0], i)
            if x is FAIL:
                return x
            v, n = self.B.call.emitting(a[1], x[0], self.B.span)
            self.errors += n
            return v, x[1]
        if k in ("alt", "or"):
            for x in a[0]:
                r = self.go(x, i)
                if r is not FAIL:
                    return r
            return FAIL
        if k == "opt":
            r = self.go(a[0], i)
            return (NONE, i) if r is FAIL else (some(r[0]), r[1])
        if k == "not":
            return (UNIT, i) if self.go(a[0], i) is FAIL else FAIL
        if k in ("star", "kleene"):
            lo, hi = (a[1], a[2]) if k == "star" else (0, None)
            out = []
            while hi is None or len(out) < hi:
                r = self.go(a[0], i)
                if r is FAIL:
                    break
                if r[1] == i:
                    raise Unclear("a repeated parser which reads nothing")
                out.append(r[0])
                i = r[1]
            return (listed(out), i) if len(out) >= lo else FAIL
        if k == "sep":
            return self.go(desugar_sep(e), i)
        if k == "recover":
            r = self.go(a[0], i)
            if r is not FAIL:
                return r
            for j in range(i + 1, len(self.w) + 1):
                r = self.go(a[0], j)
                if r is not FAIL:
                    self.errors += 1
                    return r
            return FAIL
        raise Unclear("expression " + k)

    def member(self, x, s):
        i = self.B.A.index.get(x)
        if i is None:
            i = self.B.A.index.get(self.letter_of(x))
        if i is None:
            raise Unclear("letter " + show(x, 4))
        return i in s

    def letter_of(self, x):
        return x
