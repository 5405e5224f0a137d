from peg import *
from strs import text, Stuck
from rules.lower import truthful, finish

WHERE = "parser::parse"
KEYWORDS = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"]
VARIANTS = {"erd": "Erd", "int": "Int", "uuid": "Uuid", "text": "Text", "timestamp": "Timestamp", "PK": "PK", "FK": "FK", "o--o": "Edge", "\n": "Newline"}
ESCAPES = {"\\": "\\", "/": "/", '"': '"', "`": "`", "b": "\x08", "f": "\x0c", "n": "\n", "r": "\r", "t": "\t"}


class Grammar:
    """what parse() builds and does with the source"""

    def __init__(self, F):
        self.F = F
        PROGRAM[0] = F.p
        b = F.fn(None, "parse")
        I, st, v = F.run(b, [sym("src")])
        if st is None or v.op != "tup" or len(v.args) != 3:
            raise Unclear("result of parse: " + show(v, 4))
        self.result = v
        calls = []
        for x in tm.subterms(v):
            if x.op == "call" and base_name(x.args[0]).split("::")[-1] in ("parse_recovery", "parse_recovery_verbose") and x not in calls:
                calls.append(x)
        rest = [c for c in calls if any(tm.contains(c.args[1][1], "lexcall%d" % i, lambda q, d=d: q is d) for i, d in enumerate(calls) if d is not c)]
        lex = [c for c in calls if c not in rest]
        if len(lex) != 1 or len(rest) != 1:
            raise Unclear("%d parsers of the source, %d of tokens" % (len(lex), len(rest)))
        self.lexcall, self.parsecall = lex[0], rest[0]
        self.plain = self.lexcall.args[1][1] is sym("src")
        self.call = Closures(F)
        self.call.fns = dict(I.fns)
        self._lexer()
        self._parser()

    def _lexer(self):
        t = self.lexcall.args[1][0]
        cs = set()
        for x in tm.subterms(t):
            if x.op == "clo":
                bd = self.F.p.get(x.args[0])
                if bd is not None and bd.j["argc"] == 2:
                    cs |= breakpoints(self.call(x, sym("letter")))
        self.chars = Alphabet(char_letters(cs), True)
        self.lexer = Builder(self.F, self.chars, self.call)
        self.lex = self.lexer.build(t)

    def read(self, s):
        """what the lexer is given for a source"""
        if self.plain:
            return s
        I, st, v = self.F.run(self.F.fn(None, "parse"), [lit(s)])
        if st is None:
            raise Unclear("parse of %r" % s)
        for x in tm.subterms(v):
            if x.op == "call" and x.args[0] == self.lexcall.args[0] and x.args[1][0] is self.lexcall.args[1][0]:
                try:
                    return text(x.args[1][1])
                except Stuck:
                    raise Unclear("given to the lexer: " + show(x.args[1][1], 5))
        raise Unclear("no lexer for %r" % s)

    def tokens(self, s):
        """the tokens of a text, None if it has a lexical error; and the number of errors emitted while reading"""
        V = Values(self.lexer)
        w = [num(ord(c)) for c in s]
        for c in w:
            if c not in self.chars.index:
                raise Unclear("letter outside the alphabet")
        r = V.run(self.lex, w)
        if r is None:
            return None, V.errors
        out = []
        for x in items(r):
            if x.op != "tup" or len(x.args) != 2:
                raise Unclear("token " + show(x, 4))
            out.append(x.args[0])
        return out, V.errors

    def token(self, s):
        ts, n = self.tokens(s)
        if ts is None or len(ts) != 1 or n:
            raise Unclear("%r isn't one token" % s)
        return ts[0]

    def _parser(self):
        F = self.F
        t, stream = self.parsecall.args[1]
        self.stream = stream
        vs = F.variants("Token")
        n = F.tyname("Token")
        letters = []
        self.ident_variant = None
        for v in vs:
            fs = F.fields("Token", v)
            if not fs:
                letters.append(adt(n, v))
            elif len(fs) == 1:
                ty = self._payload(v)
                if ty == "char":
                    letters += [adt(n, v, num(ord(c))) for c in "{};.,:(?"]
                else:
                    self.ident_variant = v
                    letters.append(adt(n, v, sym("name")))
            else:
                raise Unclear("token " + v)
        self.ident = lambda s: adt(n, self.ident_variant, s)
        self.toks = Alphabet(list(dict.fromkeys(letters)), False)
        self.parser = Builder(F, self.toks, self.call)
        self.parser.letter_of = None
        self.parse = self.parser.build(t)

    def _payload(self, v):
        name, a, types = self.F.adt("Token")
        for x in a["v"]:
            if x["n"] == v:
                ty = types[x["f"][0]["ty"] if isinstance(x["f"][0], dict) and "ty" in x["f"][0] else x["f"][0]["t"]]
                return ty.get("s") or ty["k"]
        raise Unclear("variant " + v)

    def tree(self, tokens):
        """the syntax tree of a token sequence, None if there is a syntax error"""
        V = Values(self.parser)
        can = sym("name")

        class W(Values):
            def letter_of(s, x):
                if x.op == "adt" and x.args[1] == self.ident_variant:
                    return self.ident(can)
                return x
        return W(self.parser).run(self.parse, tokens)


_g = {}


def grammar(F):
    if F not in _g:
        try:
            _g[F] = Grammar(F)
        except Unclear as e:
            _g[F] = e
    if isinstance(_g[F], Unclear):
        raise _g[F]
    return _g[F]


# -- lexer

def mark_tokens(G, e, F):
    """the lexer's expression with a mark after each token, naming its kind"""
    tn = F.tyname("Token")
    memo = {}

    def kind(v):
        if v.op != "adt" or v.args[0] != tn:
            return None
        if all(const(x) is not None for x in v.args[2]):
            return "%s(%s)" % (v.args[1], ", ".join(chr(int(const(x))) for x in v.args[2])) if v.args[2] else v.args[1]
        return v.args[1]

    def go(x):
        if x.n in memo:
            return memo[x.n]
        r = x
        if x.k in ("map", "to"):
            inner = go(x.a[0])
            if any(y.k == "mark" for y in inner.all()):
                r = E(x.k, inner, x.a[1])
            elif x.k == "to":
                k = kind(x.a[1])
                r = E("mark", x, k) if k else x
            else:
                base = x.a[0]
                if base.k == "set":
                    by = {}
                    for i in base.a[0]:
                        try:
                            v = x.a[1](G.chars.letters[i])
                        except Exception as ex:
                            v = UNDEF
                        by.setdefault(kind(v), set()).add(i)
                    if set(by) != {None}:
                        if None in by:
                            raise Unclear("token of a letter")
                        r = E("alt", [E("mark", E("set", frozenset(s)), k) for k, s in sorted(by.items())])
                else:
                    # any text read
                    try:
                        v = x.a[1](sym("text"))
                    except Exception:
                        v = UNDEF
                    k = kind(v)
                    if k:
                        r = E("mark", x, k)
                    elif not inner.k == "recover" and v is not UNDEF and any(kind(y) for y in tm.subterms(v)):
                        raise Unclear("kind of token: " + show(v, 5))
                    else:
                        r = E(x.k, inner, x.a[1])
        else:
            a = [go(y) if isinstance(y, E) else [go(z) for z in y] if isinstance(y, list) else y for y in x.a]
            r = E(x.k, *a)
        memo[x.n] = r
        return r
    return go(e)


def reference_lexer(G):
    """texts of tokens with blanks and comments between, each token marked with its kind"""
    B = G.lexer
    A = G.chars
    al = frozenset(range(len(A.letters)))
    S = lambda s: B.chars(s)
    but = lambda s: E("set", al - S(s).a[0])
    cont = B.ascii("_", "az", "AZ", "09")
    start = B.ascii("_", "az", "AZ")
    word = lambda w: seq_(*[S(c) for c in w])
    hexd = B.ascii("09", "af", "AF")
    toks = []
    for k in KEYWORDS:
        toks.append(E("mark", E("seq", word(k), E("not", cont), "both"), VARIANTS[k]))
    toks.append(E("mark", word("o--o"), VARIANTS["o--o"]))
    no_kw = E("not", E("or", [E("seq", word(k), E("not", cont), "both") for k in KEYWORDS]))
    no_edge = E("not", word("o--o"))
    toks.append(E("mark", seq_(no_kw, no_edge, start, E("kleene", cont), E("not", cont)), "Ident"))
    esc = E("seq", S("\\"), E("or", [S("".join(ESCAPES)), seq_(S("u"), hexd, hexd, hexd, hexd)]), "both")
    toks.append(E("mark", seq_(S("`"), E("kleene", E("or", [but("\\`"), esc])), S("`")), "Ident"))
    for c in "{};.":
        toks.append(E("mark", S(c), "Ctrl(%s)" % c))
    toks.append(E("mark", E("or", [S("\n"), word("\r\n")]), "Newline"))
    token = E("or", toks)
    comment = seq_(word("//"), E("kleene", but("\n")), E("not", but("\n")))
    gap = E("kleene", E("or", [S(" \t"), comment]))
    return E("or", [E("end"), seq_(gap, token, gap, E("kleene", E("seq", token, gap, "both")), E("end"))])


def spell(G, w):
    return "".join(chr(int(const(G.chars.letters[x]))) for x in w if not isinstance(x, str))


def C01(F, R):
    def run():
        G = grammar(F)
        if set(F.variants("Token")) != set(VARIANTS.values()) | {"Ident", "Ctrl"}:
            raise Unclear("kinds of tokens: %s" % F.variants("Token"))
        mine = mark_tokens(G, G.lex, F)
        ref = reference_lexer(G)
        marks = {x.a[1] for e in (mine, ref) for x in e.all() if x.k == "mark"}
        R.count("kinds of tokens marked", len(marks))
        diff, states, letters = compare_languages(mine, ref, len(G.chars.letters), marks)
        R.count("states compared", states)
        R.count("classes of characters", letters)
        what = "the lexer reads exactly the documented texts, as the documented tokens"
        if diff is None:
            R.ok(what, "languages with marked tokens are equal: %d states, %d letters" % (states, letters))
            return
        w, acc = diff
        s = spell(G, w)
        ms = [x for x in w if isinstance(x, str)]
        ls = [x for x in w if not isinstance(x, str)]
        other = accepts_somewhere(ref if acc else mine, ls, ms, len(G.chars.letters))
        if other:
            R.unknown(what, "tokens end at other places in %r" % s)
            return
        R.bad(what, "%r %s %s" % (s, "is read without an error as" if acc else "isn't read without an error as", " ".join(ms)), "tokenizer")
    R.part("the lexer", run)
    R.part("what the lexer is given", c01_given, F, R)


GAPS = ["", " ", "\t", "\n", "\r", "\r\n", "\x0b", "\x0c", "\x00", "\x1a", "\x85", "\xa0", "\u2028", "\u3000", "\ufeff", "#", "#!a\n", "// a\n", "// a\r\n", "// a"]
TEXTS = ["", "a", "`a\r\nb`", "`a\rb`", "`\u00c4 \t a\u00a0`", "`A`", "` a`", "`\ufeff`", "`\x00`", "`a\n\nb`", "`//a`", "`a` // b\n", "erd {}", "a\\\nb", "`e\u0301`"]


def c01_given(F, R):
    given(F, R, "the lexer is given a source which is read like the one there is", lambda ts: [t.args[1] for t in ts])


def given(F, R, what, view):
    G = grammar(F)
    if G.plain:
        R.ok(what, "it is given the source itself")
        return
    from reach import Constants
    C = Constants(F, (None, "parse"))
    more = [c for c in sorted(C.strs | C.chars) if len(c) < 40]
    for t in TEXTS + ["`%s`" % c for c in more]:
        for a in GAPS + more:
            for s in {t + a, a + t}:
                u = G.read(s)
                R.count("sources")
                if u == s:
                    continue
                try:
                    x, m = G.tokens(s)
                    y, n = G.tokens(u)
                except Unclear:
                    continue
                x = None if m else x
                y = None if n else y
                if (None if x is None else view(x)) != (None if y is None else view(y)):
                    R.bad(what, "for %r the lexer is given %r" % (s, u), "parse")
                    return
    R.unknown(what, show(G.lexcall.args[1][1], 5))


compare_languages = compare


def C02(F, R):
    R.part("names", c02, F, R)


def c02(F, R):
    G = grammar(F)
    seen = {}
    where = "tokenizer"

    def name(s):
        G.call.panics = []
        ts, n = G.tokens(s)
        crash = [p for p in G.call.panics if p[2] is TRUE]
        truthful(R, seen, not crash, "reading a name never crashes", lambda: "%s: %s at %s" % (ascii(s), crash[0][0], crash[0][1]), where)
        if ts is None:
            return None, n
        if crash:
            return None, 1
        if len(ts) != 1 or ts[0].op != "adt" or ts[0].args[1] != G.ident_variant:
            return None, n
        x = ts[0].args[2][0]
        if x.op not in ("lit", "str"):
            raise Unclear("name " + show(x, 5))
        try:
            return text(x), n
        except Stuck:
            raise Unclear("name " + show(x, 5))

    def one_(inner, want, what, errors=0):
        got, n = name("`%s`" % inner)
        R.count("quoted names")
        if got is None:
            if want is not None and errors == 0:
                truthful(R, seen, False, "a quoted name is read as one name", lambda: "`%s` isn't" % ascii(inner), where)
            return
        truthful(R, seen, got == want, what, lambda: "`%s` denotes %s, not %s" % (ascii(inner), ascii(got), ascii(want)), where)
        truthful(R, seen, n == errors, "an error is emitted exactly for an escape that isn't a character", lambda: "`%s`: %d errors" % (ascii(inner), n), where)
    chars = [chr(int(const(c))) for c in G.chars.letters]
    plain = [c for c in chars if c not in "\\`"]
    for c in plain:
        one_(c, c, "a plain character denotes itself")
    for e, c in ESCAPES.items():
        one_("\\" + e, c, "an escape denotes its character")
        one_("a\\%sb" % e, "a%sb" % c, "an escape denotes its character")
        for e2, c2 in ESCAPES.items():
            one_("\\%s\\%s" % (e, e2), c + c2, "escapes are read one after another")
    one_("", "", "the empty name is empty")
    one_("".join(plain), "".join(plain), "characters are kept in order")
    one_("\\\\n\\\\u0041", "\\n\\u0041", "a backslash from an escape starts no escape")
    for h in (0, 1, 0x1F, 0x41, 0x60, 0x7F, 0x80, 0xFF, 0x100, 0xABC, 0xFFF, 0x1234, 0x5C5C, 0x9ABC, 0xBEEF, 0xCDEF, 0xD7FF, 0xE000, 0xF0F0, 0xFFFD, 0xFFFE, 0xFFFF):
        for s in {"%04x" % h, "%04X" % h}:
            one_("\\u" + s, chr(h), "a unicode escape denotes the character of that number")
            one_("x\\u%s0" % s, "x%s0" % chr(h), "a unicode escape has four digits")
    for h in (0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDEAD, 0xDFFF):
        one_("\\u%04x" % h, "\uFFFD", "an escape that isn't a character denotes U+FFFD", 1)
        one_("a\\u%04Xb\\u0041" % h, "a\uFFFDbA", "an escape that isn't a character denotes U+FFFD", 1)
    # nothing else is an escape

    def no_(inner):
        got, n = name("`%s`" % inner)
        R.count("texts which are no names")
        truthful(R, seen, got is None or n > 0, "only the documented escapes are read", lambda: "`%s` is read as %s" % (ascii(inner), ascii(got)), where)
    for c in plain:
        if c not in ESCAPES and c != "u":
            no_("\\" + c)
    for k in range(4):
        for d in ("1234", "00e9", "ABCD"):
            for end in ("", "g", " ", "\\n"):
                no_("a\\u" + d[:k] + end)
    no_("\\")
    no_("\\u{41}")
    no_("\\u+041")
    N = Names(F, (None, "parse"))
    for _, w in N.ways[1:]:
        s = text(w("name"))
        if not set(s) & set("\\`") and all(num(ord(c)) in G.chars.index for c in s):
            one_(s, s, "characters are kept in order")
    given(F, R, "the lexer is given a source with the names there are", lambda ts: ts)
    for k in KEYWORDS + ["o--o"]:
        one_(k, k, "a quoted keyword is a name")
    for n in [100] + N.C.sizes(4, 300):
        one_("ab`"[:2] * n, "ab" * n, "characters are kept in order")
        one_("\\n" * n, "\n" * n, "escapes are read one after another")
    one_("\\ud83d\\ude00", "\uFFFD\uFFFD", "an escape that isn't a character denotes U+FFFD", 2)
    # names without quotes
    for w in ("a", "Z9", "_", "erdx", "_1", "xo", "o", "int4", "pk", "Erd"):
        ts, n = G.tokens(w)
        R.count("plain names")
        ok_ = ts is not None and len(ts) == 1 and ts[0].args[1] == G.ident_variant and ts[0].args[2][0] is lit(w)
        if ts is not None and len(ts) == 1 and ts[0].args[1] == G.ident_variant:
            truthful(R, seen, ok_, "a plain name denotes its characters", lambda: "%s denotes %s" % (w, show(ts[0], 4)), where)
    finish(R, seen)


# -- parser

def reference_parser(G):
    A = G.toks

    def S(*xs):
        return E("set", frozenset(A.index[x] for x in xs))
    tk = {w: G.token(w) for w in KEYWORDS + ["o--o", "\n", "{", "}", ";", "."]}
    missing = [w for w, t in tk.items() if t not in A.index]
    if missing:
        raise Unclear("tokens of %s" % missing)
    T_ = lambda w: S(tk[w])
    ident = S(G.ident(sym("name")))
    sep = S(tk["\n"], tk[";"])
    pad = E("kleene", sep)
    opt_ = lambda e: E("or", [E("eps"), e])
    ty = S(*[tk[w] for w in ("int", "uuid", "text", "timestamp")])
    key = S(tk["PK"], tk["FK"])
    fld = seq_(ident, ty, opt_(key))
    lst = lambda x: opt_(E("seq", x, E("kleene", seq_(sep, pad, x)), "both"))
    entity = seq_(ident, pad, T_("{"), pad, lst(fld), pad, T_("}"))
    path = seq_(ident, opt_(seq_(T_("."), ident)))
    rel = seq_(path, pad, T_("o--o"), pad, path)
    entry = E("or", [entity, rel])
    return seq_(pad, T_("erd"), pad, opt_(seq_(ident, pad)), T_("{"), pad, lst(entry), pad, T_("}"), pad, E("end"))


def words(G, w):
    inv = {}
    for s in KEYWORDS + ["o--o", "{", "}", ";", "."]:
        inv[G.token(s)] = s
    inv[G.token("\n")] = "\\n"
    out = []
    for i in w:
        t = G.toks.letters[i]
        out.append(inv.get(t) or ("name" if t.args[1] == G.ident_variant else show(t, 3)))
    return " ".join(out)


def C03(F, R):
    def run():
        G = grammar(F)
        diff, states, letters = compare_languages(G.parse, reference_parser(G), len(G.toks.letters), ())
        R.count("states compared", states)
        R.count("classes of tokens", letters)
        what = "the parser accepts exactly the documented modules"
        if diff is None:
            R.ok(what, "languages are equal: %d states, %d letters" % (states, letters))
            return
        R.bad(what, "%s is %s" % (words(G, diff[0]), "accepted" if diff[1] else "refused"), "erd_module_parser")
    R.part("the grammar", run)
    R.part("the tokens parsed", c03_stream, F, R)


def c03_stream(F, R):
    """what the parser is given: the tokens read, all and in order"""
    G = grammar(F)
    s = G.stream
    p, a = call_parts(s)
    if p is None or base_name(p).split("::")[-1] != "from_iter":
        raise Unclear("stream " + show(s, 5))
    toks = sym("tokens")
    got = None
    it = a[1]
    want = field(field(G.lexcall, 0), 0, "Some")
    x = tm_sub(it, want, toks)
    y = force(x) if x.op == "iter" else x
    if y is toks:
        R.ok("the parser is given the tokens of the source, all and in order")
        return
    R.check(None if opaque_ops(y) is not None or tm.contains(y, "lexcall", lambda q: q is G.lexcall) else is_copy(y, toks), "the parser is given the tokens of the source, all and in order", show(y, 6), WHERE)


def is_copy(y, toks):
    tv = fresh()
    c = seq(mkfor(toks, tv, (one(mk("el", toks, tv)),)))
    return y is c


def tm_sub(t, a, b):
    return Subst({a: b})(t)


# -- trees

def name_(s):
    return sym(s)


ENTRY_SHAPES = [
    (None, []),
    ("g", []),
    (None, [("e", 0)]),
    ("g", [("e", 3)]),
    (None, [("r", 0, 0)]),
    (None, [("r", 0, 1), ("r", 1, 0), ("r", 1, 1)]),
    ("g", [("e", 1), ("r", 1, 1), ("e", 2), ("e", 0), ("r", 0, 0), ("e", 1)]),
    (None, [("e", 12)]),
    ("g", [("e", 1)] * 5 + [("r", 1, 0)] * 3),
]
SEPS = [["\n"], [";"], ["\n", "\n", ";", "\n"]]


MORE_SHAPES = [
    ("g", [("e", 2), ("e", 2), ("r", 1, 1), ("r", 1, 1)]),
    (None, [("r", 0, 0), ("r", 0, 0), ("e", 1), ("e", 1)]),
    ("g", [("e", 40)]),
    (None, [("e", 2)] * 25),
    ("g", [("r", 1, 1)] * 25),
]


def naming(G, F):
    """-> (description, function naming the nth name of a sentence)"""
    N = Names(F, (None, "parse"), markup=True)
    N.consts += [k for k in KEYWORDS + ["o--o"] if k not in N.consts]
    out = []
    for what, f in N.ways[1:]:
        out.append((what, lambda n, f=f: f("n%d" % n)))
    for per in (1, 2, 3):
        out.append(("of %d different letters" % per, lambda n, per=per: lit("abc"[n % per])))
    out.append(("differing in case only", lambda n: lit(["name", "Name", "NAME", "nAme"][n % 4])))
    out.append(("differing in spaces only", lambda n: lit(["n", " n", "n ", "n  n"][n % 4])))
    return out


def sentences(G, S, F, shapes=None, name=None):
    """-> (tokens, tree they should give, description)"""
    I = G.ident
    tk = G.token
    types = ["int", "uuid", "text", "timestamp"]
    tyval = type_values(G, F)
    keys = [None, "PK", "FK"]
    keyval = key_values(G, F)
    c = [0]

    def nm():
        c[0] += 1
        return sym("n%d" % c[0]) if name is None else name(c[0])
    out = []
    for k, (mod, entries) in enumerate(ENTRY_SHAPES if shapes is None else shapes):
        for v, sp in enumerate(SEPS):
            sep = [tk(x) for x in sp]
            pad = sep if v else []
            c[0] = 0
            w = list(pad) + [tk("erd")]
            m = None
            if mod:
                x = nm()
                m = x
                w += pad + [I(x)]
            w += pad + [tk("{")] + pad
            es = []
            for j, e in enumerate(entries):
                if j:
                    w += sep
                if e[0] == "e":
                    x = nm()
                    w += [I(x)] + pad + [tk("{")] + pad
                    fs = []
                    for i in range(e[1]):
                        if i:
                            w += sep
                        f = nm()
                        t = types[(i + j + k) % 4]
                        q = keys[(i * 2 + j + v + i // 4) % 3]
                        w += [I(f), tk(t)] + ([tk(q)] if q else [])
                        fs.append((f, tyval[t], keyval[q] if q else None))
                    w += pad + [tk("}")]
                    es.append(("entity", x, fs))
                else:
                    ends = []
                    for n in range(2):
                        x = nm()
                        w += [I(x)]
                        if e[1 + n]:
                            y = nm()
                            w += [tk("."), I(y)]
                            ends.append((x, y))
                        else:
                            ends.append((x, None))
                        if n == 0:
                            w += pad + [tk("o--o")] + pad
                    es.append(("relation", ends[0], ends[1]))
            w += pad + [tk("}")] + pad
            out.append((w, (m, es), "module %s with %s, separated by %s" % ("g" if mod else "without a name", entries, " ".join(map(repr, sp)))))
    return out


def type_values(G, F):
    out = {}
    for w, v in (("int", "Int"), ("uuid", "Uuid"), ("text", "Text"), ("timestamp", "Timestamp")):
        out[w] = F.mk("EntityFieldType", v)
    return out


def key_values(G, F):
    return {"PK": F.mk("EntityFieldKey", "PrimaryKey"), "FK": F.mk("EntityFieldKey", "ForeginKey")}


def C04(F, R):
    def run():
        G = grammar(F)
        S = Shapes(F)
        seen = {}
        where = "parser::parse"
        todo = sorted(sentences(G, S, F), key=lambda x: len(x[0]))
        # literal names first: with unknown ones, comparing them may be a matter of many cases
        todo = [(w, t, d + ", names " + what) for what, f in naming(G, F) for w, t, d in sentences(G, S, F, (ENTRY_SHAPES + MORE_SHAPES)[3:9] + MORE_SHAPES[:2], f)] + \
               [x for x in sentences(G, S, F, MORE_SHAPES, lambda n: lit("n%d" % n))] + todo
        todo.sort(key=lambda x: len(x[0]) > 30)
        for w, want, det in todo:
            got = G.tree(w)
            R.count("sentences")
            if got is None:
                # for C03
                seen.setdefault("the sentence is accepted", "not accepted: " + det)
                continue
            what = "the tree holds each entity, field, relation and name written, in order"
            try:
                have = tree_of(F, got)
            except Unclear as e:
                seen.setdefault(what, "undecided: %s: %s" % (det, e))
                continue
            d = unlike(have, want, "the module")
            if d is None:
                truthful(R, seen, True, what, "", where)
            elif d[0]:
                truthful(R, seen, False, what, lambda: "%s: %s" % (det, d[1]), where)
            else:
                seen.setdefault(what, "undecided: %s: %s" % (det, d[1]))
        finish(R, seen)
    R.part("sentence by sentence", run)


def unlike(a, b, at):
    """-> None, or (is it certain, what differs)"""
    if isinstance(a, T) and isinstance(b, T):
        q = same(a, b)
        return None if q else (q is False, "%s is %s, not %s" % (at, show(a, 6)[:200], show(b, 6)[:200]))
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else (True, "%s is %s, not %s" % (at, a, b))
    if a is None and b is None:
        return None
    if type(a) is not type(b):
        return True, "%s is %s" % (at, "missing" if a is None else "there, though not written" if b is None else "something else")
    if len(a) != len(b):
        return True, "%s has %d parts, not %d" % (at, len(a), len(b))
    rs = [r for r in (unlike(x, y, "%s, part %d" % (at, i + 1)) for i, (x, y) in enumerate(zip(a, b))) if r]
    return next((r for r in rs if r[0]), rs[0] if rs else None)


# -- spelling

def C05(F, R):
    R.part("keywords", c05, F, R)


def c05(F, R):
    G = grammar(F)
    S = Shapes(F)
    seen = {}
    where = "tokenizer, erd_module_parser, Display"

    def shown(ty, v):
        try:
            return text(F.display(ty, v))
        except Stuck:
            raise Unclear("printed form of " + show(v, 3))
    # every type and key is the meaning of exactly one keyword
    base = lambda t, k=None: [G.token("erd"), G.token("{"), G.ident(sym("e")), G.token("{"), G.ident(sym("f")), t] + ([k] if k else []) + [G.token("}"), G.token("}")]

    def meaning(w, with_type=None):
        toks, n = G.tokens(w)
        if toks is None or len(toks) != 1:
            return None
        return G.tree(base(toks[0]) if with_type is None else base(with_type, toks[0]))
    int_ = G.token("int")
    tn, kn = F.variants("EntityFieldType"), F.variants("EntityFieldKey")
    words_ = sorted({w for w in KEYWORDS} | lexed_keywords(G))
    meant_t, meant_k = {}, {}
    for w in words_:
        for v in tn:
            if meaning(w) is S.module(NONE, [("entity", S.entity(sym("e"), [S.field(sym("f"), F.mk("EntityFieldType", v), NONE)]))]):
                meant_t.setdefault(v, []).append(w)
        for v in kn:
            m = meaning(w, int_)
            if m is not None and any(m is S.module(NONE, [("entity", S.entity(sym("e"), [S.field(sym("f"), F.mk("EntityFieldType", t), some(F.mk("EntityFieldKey", v)))]))]) for t in tn):
                meant_k.setdefault(v, []).append(w)
    R.count("keywords", len(words_))
    for v in tn:
        ws = meant_t.get(v, [])
        truthful(R, seen, len(ws) == 1, "every field type is written with one keyword", lambda: "type %s: %s" % (v, ws), where)
        if ws:
            s = shown("EntityFieldType", F.mk("EntityFieldType", v))
            truthful(R, seen, s == ws[0], "a field type is printed as it is written", lambda: "type %s is written %s and printed %s" % (v, ws[0], s), where)
            ts = shown("Token", G.token(ws[0]))
            truthful(R, seen, ts == ws[0], "a keyword token is printed as it is written", lambda: "%s is printed %s" % (ws[0], ts), where)
    for v in kn:
        ws = meant_k.get(v, [])
        truthful(R, seen, len(ws) == 1, "every key is written with one keyword", lambda: "key %s: %s" % (v, ws), where)
        if ws:
            k = F.val("EntityFieldKey", "to_keyword", F.mk("EntityFieldKey", v))
            truthful(R, seen, k is lit(ws[0]), "a key's keyword is as it is written", lambda: "key %s is written %s, its keyword is %s" % (v, ws[0], show(k, 3)), where)
            ts = shown("Token", G.token(ws[0]))
            truthful(R, seen, ts == ws[0], "a keyword token is printed as it is written", lambda: "%s is printed %s" % (ws[0], ts), where)
            # in the printed tree
            d = text_or_none(F.display("EntityField", S.field(lit("name"), F.mk("EntityFieldType", tn[0]), some(F.mk("EntityFieldKey", v)))))
            if d is None:
                raise Unclear("printed field")
            truthful(R, seen, d.split(" ")[-1] == ws[0], "a key is printed in the tree as it is written", lambda: "key %s is written %s; a field prints %r" % (v, ws[0], d), where)
    # in the diagram
    for v in tn:
        for q in [None] + kn:
            fld = S.field(lit("name"), F.mk("EntityFieldType", v), some(F.mk("EntityFieldKey", q)) if q else NONE)
            d = F.val("Module", "into_mir", S.module(NONE, [("entity", S.entity(lit("e"), [fld]))]))
            V = S.view(d)
            row = V.kind(V.children(V.body()[0])[1])
            shape = field(row, 0)
            sub = opt(field(shape, F.idx("FieldShape", "subtitle")))
            bad = opt(field(shape, F.idx("FieldShape", "badge")))
            st_ = field(sub, F.idx("TextSpan", "text")) if sub is not None else None
            bt = field(bad, F.idx("Badge", "text")) if bad is not None else None
            R.count("labels")
            if meant_t.get(v):
                truthful(R, seen, st_ is lit(meant_t[v][0]), "a field type is shown in the diagram as it is written", lambda: "type %s is written %s and shown %s" % (v, meant_t[v][0], show(st_, 3) if st_ is not None else "nowhere"), where)
            if q and meant_k.get(q):
                truthful(R, seen, bt is lit(meant_k[q][0]), "a key is shown in the diagram as it is written", lambda: "key %s is written %s and shown %s" % (q, meant_k[q][0], show(bt, 3) if bt is not None else "nowhere"), where)
    ws = [x for v in list(meant_t.values()) + list(meant_k.values()) for x in v]
    truthful(R, seen, len(set(ws)) == len(ws), "no two types or keys share a keyword", lambda: str(sorted(ws)), where)
    finish(R, seen)


def text_or_none(t):
    try:
        return text(t)
    except Stuck:
        return None


def lexed_keywords(G):
    """words among the lexer's constants which are tokens of their own"""
    out = set()
    for x in tm.subterms(G.lexcall.args[1][0]):
        if x.op == "lit" and isinstance(x.args[0], str) and x.args[0].isascii() and x.args[0].isidentifier():
            try:
                ts, n = G.tokens(x.args[0])
            except Unclear:
                continue
            if ts is not None and len(ts) == 1 and not ts[0].args[2]:
                out.add(x.args[0])
    return out
