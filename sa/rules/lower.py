from docs import *
from strs import text

# Shapes of modules: number of fields of each entity, "r" for a relation
SHAPES = [(), (0,), (1,), (2,), (4,), (40,), (1, 2), (2, "r", 0, 1), ("r", 1, "r", 2), (1, 1, 1, 1, 1), (1,) * 40, ("r",), (3, 0, "r", "r", 2, 1)]


def module_of(S, shape, key=sym, name=sym):
    ents, es = [], []
    for n, k in enumerate(shape):
        if k == "r":
            es.append(("relation", S.relation(S.path(lit("nowhere%d" % n)), S.path(lit("no"), lit("where")))))
        else:
            fs = [(name("f%d.%d" % (n, i)), sym("t%d.%d" % (n, i)), key("k%d.%d" % (n, i))) for i in range(k)]
            ents.append((name("e%d" % n), fs))
            es.append(("entity", S.entity(name("e%d" % n), [S.field(*f) for f in fs])))
    return S.module(NONE, es), ents


def compare(R, seen, a, b, what, detail, where):
    """once per kind of obligation: are two values the same?"""
    r = same(a, b)
    R.count("values compared")
    k = seen.get(what)
    if r is True:
        seen.setdefault(what, True)
    elif r is False:
        if k is not False:
            seen[what] = False
            R.bad(what, detail() + ": is %s, not %s" % (show(a, 6), show(b, 6)), where)
    elif k is not False:
        seen[what] = "undecided: %s, not %s" % (show(a, 5), show(b, 5))
    return r


def truthful(R, seen, c, what, detail, where):
    R.count("facts compared")
    if not c and seen.get(what) is not False:
        seen[what] = False
        R.bad(what, detail(), where)
    elif c:
        seen.setdefault(what, True)


def finish(R, seen):
    for what, r in seen.items():
        if r is True:
            R.ok(what)
        elif r is not False:
            R.unknown(what, str(r))


def C09(F, R):
    R.part("shape by shape", c09_shapes, F, R)


def c09_shapes(F, R):
    S = Shapes(F)
    where = "Module::into_mir"
    seen = {}
    N = Names(F, ("Module", "into_mir"))
    big = [(k,) for k in N.C.sizes(4, 150)] + [(1,) * k for k in N.C.sizes(5, 80)]
    late = Later()
    ks = F.variants("EntityFieldKey")
    small = lambda s: len(s) < 5 and all(k in ("r", 0, 1, 2, 3, 4) for k in s)
    # what is known first: it can't be left open
    todo = [(s, ("known keys", sym)) for s in SHAPES if small(s)]
    todo += [(s, w) for s in SHAPES if len(s) < 5 for w in N.ways[1:] + [("empty", lambda k: lit("")), ("the same for all", lambda k: lit("n"))]]
    todo += [((k,), ("known", lit)) for k in N.C.sizes(200, 1100)]
    todo += sorted([(s, N.ways[0]) for s in SHAPES + big] + [(s, ("known keys", sym)) for s in SHAPES + big if not small(s)], key=lambda x: not small(x[0]))
    for shape, (what, name) in todo:
        with late:
            if what == "unknown" and late.first and not small(shape):
                what, name = "known", lit
            known = what == "known keys"
            n = [0]

            def key(_):
                n[0] += 1
                j = (n[0] * 7 + n[0] // 3) % (1 + len(ks))
                return some(F.mk("EntityFieldKey", ks[j - 1])) if j else NONE
            m, ents = module_of(S, shape, name=name, **({"key": key} if known else {}))
            d = F.val("Module", "into_mir", m)
            V = S.view(d)
            det = lambda: "module of shape %s, names %s" % (shape, what)
            body = V.body()
            truthful(R, seen, len(body) == len(ents), "one record per entity definition", lambda: "%s: %d records" % (det(), len(body)), where)
            ids = list(body)
            if len(body) != len(ents):
                continue
            R.count("shapes of modules")
            for r, (name, fs) in zip(body, ents):
                k = V.kind(r)
                truthful(R, seen, k.op == "adt" and k.args[1] == "Record", "every child of the body is a record", lambda: det() + ": " + show(k, 4), where)
                ch = V.children(r)
                ids += ch
                truthful(R, seen, len(ch) == 1 + len(fs), "a record has a header row and one row per field", lambda: "%s: entity with %d fields has %d rows" % (det(), len(fs), len(ch)), where)
                if len(ch) != 1 + len(fs):
                    continue
                for i, c in enumerate(ch):
                    kc = V.kind(c)
                    if not (kc.op == "adt" and kc.args[1] == "Field"):
                        truthful(R, seen, kc.op != "adt", "every row is a field shape", lambda: det() + show(kc, 4), where)
                        if kc.op != "adt":
                            seen["every row is a field shape"] = "undecided: " + show(kc, 4)
                        continue
                    sh = kc.args[2][0]
                    g = lambda n, x=sh, ty="FieldShape": field(x, F.idx(ty, n))
                    text_ = lambda x: field(x, F.idx("TextSpan", "text"))
                    title = text_(g("title"))
                    if i == 0:
                        compare(R, seen, title, name, "the header row is the first and is titled with the entity's name", det, where)
                        compare(R, seen, is_variant(g("subtitle"), NONE_T, "Some"), FALSE, "the header row shows nothing else", det, where)
                        compare(R, seen, is_variant(g("badge"), NONE_T, "Some"), FALSE, "the header row shows nothing else", det, where)
                        continue
                    fname, ft, fk = fs[i - 1]
                    compare(R, seen, title, fname, "the rows after the header show the fields' names in order", det, where)
                    st = g("subtitle")
                    compare(R, seen, is_variant(st, NONE_T, "Some"), TRUE, "every field's row shows a type", det, where)
                    compare(R, seen, text_(field(st, 0, "Some")), F.display("EntityFieldType", ft), "a field's row shows its own type", det, where)
                    bd = g("badge")
                    has = is_variant(fk, NONE_T, "Some")
                    compare(R, seen, is_variant(bd, NONE_T, "Some"), has, "a field's row has a badge exactly if the field has a key", det, where)
                    bt = ite(has, field(field(bd, 0, "Some"), F.idx("Badge", "text")), lit(""))
                    want = ite(has, field(F.val("EntityFieldKey", "into_mir", field(fk, 0, "Some")), F.idx("Badge", "text")), lit(""))
                    compare(R, seen, bt, want, "the badge is that of the field's own key", det, where)
            truthful(R, seen, len(set(ids)) == len(ids), "no two records or rows share a node", det, where)
    for k in F.variants("EntityFieldKey"):
        a = field(F.val("EntityFieldKey", "into_mir", F.mk("EntityFieldKey", k)), F.idx("Badge", "text"))
        b = F.val("EntityFieldKey", "to_keyword", F.mk("EntityFieldKey", k))
        compare(R, seen, a, b, "a key's badge shows the key's keyword", lambda: k, "EntityFieldKey::into_mir")
    finish(R, seen)
    late.done()


def C10(F, R):
    R.part("shape by shape", c10_shapes, F, R)


def c10_shapes(F, R):
    S = Shapes(F)
    where = "Module::into_mir"
    seen = {}
    names = ["a", "b", "c", "d"]
    layouts = [
        # entities with their fields, and relations, in order
        [("a", "xy"), (("a", "x"), ("b", None)), ("b", "x")],
        [(("a", None), ("b", "x")), ("a", ""), ("b", "x")],
        [("a", "x"), ("b", "y"), (("b", "y"), ("a", "x")), (("a", "x"), ("b", "y")), (("a", "x"), ("b", "y"))],
        [("a", "x"), (("a", "x"), ("a", "x")), (("a", None), ("a", None)), (("a", None), ("a", "x"))],
        [("a", "x"), (("a", "y"), ("a", "x")), (("a", "x"), ("a", "y")), (("b", None), ("a", None)), (("a", None), ("b", "x")), (("b", "x"), ("b", "y"))],
        [(("a", "x"), ("b", "y")), (("q", None), ("a", None)), (("b", None), ("a", None)), ("a", "xy"), (("b", "x"), ("a", "y")), ("b", "xy"), (("a", "x"), ("z", "y"))],
        [("x", "a"), ("a", "x"), (("x", "a"), ("a", "x")), (("x", None), ("a", None)), (("x", "x"), ("a", "a"))],
        [("a", "xyz"), ("b", "xyz"), ("c", "xyz"), (("c", "z"), ("a", "x")), (("b", "z"), ("b", "y")), (("a", "z"), ("c", None))],
        [],
        [("a", "x"), (("a", "x"), ("b", None))],
        [("a.b", "x"), ("a", "b"), (("a", "b"), ("a.b", "x")), (("a.b", None), ("a", None))],
    ]
    layouts.append([(n, "xy") for n in "abcdefghijklmnopqrst"] + [((a, "x"), (b, "y")) for a in "abcde" for b in "fghijkl"] + [((a, "y"), (b, None)) for a in "mnopq" for b in "abc"])
    N = Names(F, ("Module", "into_mir"))
    for k in N.C.sizes(20, 120):
        ns = ["e%d" % i for i in range(k)]
        layouts.append([(n, "x") for n in ns] + [((a, "x"), (b, None)) for a, b in zip(ns, ns[1:] + ns[:1])])
    plain = [("as they are", lambda k: k)]
    close = [("differing in case only", {"a": "nAme", "b": "name", "c": "NAME", "x": "Id", "y": "id", "z": "ID", "q": "namE", "d": "Name"}),
             ("differing in spaces only", {"a": " n", "b": "n", "c": "n ", "x": "n  ", "y": "n", "z": " n", "q": "n\t", "d": "  n"}),
             ("differing in an accent only", {"a": "\u00e9", "b": "e\u0301", "c": "e", "x": "\u00e9", "y": "e", "z": "e\u0301", "q": "\u00c9", "d": ""})]
    ways = plain + [(w, (lambda m: lambda k: m.get(k, k))(m)) for w, m in close] + [(w, (lambda f: lambda k: text(f(k)))(f)) for w, f in N.ways if w not in ("unknown", "short")]
    late = Later()
    for lay, (what, nm_) in [(l, w) for l in layouts for w in ways if len(l) < 20 or w in plain]:
        with late:
            lay = [(nm_(it[0]), [nm_(f) for f in it[1]]) if isinstance(it[0], str) else tuple((nm_(e), f if f is None else nm_(f)) for e, f in it) for it in lay]
            es, want = [], []
            defs = {}
            for it in lay:
                if isinstance(it[0], str):
                    defs[it[0]] = it[1]
                    es.append(("entity", S.entity(lit(it[0]), [S.field(lit(f), sym("t"), sym("k")) for f in it[1]])))
                else:
                    es.append(("relation", S.relation(*[S.path(lit(e)) if f is None else S.path(lit(e), lit(f)) for e, f in it])))
            m = S.module(NONE, es)
            det = lambda: "module " + "; ".join("entity %s {%s}" % (it[0], " ".join(it[1])) if isinstance(it[0], str) else " -- ".join(e if f is None else "%s.%s" % (e, f) for e, f in it) for it in lay)
            d = F.val("Module", "into_mir", m)
            if d is UNDEF:
                R.bad("a relation does no harm", det() + ": lowering panics", where)
                seen["a relation does no harm"] = False
                continue
            V = S.view(d)
            R.count("layouts of modules")
            nodes = {}
            order = [it[0] for it in lay if isinstance(it[0], str)]
            body = V.body()
            if len(body) != len(order):
                raise Unclear("records")
            for n, r in zip(order, body):
                nodes[(n, None)] = r
                ch = V.children(r)
                for f, c in zip(defs[n], ch[1:]):
                    nodes[(n, f)] = c
            for it in lay:
                if not isinstance(it[0], str) and it[0] in nodes and it[1] in nodes:
                    want.append((nodes[it[0]], nodes[it[1]]))
            got = V.edges()
            ends = V.endpoints()
            nm = {v: k for k, v in nodes.items()}
            pr = lambda l: ", ".join("%s--%s" % (nm.get(a, show(a, 3)), nm.get(b, show(b, 3))) for a, b in l)
            truthful(R, seen, len(got) == len(want), "one edge per relation whose two paths name something defined in the module, and no other", lambda: "%s: %d edges: %s" % (det(), len(got), pr([(a, b) for a, b, _ in got])), where)
            truthful(R, seen, sorted([(a, b) for a, b, _ in got]) == sorted(want) or len(got) != len(want), "an edge runs from the node of the start path to that of the end path", lambda: "%s: edges %s" % (det(), pr([(a, b) for a, b, _ in got])), where)
            truthful(R, seen, [(a, b) for a, b, _ in got] == want or sorted([(a, b) for a, b, _ in got]) != sorted(want), "edges are in the order of the relations", lambda: "%s: edges %s" % (det(), pr([(a, b) for a, b, _ in got])), where)
            truthful(R, seen, [(a, b) for a, b, _ in got] == ends, "the ends an edge names are those it connects in the graph", lambda: "%s: %s" % (det(), pr(ends)), where)
            truthful(R, seen, True, "a relation does no harm", det, where)
    finish(R, seen)
    late.done()
