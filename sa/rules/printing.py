import re
from docs import *
from strs import text
from rules.lower import truthful, finish


class Skip(Exception):
    """a name which can't be told apart in the printed text"""


def words(t, names):
    """the words and punctuation of a text"""
    return re.findall(r"[{};.]|o--o|[^\s{};.]+", raw(t, names))


def raw(t, names):
    """a text; unknown strings stand for themselves. names: {symbol: placeholder}"""
    out = []
    for s in strsegs(t):
        if s.op != "one" or s.args[0] is not TRUE:
            if s.op == "one" and s.args[0] is FALSE:
                continue
            raise Unclear("text " + show(t, 5))
        v = s.args[1]
        while v.op == "disp":
            v = v.args[0]
        if v.op == "lit":
            out.append(v.args[0])
        elif v in names:
            out.append(names[v])
        elif v.op == "num":
            out.append(chr(int(const(v))))
        else:
            raise Unclear("text " + show(v, 5))
    return "".join(out)


def C34(F, R):
    S = Shapes(F)
    seen = {}
    types, keys = F.variants("EntityFieldType"), F.variants("EntityFieldKey")
    tname, kname = F.tyname("EntityFieldType"), F.tyname("EntityFieldKey")
    tword = {t: words(F.display("EntityFieldType", adt(tname, t)), {})[0] for t in types}
    kword = {k: words(F.val("EntityFieldKey", "to_keyword", adt(kname, k)), {})[0] for k in keys}

    def run():
        n = [0]
        names = {}
        way = [None]
        N = Names(F, ("Module", "fmt", "Display"))

        def name():
            n[0] += 1
            if way[0]:
                s = way[0]("n%d" % n[0])
                names[s] = text(s)
                if not re.fullmatch(r"[^\s{};.]+", names[s]):
                    s = way[0] = None
                    raise Skip()
                return s
            s = sym("n%d" % n[0])
            names[s] = "<n%d>" % n[0]
            return s
        shapes = [(), (0,), (1,), (3,), (2, "rff", 1), ("ree", "ref", "rfe"), (0, 0, 4, "ree"), ("rff",)]
        big = [(40,), (1,) * 40, ("ref",) * 40, ("ree", 1, "rff", 2) * 12] + [s for k in N.C.sizes(4, 300) for s in ((k,), (1,) * k, ("rff",) * k)]
        count = 0
        late = Later()
        for named, shape, (what, w) in [(a, b, c) for c in N.ways + [("the same for all", lambda i: lit("n1"))] for a in (False, True) for b in shapes] + [(a, b, N.ways[0]) for a in (False, True) for b in big]:
            with late:
                way[0] = w if what != "unknown" else lit if late.first and shape in big else None
                names.clear()
                try:
                    es, want = [], []
                    mn = name() if named else None
                    want += ["erd"] + ([names[mn]] if named else []) + ["{"]
                    for k in shape:
                        if isinstance(k, int):
                            e = name()
                            fs = []
                            w = [names[e], "{"]
                            for i in range(k):
                                f = name()
                                ty = types[count % len(types)]
                                kk = ([None] + list(keys))[(count // 2) % (1 + len(keys))]
                                count += 1
                                fs.append(S.field(f, adt(tname, ty), some(adt(kname, kk)) if kk else NONE))
                                w += ([";"] if i else []) + [names[f], tword[ty]] + ([kword[kk]] if kk else [])
                            es.append(("entity", S.entity(e, fs)))
                            want += w + ["}"]
                        else:
                            ps = []
                            for j, c in enumerate(k[1:]):
                                a, b = name(), name()
                                ps.append(S.path(a, b if c == "f" else None))
                                want += (["o--o"] if j else []) + [names[a]] + ([".", names[b]] if c == "f" else [])
                            es.append(("relation", S.relation(*ps)))
                    want.append("}")
                    m = S.module(some(mn) if named else NONE, es)
                    got = words(F.display("Module", m), names)
                    R.count("shapes of modules")
                    truthful(R, seen, got == want, "the printed words are the module's name, entries, fields, types and keys in order, fields separated by semicolons (%s name)" % ("with a" if named else "no"),
                             lambda: "printed %s, not %s" % (" ".join(got), " ".join(want)), "Display of Module")
                except Skip:
                    continue
        for ty in types:
            for kk in [None] + list(keys):
                f = S.field(sym("f"), adt(tname, ty), some(adt(kname, kk)) if kk else NONE)
                got = words(F.display("EntityField", f), {sym("f"): "<f>"})
                truthful(R, seen, got == ["<f>", tword[ty]] + ([kword[kk]] if kk else []), "a field prints as its name, its type's keyword and its key's keyword if it has one", lambda: " ".join(got), "Display of EntityField")
        finish(R, seen)
        late.done()
    R.part("shape by shape", run)

    def uniform():
        N = Names(F, ("Module", "fmt", "Display"))

        def module(name):
            k = lambda i: some(adt(kname, keys[i]))
            fs = [S.field(name("f1"), adt(tname, types[0]), NONE), S.field(name("f2"), adt(tname, types[1]), k(0)), S.field(name("f3"), adt(tname, types[-1]), k(1))]
            return S.module(some(name("m")), [("entity", S.entity(name("e1"), fs)), ("entity", S.entity(name("e2"), [])), ("relation", S.relation(S.path(name("e1"), name("f1")), S.path(name("e2"))))])
        keys_ = ["m", "e1", "e2", "f1", "f2", "f3"]
        try:
            plain = raw(F.display("Module", module(sym)), {sym(k): "\x01%s\x02" % k for k in keys_})
        except Unclear:
            # it depends on the names: as it is for plain ones
            plain = re.sub(r"zz(\w+)", "\x01\\1\x02", raw(F.display("Module", module(lambda k: lit("zz" + k))), {}))
        what = "names are printed as they are, whatever they contain"
        for w, f in N.ways[1:] + [("of separators", lambda k, c=c: lit(c % k)) for c in ("%s.x", ". %s", "{%s}", "%s;", "%s\n", "a %s b", "`%s`", "\\%s", "%s\"", "1%s", "erd%.0s", "int%.0s", "o--o%.0s", "%.0s", "//%s")]:
            vs = {k: f(k) for k in keys_}
            want = re.sub("\x01(.*?)\x02", lambda m: text(vs[m.group(1)]), plain)
            got = raw(F.display("Module", module(vs.get)), {})
            R.count("ways to name things")
            truthful(R, seen2, got == want, what, lambda: "names %s: printed %r, not %r" % (w, got[:300], want[:300]), "Display of Module")
        finish(R, seen2)
    seen2 = {}
    R.part("names", uniform)
