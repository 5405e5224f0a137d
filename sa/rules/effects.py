from docs import *
from interp import norm_path
from tool import *
from reach import Reach, Constants
from rules.lower import truthful, finish
import terms as tm

MAIN = "main"


def stage_roots(F):
    """what a user calls: parsing, lowering, layout, rendering, printing"""
    roots = [F.fn(None, "parse").j["key"], F.fn("Module", "into_mir").j["key"]]
    for b in F.p.bodies.values():
        s = base_name(Program.adt_name(b.j.get("self") or "")).split("::")[-1].split("<")[0]
        if b.j["kind"] == "fn" and s in ("SimpleLayoutEngine", "SVGRenderer", "Document", "NodeData", "EdgeData", "Module"):
            roots.append(b.j["key"])
    return roots


def callee(fn):
    p = fn.get("rp") or fn["p"]
    return p, norm_path(p)


def chain(RC, b):
    return RC.path_to(b.j["key"])


# ---------------------------------------------------------------- C07

OUTSIDE = {
    "stdio": {"_print": "prints to standard output", "_eprint": "prints to standard error", "stdout": "opens standard output", "stderr": "opens standard error", "stdin": "reads standard input"},
    "fs": None, "File": None, "OpenOptions": None, "process": None, "Command": None, "TcpStream": None, "UdpSocket": None, "UnixStream": None,
}


def C07(F, R):
    def lib():
        RC = Reach(F, stage_roots(F))
        R.count("functions reachable from the stages", len(RC.seen))
        R.count("calls of other crates", len(RC.sites))
        what = "parsing, lowering, layout and rendering touch no stream, file or process of their own"
        bad = []
        for b, fn, sp in RC.sites:
            p, (ow, name) = callee(fn)
            if not (p.lstrip("<&").startswith(("std::", "core::", "alloc::")) or ow in OUTSIDE):
                continue
            if ow in OUTSIDE:
                d = OUTSIDE[ow]
                if d is None or name in d:
                    if ow == "process" and name in ("abort",):
                        continue
                    bad.append((b, p, sp))
        for b, p, sp in bad:
            R.bad(what, "%s calls %s" % (chain(RC, b), p), sp or "")
        if not bad:
            R.ok(what, "no such call among %d in %d functions" % (len(RC.sites), len(RC.seen)))
    R.part("library", lib)

    def writes():
        from rules.render import scenes, Scene
        seen = {}
        for item in scenes(F):
            dr = Scene(F, *item).draw()
            R.count("documents drawn")
            for g, how, w, text, res in dr.log:
                ok_ = w is sym("writer")
                truthful(R, seen, ok_ or opaque_ops(w) is not None or w.op == "sym", "the renderer writes to the writer it is given", lambda: "%s to %s" % (how, show(w, 4)), "SVGRenderer::render")
        finish(R, seen)
    R.part("the renderer's writes", writes)

    def tool():
        seen = {}
        for W, det in worlds(F):
            W.run()
            R.count("shapes of runs")
            outs = []
            for e in W.events:
                if e.g is FALSE:
                    continue
                to = target(e)
                if to is None and e.kind == "print":
                    raise Unclear("print to " + show(e.args[0], 4))
                if to == "stdout" and e.kind not in ("render", "flush", "deliver"):
                    truthful(R, seen, False, "only the renderer writes to standard output", lambda: "%s: %s" % (det, e), MAIN)
                if e.kind == "deliver" and to == "stdout":
                    outs.append(e)
                if e.kind == "render" and to == "memory":
                    later = [x for x in W.events if x.kind == "deliver" and x.g is TRUE]
                    truthful(R, seen, bool(later) or not all_certain(W), "the diagram goes to standard output", lambda: "%s: it is drawn, but not written" % det, MAIN)
                    if later and all(target(x) is None for x in later):
                        seen.setdefault("the diagram goes to standard output", "undecided: writer " + show(later[0].args[0], 5))
                elif e.kind == "render":
                    outs.append(e)
                    w = to
                    if w is None:
                        seen.setdefault("the diagram goes to standard output", "undecided: writer " + show(e.args[2], 5))
                    else:
                        truthful(R, seen, w == "stdout", "the diagram goes to standard output", lambda: "%s: it is written to %s" % (det, w), MAIN)
            truthful(R, seen, True, "only the renderer writes to standard output", "", MAIN)
            truthful(R, seen, len(outs) <= 1, "at most one diagram is written", lambda: "%s: %d are" % (det, len(outs)), MAIN)
            for e in W.of("report", "print"):
                truthful(R, seen, target(e) == "stderr" or target(e) is None, "diagnostics go to standard error", lambda: "%s: %s" % (det, e), MAIN)
        finish(R, seen)
    R.part("the tool", tool)


def all_certain(W):
    return all(x.g is TRUE for x in W.events)


def target(e):
    """the stream an event writes to, None: unknown"""
    if e.kind in ("print", "report", "flush", "deliver"):
        w = e.args[0]
    elif e.kind == "render":
        w = e.args[2]
    else:
        return ""
    while w.op == "bufwriter":
        w = w.args[0]
    return w.args[0] if w.op == "lit" else None


KINDS = ("Unexpected", "Custom", "Unclosed")


def said(F):
    """texts the tool itself has as constants: what it could look for in a path or in the source"""
    C = Constants(F, F.fn(None, "main", crate="bin").j["key"], skip=stages(F))
    out = sorted(C.strs | {c for c in C.chars}) + ["-", "--", "--help"]
    return list(dict.fromkeys(x for x in out if x.strip()))[:60]


def special(F):
    """runs on sources and paths which say something the tool has a constant of"""
    for c in said(F):
        for src in (c, c.upper() if c.upper() != c else c.lower(), "erd { %s }" % c, "%s\nerd { a { id int } }\n" % c, "erd { a { id int } }\n%s" % c):
            yield dict(nargs=2, source=src), "a source of the text %r" % src[:60]
            yield dict(nargs=1, source=src), "the text %r on standard input" % src[:60]
        for path in (c, "dir/" + c, c + ".erd", "x" + c):
            yield dict(nargs=2, args=[path]), "the path %r" % path[:60]
        yield dict(nargs=3, args=["path of the file", c]), "the path of a file followed by %r" % c[:60]
        yield dict(nargs=3, args=[c, "path of the file"]), "%r followed by the path of a file" % c[:60]
    for n in (0, 1, 2, 1000, 100000):
        yield dict(nargs=1, source="x" * n), "a source of %d letters" % n


def worlds(F):
    """shapes of runs without failing I/O"""
    for kw, det in special(F):
        yield World(F, **kw), det
    a = Mistake("error1")
    for kw, det in special(F):
        yield World(F, parse=[a], ast=False, **kw), det + ", a syntax error, no tree"
    for ast in (True, False):
        yield World(F, ast=ast, env=True), "every environment variable set, %s" % ("a tree" if ast else "no tree")
        yield World(F, lex=[a], parse=[Mistake("error2", "Custom")], ast=ast, env=True), "every environment variable set, errors, %s" % ("a tree" if ast else "no tree")
    for nargs in (1, 2, 3):
        for ast in (True, False):
            yield World(F, nargs=nargs, ast=ast), "%d arguments, %s" % (nargs - 1, "a tree" if ast else "no tree")
    for ast in (True, False):
        for k in KINDS:
            for found in (True, False):
                for ne in (0, 1, 4):
                    a = Mistake("error1", k, found, ne)
                    yield World(F, lex=[a], ast=ast), "a lexical error (%s, %s found, %d expected), %s" % (k, "something" if found else "nothing", ne, "a tree" if ast else "no tree")
                    yield World(F, parse=[a], ast=ast), "a syntax error (%s, %s found, %d expected), %s" % (k, "something" if found else "nothing", ne, "a tree" if ast else "no tree")
        yield World(F, nargs=1, lex=[Mistake("error1", "Unexpected"), Mistake("error2", "Custom"), Mistake("error3", "Unexpected", False, 0)], parse=[Mistake("error4", "Unexpected", True, 5), Mistake("error5", "Unclosed", False), Mistake("error6", "Custom")], ast=ast), "six errors, %s" % ("a tree" if ast else "no tree")
        for spans in ([(1, 2), (5, 9), (30, 31)], [(40, 41), (3, 3), (3, 7), (3, 3), (90, 300)], [(0, 5000), (7, 8), (100, 100), (100, 101)]):
            for k in (0, 2, len(spans)):
                ms = [Mistake("error%d" % i, KINDS[i % 3], True, 1, at) for i, at in enumerate(spans)]
                yield World(F, lex=ms[:k], parse=ms[k:], ast=ast), "errors at %s, %d of them lexical, %s" % (spans, k, "a tree" if ast else "no tree")
        yield World(F, lex=[Mistake("error%d" % i, KINDS[i % 3]) for i in range(20)], parse=[Mistake("error%d" % i, KINDS[i % 3]) for i in range(20, 33)], ast=ast), "33 errors, %s" % ("a tree" if ast else "no tree")


# ---------------------------------------------------------------- C06

def reported(W, m):
    """under which conditions does standard error get something about this mistake?"""
    names = {m.v, mk("sym", "message of " + m.name), mk("sym", "found by " + m.name), mk("sym", "delimiter of " + m.name)}
    g = FALSE
    for e in W.of("report", "print"):
        if target(e) != "stderr":
            continue
        if any(tm.contains(a, "m" + m.name, lambda x: x in names) for a in e.args[1:]):
            g = b_or(g, e.g)
    return g


def C06(F, R):
    def result():
        from rules.syntax import grammar
        G = grammar(F)
        seen = {}
        where = "parse"
        lex_errs, parse_errs, tree, toks = sym("lexical errors"), sym("syntax errors"), sym("tree"), sym("tokens")
        for got in (some(toks), NONE):
            def to(x):
                if x is G.lexcall:
                    return tup(got, lex_errs)
                if x is G.parsecall:
                    return tup(tree, parse_errs)
                return None
            r = Subst({}, to)(G.result)
            det = "the lexer gives %s" % ("tokens" if got is not NONE else "nothing")
            want = (tree if got is not NONE else NONE, lex_errs, parse_errs if got is not NONE else seq())
            for i, what in ((1, "all lexical errors are handed back"), (2, "all syntax errors are handed back"), (0, "the tree read is handed back")):
                x = field(r, i)
                x = copied(x, want[i])
                q = same(x, want[i])
                if q is None:
                    seen.setdefault(what, "undecided: %s: %s" % (det, show(x, 5)))
                else:
                    truthful(R, seen, q, what, lambda: "%s: %s, not %s" % (det, show(x, 6), show(want[i], 4)), where)
        finish(R, seen)
    R.part("result of parse", result)

    def tool():
        seen = {}
        for W, det in worlds(F):
            if not W.errors:
                continue
            W.run()
            R.count("shapes of runs")
            if W.state is None:
                truthful(R, seen, not definite(W.I.panics), "reporting doesn't panic", lambda: "%s: %s" % (det, [p[:2] for p in W.I.panics]), MAIN)
                if not definite(W.I.panics) and not getattr(W, "exits", None):
                    raise Unclear(det + ": main doesn't return")
            for m in W.lex + W.parse:
                R.count("errors followed")
                g = reported(W, m)
                what = "every error found gets a diagnostic on standard error"
                if g is not TRUE and g is not FALSE and not about(g, m):
                    seen.setdefault(what, "undecided: %s: %s reported when %s" % (det, m.name, show(g, 4)))
                    continue
                truthful(R, seen, g is TRUE, what, lambda: "%s: %s (%s) is %s" % (det, m.name, m.reason, "not reported" if g is FALSE else "reported only when " + show(g, 5)), MAIN)
        finish(R, seen)
    R.part("the tool", tool)


def about(g, m):
    """is the condition one on the mistake alone?"""
    return not any(x.op in ("const", "unk", "muend", "muat", "havoc", "opaque") for x in tm.subterms(g))


def definite(panics):
    return [p for p in panics if p[2] is TRUE]


def copied(x, want):
    """a list rebuilt element by element is that list"""
    if want.op == "sym" and x.op == "seq" and len(x.args[0]) == 1:
        tv = fresh()
        if x is seq(mkfor(want, tv, (one(mk("el", want, tv)),))):
            return want
    return x


# ---------------------------------------------------------------- C08

def C08(F, R):
    def tool():
        seen = {}
        for nargs, what in ((1, STDIN), (2, FILE), (3, FILE)):
            W = World(F, nargs=nargs, fails=[what]).run()
            R.count("shapes of failing runs")
            tried = W.tried("read file", "open file", "read stdin")
            det = "%d arguments, reading the %s fails" % (nargs - 1, what)
            if not tried:
                raise Unclear(det + ": nothing is read")
            failing(R, seen, W, det, "a failure to read the source ends the tool with a failure")
            later = W.tried("parse", "lower", "render")
            truthful(R, seen, not later, "nothing is drawn of a source which can't be read", lambda: "%s: %s" % (det, later[0]), MAIN)
        for nargs in (1, 2, 3):
            W = World(F, nargs=nargs, fails=["decode"]).run()
            R.count("shapes of failing runs")
            det = "%d arguments, the source isn't UTF-8" % (nargs - 1)
            if not getattr(W, "lossy", False):
                failing(R, seen, W, det, "a failure to read the source ends the tool with a failure")
                later = W.tried("parse", "lower", "render")
                truthful(R, seen, not later, "nothing is drawn of a source which can't be read", lambda: "%s: %s" % (det, later[0]), MAIN)
        for nargs in (1, 2):
            for errs in ((), (Mistake("error1"),)):
                W = World(F, nargs=nargs, parse=errs, fails=["render"]).run()
                R.count("shapes of failing runs")
                if not W.tried("render"):
                    raise Unclear("nothing is rendered")
                failing(R, seen, W, "%d arguments, %d errors, rendering fails" % (nargs - 1, len(errs)), "a failure to write the diagram ends the tool with a failure")
                W = World(F, nargs=nargs, parse=errs, fails=["deliver"]).run()
                R.count("shapes of failing runs")
                if W.tried("deliver"):
                    failing(R, seen, W, "%d arguments, %d errors, writing the diagram fails" % (nargs - 1, len(errs)), "a failure to write the diagram ends the tool with a failure")
        for kw, det in special(F):
            W = World(F, fails=[STDIN if kw["nargs"] == 1 else FILE], **kw).run()
            R.count("shapes of failing runs")
            if W.tried("read file", "open file", "read stdin"):
                failing(R, seen, W, det + ", reading it fails", "a failure to read the source ends the tool with a failure")
                later = W.tried("parse", "lower", "render")
                truthful(R, seen, not later, "nothing is drawn of a source which can't be read", lambda: "%s: %s" % (det, later[0]), MAIN)
            W = World(F, fails=["render"], **kw).run()
            R.count("shapes of failing runs")
            if W.tried("render"):
                failing(R, seen, W, det + ", rendering fails", "a failure to write the diagram ends the tool with a failure")
        finish(R, seen)
    R.part("the tool", tool)

    def flushing():
        """standard output is buffered: what is left at exit is written then, and errors are lost"""
        from rules.render import scenes, Scene
        seen = {}
        what = "everything is written before the tool ends, and failures are noticed"
        W = World(F).run()
        rs = [e for e in W.of("render", "deliver") if target(e) != "memory"]
        if len(rs) != 1 or target(rs[0]) != "stdout":
            raise Unclear("where the diagram goes")
        i = W.events.index(rs[0])
        fl = [e for e in W.events[i + 1:] if e.kind == "flush" and target(e) == "stdout"]
        if not fl or not any(e.g is TRUE for e in fl):
            log = Scene(F, *scenes(F)[0]).draw().log
            mine = [x for x in log if x[1] == "flush" and x[0] is TRUE]
            last = log[-1][1] if log else None
            ok_ = bool(mine) and last == "flush"
            truthful(R, seen, ok_, what, lambda: "standard output is never flushed after the diagram: its last line is written at exit, and a failure is ignored", MAIN)
            finish(R, seen)
            return
        W = World(F, fails=["flush"]).run()
        R.count("shapes of failing runs")
        failing(R, seen, W, "flushing standard output fails", what)
        finish(R, seen)
    R.part("the last line", flushing)

    def renderer():
        from rules.render import scenes, Scene
        seen = {}
        where = "SVGRenderer::render"
        for item in scenes(F):
            dr = Scene(F, *item).draw()
            R.count("documents drawn")
            for n, (g, how, w, text, res) in enumerate(dr.log):
                if g is FALSE:
                    continue
                R.count("writes")
                others = {q[4]: ok(UNIT) for q in dr.log[:n] if isinstance(q[4], T)}
                e = sym("io error")
                m = dict(others)
                m[res] = err(e)
                for q in dr.log[n + 1:]:
                    m.setdefault(q[4], ok(UNIT))
                r = Subst(m)(dr.res)
                v = is_variant(r, R_T, "Err")
                truthful_or(R, seen, v is TRUE, v is TRUE or v is FALSE or opaque_ops(v) is None, "the renderer returns the writer's error", lambda: "if write %d (%s) fails, it returns %s" % (n + 1, how, show(r, 4)), where)
                if how == "write":
                    # may write less than it is given
                    truthful(R, seen, tm.contains(dr.res, "wr%d" % n, lambda x: x is mk("field", res, 0)), "everything is written", lambda: "write() may write a part only, and how much isn't looked at", where)
                if v is TRUE:
                    truthful_or(R, seen, tm.contains(r, "ioerror", lambda x: x is e), True, "the error returned is the writer's", lambda: show(r, 5), where)
            r = Subst({q[4]: ok(UNIT) for q in dr.log})(dr.res)
            v = is_variant(r, R_T, "Ok")
            truthful_or(R, seen, v is TRUE, opaque_ops(v) is None, "without failure the renderer returns without an error", lambda: show(r, 4), where)
        finish(R, seen)
    R.part("the renderer", renderer)


def truthful_or(R, seen, holds, known, what, det, where):
    if holds or known:
        truthful(R, seen, holds, what, det, where)
    else:
        seen.setdefault(what, "undecided: " + det())


def failing(R, seen, W, det, what):
    f = W.failed()
    if f is None:
        seen.setdefault(what, "undecided: %s: main returns %s" % (det, show(W.result, 4)))
    else:
        truthful(R, seen, f, what, lambda: "%s: the tool ends as if all were well" % det, MAIN)


# ---------------------------------------------------------------- C28

SOURCES = [
    (lambda p, o, n: "std::time::" in p or o in ("Instant", "SystemTime"), "the time"),
    (lambda p, o, n: "RandomState" in p and n in ("new", "default", "build_hasher", "hash_one") or p.startswith(("rand::", "rand_core::", "getrandom::", "fastrand::", "uuid::")) or o == "BuildHasher" and n in ("hash_one", "build_hasher"), "randomness"),
    (lambda p, o, n: o == "env" and n not in ("args", "args_os"), "the environment"),
    (lambda p, o, n: "std::thread::" in p or o in ("thread", "JoinHandle", "Builder") and "thread" in p or "sync::mpsc" in p, "threads"),
    (lambda p, o, n: o == "process" and n == "id" or o == "Command", "the process"),
    (lambda p, o, n: o == "Argument" and n == "new_pointer" or o == "Pointer" and n == "fmt" or n in ("expose_provenance", "addr") and ("ptr" in p), "addresses"),
    (lambda p, o, n: o.startswith("Atomic") and n.startswith(("fetch_", "swap", "store", "compare_exchange")), "mutable global state"),
]


def C28(F, R):
    roots = stage_roots(F) + [F.fn(None, "main", crate="bin").j["key"]]

    def sources():
        RC = Reach(F, roots)
        R.count("functions reachable", len(RC.seen))
        R.count("calls of other crates", len(RC.sites))
        bad = {}
        for b, fn, sp in RC.sites:
            p, (o, n) = callee(fn)
            for f, what in SOURCES:
                if f(p, o, n):
                    bad.setdefault("nothing depends on " + what, "%s calls %s (%s)" % (chain(RC, b), p, sp))
            if o == "env" and n in ("args", "args_os") and not in_bin(F, b):
                bad.setdefault("nothing depends on the environment", "%s reads the command line" % chain(RC, b))
        for b, k, mut, sp in RC.statics:
            if mut:
                bad.setdefault("nothing depends on mutable global state", "%s uses %s (%s)" % (chain(RC, b), k, sp))
        for b, k, sp in RC.casts:
            if k.startswith("PointerExpose"):
                bad.setdefault("nothing depends on addresses", "%s casts a pointer to a number (%s)" % (chain(RC, b), sp))
        for what in ["nothing depends on " + w for _, w in SOURCES]:
            if what in bad:
                R.bad(what, bad[what])
            else:
                R.ok(what, "among %d calls" % len(RC.sites))
    R.part("sources", sources)

    def messages():
        seen = {}
        what = "diagnostics don't depend on the order of the expected tokens"
        for k in KINDS:
            for found in (True, False):
                for ne in (0, 1, 2, 3, 5):
                    runs = []
                    for order in (1, -1):
                        m = Mistake("error1", k, found, ne)
                        runs.append(World(F, parse=[m], order=order).run())
                    R.count("pairs of runs")
                    a, b = [[(e.g, e.kind, e.args) for e in W.events] for W in runs]
                    if a == b:
                        truthful(R, seen, True, what, "", MAIN)
                        continue
                    d = next(((x, y) for x, y in zip(a, b) if x != y), None)
                    truthful(R, seen, False, what, lambda: "an error with %d expected tokens: the same set in another order gives another diagnostic: %s" % (ne, difference(d)), MAIN)
        what = "diagnostics don't depend on the order of hashed collections"
        for spans in ([(1, 2), (5, 9), (30, 31)], [(40, 41), (3, 3), (3, 7), (3, 3), (90, 300)]):
            for ast in (True, False):
                runs = []
                for order in (1, -1):
                    ms = [Mistake("error%d" % i, KINDS[i % 3], True, 1, at) for i, at in enumerate(spans)]
                    runs.append(World(F, lex=ms[:2], parse=ms[2:], ast=ast, order=order).run())
                R.count("pairs of runs")
                a, b = [[(e.g, e.kind, e.args) for e in W.events] for W in runs]
                if a == b:
                    truthful(R, seen, True, what, "", MAIN)
                    continue
                d = next(((x, y) for x, y in zip(a, b) if x != y), None)
                truthful(R, seen, False, what, lambda: "errors at %s: with the elements of a hashed collection in another order the tool does something else: %s" % (spans, difference(d)), MAIN)
        finish(R, seen)
    R.part("diagnostics", messages)

    def hashed():
        RC = Reach(F, roots)
        sites = [(b, p, sp) for b, fn, sp in RC.sites for p, (o, n) in [callee(fn)] if iterates(p, o, n)]
        lib = [(b, p, sp) for b, p, sp in sites if not in_bin(F, b)]
        R.count("iterations over hashed collections", len(sites))
        what = "the diagram doesn't depend on the order of hashed collections"
        if not lib:
            R.ok(what, "none is iterated over")
            return
        seen = {}
        for det, f in pipeline(F):
            a, na = f(1)
            b, nb = f(-1)
            R.count("pairs of runs")
            if a != b:
                truthful(R, seen, False, what, lambda: "%s: with the other order the result differs (iterated in %s)" % (det, ", ".join(sorted({chain(RC, x[0]) for x in lib}))[:400]), str(lib[0][2]))
            elif na:
                truthful(R, seen, True, what, det, "")
            if any(hasheach(x) for x in a):
                seen.setdefault(what, "undecided: an iteration isn't followed")
        if not seen:
            seen[what] = "undecided: iteration at %s isn't followed" % (lib[0][2],)
        finish(R, seen)
    R.part("hashed collections", hashed)


def difference(d):
    if d is None:
        return ""
    (g, k, x), (h, l, y) = d
    out = []

    def go(a, b):
        if a is b or len(out) > 2:
            return
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and a.op not in ("lit", "str", "seq"):
            for p, q in zip(a.args, b.args):
                go(p, q)
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for p, q in zip(a, b):
                go(p, q)
        else:
            out.append("%s / %s" % (show(a, 6) if isinstance(a, T) else a, show(b, 6) if isinstance(b, T) else b))
    go(x, y)
    return "; ".join(out)[:600]


def in_bin(F, b):
    # functions of the program's own crate (closures belong to them)
    return b.j["key"] in {x["key"] for x in F.dumps["bin"]["bodies"]} - {x["key"] for x in F.dumps["lib"]["bodies"]}


HASHED = ("HashMap", "HashSet")


def iterates(p, o, n):
    import models
    if "collections::hash" in p or "hashbrown" in p:
        return n in models.MAP_ITERS or n in ("retain", "extract_if", "union", "intersection", "difference", "symmetric_difference") or o == "Iterator" or "Iter" in o
    return False


def hasheach(x):
    return False


def pipeline(F):
    """-> (description, order -> (results, was anything hashed iterated over))"""
    from rules.lower import SHAPES, module_of
    from rules import route, render
    S = Shapes(F)
    out = []

    def value(b, args, order, st=None, prep=None):
        I = Interp(F.p)
        I.hash_order = order
        if prep:
            prep(I)
        st2, v = I.run_body(b, list(args), st or State({}, TRUE))
        return I, st2, v

    def lower(m):
        def f(order):
            I, st, v = value(F.fn("Module", "into_mir"), [m], order)
            return [v], getattr(I, "hash_iterated", 0)
        return f
    ents = lambda names: [("entity", S.entity(lit(n), [S.field(lit(f), F.mk("EntityFieldType", "Int"), NONE) for f in fs])) for n, fs in names]
    rel = lambda a, b: ("relation", S.relation(S.path(lit(a[0]), *map(lit, a[1:])), S.path(lit(b[0]), *map(lit, b[1:]))))
    mods = [
        S.module(NONE, ents([("b", "yx"), ("a", "xy"), ("c", "")]) + [rel("ax", "by"), rel("c", "a"), rel("bx", "ay"), rel("b", "c")]),
        S.module(some(lit("m")), ents([("q", "qwerty"), ("p", "asdf")]) + [rel("qw", "pa"), rel("ps", "qy"), rel("p", "q")]),
    ]
    for m in mods:
        out.append(("lowering", lower(m)))

    def through(m):
        def f(order):
            I = Interp(F.p)
            I.hash_order = order
            st, d = I.run_body(F.fn("Module", "into_mir"), [m], State({}, TRUE))
            st = State({("D",): d, ("ENGINE",): F.val("SimpleLayoutEngine", "new"), ("W",): sym("writer")}, TRUE)
            box = None
            for n in ("place_nodes", "place_terminal_ports"):
                st, v = I.run_body(F.fn("SimpleLayoutEngine", n, "LayoutEngine"), [mref(("ENGINE",)), mref(("D",))], st)
                box = box or v
            r = [box, st.roots[("D",)]]
            st, v = I.run_body(F.fn("SVGRenderer", "render", "Renderer"), [F.val("SVGRenderer", "new"), st.roots[("D",)], mref(("W",))], st)
            return r + [st.roots.get(("IO",))], getattr(I, "hash_iterated", 0)
        return f
    for m in mods:
        out.append(("lowering, placing and drawing", through(m)))
    return out


# ---------------------------------------------------------------- C29

def C29(F, R):
    R.part("parsing", c29_parse, F, R)
    R.part("repetition", c29_repeat, F, R)
    R.part("lowering", c29_lower, F, R)


def nullable(e, memo=None):
    memo = {} if memo is None else memo
    if e.n in memo:
        return memo[e.n]
    memo[e.n] = False
    k, a = e.k, e.a
    if k in ("eps", "not", "end", "opt", "kleene"):
        r = True
    elif k in ("set", "fail"):
        r = False
    elif k in ("seq", "chain"):
        r = nullable(a[0], memo) and nullable(a[1], memo)
    elif k in ("alt", "or"):
        r = any(nullable(x, memo) for x in a[0])
    elif k == "star":
        r = a[1] == 0 or nullable(a[0], memo)
    elif k == "sep":
        r = a[4] == 0 or nullable(a[0], memo)
    elif k in ("map", "to", "word", "recover", "validate", "mark", "filter_map"):
        r = nullable(a[0], memo)
    else:
        raise Unclear("nullable " + k)
    memo[e.n] = r
    return r


def c29_repeat(F, R):
    from rules.syntax import grammar
    G = grammar(F)
    what = "nothing empty is repeated, which chumsky answers with a panic"
    bad = 0
    for name, e in (("the lexer", G.lex), ("the parser", G.parse)):
        for x in e.all():
            if x.k == "star" and x.a[2] is None:
                R.count("repetitions")
                if nullable(x.a[0]):
                    bad += 1
                    R.bad(what, "%s repeats something that matches the empty text: %s" % (name, str(x)[:200]), "parse")
    if not bad:
        R.ok(what)


def samples(B, e, memo, limit=400):
    """words which exercise every part of an expression"""
    if e.n in memo:
        return memo[e.n]
    memo[e.n] = []
    k, a = e.k, e.a
    if k == "set":
        r = [(i,) for i in sorted(a[0])]
    elif k in ("eps", "not", "end"):
        r = [()]
    elif k in ("seq", "chain"):
        x, y = samples(B, a[0], memo), samples(B, a[1], memo)
        r = [p + q for p in x[:1] for q in y] + [p + q for p in x for q in y[:1]]
    elif k in ("alt", "or"):
        r = [w for x in a[0] for w in samples(B, x, memo)]
    elif k == "opt":
        r = [()] + samples(B, a[0], memo)
    elif k in ("star", "kleene"):
        lo = a[1] if k == "star" else 0
        hi = a[2] if k == "star" else None
        x = samples(B, a[0], memo)
        n = max(lo, 1)
        r = [()] if lo == 0 else []
        if x and (hi is None or hi >= 1):
            for j in range(n):
                for w in x:
                    r.append(x[0] * j + w + x[0] * (n - 1 - j))
            if hi is None or hi > n:
                r += [x[0] * (n + 1), x[-1] * (n + 1)]
    elif k == "sep":
        x, d = samples(B, a[0], memo), samples(B, a[1], memo)[:1] or [()]
        n = max(a[4], 1)
        r = [()] if a[4] == 0 else []
        if x and (a[5] is None or a[5] >= 1):
            r += [(x[0] + d[0]) * (n - 1) + w for w in x]
            if a[5] is None or a[5] > n:
                r += [(x[0] + d[0]) * n + w for w in x]
    else:
        r = next((samples(B, p, memo) for p in e.parts()), [])
    r = list(dict.fromkeys(r))
    if len(r) > limit:
        step = len(r) / limit
        r = [r[int(i * step)] for i in range(limit)]
    memo[e.n] = r
    return r


def c29_parse(F, R):
    from rules.syntax import grammar, sentences
    from peg import Values, FAIL
    G = grammar(F)
    what = "parsing doesn't panic"
    found = []

    def note(det):
        ps = definite(getattr(G.call, "panics", []))
        for p in ps:
            found.append((det, p))
        G.call.panics = []
    note("while the letters are classified")
    for name, B, e in (("the lexer", G.lexer, G.lex), ("the parser", G.parser, G.parse)):
        memo = {}
        for x in e.all():
            if x.k not in ("map", "validate", "filter_map"):
                continue
            for w in samples(B, x.a[0], memo):
                ls = [(G.chars if B is G.lexer else G.toks).letters[i] for i in w]
                V = Values(B)
                V.w, V.errors, V.memo = ls, 0, {}
                R.count("matches evaluated")
                try:
                    V.go(x, 0)
                except Unclear:
                    R.count("matches not understood")
                    continue
                note("%s on %s" % (name, "".join(chr(int(const(l))) for l in ls) if B is G.lexer else [show(l, 2) for l in ls]))
                if found:
                    break
    for w, t, det in sentences(G, Shapes(F), F):
        G.tree(w)
        R.count("sentences")
        note(det)
    I, st, v = F.run(F.fn(None, "parse"), [sym("src")])
    for p in definite(I.panics):
        found.append(("any text", p))
    if found:
        d, p = found[0]
        R.bad(what, "%s: %s at %s" % (d, p[0], p[1]), "parse")
    else:
        R.ok(what, "no panic reached")


NAMES = ["", "a", "b", "id", "name with spaces", "é", "日本語", "\U0001F600", "`", "\\", "\n", "{", "}", "<&>", "x" * 300, "\0"]


def c29_lower(F, R):
    S = Shapes(F)
    where = "Module::into_mir"
    seen = {}
    tys = [F.mk("EntityFieldType", v) for v in F.variants("EntityFieldType")]
    keys = [NONE] + [some(F.mk("EntityFieldKey", v)) for v in F.variants("EntityFieldKey")]

    def ent(n, fs):
        return ("entity", S.entity(n, [S.field(f, tys[i % len(tys)], keys[i % len(keys)]) for i, f in enumerate(fs)]))

    def path(p):
        return S.path(lit(p[0])) if len(p) == 1 else S.path(lit(p[0]), lit(p[1]))

    def rel(a, b):
        return ("relation", S.relation(path(a), path(b)))
    mods = [("empty module", NONE, [])]
    from docs import Names
    from strs import text
    more = [text(w("name")) for _, w in Names(F, ("Module", "into_mir")).ways[1:]]
    for n in NAMES + [n for n in dict.fromkeys(more) if n not in NAMES]:
        for fs in ([], [n], [n, n], NAMES):
            mods.append(("entity named %s with fields %s" % (ascii(n[:20]), [ascii(f[:20]) for f in fs]), some(lit(n)), [ent(lit(n), map(lit, fs))]))
        for a in ((n,), (n, n), (n, "no such field"), ("no such entity",), ("no such entity", n)):
            for b in ((n,), (n, n), ("other",), ("other", "f"), ("nowhere", n)):
                mods.append(("relation from %s to %s" % (a, b), NONE, [ent(lit(n), [lit(n), lit("g")]), rel(a, b), ent(lit("other"), [lit("f")]), rel(b, a)]))
    mods.append(("relations without entities", NONE, [rel(("a",), ("b",)), rel(("a", "x"), ("a", "x")), rel(("",), ("", ""))]))
    mods.append(("the same entity defined three times", NONE, [ent(lit("a"), [lit("x")]), ent(lit("a"), []), ent(lit("a"), [lit("x"), lit("x")]), rel(("a", "x"), ("a",))]))
    mods.append(("40 entities", NONE, [ent(lit("e%d" % i), [lit("f")] * (i % 3)) for i in range(40)] + [rel(("e%d" % i, "f"), ("e%d" % (39 - i),)) for i in range(40)]))
    mods.append(("60 fields", NONE, [ent(lit("e"), [lit("f%d" % i) for i in range(60)])]))
    for k in Names(F, ("Module", "into_mir")).C.sizes(200, 300):
        mods.append(("%d fields" % k, NONE, [ent(lit("e"), [lit("f%d" % i) for i in range(k)])]))
        mods.append(("%d entities" % k, NONE, [ent(lit("e%d" % i), []) for i in range(k)]))
        mods.append(("%d relations" % k, NONE, [ent(lit("e"), [])] + [rel(("e",), ("e",))] * k))
    for n in (0, 1, 2, 5, 9, 17):
        mods.append(("unknown names, %d fields" % n, some(sym("m")), [ent(sym("e"), [sym("f%d" % i) for i in range(n)])]))
    for det, name, es in mods:
        m = S.module(name, es)
        I, st, v = F.run(F.fn("Module", "into_mir"), [m])
        R.count("modules lowered")
        ps = definite(I.panics)
        if st is None and not ps:
            seen.setdefault("lowering doesn't panic", "undecided: %s: no result" % det)
            continue
        truthful(R, seen, not ps, "lowering doesn't panic", lambda: "%s: %s at %s" % (det, ps[0][0], ps[0][1]), where)
        if I.panics and not ps:
            # under a condition on unknown names: concrete ones are tried above
            R.count("panics under unknown conditions", len(I.panics))
    finish(R, seen)
