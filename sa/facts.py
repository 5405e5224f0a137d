"""What the rules ask of the analysed program: lookup of the public items by name, and their values on symbolic objects."""
import os, re
import extract
from interp import *
import terms as tm


class Missing(Exception):
    """a public item a rule is anchored in is not there"""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []   # (text, status, detail)
        self.notes = []
        self.analysed = {}
        self.assumptions = []

    def ok(self, what, detail=""):
        self.obligations.append((what, "holds", detail))

    def bad(self, what, detail="", where=""):
        self.obligations.append((what, "VIOLATED", (where + ": " if where else "") + detail))

    def unknown(self, what, detail=""):
        self.obligations.append((what, "undecided", detail))

    def check(self, cond, what, detail="", where=""):
        """cond: True, False or None (undecided)"""
        if cond is None:
            self.unknown(what, detail)
        elif cond:
            self.ok(what)
        else:
            self.bad(what, detail, where)
        return cond

    def part(self, what, f, *args):
        """a rule part; what it can't cope with stays undecided"""
        try:
            return f(*args)
        except Missing:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(what, "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            return None

    def count(self, k, n=1):
        self.analysed[k] = self.analysed.get(k, 0) + n

    @property
    def violations(self):
        return [o for o in self.obligations if o[1] == "VIOLATED"]

    @property
    def undecided(self):
        return [o for o in self.obligations if o[1] == "undecided"]


class Facts:
    def __init__(self):
        d, self.info = extract.dump()
        self.p = Program(d)
        self.dumps = d
        self._ev = {}
        self.functions = set()

    # -- items

    def adt(self, simple):
        """the local type of this name -> (path, definition, types)"""
        hits = [(n, a, t) for n, (a, t) in self.p.adts.items() if a.get("local") and n.split("::")[-1] == simple]
        if len(hits) != 1:
            raise Missing("type %s: %d found" % (simple, len(hits)))
        return hits[0]

    def tyname(self, simple):
        return self.adt(simple)[0]

    def variants(self, simple):
        return [v["n"] for v in self.adt(simple)[1]["v"]]

    def fields(self, simple, variant=None):
        n, a, _ = self.adt(simple)
        for v in a["v"]:
            if variant is None or v["n"] == variant:
                return [f["n"] for f in v["f"]]
        raise Missing("variant %s::%s" % (simple, variant))

    def idx(self, simple, fld, variant=None):
        fs = self.fields(simple, variant)
        if fld not in fs:
            raise Missing("field %s.%s" % (simple, fld))
        return fs.index(fld)

    def mk(self, simple, variant=None, **kw):
        n, a, _ = self.adt(simple)
        for v in a["v"]:
            if variant is None or v["n"] == variant:
                names = [f["n"] for f in v["f"]]
                ks = {k.lstrip("_"): x for k, x in kw.items()}
                if set(ks) != set(names):
                    raise Missing("fields of %s: %s" % (simple, names))
                return adt(n, v["n"], *[ks[f] for f in names])
        raise Missing("variant %s::%s" % (simple, variant))

    def fn(self, ty, name, trait=None, crate="lib"):
        """the function `name` of the (simply named) type, or a free function for ty None"""
        hits = []
        for (c, p), b in self.p.by_path.items():
            j = b.j
            if c != crate or j["kind"] != "fn" or j["name"] != name:
                continue
            s = base_name(Program.adt_name(j.get("self") or "")).split("::")[-1].split("<")[0]
            t = base_name(j.get("trait") or "").split("::")[-1]
            if (ty or "") == s and (trait or "") == t:
                hits.append(b)
        if ty is None and len(hits) > 1:
            hits = [b for b in hits if b.path.count("::") <= 2]
        if len(hits) != 1:
            raise Missing("function %s%s::%s: %d found" % ("<%s> " % trait if trait else "", ty or "", name, len(hits)))
        return hits[0]

    # -- values

    def run(self, body, args, opaque=(), state=None, interp=None):
        """-> (interp, state or None, value)"""
        I = interp or Interp(self.p, opaque)
        st = state or State({}, TRUE)
        st2, v = I.run_body(body, list(args), st)
        self.functions |= I.seen_bodies
        return I, st2, v

    def symargs(self, body, names=None):
        """symbolic arguments; a `&mut` one is a cell of the returned state"""
        st = State({}, TRUE)
        I = Interp(self.p)
        args = []
        for i in range(body.j["argc"]):
            ty = body.types[body.locals[i + 1][0]]
            s = mk("sym", names[i] if names else "a%d" % i)
            if ty["k"] == "ref" and ty["m"]:
                root = ("A", i)
                st.roots[root] = s
                args.append(mref(root))
            else:
                args.append(s)
        return args, st

    def val(self, ty, name, *args, trait=None, crate="lib"):
        """value of a function applied to (symbolic) arguments; memoised"""
        key = (ty, name, args, trait, crate)
        if key not in self._ev:
            b = self.fn(ty, name, trait, crate)
            if len(args) != b.j["argc"]:
                raise Missing("%s::%s takes %d arguments" % (ty, name, b.j["argc"]))
            I, st, v = self.run(b, args)
            self._ev[key] = v
        return self._ev[key]

    def display(self, ty, x):
        """the text the Display implementation of the type writes for x"""
        b = self.fn(ty, "fmt", "Display")
        st = State({("OUT",): lit("")}, TRUE)
        I, st, v = self.run(b, [x, mref(("OUT",))], state=st)
        if st is None:
            return None
        return st.roots[("OUT",)]


# functions of texts and characters: pure, and not constant, so that what they give on an unknown text is unknown but understood
PURE = re.compile(r"::<impl (?:\[?str\]?|char)>::(?:trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|"
                  r"contains|starts_with|ends_with|find|rfind|replace|replacen|eq_ignore_ascii_case|is_ascii|is_alphabetic|is_alphanumeric|is_numeric|is_ascii_\w+|is_uppercase|is_lowercase|is_whitespace|is_control|escape_default|escape_debug|len_utf8|repeat)$")


def is_pure(x):
    """a call of a pure, non-constant function on understood arguments (which are looked at on their own)"""
    return x.op == "call" and isinstance(x.args[0], str) and PURE.search(x.args[0]) is not None


def opaque_ops(t, ops=("call", "unk", "muend", "muat", "grp", "unknown", "havoc", "const", "opaque", "un", "after")):
    """the first operator of the term a rule can't look through"""
    for x in tm.subterms(t):
        if x.op in ops and not is_pure(x):
            return x
    return None


def sub(t, mapping):
    return Subst(mapping)(t)


def sym(n):
    return mk("sym", n)


def truth_of(v):
    return truth(v)


def same(a, b):
    """are two values the same? None: one of them contains something not understood"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if opaque_ops(a) is not None or opaque_ops(b) is not None:
        return None
    return False
