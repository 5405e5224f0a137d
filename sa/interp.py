"""Abstract interpretation of the MIR over the term domain: gated values at joins, closed forms for loops.

No path is enumerated: states are merged at every join of the control flow graph, the branch condition
becoming part of the merged value. A loop is summarised once, as a comprehension over what it iterates
over; values carried from one iteration to the next become closed forms or recurrences.
"""
import functools
import json
import re
from decimal import Decimal
from vals import *
import terms as tm


class State:
    __slots__ = ("roots", "pc")

    def __init__(self, roots, pc):
        self.roots = roots
        self.pc = pc

    def copy(self, pc=None):
        return State(dict(self.roots), self.pc if pc is None else pc)


class Diverge(Exception):
    pass


class Undecided(Exception):
    pass


ROOTS = {}


def mref(root, path=()):
    return mk("mref", root, path)


LOGS = ("seq", "str", "graph", "hmap", "arrlog", "iolog")


def log_parts(v):
    """-> (kind, base, segs) of an append-only value"""
    if v.op in ("seq", "str", "iolog"):
        return ("s", None, v.args[0])
    if v.op in ("graph", "hmap", "arrlog"):
        return (v.op, v.args[0], v.args[1])
    return None


def log_make(v, segs):
    if v.op in ("seq", "iolog"):
        return mk(v.op, tuple(segs))
    if v.op in ("str", "lit"):
        return mkstr(segs)
    if v.op == "graph":
        return mkgraph(v.args[0], segs)
    if v.op == "hmap":
        return mkhmap(v.args[0], segs)
    return mk(v.op, v.args[0], tuple(segs))


def join_val(c, a, b):
    """the value that is a under the condition c and b otherwise"""
    if a is b or b is UNDEF:
        return a
    if a is UNDEF:
        return b
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.op == b.op:
        if a.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
            return mk("adt", a.args[0], a.args[1], tuple(join_val(c, x, y) for x, y in zip(a.args[2], b.args[2])))
        if a.op == "tup" and len(a.args) == len(b.args):
            return mk("tup", *[join_val(c, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "clo" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            return mk("clo", a.args[0], tuple(join_val(c, x, y) for x, y in zip(a.args[1], b.args[1])))
        if a.op == "attrs":
            names = sorted({n for n, _ in a.args[0]} | {n for n, _ in b.args[0]})
            da, db = dict(a.args[0]), dict(b.args[0])
            return mk("attrs", tuple((n, join_val(c, da.get(n, ABSENT), db.get(n, ABSENT))) for n in names))
    if (a.op == "upd" or b.op == "upd") and bottom(a) is bottom(b):
        x = bottom(a)
        keys = []
        for v in (a, b):
            while v.op == "upd":
                if (v.args[1], v.args[2]) not in keys:
                    keys.append((v.args[1], v.args[2]))
                v = v.args[0]
        for var, i in sorted(keys, key=lambda k: (str(k[0]), k[1])):
            x = set_field(x, i, join_val(c, field(a, i, var), field(b, i, var)), var)
        return x
    la, lb = log_parts(a), log_parts(b)
    if la is None and lb is not None and (lb[1] is a or (b.op == "str" and a.op == "lit")):
        la = (lb[0], lb[1], strsegs(a) if b.op == "str" else ())
    elif lb is None and la is not None and (la[1] is b or (a.op == "str" and b.op == "lit")):
        lb = (la[0], la[1], strsegs(b) if a.op == "str" else ())
    if la and lb and la[0] == lb[0] and la[1] is lb[1] and (a.op == b.op or log_parts(a) is None or log_parts(b) is None):
        sa, sb = la[2], lb[2]
        like = a if log_parts(a) is not None else b
        if like.op == "str":
            # a literal may have grown at the point where the branches part
            r = _str_prefix(sa, sb)
            if r is None:
                return ite(c, a, b)
            k, sa, sb, pre = r
            return mkstr(pre + _join_segs(c, sa, sb))
        k = 0
        while k < len(sa) and k < len(sb) and sa[k] is sb[k]:
            k += 1
        if k == 0 and (sa and sb) and like.op == "seq":
            # unrelated sequences of the same shape
            if len(sa) == len(sb) and all(s.op == "one" and s.args[0] is TRUE for s in sa + sb):
                return seq(one(join_val(c, x.args[1], y.args[1])) for x, y in zip(sa, sb))
            return ite(c, a, b)
        return log_make(like, sa[:k] + _join_segs(c, sa[k:], sb[k:]))
    return ite(c, a, b)


def bottom(v):
    while v.op == "upd":
        v = v.args[0]
    return v


def _str_prefix(sa, sb):
    k = 0
    while k < len(sa) and k < len(sb) and sa[k] is sb[k]:
        k += 1
    pre = sa[:k]
    sa, sb = sa[k:], sb[k:]

    def txt(s):
        return s[0].args[1].args[0] if s and s[0].op == "one" and s[0].args[0] is TRUE and s[0].args[1].op == "lit" else ""
    ta, tb = txt(sa), txt(sb)
    n = 0
    while n < len(ta) and n < len(tb) and ta[n] == tb[n]:
        n += 1
    if n:
        pre = pre + (one(lit(ta[:n])),)
        sa = ((one(lit(ta[n:])),) if ta[n:] else ()) + sa[1:]
        sb = ((one(lit(tb[n:])),) if tb[n:] else ()) + sb[1:]
    if not pre:
        return None
    return k, sa, sb, pre


def _join_segs(c, sa, sb):
    if len(sa) == len(sb) and all(x.op == "one" and y.op == "one" and x.args[0] is y.args[0] and (x.args[1].op == y.args[1].op) and x.args[1].op in ("adt", "tup", "num", "lit", "hins", "addedge") or x is y for x, y in zip(sa, sb)):
        return tuple(x if x is y else one(join_entry(c, x.args[1], y.args[1]), x.args[0]) for x, y in zip(sa, sb))
    # common tail
    t = 0
    while t < len(sa) and t < len(sb) and sa[len(sa) - 1 - t] is sb[len(sb) - 1 - t]:
        t += 1
    tail = sa[len(sa) - t:] if t else ()
    sa, sb = sa[:len(sa) - t], sb[:len(sb) - t]
    return guard_segs(c, sa) + guard_segs(b_not(c), sb) + tail


def join_entry(c, a, b):
    if a.op == b.op and a.op in ("hins", "addedge"):
        return mk(a.op, *[join_val(c, x, y) if isinstance(x, T) else x for x, y in zip(a.args, b.args)])
    return join_val(c, a, b)


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    pc = b_or(a.pc, b.pc)
    c = restrict(a.pc, pc)
    if c.op != "case" and c is not TRUE and c is not FALSE:
        c = a.pc
    if a.pc is b.pc:
        c = TRUE
    roots = {}
    ra, rb = a.roots, b.roots
    for k, v in ra.items():
        w = rb.get(k, UNDEF)
        roots[k] = v if v is w else join_val(c, v, w)
    for k, w in rb.items():
        if k not in ra:
            roots[k] = w
    return State(roots, pc)


class Body:
    def __init__(self, j, crate):
        self.j = j
        self.key = j["key"]
        self.path = j["path"]
        self.crate = crate
        self.types = crate["types"]
        self.blocks = j["blocks"]
        self.locals = j["locals"]
        self._cfg = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k == "switch":
            return [x[1] for x in t["vals"]] + [t["else"]]
        if k in ("goto", "drop", "call", "assert", "other"):
            return [t["to"]] if t.get("to") is not None else []
        return []

    def cfg(self):
        if self._cfg:
            return self._cfg
        n = len(self.blocks)
        order, seen = [], set()

        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        rpo = {b: i for i, b in enumerate(reversed(order))}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {0: 0}
        changed = True
        bs = sorted(rpo, key=rpo.get)
        while changed:
            changed = False
            for b in bs[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # A loop's blocks in the order of the source: inner exits of the loop come after it
        self._cfg = (rpo, loops, self._dropflags())
        return self._cfg

    def _dropflags(self):
        cand = {i for i, (ty, name) in enumerate(self.locals) if name is None or name == ""}
        cand = {i for i in cand if self.types[self.locals[i][0]].get("s") == "bool" and i > self.j["argc"]}
        assigned = set()

        def used(o):
            for k in ("m", "c"):
                if isinstance(o, dict) and k in o:
                    cand.discard(o[k][0])

        def walk(x):
            if isinstance(x, dict):
                used(x)
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for bl in self.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    pl, rv = s[1], s[2]
                    if not pl[1] and pl[0] in cand:
                        if rv["r"] == "use" and "k" in rv["o"] and "v" in rv["o"]["k"]:
                            assigned.add(pl[0])
                            continue
                        cand.discard(pl[0])
                    walk(rv)
                    if "p" in rv:
                        cand.discard(rv["p"][0])
                else:
                    walk(s)
            t = bl["t"]
            if t["t"] == "switch":
                continue
            if t["t"] == "call":
                cand.discard(t["d"][0])
            walk(t)
        return cand & assigned


class Program:
    def __init__(self, dumps):
        self.bodies = {}
        self.consts = {}
        self.by_path = {}
        self.insts = {}          # generic functions with the types they are used with
        for name in ("lib", "bin"):
            cr = dumps.get(name)
            if not cr:
                continue
            for j in cr["bodies"]:
                b = Body(j, cr)
                if b.key not in self.bodies:
                    self.bodies[b.key] = b
                    self.by_path.setdefault((name, b.path), b)
            for j in cr.get("insts", ()):
                b = Body(j, cr)
                b.key = j["ik"]
                self.insts.setdefault(b.key, b)
            for a in cr["adts"]:
                n = self.adt_name(a["n"])
                if n not in VARIANTS or not n.startswith("core::"):
                    VARIANTS[n] = tuple((v["n"], int(v["d"])) for v in a["v"])
        self.adts = {}
        for name in ("lib", "bin"):
            for a in dumps.get(name, {}).get("adts", []):
                self.adts.setdefault(self.adt_name(a["n"]), (a, dumps[name]["types"]))
        self.impls = {}
        for b in self.bodies.values():
            if b.j.get("trait") and b.j["kind"] == "fn":
                self.impls.setdefault((self.tyname(b.j["self"]), base_name(b.j["trait"]), b.j["name"]), []).append(b)

    def get(self, k):
        return self.insts.get(k) or self.bodies.get(k)

    @staticmethod
    def adt_name(n):
        if n.startswith("seiren::"):
            return "crate::" + n[len("seiren::"):]
        return n

    @staticmethod
    def tyname(s):
        return base_name(Program.adt_name(s or ""))

    def fn(self, path, crate="lib"):
        return self.by_path.get((crate, path))


@functools.lru_cache(None)
def base_name(s):
    """type path without its arguments"""
    s = s.strip()
    out = []
    depth = 0
    for i, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
    r = "".join(out)
    return r[:-2] if r.endswith("::") else r


_norm_cache = {}


def norm_path(p):
    """path of an external function -> (type or trait, name)"""
    r = _norm_cache.get(p)
    if r:
        return r
    name = p
    depth = 0
    cut = None
    for i in range(len(p) - 1, 0, -1):
        c = p[i]
        if c == ">":
            depth += 1
        elif c == "<":
            depth -= 1
        elif c == ":" and depth == 0 and p[i - 1] == ":":
            cut = i - 1
            break
    if cut is None:
        r = ("", p)
    else:
        name = p[cut + 2:]
        owner = p[:cut]
        if owner.endswith(">"):
            # drop trailing generic arguments, or take apart <X as Trait> and <impl X>
            d = 0
            for i in range(len(owner) - 1, -1, -1):
                if owner[i] == ">" and owner[i - 1] != "-":
                    d += 1
                elif owner[i] == "<":
                    d -= 1
                    if d == 0:
                        break
            inner = owner[i + 1:-1]
            if i == 0 or inner.startswith("impl "):
                if " as " in inner and not inner.startswith("impl "):
                    # <X as Trait>
                    k = _split_as(inner)
                    owner = base_name(inner[k + 4:]).split("::")[-1]
                elif inner.startswith("impl "):
                    x = inner[5:]
                    if " for " in x:
                        x = x.split(" for ")[0]
                    owner = "[T]" if x.startswith("[T]") else base_name(x).split("::")[-1]
                else:
                    owner = base_name(inner).split("::")[-1]
            else:
                owner = owner[:i].rstrip(":").split("::")[-1]
        else:
            owner = owner.split("::")[-1]
        r = (owner, name)
    _norm_cache[p] = r
    return r


def _split_as(s):
    depth = 0
    for i, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0 and s.startswith(" as ", i):
            return i
    return s.rindex(" as ")


DRIVERS = {"next": "f", "pop_front": "f", "pop": "b", "next_back": "b", "pop_back": "b"}
TRANSPARENT = ("alloc::boxed::Box", "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
               "core::mem::maybe_dangling::MaybeDangling", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "alloc::rc::Rc", "alloc::sync::Arc")


class Ctx:
    """an activation of a function"""
    __slots__ = ("body", "fid", "forced", "depth")

    def __init__(self, body, fid, depth):
        self.body, self.fid, self.depth = body, fid, depth
        self.forced = {}


INT_RANGE = {}
for _n in (8, 16, 32, 64, 128):
    INT_RANGE["u%d" % _n] = (0, 2 ** _n - 1)
    INT_RANGE["i%d" % _n] = (-2 ** (_n - 1), 2 ** (_n - 1) - 1)
INT_RANGE["usize"], INT_RANGE["isize"] = INT_RANGE["u64"], INT_RANGE["i64"]


def wrapped(c, ty):
    """the integer as the type holds its low bits"""
    lo, hi = INT_RANGE[ty]
    return (int(c) - lo) % (hi - lo + 1) + lo


def to_int(v, ty):
    """a float as the nearest integer towards zero which the type has"""
    lo, hi = INT_RANGE.get(ty, (None, None))

    def f(x):
        c = const(x)
        if x is tm.NAN:
            return ZERO
        if tm._inf(x) and lo is not None:
            return num(hi if tm._inf(x) > 0 else lo)
        if c is not None:
            c = int(c)
            return num(c if lo is None else max(lo, min(hi, c)))
        r = trunc(x)
        return r if lo != 0 or tm.nonneg_poly(x) else maxv(ZERO, r)
    return amap(("trunc", ty), f, v)


def to_width(v, fr, to):
    (a, b), (lo, hi) = INT_RANGE[fr], INT_RANGE[to]
    if lo <= a and b <= hi:
        return v

    def f(x):
        c = const(x)
        if c is not None:
            return num(wrapped(c, to))
        # counts and indices are small
        if b > hi and a >= lo and tm.nonneg_poly(x) and hi >= 2 ** 31 - 1 and x.op in ("ix", "len", "rix", "rank", "count"):
            return x
        if b <= 2 * hi + 1 and a == 0 and tm.nonneg_poly(x) and hi >= 2 ** 31 - 1:
            return x
        return mk("narrow", to, x)
    return amap(None, f, v)


def frem(x, y):
    a, b = const(x), const(y)
    if a is not None and b:
        q = abs(a) // abs(b)
        r = abs(a) - q * abs(b)
        return num(r if a >= 0 else -r)
    return mk("frem", x, y)


def bitop(o, x, y, ty):
    a, b = const(x), const(y)
    if ty in INT_RANGE and a is not None and b is not None and a == int(a) and b == int(b):
        a, b = int(a), int(b)
        lo, hi = INT_RANGE[ty]
        bits = (hi - lo + 1).bit_length() - 1
        if o == "BitAnd":
            return num(a & b)
        if o == "BitOr":
            return num(a | b)
        if o == "BitXor":
            return num(a ^ b)
        if o == "Shl":
            return num(wrapped(a << (b % bits), ty))
        if o == "Shr":
            return num(a >> (b % bits))
    if o in ("BitOr", "BitXor", "Shl", "Shr") and b == 0:
        return x
    if o in ("BitOr", "BitXor") and a == 0:
        return y
    if o == "BitAnd" and (a == 0 or b == 0):
        return ZERO
    if o == "Shr" and b is not None and ty in INT_RANGE and INT_RANGE[ty][0] == 0:
        return idiv(x, num(2 ** int(b)))
    if o == "BitAnd" and b is not None and ty in INT_RANGE and INT_RANGE[ty][0] == 0 and (int(b) & (int(b) + 1)) == 0:
        return rem(x, num(int(b) + 1))
    return mk("bin", o, x, y)


class Interp:
    def __init__(self, prog, opaque=()):
        self.p = prog
        self.opaque = set(opaque)      # keys of local functions not to look into
        self.nf = 0
        self.nt = 0
        self.stack = []
        self.notes = []
        self.panics = []
        self.ranks = {}
        self.seen_bodies = set()
        self.calls = 0
        self.const_cache = {}
        self.fns = {}
        self.peek = {}
        self.tvs = []
        self.nalloc = 0
        self.pyfns = {}
        self.hook = None               # rule's own meaning of some calls
        self.steps = 0
        self.unsafe_loops = 0
        self.search_result = None
        import models
        self.models = models

    def note(self, *a):
        s = " ".join(str(x) for x in a)
        if s not in self.notes:
            self.notes.append(s)

    # ------------------------------------------------------------ roots

    def temp(self, st, v):
        self.nt += 1
        r = ("P", self.nt)
        st.roots[r] = v
        return r

    def read(self, st, ref):
        """value behind a mutable reference (or the value itself)"""
        def f(x):
            if x.op == "mref":
                v = st.roots.get(x.args[0], UNDEF)
                return get_path(v, x.args[1])
            return x
        r = amap(None, f, ref)
        while r.op == "mref":
            r = f(r)
        return r

    def write(self, st, ref, v):
        ls = leaves(ref)
        for g, x in ls:
            if x.op == "mref":
                root, path = x.args
                old = st.roots.get(root, UNDEF)
                inner = get_path(old, path) if path else old
                if inner.op == "mref":
                    self.write(st, inner, v)
                    continue
                new = set_path(old, path, v)
                st.roots[root] = new if len(ls) == 1 else join_val(restrict(g, st.pc), new, old)
            else:
                self.note("write through opaque reference", x)

    # ------------------------------------------------------------ places

    def resolve(self, cx, st, place):
        """-> [(guard, root, path)], type of the place"""
        loc, projs = place
        body = cx.body
        ty = body.types[body.locals[loc][0]]
        cur = [(TRUE, ("L", cx.fid, loc), ())]
        types = body.types
        for p in projs:
            k = p[0]
            if k == "*":
                tk = ty["k"]
                if tk == "ptr" or (tk == "ref"):
                    nxt = []
                    for g, root, path in cur:
                        v = get_path(st.roots.get(root, UNDEF), path)
                        if v.op == "mref":
                            nxt.append((g,) + v.args)
                        elif v.op == "case" and any(x.op == "mref" for x in leafset(v)):
                            for g2, x in leaves(v):
                                gg = b_and(g, g2)
                                if gg is FALSE:
                                    continue
                                if x.op == "mref":
                                    nxt.append((gg,) + x.args)
                                elif x is not UNDEF:
                                    nxt.append((gg, root, path))
                        else:
                            nxt.append((g, root, path))
                    # a reference to a mutable reference needs one more step only when dereferenced again
                    cur = nxt
                    ty = types[ty["t"]]
                elif tk == "adt":     # Box
                    ty = types[ty["a"][0]] if ty.get("a") else ty
            elif k == "f":
                nty = types[p[3]]
                if ty["k"] == "adt" and base_name(ty["n"]) in TRANSPARENT:
                    pass
                else:
                    cur = [(g, r, path + (("f", p[1]),)) for g, r, path in cur]
                ty = nty
            elif k == "d":
                name = p[2] if len(p) > 2 else None
                cur = [(g, r, path + (("v", name),)) for g, r, path in cur]
            elif k == "i":
                ix = self.local(cx, st, p[1])
                cur = [(g, r, path + (("ix", ix),)) for g, r, path in cur]
                ty = types[ty["t"]] if "t" in ty else ty
            elif k == "ci":
                out = []
                for g, r, path in cur:
                    if p[2]:
                        v = get_path(st.roots.get(r, UNDEF), path)
                        ix = sub(seqlen(v), num(p[1]))
                    else:
                        ix = num(p[1])
                    out.append((g, r, path + (("ix", ix),)))
                cur = out
                ty = types[ty["t"]] if "t" in ty else ty
            elif k == "ss":
                out = []
                for g, r, path in cur:
                    v = get_path(st.roots.get(r, UNDEF), path)
                    n = seqlen(v)
                    to = sub(n, num(p[2])) if p[3] else num(p[2])
                    s = mkslice(v, num(p[1]), sub(to, num(p[1])))
                    tr = self.temp(st, s)
                    out.append((g, tr, ()))
                cur = out
            else:
                self.note("projection", k)
        return cur, ty

    def local(self, cx, st, n):
        return st.roots.get(("L", cx.fid, n), UNDEF)

    def load(self, cx, st, place):
        if not place[1]:
            return self.local(cx, st, place[0])
        cur, ty = self.resolve(cx, st, place)
        r = UNDEF
        for g, root, path in cur:
            v = get_path(st.roots.get(root, UNDEF), self.trim(path))
            r = v if len(cur) == 1 else tm._ite_undef(g, v, r)
        return r

    @staticmethod
    def trim(path):
        if path and path[-1][0] == "v":
            return path[:-1]
        return path

    def store(self, cx, st, place, v):
        if not place[1]:
            st.roots[("L", cx.fid, place[0])] = v
            return
        cur, _ = self.resolve(cx, st, place)
        for g, root, path in cur:
            old = st.roots.get(root, UNDEF)
            new = set_path(old, self.trim(path), v)
            st.roots[root] = new if len(cur) == 1 else join_val(restrict(g, st.pc), new, old)

    def borrow_mut(self, cx, st, place):
        cur, _ = self.resolve(cx, st, place)
        r = UNDEF
        for g, root, path in cur:
            path = self.trim(path)
            m = mref(root, path)
            r = m if len(cur) == 1 else tm._ite_undef(g, m, r)
        return r

    # ------------------------------------------------------------ operands

    def operand(self, cx, st, o):
        if "m" in o:
            return self.load(cx, st, o["m"])
        if "c" in o:
            return self.load(cx, st, o["c"])
        return self.constant(cx, st, o["k"])

    def constant(self, cx, st, k):
        ty = cx.body.types[k["ty"]]
        if "fn" in k:
            return self.fnval(k["fn"], cx.body)
        if "v" in k:
            return B(k["v"])
        if "char" in k:
            return num(k["char"])
        if "int" in k:
            return num(int(k["int"]))
        if "float" in k:
            s = k["float"]
            if s == "NaN":
                return NAN
            if "inf" in s:
                return tm.NINF if s.startswith("-") else tm.INF
            return num(Fraction(Decimal(s)))
        if "str" in k:
            return lit(k["str"])
        if "bytes" in k:
            return mk("bytes", tuple(k["bytes"]))
        if "static" in k:
            if k["smut"] or k["static"] not in self.p.bodies:
                return mk("const", "static " + k["static"])
            return self.const_body(cx, st, k["static"])
        if "body" in k:
            return self.const_body(cx, st, k["body"])
        if ty["k"] == "fn":
            return self.fnval(ty["f"], cx.body)
        if ty["k"] == "clo":
            return mk("clo", self.clokey(ty), ())
        if ty["k"] == "tup" and not ty["a"]:
            return UNIT
        if ty["k"] == "adt":
            n = Program.adt_name(ty["n"])
            vs = variants(n)
            if "zst" in k and vs and len(vs) == 1:
                return adt(n, vs[0][0])
        return mk("const", k.get("p") or k.get("opaque") or ty.get("s", "?"))

    def clokey(self, o):
        return o["ik"] if o.get("ik") in self.p.insts else o["n"]

    def dispatch(self, fn, args, st):
        """the body of a method of one of the program's traits which is called through a reference to any of its kind"""
        v = self.read(st, args[0]) if args else UNDEF
        if v.op != "adt":
            return None
        tr = base_name(fn["trait"])
        name = fn["p"].split("::")[-1]
        mine = [b for (ty, t, n), bs in self.p.impls.items() if ty == base_name(v.args[0]) and t == tr for b in bs]
        hits = [b for b in mine if b.j["name"] == name]
        if len(hits) == 1:
            return hits[0]
        return self.p.bodies.get(fn["k"]) if not hits else None

    def fnval(self, fn, body):
        if fn.get("ctor"):
            return mk("ctor", Program.adt_name(fn["ctor"]["n"]), fn["ctor"]["v"])
        key = (fn.get("rk") or fn["k"], fn.get("rp") or fn["p"], json.dumps([body.types[a].get("s") if a is not None and isinstance(a, int) else None for a in fn.get("a", [])]))
        self.fns[key] = (fn, body)
        return mk("fn", key)

    def const_body(self, cx, st, key):
        v = self.const_cache.get(key)
        if v is None:
            b = self.p.bodies.get(key)
            if b is None:
                return mk("const", key)
            s = State({}, TRUE)
            s, v = self.run_body(b, [], s)
            if v is None:
                v = mk("const", key)
            self.const_cache[key] = v
        return v

    # ------------------------------------------------------------ rvalues

    def adt_of(self, ty):
        return Program.adt_name(base_name(ty["n"])) if ty["k"] == "adt" else None

    def rvalue(self, cx, st, rv):
        r = rv["r"]
        if r == "use":
            return self.operand(cx, st, rv["o"])
        if r == "ref":
            if rv["mut"]:
                return self.borrow_mut(cx, st, rv["p"])
            return self.load(cx, st, rv["p"])
        if r == "raw":
            return self.borrow_mut(cx, st, rv["p"]) if rv.get("mut") else self.load(cx, st, rv["p"])
        if r == "bin":
            return self.binop(cx, rv["op"], self.operand(cx, st, rv["a"]), self.operand(cx, st, rv["b"]), cx.body.types[rv["t"]])
        if r == "un":
            a = self.operand(cx, st, rv["a"])
            if rv["op"] == "Neg":
                return amap(None, lambda x: neg(x), a)
            if rv["op"] == "Not":
                if cx.body.types[rv["t"]].get("s") == "bool":
                    return b_not(truth(a))
                rg = INT_RANGE.get(cx.body.types[rv["t"]].get("s"))
                return amap(None, lambda x: num((rg[1] if rg[0] == 0 else -1) - const(x)) if rg and const(x) is not None else mk("bitnot", x), a)
            if rv["op"] == "PtrMetadata":
                return seqlen(self.read(st, a))
            return mk("un", rv["op"], a)
        if r == "cast":
            return self.cast(cx, st, rv)
        if r == "discr":
            cur, ty = self.resolve(cx, st, rv["p"])
            v = self.load(cx, st, rv["p"])
            n = self.adt_of(ty)
            vs = variants(n) if n else None
            if not vs:
                return amap(None, lambda x: mk("discrval", x), v)
            d = {a: num(b) for a, b in vs}
            if len(vs) == 1:
                return num(vs[0][1])
            return amap(None, lambda l: d.get(l.args[0], UNDEF) if l.op == "lit" else UNDEF, discr_cases(v, n, vs))
        if r == "agg":
            ops = [self.operand(cx, st, o) for o in rv["ops"]]
            k = rv["k"]
            if k == "tup":
                return tup(*ops)
            if k == "arr":
                return seq(one(x) for x in ops)
            if k == "clo":
                return mk("clo", self.clokey(rv), tuple(ops))
            n = Program.adt_name(base_name(rv["n"]))
            vs = variants(n)
            vn = vs[rv["v"]][0] if vs else str(rv["v"])
            if rv.get("active") is not None:
                return ops[0]
            return adt(n, vn, *ops)
        if r == "repeat":
            a = self.operand(cx, st, rv["o"])
            n = rv.get("n")
            if isinstance(n, int) and n <= 1024:
                return seq(one(a) for _ in range(n))
            return mk("repeat", a, n if isinstance(n, int) else str(n))
        self.note("rvalue", r)
        return mk("opaque", r, str(rv)[:80])

    def cast(self, cx, st, rv):
        k = rv["k"]
        if k == "BoxDerefTransmute":
            o = rv["o"]
            pl = o.get("m") or o.get("c")
            return self.borrow_mut(cx, st, [pl[0], pl[1][:-1]])
        v = self.operand(cx, st, rv["o"])
        if k == "FloatToInt":
            return to_int(v, cx.body.types[rv["t"]].get("s"))
        if k == "IntToInt":
            fr, to = cx.body.types[rv["from"]].get("s"), cx.body.types[rv["t"]].get("s")
            if fr in INT_RANGE and to in INT_RANGE:
                return to_width(v, fr, to)
            w = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63, "char": 21, "bool": 1, "u128": 128, "i128": 127}
            if fr == "bool":
                return ite(truth(v), num(1), ZERO)
            if w.get(fr, 999) > w.get(to, 0):
                return amap(None, lambda x: x if const(x) is not None and 0 <= const(x) < 2 ** w.get(to, 0) else mk("narrow", to, x), v)
            return v
        return v

    def binop(self, cx, op, a, b, ty):
        if op in ("Eq", "Ne"):
            r = eq(a, b)
            return r if op == "Eq" else b_not(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](a, b)
        wo = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        isf = ty.get("s") in ("f32", "f64")
        if o == "Add":
            r = add(a, b)
        elif o == "Sub":
            r = sub(a, b)
        elif o == "Mul":
            r = mul(a, b)
        elif o == "Div":
            r = div(a, b) if isf else idiv(a, b)
        elif o == "Rem":
            r = rem(a, b) if not isf else amap2("frem", frem, a, b)
        elif o in ("BitAnd", "BitOr", "BitXor") and ty.get("s") == "bool":
            x, y = truth(a), truth(b)
            r = b_and(x, y) if o == "BitAnd" else b_or(x, y) if o == "BitOr" else b_and(b_or(x, y), b_not(b_and(x, y)))
        elif o == "Cmp":
            r = order_of(a, b)
        else:
            r = amap2(None, lambda x, y: bitop(o, x, y, ty.get("s")), a, b)
        if not wo:
            return r
        lo, hi = INT_RANGE.get(ty.get("s"), (None, None))
        c = const(r) if isinstance(r, T) else None
        return tup(r, B(c is not None and lo is not None and not lo <= c <= hi))

    # ------------------------------------------------------------ control flow

    def run_body(self, body, args, st):
        """-> (state after the call or None, value)"""
        depth = len(self.stack)
        nt = self.nt
        again = sum(1 for b in self.stack if b is body)
        if depth > 60 or again >= 2 and (again > 25 or not all(ground(self.deep(st, a)) for a in args)):
            self.note("recursion not followed:", body.path)
            return self.havoc_call(body.path, args, st)
        self.nf += 1
        self.seen_bodies.add(body.key)
        cx = Ctx(body, self.nf, depth)
        self.stack.append(body)
        try:
            st = st.copy()
            argc = body.j["argc"]
            spread = body.j.get("spread")
            for i, a in enumerate(args):
                st.roots[("L", cx.fid, i + 1)] = a
            exits = self.run_region(cx, 0, st, None, None)
        finally:
            self.stack.pop()
        s = exits.get("RET")
        if s is None:
            return None, UNDEF
        v = s.roots.get(("L", cx.fid, 0), UNDEF)
        roots = {k: x for k, x in s.roots.items() if not (k[0] == "L" and k[1] == cx.fid)}
        if self.nt > nt:
            self.sweep(roots, nt, v)
        return State(roots, s.pc), v

    def sweep(self, roots, nt, v):
        """forget places made since which nothing refers to any more"""
        made = [k for k in roots if k[0] == "P" and k[1] > nt]
        if not made:
            return
        dead = set(made)
        todo = [v] + [x for k, x in roots.items() if k not in dead]
        while todo and dead:
            for k in self.roots_in(todo.pop()):
                if k in dead:
                    dead.discard(k)
                    todo.append(roots[k])
        for k in dead:
            del roots[k]

    def roots_in(self, v):
        if not isinstance(v, (T, tuple)):
            return ()
        r = ROOTS.get(v)
        if r is None:
            if isinstance(v, T) and not self._has_mref(v):
                r = ()
            else:
                r = tuple({m.args[0] for m in self.mrefs(v)})
            ROOTS[v] = r
        return r

    def run_region(self, cx, entry, st, blocks, header):
        rpo, loops, flags = cx.body.cfg()
        pending = {entry: st}
        exits = {}
        while pending:
            b = min(pending, key=rpo.get)
            s = pending.pop(b)
            if b in loops and b != header:
                outs = self.run_loop(cx, b, loops[b], s)
            else:
                outs = self.exec_block(cx, b, s, flags)
            for target, s2 in outs:
                if s2 is None or s2.pc is FALSE or s2.pc is UNDEF:
                    continue
                if target == "RET":
                    exits["RET"] = merge(exits.get("RET"), s2)
                elif target == header:
                    exits["BACK"] = merge(exits.get("BACK"), s2)
                elif blocks is not None and target not in blocks:
                    exits[target] = merge(exits.get(target), s2)
                else:
                    pending[target] = merge(pending.get(target), s2)
        return exits

    def exec_block(self, cx, b, st, flags):
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided("analysis budget exhausted")
        bl = cx.body.blocks[b]
        st = st.copy()
        for s in bl["s"]:
            if s[0] == "=":
                if not s[1][1] and s[1][0] in flags:
                    continue
                self.store(cx, st, s[1], self.rvalue(cx, st, s[2]))
            elif s[0] == "setd":
                pass
        t = bl["t"]
        k = t["t"]
        if k == "drop" and t.get("ty") is not None:
            ty = cx.body.types[t["ty"]]
            ds = self.p.impls.get((self.p.tyname(base_name(ty["n"])), "core::ops::drop::Drop", "drop"), []) if ty["k"] == "adt" else []
            if len(ds) == 1:
                st, _ = self.run_body(ds[0], [self.borrow_mut(cx, st, t["p"])], st)
                if st is None:
                    return []
        if k == "goto" or k == "drop":
            return [(t["to"], st)]
        if k == "assert":
            c = restrict(truth(self.operand(cx, st, t["o"])), st.pc)
            if c is B(not t["exp"]):
                self.panics.append((cx.body.path, t.get("sp"), st.pc))
                return []
            return [(t["to"], st)]
        if k == "ret":
            return [("RET", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(cx, st, t, flags)
        if k == "call":
            return self.call(cx, b, st, t)
        if k == "other" and t.get("to") is not None:
            return [(t["to"], st)]
        return []

    def switch(self, cx, st, t, flags):
        o = t["o"]
        pl = o.get("m") or o.get("c")
        if pl is not None and not pl[1] and pl[0] in flags:
            # drop flag: dropping has no effect here
            return [(t["else"], st)]
        v = self.operand(cx, st, o)
        isb = cx.body.types[t["ty"]].get("s") == "bool"
        if isb:
            v = truth(v)
        v = restrict(v, st.pc)
        outs = []
        rest = TRUE
        for val, target in t["vals"]:
            n = int(val)
            if isb:
                c = v if n else b_not(v)
            else:
                c = amap(None, lambda x: (UNDEF if x is UNDEF else B(const(x) == n) if const(x) is not None else eqn(x, num(n))), v)
                c = amap(None, lambda x: x, c)
            if c is UNDEF:
                continue
            c = b_and(c, rest)
            pc = b_and(st.pc, c)
            rest = b_and(rest, b_not(c))
            if pc is not FALSE:
                outs.append((target, st.copy(pc)))
        pc = b_and(st.pc, rest)
        if pc is not FALSE:
            outs.append((t["else"], st.copy(pc)))
        return outs

    # ------------------------------------------------------------ calls

    def call(self, cx, b, st, t):
        f = t["f"]
        forced = cx.forced.get(b)
        if forced is not None:
            v = forced
            st2 = st
        else:
            args = [self.operand(cx, st, a) for a in t["args"]]
            if "k" in f and "fn" in f["k"]:
                fn = f["k"]["fn"]
                st2, v = self.call_fn(fn, cx.body, args, st, t)
            elif "k" in f:
                fv = self.constant(cx, st, f["k"])
                st2, v = self.call_value(fv, args, st, t)
            else:
                fv = self.operand(cx, st, f)
                st2, v = self.call_value(fv, args, st, t)
        if st2 is None or t.get("to") is None:
            if t.get("to") is None:
                self.panics.append((cx.body.path, t.get("sp"), st.pc))
            return []
        if st2 is st:
            st2 = st.copy()
        self.store(cx, st2, t["d"], v)
        return [(t["to"], st2)]

    def call_fn(self, fn, body, args, st, t=None):
        """-> (state or None, value)"""
        self.calls += 1
        if fn.get("ctor"):
            return st, self.construct(Program.adt_name(fn["ctor"]["n"]), fn["ctor"]["v"], args)
        key = fn.get("rk") or fn["k"]
        path = fn.get("rp") or fn["p"]
        if "shim" in fn and not (fn["shim"].startswith("Virtual") and fn.get("trait", "").startswith("crate::")):
            key = None
        if self.hook is not None:
            r = self.hook(self, key, path, args, st, fn, body)
            if r is not None:
                return r
        if key in self.opaque:
            return self.opaque_call(path, args, st)
        lb = None
        if key and fn.get("trait") and fn["trait"].startswith("crate::") and not fn.get("rk") and not fn.get("ik"):
            if key in self.p.bodies or any(t == base_name(fn["trait"]) for _, t, _ in self.p.impls):
                lb = self.dispatch(fn, args, st)
                if lb is None:
                    return self.opaque_call(path, args, st)
        elif key:
            lb = self.p.insts.get(fn.get("ik")) or self.p.bodies.get(key)
        if lb is not None and lb.j["kind"] in ("fn", "closure"):
            if lb.j.get("derived") and lb.j["name"] == "clone":
                return st, self.read(st, args[0])
            if lb.j.get("derived") and lb.j["name"] == "eq":
                return st, eq(self.deep(st, args[0]), self.deep(st, args[1]))
            if lb.j.get("derived") and lb.j["name"] == "fmt" and base_name(lb.j.get("trait") or "").endswith("fmt::Debug"):
                return st, ok(UNIT)
            return self.inline(lb, args, st)
        return self.models.call(self, fn, body, path, args, st, t)

    def inline(self, lb, args, st):
        argc = lb.j["argc"]
        if lb.j["kind"] == "closure":
            # the arguments come as one tuple
            return self.call_value(args[0], [field(args[1], i) for i in range(argc - 1)], st)
        return self.run_body(lb, args, st)

    def construct(self, n, vi, args):
        vs = variants(n)
        return adt(n, vs[vi][0] if vs else str(vi), *args)

    def call_value(self, fv, args, st, t=None):
        """calls a closure or function value"""
        fv0 = fv
        target = self.read(st, fv)
        if target.op == "clo":
            b = self.p.get(target.args[0])
            if b is None:
                return self.opaque_call("closure " + target.args[0], args, st)
            selfty = b.types[b.locals[1][0]]
            env = target
            tr = None
            if selfty["k"] == "ref" and selfty["m"]:
                if fv0.op == "mref":
                    env = fv0
                else:
                    tr = self.temp(st, target)
                    env = mref(tr)
            return self.run_body(b, [env] + list(args), st)
        if target.op == "fn":
            fn, body = self.fns[target.args[0]]
            return self.call_fn(fn, body, args, st)
        if target.op == "ctor":
            return st, self.construct(target.args[0], target.args[1], args)
        if target.op == "pyfn":
            return self.pyfns[target.args[0]](st, *args)
        if target.op == "case":
            out = None
            res = UNDEF
            acc = None
            for g, x in leaves(target):
                pc = b_and(st.pc, g)
                if pc is FALSE:
                    continue
                s2, v = self.call_value(x, args, st.copy(pc), t)
                if s2 is None:
                    continue
                s2.roots[("RV", len(self.stack))] = v
                acc = merge(acc, s2)
            if acc is None:
                return None, UNDEF
            v = acc.roots.pop(("RV", len(self.stack)))
            return acc, v
        return self.opaque_call("call", [fv] + list(args), st)

    def deep(self, st, v):
        """v with mutable references replaced by what they refer to"""
        if v.op == "mref":
            return self.deep(st, self.read(st, v))
        if v.op in ("adt", "tup", "clo", "seq", "case") or v.op in ("one",):
            if not self._has_mref(v):
                return v
            return Subst({}, lambda x: self.read(st, x) if x.op == "mref" else None)(v)
        return v

    def _has_mref(self, v):
        return tm.contains(v, "mref", lambda x: x.op == "mref")

    def mrefs(self, v, acc=None):
        acc = [] if acc is None else acc
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, (T, tuple)):
                    self.mrefs(x, acc)
        elif v.op == "mref":
            acc.append(v)
        elif self._has_mref(v):
            for x in v.args:
                if isinstance(x, (T, tuple)):
                    self.mrefs(x, acc)
        return acc

    def opaque_call(self, name, args, st, havoc=True):
        vals = tuple(self.deep(st, a) for a in args)
        r = mk("call", name, vals)
        ms = self.mrefs(tuple(args)) if havoc else []
        if ms:
            st = st.copy()
            for i, m in enumerate(ms):
                self.write(st, m, mk("after", r, i))
        return st, r

    def havoc_call(self, name, args, st):
        return self.opaque_call(name, args, st)

    # ------------------------------------------------------------ loops

    def known_loop(self, cx, header, blocks, st, limit, split):
        """iteration by iteration, as long as it is known whether there is another one; None if it isn't"""
        np, nn, ns = len(self.panics), len(self.notes), self.unsafe_loops
        exits = []
        S = st
        for i in range(limit):
            ex = self.run_region(cx, header, S, blocks, header)
            back = ex.pop("BACK", None)
            if back is None or back.pc is FALSE:
                return exits + list(ex.items())
            if ex and not split:
                break
            exits.extend(ex.items())
            S = back
        del self.panics[np:]
        del self.notes[nn:]
        self.unsafe_loops = ns
        return None

    def run_loop(self, cx, header, blocks, st):
        drv = self.find_driver(cx, header, blocks)
        if drv is None:
            r = self.known_loop(cx, header, blocks, st, 300, False)
            if r is not None:
                return r
        if drv is not None:
            r = self.driven_loop(cx, header, blocks, st, drv)
            if r is not None:
                return r
        return self.counter_loop(cx, header, blocks, st)

    def find_driver(self, cx, header, blocks):
        b = header
        body = cx.body
        for _ in range(30):
            t = body.blocks[b]["t"]
            if t["t"] == "call":
                f = t["f"]
                if "k" in f and "fn" in f["k"]:
                    fn = f["k"]["fn"]
                    key = fn.get("rk") or fn["k"]
                    if key not in self.p.bodies:
                        ow, name = norm_path(fn.get("rp") or fn["p"])
                        if name in DRIVERS and (name not in ("pop",) or ow == "Vec"):
                            return b, DRIVERS[name]
            if t["t"] in ("goto", "call", "drop", "assert") and t.get("to") in blocks:
                b = t["to"]
                if b == header:
                    return None
            else:
                return None
        return None

    def driven_loop(self, cx, header, blocks, st, drv):
        db, direction = drv
        rpo, loops, flags = cx.body.cfg()
        # the iterator advanced by the loop
        s, b = st, header
        while b != db:
            outs = self.exec_block(cx, b, s, flags)
            if len(outs) != 1:
                return None
            b, s = outs[0]
        s = s.copy()
        for x in cx.body.blocks[db]["s"]:
            if x[0] == "=":
                self.store(cx, s, x[1], self.rvalue(cx, s, x[2]))
        t = cx.body.blocks[db]["t"]
        ref = self.operand(cx, s, t["args"][0])
        if ref.op != "mref":
            return None
        root, path = ref.args
        if root not in st.roots:
            return None
        it = self.read(st, ref)
        it = self.models.to_iter(self, it, None, st)
        if it is None:
            return None
        it = self.models.expand(it)
        v0 = self.read(st, ref)
        if self.models.plain(it) and len(it.args[0]) <= 300 and v0.op in ("iter", "seq", "adt"):
            S = st
            if v0.op != "seq" and v0 is not it:
                S = st.copy()
                self.write(S, ref, it)
            r = self.known_loop(cx, header, blocks, S, 4 * len(it.args[0]) + 8 if v0.op != "seq" else 300, True)
            if r is not None:
                return r
        if direction == "b":
            it = self.models.reverse_iter(it)
            if it is None:
                return None
        exits = []
        hold = st.copy()
        self.write(hold, ref, mk("iterating", self.nf))
        rkey = (root, path)

        def step(S, v):
            old = cx.forced.get(db)
            cx.forced[db] = some(v)
            try:
                ex = self.run_region(cx, header, S, blocks, header)
            finally:
                if old is None:
                    cx.forced.pop(db, None)
                else:
                    cx.forced[db] = old
            back = ex.pop("BACK", None)
            return back, list(ex.items())
        oldpeek = self.peek.get(rkey)
        self.peek[rkey] = None
        try:
            final, ex = self.drain(hold, it, step, peekroot=rkey)
        finally:
            self.peek[rkey] = oldpeek
        exits.extend(ex)
        for tg, s2 in exits:
            if s2 is not None and root in s2.roots:
                self.write(s2, ref, mk("rest", it))
        if final is not None and final.pc is not FALSE:
            final = final.copy()
            self.write(final, ref, self.models.exhausted(it))
            old = cx.forced.get(db)
            cx.forced[db] = NONE
            try:
                ex = self.run_region(cx, header, final, blocks, header)
            finally:
                if old is None:
                    cx.forced.pop(db, None)
                else:
                    cx.forced[db] = old
            ex.pop("BACK", None)
            exits.extend(ex.items())
        return exits

    def counter_loop(self, cx, header, blocks, st):
        def step(S, v):
            ex = self.run_region(cx, header, S, blocks, header)
            back = ex.pop("BACK", None)
            return back, list(ex.items())
        # find the bound
        dom = mk("iters", "t%d" % cx.fid, header)
        tv = fresh()
        info = self.generalise(st, dom, tv, lambda S: step(S, None))
        bound = None
        if info is not None and info["back"] is not None:
            ixt = index_of(dom, tv)
            for cond in [info["sub"](info["back"].pc)]:
                bound = find_bound(cond, ixt, dom, tv)
        elif info is not None:
            # never comes back: no loop
            return info["exits_raw"](st)
        if bound is not None:
            d2 = mkrange(bound)
            final, ex = self.loop_for(st, d2, lambda S, v: step(S, v), None)
            exits = list(ex)
            if final is not None and final.pc is not FALSE:
                e2 = self.run_region(cx, header, final, blocks, header)
                if e2.pop("BACK", None) is not None:
                    self.note("loop bound not exact in", cx.body.path)
                exits.extend(e2.items())
            return exits
        # unknown trip count
        self.note("loop with unknown bound in", cx.body.path)
        self.unsafe_loops += 1
        S = st.copy()
        for i, (loc, kind) in enumerate(info["locs"].items() if info else []):
            root, path = loc
            old = get_path(S.roots.get(root, UNDEF), path)
            hv = mk("havoc", cx.body.path, header, i)
            if old.op == "bool" or (old.op == "case" and any(x.op == "bool" for x in leafset(old))):
                hv = btest("truth", hv)
            elif kind == "l":
                hv = log_append(old, (mk("unk", cx.body.path, header, i),))
            S.roots[root] = set_path(S.roots[root], path, hv)
        ex = self.run_region(cx, header, S, blocks, header)
        ex.pop("BACK", None)
        return [(t, State(s.roots, st.pc if len(ex) == 1 else s.pc)) for t, s in ex.items()]

    # iteration over an iterator value: iter(segments, stages)

    def drain(self, st, it, f, peekroot=None):
        """feeds the items to f(state, value) -> (state or None, exits); -> (state, exits)"""
        segs, stages = it.args
        st = st.copy()
        prepared = []
        for sg in stages:
            k = sg.args[0]
            x = sg.args[1] if len(sg.args) > 1 else None
            if k in ("enumerate", "skip", "take", "step_by", "take_while", "skip_while", "zip"):
                r = self.temp(st, ZERO if k not in ("take_while", "skip_while") else TRUE)
                prepared.append((k, x, r, sg))
            elif k in ("map", "filter", "filter_map", "flat_map", "inspect", "map_while", "scan"):
                flag = self.temp(st, TRUE) if k == "map_while" else None
                if x is not None and x.op == "clo":
                    r = self.temp(st, x)
                    prepared.append((k, mref(r), flag, sg))
                else:
                    prepared.append((k, x, flag, sg))
            else:
                prepared.append((k, x, None, sg))

        def run(S, v, i):
            if i == len(prepared):
                return f(S, v)
            return self.models.stage(self, S, v, prepared[i], lambda S2, v2: run(S2, v2, i + 1))
        g = lambda S, v: run(S, v, 0)
        simple = peekroot if all(s.args[0] in ("peekable", "copied") for s in stages) else None
        def done(S):
            for k, x, root, sg in prepared:
                if k == "take":
                    n = const(sub(S.roots[root], self.read(S, x)))
                    if n is not None and n >= 0:
                        return True
                if k in ("take_while", "map_while") and S.roots[root] is FALSE:
                    return True
                if k == "zip":
                    S2, _, c = self.models.nth_item(self, S, x, S.roots[root])
                    if c is FALSE:
                        return True
            return False
        final, exits = self.iterate(st, segs, g, simple, done)
        outs = []
        stop = []
        for t, s in exits:
            if t == ("STOPITER", id(prepared)):
                stop.append(s)
            else:
                outs.append((t, s))
        for s in stop:
            final = merge(final, s)
        return final, outs

    def unroll(self, st, s, f, done):
        """items one by one until it is known that no more are wanted; None if that stays unknown"""
        np, nn = len(self.panics), len(self.notes)
        exits = []
        pc0 = st.pc
        gen = s
        for i in range(300):
            if s.op == "gen":
                st, o, gen = self.models.gen_step(self, st, gen)
                if st is None:
                    return None, exits
                if o is NONE:
                    return st, exits
                if o.op != "adt":
                    break
                v = field(o, 0, "Some")
                st, ex = f(st, v)
            else:
                tv, (inner,), _ = open_binder(s)
                st, ex = self.iterate(st, Subst({tv: posn(s.args[0], num(i))})(inner), f)
            exits.extend(ex)
            if st is None:
                return None, exits
            if st.pc is not pc0 or st.pc is FALSE:
                break
            if done is not None and done(st):
                return st, exits
        del self.panics[np:]
        del self.notes[nn:]
        return None

    def iterate(self, st, segs, f, peekroot=None, done=None):
        exits = []
        for n, s in enumerate(segs):
            if st is None or st.pc is FALSE:
                break
            if s.op == "one":
                g, v = s.args
                if peekroot is not None:
                    rest = segs[n + 1:]
                    self.peek[peekroot] = mk("peekrest", rest) if rest else NONE
                if g is TRUE:
                    st, ex = f(st, v)
                    exits.extend(ex)
                    continue
                pc = b_and(st.pc, g)
                if pc is FALSE:
                    continue
                a = st.copy(pc)
                b = st.copy(b_and(st.pc, b_not(g)))
                r, ex = f(a, restrict(v, g))
                exits.extend(ex)
                st = merge(r, b if b.pc is not FALSE else None)
            elif s.op == "sub":
                st, ex = self.drain(st, s.args[0], f)
                exits.extend(ex)
            elif s.op == "gen" or (s.op == "for" and s.args[0].op == "naturals"):
                r = self.unroll(st, s, f, done)
                if r is not None:
                    st, ex = r
                    exits.extend(ex)
                    continue
                if s.op == "for":
                    dom = s.args[0]

                    def nat(S, tv, s=s):
                        _, (inner,), _ = open_binder(s, tv)
                        return self.iterate(S, inner, f)
                    st, ex = self.loop_for(st, dom, nat, None)
                else:
                    dom = mk("items", mk("call", "items", (s,)))
                    st, ex = self.loop_for(st, dom, lambda S, tv, dom=dom: f(S, mk("el", dom, tv)), None)
                exits.extend(ex)
            elif s.op in ("for",) and seg_depth(s) < 3:
                dom = s.args[0]
                n0 = const(dom.args[0]) if dom.op == "range0" else None
                if n0 is not None and n0 <= 1024:
                    for i in range(int(n0)):
                        tv, (inner,), _ = open_binder(s)
                        inner = Subst({tv: posn(dom, num(i))})(inner)
                        st, ex = self.iterate(st, inner, f)
                        exits.extend(ex)
                        if st is None or st.pc is FALSE:
                            break
                    continue
                single = peekroot is not None and len(segs) == 1

                def body(S, tv, s=s, single=single):
                    _, (inner,), _ = open_binder(s, tv)
                    if single and len(inner) == 1 and inner[0].op == "one" and inner[0].args[0] is TRUE:
                        nxt = add(index_of(dom, tv), num(1))
                        nv = Subst({tv: posn(dom, nxt)})(inner[0].args[1])
                        self.peek[peekroot] = ite(lt(nxt, domlen(dom)), some(nv), NONE)
                    elif peekroot is not None:
                        self.peek[peekroot] = None
                    return self.iterate(S, inner, f)
                st, ex = self.loop_for(st, dom, body, None)
                exits.extend(ex)
            else:
                dom = mk("items", s)
                st, ex = self.loop_for(st, dom, lambda S, tv, dom=dom: f(S, mk("el", dom, tv)), None)
                exits.extend(ex)
        return st, exits

    def loop_for(self, st0, dom, f, _):
        tv = fresh()
        self.tvs.append(tv)
        try:
            info = self.generalise(st0, dom, tv, lambda S: f(S, tv))
        finally:
            self.tvs.pop()
        return info["final"](), info["exits"]()

    def generalise(self, st0, dom, tv, F):
        name = tv.args[0]
        locs = {}
        keys = {}

        def start():
            S = st0.copy()
            for (root, path), kind in locs.items():
                v0 = get_path(st0.roots[root], path)
                key = keys[(root, path)]
                if kind == "s":
                    m = mk("mv", name, key)
                    if is_boolish(v0):
                        m = btest("truth", m)
                else:
                    m = log_append(v0, (mk("mseg", name, key),))
                S.roots[root] = set_path(S.roots[root], path, m)
            return S
        back = exits = None
        for rnd in range(40):
            S = start()
            back, exits = F(S.copy())
            exits = [(t, s) for t, s in exits if s is not None and s.pc is not FALSE]
            if back is None or back.pc is FALSE:
                back = None
                break
            new = {}
            for root, v0 in S.roots.items():
                v1 = back.roots.get(root, UNDEF)
                if v1 is not v0:
                    diff(v0, v1, root, (), new)
            changed = False
            for loc, kind in new.items():
                if loc in locs:
                    if locs[loc] == "l" and kind == "s":
                        locs[loc] = "s"
                        changed = True
                    continue
                # shallower locations win
                root, path = loc
                if any(r == root and path[:len(p)] == p for r, p in locs):
                    host = next((r, p) for r, p in locs if r == root and path[:len(p)] == p)
                    if locs[host] == "l":
                        locs[host] = "s"
                        changed = True
                    continue
                for r, p in list(locs):
                    if r == root and p[:len(path)] == path:
                        del locs[(r, p)]
                locs[loc] = kind
                keys[loc] = "%s" % (len(keys),)
                changed = True
            # logs must have kept their marker
            for loc, kind in list(locs.items()):
                if kind == "l" and not changed:
                    v1 = get_path(back.roots[loc[0]], loc[1])
                    mseg = mk("mseg", name, keys[loc])
                    if split_log(v1, mseg) is None:
                        locs[loc] = "s"
                        changed = True
            if not changed:
                break
        else:
            self.note("loop did not stabilise")
            raise Undecided("loop did not stabilise")

        sub = {}
        finals = {}
        if back is None:
            # at most one iteration
            sol = Subst({})
            xall = b_any([s.pc for _, s in exits])

            def final():
                return st0.copy(b_and(st0.pc, b_not(nonempty(dom))))

            def mkexits():
                z = Subst({tv: posn(dom, ZERO)})
                out = []
                for t, s in exits:
                    out.append((t, State({k: z(v) for k, v in s.roots.items()}, b_and(z(s.pc), nonempty(dom)))))
                return out
            return {"final": final, "exits": mkexits, "back": None, "sub": sol, "locs": locs, "exits_raw": lambda st: exits}

        nexts, logs = {}, {}
        for loc, kind in locs.items():
            v1 = get_path(back.roots[loc[0]], loc[1])
            v1 = restrict(v1, back.pc)
            key = keys[loc]
            if kind == "s":
                nexts[key] = v1
            else:
                logs[key] = split_log(v1, mk("mseg", name, key))
        v0s = {keys[l]: get_path(st0.roots[l[0]], l[1]) for l in locs}
        ixt = index_of(dom, tv)
        n = domlen(dom)

        def freevars(x):
            return {v for v in (support(x) if isinstance(x, T) else frozenset().union(*[support(y) for y in x]) if x else frozenset()) if v.op in ("mv", "mseg") and v.args[0] == name}
        progress = True
        todo_s, todo_l = dict(nexts), dict(logs)
        while (todo_s or todo_l) and progress:
            progress = False
            S_ = Subst(sub)
            for key in list(todo_s):
                nx = S_(todo_s[key])
                todo_s[key] = nx
                m = mk("mv", name, key)
                v0 = v0s[key]
                r = solve_scalar(m, nx, v0, dom, tv, ixt, n, freevars)
                if r is not None:
                    sub[m], finals[key] = r
                    del todo_s[key]
                    progress = True
                    break
            if progress:
                continue
            for key in list(todo_l):
                segs = S_(todo_l[key])
                todo_l[key] = segs
                fv = freevars(segs)
                me = mk("mseg", name, key)
                if me in fv:
                    segs2 = Subst({me: mskip(segs)})(segs)
                    if not any(tm.contains(s, "mskip", lambda x: x.op == "mskip") for s in segs2):
                        segs = todo_l[key] = segs2
                        fv = freevars(segs)
                if not fv:
                    sub[me] = mkpre(dom, tv, segs, tv)
                    finals[key] = mkfor(dom, tv, segs)
                    del todo_l[key]
                    progress = True
                    break
            if progress:
                continue
            # groups of recurrences not depending on open logs
            for key in list(todo_s):
                comp = reach(key, todo_s, name)
                if comp is None:
                    continue
                g = build_group(comp, todo_s, v0s, dom, tv, name)
                sub[mk("mv", name, key)] = as_like(v0s[key], mk("muat", g, tv))
                finals[key] = as_like(v0s[key], mk("muend", g))
                progress = True
            if progress:
                for key in [k for k in todo_s if mk("mv", name, k) in sub]:
                    del todo_s[key]
        if todo_s or todo_l:
            # logs and values depending on each other: close them over themselves
            S_ = Subst(sub)
            for key in list(todo_l):
                segs = S_(todo_l[key])
                finals[key] = mkfor(dom, tv, segs)
                sub[mk("mseg", name, key)] = mkpre(dom, tv, segs, tv)
            S_ = Subst(sub)
            for key in list(todo_s):
                comp = reach(key, todo_s, name, True)
                g = build_group(comp, {k: S_(v) for k, v in todo_s.items()}, v0s, dom, tv, name)
                sub[mk("mv", name, key)] = as_like(v0s[key], mk("muat", g, tv))
                finals[key] = as_like(v0s[key], mk("muend", g))
        # substitutions may mention each other
        for _ in range(6):
            S_ = Subst({k: v for k, v in sub.items() if not isinstance(v, tuple)})
            again = False
            for k in list(sub):
                v = sub[k]
                fv = freevars(v)
                if fv:
                    nv = Subst(sub)(v)
                    if nv is not v and nv != v:
                        sub[k] = nv
                        again = True
            for k in list(finals):
                v = finals[k]
                if freevars(v):
                    nv = Subst(sub)(v)
                    if nv is not v and nv != v:
                        finals[k] = nv
                        again = True
            if not again:
                break
        sol = Subst(sub)
        conds = [(t, s, restrict(sol(s.pc), st0.pc)) for t, s in exits]
        conds = [(t, s, c) for t, s, c in conds if c is not FALSE and c is not UNDEF]
        xall = b_any([c for _, _, c in conds])

        def final():
            F_ = st0.copy()
            for loc in locs:
                root, path = loc
                key = keys[loc]
                if locs[loc] == "s":
                    v = finals[key]
                else:
                    v = log_append(v0s[key], finals[key])
                F_.roots[root] = set_path(F_.roots[root], path, v)
            if xall is not FALSE:
                F_.pc = b_and(st0.pc, b_not(mkany(dom, tv, xall)))
            return F_

        def mkexits():
            if not conds:
                return []
            if tv in support(xall):
                fst = mkfirst(dom, tv, xall)
            else:
                fst = posn(dom, ZERO)
            z = Subst({tv: fst})
            occurs = mkany(dom, tv, xall)
            out = []
            for t, s, c in conds:
                pc = b_and(st0.pc, occurs)
                if len(conds) > 1:
                    pc = b_and(pc, z(c))
                roots = {}
                for k, v in s.roots.items():
                    if v is st0.roots.get(k):
                        roots[k] = v
                    else:
                        roots[k] = z(restrict(sol(v), c) if v.op == "case" else sol(v))
                out.append((t, State(roots, pc)))
            return out
        return {"final": final, "exits": mkexits, "back": back, "sub": sol, "locs": locs, "exits_raw": None}


UNKNOWN_OPS = {"sym", "tv", "call", "unk", "havoc", "muend", "grp", "unknown", "el", "ix"}


def ground(v):
    """nothing unknown in it?"""
    return not tm.contains(v, "ground", lambda x: x.op in UNKNOWN_OPS)


def seg_depth(s):
    """nesting of the loops which made the items of a segment"""
    key = ("segdepth", s)
    r = tm._memo.get(key)
    if r is None:
        r = 0
        if s.op in ("for", "pre"):
            r = 1 + max([seg_depth(x) for x in s.args[2]] or [0])
        elif s.op == "gseg":
            r = seg_depth(s.args[1])
        tm._memo[key] = r
    return r


def is_boolish(v):
    return v.op == "bool" or (v.op == "case" and all(x.op == "bool" for x in leafset(v)))


def as_like(v0, x):
    return btest("truth", x) if is_boolish(v0) else x


def log_append(v, segs):
    if v.op in ("lit", "str"):
        return mk("str", strsegs(v) + tuple(segs)) if any(s.op in ("mseg",) for s in segs) else mkstr(strsegs(v) + tuple(segs))
    if v.op in ("seq", "iolog"):
        return mk(v.op, v.args[0] + tuple(segs))
    if v.op == "graph":
        return mkgraph(v.args[0], v.args[1] + tuple(segs))
    if v.op == "hmap":
        return mkhmap(v.args[0], v.args[1] + tuple(segs))
    if v.op == "arrlog":
        return mk("arrlog", v.args[0], v.args[1] + tuple(segs))
    kind = LOGKIND.get(v)
    if kind == "graph":
        return mkgraph(v, segs)
    if kind == "hmap":
        return mkhmap(v, segs)
    if kind == "arrlog":
        return mk("arrlog", v, tuple(segs))
    if kind == "str":
        return mk("str", (one(v),) + tuple(segs))
    return seq(segs_of(v) + tuple(segs))


LOGKIND = {}


def split_log(v, marker):
    lp = log_parts(v)
    if lp is None:
        return () if False else None
    segs = lp[2]
    for i, s in enumerate(segs):
        if s is marker:
            return segs[i + 1:]
    return None


def diff(a, b, root, path, out):
    if a is b or a is UNDEF:
        return
    if a.op == b.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        vs = variants(a.args[0])
        pre = (("v", a.args[1]),) if vs and len(vs) > 1 else ()
        for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
            diff(x, y, root, path + pre + (("f", i),), out)
        return
    if a.op == b.op == "tup" and len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            diff(x, y, root, path + (("f", i),), out)
        return
    if a.op == b.op == "clo" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
            diff(x, y, root, path + (("f", i),), out)
        return
    if b.op == "upd":
        # overlay of fields on an opaque structure
        layers = {}
        x = b
        while x.op == "upd":
            layers.setdefault((x.args[1], x.args[2]), x.args[3])
            x = x.args[0]
        y = a
        while y.op == "upd":
            layers.setdefault((y.args[1], y.args[2]), field(x, y.args[2], y.args[1]))
            y = y.args[0]
        if x is y:
            for (var, i), v in layers.items():
                diff(field(a, i, var), field(b, i, var), root, path + ((("v", var),) if var else ()) + (("f", i),), out)
            return
    lp = log_parts(b)
    if lp is not None:
        la = log_parts(a)
        if la is not None and la[0] == lp[0] and la[1] is lp[1]:
            if lp[2][:len(la[2])] == la[2] or b.op == "str":
                out[(root, path)] = "l"
                return
        if la is None and lp[1] is a:
            LOGKIND[a] = b.op
            out[(root, path)] = "l"
            return
        if la is None and b.op == "str" and (a.op == "lit" or (lp[2] and lp[2][0].op == "one" and lp[2][0].args[1] is a)):
            if a.op != "lit":
                LOGKIND[a] = "str"
            out[(root, path)] = "l"
            return
        if la is None and b.op == "seq" and a.op not in ("case", "mv", "num", "bool", "adt") and lp[2][:1] and lp[2][0].op == "for" and lp[2][0].args[0] is a:
            LOGKIND[a] = "seq"
            out[(root, path)] = "l"
            return
    if a.op == "lit" and b.op == "lit":
        out[(root, path)] = "l"
        return
    out[(root, path)] = "s"


def mskip(segs):
    fields = set()
    for e in tm_entries(segs):
        if e.op in ("setn", "sete"):
            p = e.args[1]
            fields.add(p[0][1] if p and p[0][0] == "f" else None)
        elif e.op in ("seti", "hset", "hins"):
            fields.add(None)
    return mk("mskip", "w", tuple(sorted(fields, key=str)))


def tm_entries(segs):
    import vals
    return vals._entries(segs)


def solve_scalar(m, nx, v0, dom, tv, ixt, n, freevars):
    """closed form -> (value in iteration tv, value after the loop) or None"""
    if nx is m or (nx.op == "case" and nx is truth(m)):
        return v0, v0
    fv = freevars(nx)
    if is_boolish(v0):
        tt = mk("truth", m)
        hi, lo = cofactor(nx, tt, True), cofactor(nx, tt, False)
        if not freevars(hi) and not freevars(lo):
            if hi is TRUE:
                # m or lo
                return b_or(v0, prev_any(dom, tv, lo)), b_or(v0, mkany(dom, tv, lo))
            if lo is FALSE:
                c = b_not(hi)
                return b_and(v0, b_not(prev_any(dom, tv, c))), b_and(v0, b_not(mkany(dom, tv, c)))
    if m not in support(nx) and not fv and tv not in support(nx):
        # set to the same value in every iteration
        first = eqn(ixt, ZERO)
        return join_val(first, v0, nx), join_val(nonempty(dom), nx, v0)
    if fv == {m} and nx.op == "num" and v0.op != "case":
        d = tm._add(nx, m, -1)
        if m not in support(d) and tv not in support(d):
            return add(v0, mul(d, ixt)), add(v0, mul(d, n))
    return None


def prev_any(dom, tv, cond):
    """some element before tv satisfies cond"""
    if cond is FALSE:
        return FALSE
    if tv not in support(cond):
        return b_and(gt(index_of(dom, tv), ZERO), cond)
    tv2 = fresh()
    return btest("prevany", dom, mklam(tv2, Subst({tv: tv2})(cond)), tv)


def reach(key, nexts, name, force=False):
    order = []

    def go(k):
        if k in order:
            return True
        order.append(k)
        vs = []
        seen = set()

        def walk(t):
            if isinstance(t, tuple):
                for x in t:
                    if isinstance(x, (T, tuple)):
                        walk(x)
                return
            if t in seen:
                return
            seen.add(t)
            if t.op == "mv" and t.args[0] == name:
                vs.append(t.args[1])
            if t.op == "mseg" and t.args[0] == name:
                vs.append(None)
            walk(t.args)
        walk(nexts[k])
        for v in vs:
            if v is None:
                if not force:
                    return False
                continue
            if v not in nexts:
                continue
            if not go(v):
                return False
        return True
    return order if go(key) else None


def build_group(comp, nexts, v0s, dom, tv, name):
    ren = {mk("mv", name, k): mk("mv", name, "#%d" % i) for i, k in enumerate(comp)}
    s = Subst(ren)
    ns = tuple(s(nexts[k]) for k in comp)
    return mkgrp(dom, tv, tuple(v0s[k] for k in comp), ns)


def find_bound(cond, ixt, dom, tv):
    """N such that the loop goes on exactly while ix < N, as far as the top test says"""
    for t in sorted(tests_in(cond)):
        if t.op != "sgn":
            continue
        p = poly(t.args[0])
        c = p.get(((ixt, 1),))
        if c is None or abs(c) != 1:
            continue
        rest = {m: v for m, v in p.items() if m != ((ixt, 1),)}
        r = unpoly(rest)
        if tv in support(r):
            continue
        if c == 1:
            # ix + r < 0
            if all(cofactor(cond, t, k) is FALSE for k in domain(t) if k != -1):
                return neg(r)
            if all(cofactor(cond, t, k) is FALSE for k in domain(t) if k == 1):
                # ix <= -r, or ix != -r
                return add(neg(r), num(1))
            if 0 in domain(t) and cofactor(cond, t, 0) is FALSE:
                return neg(r)
        else:
            if all(cofactor(cond, t, k) is FALSE for k in domain(t) if k != 1):
                return r
            if all(cofactor(cond, t, k) is FALSE for k in domain(t) if k == -1):
                return add(r, num(1))
            if 0 in domain(t) and cofactor(cond, t, 0) is FALSE:
                return r
    return None


def trunc(x):
    c = const(x)
    if c is not None:
        return num(int(c))
    if x.op in ("ix", "len"):
        return x
    return mk("trunc", x)


CONS["trunc"] = lambda x: amap("trunc", trunc, x)


def order_of(a, b):
    O = "core::cmp::Ordering"
    return amap(None, lambda s: UNDEF if s.op != "num" else adt(O, {-1: "Less", 0: "Equal", 1: "Greater"}[int(const(s))]), sgn(a, b))


def mkslice(v, off, n):
    if v.op == "seq" and const(off) is not None and const(n) is not None and all(s.op == "one" and s.args[0] is TRUE for s in v.args[0]):
        o = int(const(off))
        if 0 <= o and 0 <= const(n) and o + const(n) <= len(v.args[0]):
            return seq(v.args[0][o:o + int(const(n))])
    if v.op == "lit" and const(off) is not None and const(n) is not None and 0 <= const(off) and 0 <= const(n):
        b = v.args[0].encode("utf-8")
        try:
            if const(off) + const(n) <= len(b):
                return lit(b[int(const(off)):int(const(off) + const(n))].decode("utf-8"))
        except UnicodeDecodeError:
            pass
    if v.op == "slice":
        return mkslice(v.args[0], add(v.args[1], off), n)
    if const(off) == 0 and n is seqlen(v):
        return v
    return mk("slice", v, off, n)



CONS["slice"] = mkslice
