"""Which functions a run can reach, and what of other crates they call: resolved calls, closures and functions mentioned,
implementations of foreign traits. Blocks behind constant conditions are left out."""
from interp import *
import terms as tm


class Reach:
    def __init__(self, F, roots, skip=(), foreign_too=True):
        self.F, self.p = F, F.p
        self.skip = set(skip)
        self.seen = {}
        self.sites = []          # (body, callee fn, span)
        self.statics = []        # (body, key, mutable, span)
        self.casts = []
        work = [(k, None) for k in roots]
        foreign = [b.j["key"] for b in self.p.bodies.values() if self.foreign_impl(b)]
        for k in foreign if foreign_too else []:
            work.append((k, None))
        while work:
            k, frm = work.pop()
            if k in self.seen or k in self.skip or self.p.get(k) is None:
                continue
            self.seen[k] = frm
            b = self.p.get(k)
            for x in self.mentions(b):
                work.append((x, k))

    def foreign_impl(self, b):
        """a method other crates can call: of a trait which isn't the program's"""
        t = b.j.get("trait")
        return bool(t) and not t.startswith("crate::") and b.j["kind"] == "fn" and not b.j.get("derived") and base_name(t).split("::")[-1] not in ("Debug", "CustomDisplay")

    def path_to(self, k):
        out = []
        while k is not None:
            out.append(self.p.get(k).path)
            k = self.seen.get(k)
        return " <- ".join(out)

    def constant_local(self, b, l):
        """the constant a local always has, or None"""
        v, n = None, 0
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] == l:
                    n += 1
                    if not s[1][1] and s[2]["r"] == "use" and "k" in s[2]["o"]:
                        v = s[2]["o"]["k"]
                    else:
                        return None
            t = bl["t"]
            if t["t"] == "call" and t["d"][0] == l:
                return None
        return self.const(b, v) if n == 1 and v is not None and l > b.j["argc"] else None

    def const(self, b, k):
        I = Interp(self.p)
        cx = type("Cx", (), {"body": b})()
        try:
            c = I.constant(cx, State({}, TRUE), k)
        except Exception:
            return None
        if c is TRUE or c is FALSE:
            return 1 if c is TRUE else 0
        return const(c) if c.op == "num" else None

    def blocks(self, b):
        seen, work = set(), [0]
        while work:
            i = work.pop()
            if i in seen or i is None:
                continue
            seen.add(i)
            t = b.blocks[i]["t"]
            if t["t"] == "switch":
                o = t["o"]
                c = None
                if "k" in o:
                    c = self.const(b, o["k"])
                else:
                    pl = o.get("m") or o.get("c")
                    if not pl[1]:
                        c = self.constant_local(b, pl[0])
                if c is not None:
                    hit = [x for v, x in t["vals"] if int(v) == c]
                    work.append(hit[0] if hit else t["else"])
                    continue
            work += b.succs(i)
        return sorted(i for i in seen if not b.blocks[i]["cleanup"])

    def mentions(self, b):
        out = []

        def walk(x, span):
            if isinstance(x, dict):
                if "fn" in x and isinstance(x["fn"], dict):
                    k = x["fn"].get("rk") or x["fn"].get("k")
                    if x["fn"].get("ik") in self.p.insts:
                        out.append(x["fn"]["ik"])
                    if k in self.p.bodies:
                        out.append(k)
                    else:
                        self.sites.append((b, x["fn"], span))
                if x.get("r") == "agg" and x.get("k") == "clo":
                    out.append(x["n"])
                    if x.get("ik") in self.p.insts:
                        out.append(x["ik"])
                if "static" in x:
                    self.statics.append((b, x["static"], x.get("smut"), span))
                    out.append(x["static"])
                elif isinstance(x.get("body"), str):
                    out.append(x["body"])
                if x.get("r") == "cast":
                    self.casts.append((b, x["k"], span))
                for y in x.values():
                    walk(y, span)
            elif isinstance(x, list):
                for y in x:
                    walk(y, span)
        for i in self.blocks(b):
            bl = b.blocks[i]
            for s in bl["s"]:
                walk(s, s[-1] if isinstance(s[-1], str) else None)
            walk(bl["t"], bl["t"].get("sp"))
        return out


SIZES = ("usize", "u32", "u64", "i32", "i64", "u16", "i16", "isize")


NARROW = {"i8": 127, "u8": 255, "i16": 32767, "u16": 65535}


class Constants:
    """the constants of the functions reachable from the given ones: what they do to collections and texts larger than all of them,
    they do to all larger ones"""

    def __init__(self, F, *roots, skip=()):
        RC = Reach(F, [r if isinstance(r, str) else F.fn(*r).j["key"] for r in roots], skip=skip, foreign_too=False)
        self.ints, self.floats, self.strs, self.chars = set(), set(), set(), set()
        self.narrow = set()     # largest values of the small types converted to
        for k in RC.seen:
            b = F.p.get(k)
            if not b.j.get("derived"):
                for i in RC.blocks(b):
                    self.walk(b, b.blocks[i])

    def walk(self, b, x):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str):
                self.strs.add(x["str"])
            if isinstance(x.get("char"), int):
                self.chars.add(chr(x["char"]))
            if "int" in x and "ty" in x:
                self.int(b.types[x["ty"]].get("s"), x["int"])
            elif "float" in x and x["float"] not in ("NaN",) and "inf" not in x["float"]:
                self.floats.add(abs(float(x["float"])))
            if x.get("r") == "cast" and b.types[x["t"]].get("s") in NARROW:
                self.narrow.add(NARROW[b.types[x["t"]]["s"]])
            if isinstance(x.get("fn"), dict) and ("TryFrom" in str(x["fn"]) or "TryInto" in str(x["fn"])):
                self.narrow |= {NARROW[b.types[l[0]]["s"]] for l in b.locals if b.types[l[0]].get("s") in NARROW}
            if isinstance(x.get("fn"), dict) and "Graph" in str(x["fn"]):
                # indices of a small type
                self.narrow |= {NARROW[b.types[a]["s"]] for a in x["fn"].get("a", []) if isinstance(a, int) and b.types[a].get("s") in NARROW}
            if x.get("t") == "switch":
                o = x.get("d") or x.get("o") or {}
                pl = o.get("c") or o.get("m") if isinstance(o, dict) else None
                if pl and not pl[1]:
                    ty = b.types[b.locals[pl[0]][0]].get("s")
                    if ty != "isize":
                        for v, _ in x["vals"]:
                            self.int(ty, v)
            for y in x.values():
                self.walk(b, y)
        elif isinstance(x, list):
            for y in x:
                self.walk(b, y)

    def int(self, ty, v):
        if ty in SIZES:
            self.ints.add(int(v))
        elif ty == "char":
            self.chars.add(chr(int(v)))

    def sizes(self, least, most):
        """numbers of elements around each constant above `least` and up to `most`"""
        out = set()
        for c in self.ints | self.narrow | {int(f) for f in self.floats if f == int(f)}:
            for k in (c, c + 1, c + 2):
                if least < k <= most:
                    out.add(k)
        return sorted(out)
