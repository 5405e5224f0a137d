"""Debug aid: prints the dumped MIR of bodies whose path or key contains a text."""
import sys
from extract import dump


def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        s += {"*": lambda: ".*", "f": lambda: "." + str(e[2]), "i": lambda: "[_%d]" % e[1], "ci": lambda: "[c%s]" % e[1:],
              "ss": lambda: "[ss%s]" % e[1:], "d": lambda: "@%d" % e[1], "?": lambda: "?"}[e[0]]()
    return s


def op(o):
    if "c" in o: return place(o["c"])
    if "m" in o: return "move " + place(o["m"])
    if "k" in o:
        k = o["k"]
        if "fn" in k: return k["fn"].get("rp") or k["fn"]["p"]
        return "const " + str({x: k[x] for x in k if x != "ty"})
    return str(o)


def rv(r):
    k = r["r"]
    if k == "use": return op(r["o"])
    if k == "ref": return ("&mut " if r["mut"] else "&") + place(r["p"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "discr": return "discr " + place(r["p"])
    if k == "agg": return "%s %s#%s [%s]" % (r["k"], r.get("n"), r.get("v"), ", ".join(map(op, r["ops"])))
    if k == "cast": return "cast %s %s" % (r["k"], op(r["o"]))
    return str(r)


def show(b, types):
    print("==", b["key"], "|", b["path"], b["kind"], b["self"], b["trait"], "argc", b["argc"], b["span"])
    for i, (t, n) in enumerate(b["locals"]):
        print("   _%d: %s %s" % (i, types[t]["s"], n or ""))
    for i, x in enumerate(b["blocks"]):
        if x["cleanup"]: continue
        print("  bb%d:" % i)
        for st in x["s"]:
            if st[0] == "=": print("     %s = %s" % (place(st[1]), rv(st[2])))
            else: print("     ", st)
        t = x["t"]
        if t["t"] == "call": print("     %s = %s(%s) -> %s" % (place(t["d"]), op(t["f"]), ", ".join(map(op, t["args"])), t["to"]))
        elif t["t"] == "switch": print("     switch %s %s else %s" % (op(t["o"]), t["vals"], t["else"]))
        else: print("     ", {k: t[k] for k in t if k not in ("sp", "unwind", "ty", "o", "p")}, place(t["p"]) if "p" in t else "", op(t["o"]) if "o" in t else "")


if __name__ == "__main__":
    d, _ = dump()
    for k in d:
        for b in d[k]["bodies"]:
            if sys.argv[1] in b["path"] or sys.argv[1] in b["key"]:
                show(b, d[k]["types"])
