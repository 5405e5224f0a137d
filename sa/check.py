#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)
VERIF = os.path.dirname(HERE)

RULES = {
    "C30": "color",
}
for _m, _cs in {
    "geom": "C31 C32 C33",
    "lower": "C09 C10",
    "place": "C11 C12 C13 C14",
    "route": "C15 C16 C17 C18",
    "render": "C19 C20 C21 C22 C23 C24 C25 C26 C27",
    "syntax": "C01 C02 C03 C04 C05",
    "effects": "C06 C07 C08 C28 C29",
    "printing": "C34",
}.items():
    for _c in _cs.split():
        RULES[_c] = _m


def known(prop):
    """keys of the findings recorded for a property"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


DEADLINE = float(os.environ.get("SA_DEADLINE", "780"))
# seconds of looking for more violations after the first one
PATIENCE = 30
MEMORY = 14e9


def resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def main(prop):
    t0 = time.time()
    from facts import Report
    R = Report(prop)
    ctx = {"F": None, "info": {}}
    done = threading.Event()

    def work():
        try:
            analyse(prop, R, ctx)
        except BaseException:
            ctx["crash"] = traceback.format_exc()
        done.set()
    th = threading.Thread(target=work, daemon=True)
    th.start()
    bad = None
    while not done.wait(1):
        now = time.time()
        if R.violations and bad is None:
            bad = now
        if bad is not None and now - bad > PATIENCE:
            # the verdict is clear
            break
        if now - t0 > DEADLINE:
            R.unknown("analysis", "out of time after %.0f s" % (now - t0))
            break
        if resident() > MEMORY:
            R.unknown("analysis", "out of memory after %.0f s" % (now - t0))
            break
    if "crash" in ctx:
        print(ctx["crash"])
        R.unknown("analysis", ctx["crash"].strip().split("\n")[-1])
        if not ctx["F"] and not ctx["info"]:
            return 2
    return conclude(prop, R, ctx, t0)


def analyse(prop, R, ctx):
    from facts import Facts, Missing
    try:
        F = ctx["F"] = Facts()
        ctx["info"] = F.info
        R.part("analysis", getattr(importlib.import_module("rules." + RULES[prop]), prop), F, R)
        # the vacuous case: a rule which looked at nothing decides nothing
        if not R.obligations:
            R.unknown("the rule found something to decide", "no obligation")
    except Missing as e:
        R.unknown("anchor", "missing: " + str(e))


def conclude(prop, R, ctx, t0):
    F, info = ctx["F"], ctx["info"]
    R.obligations = list(R.obligations)
    fns = sorted({F.p.get(k).path for k in list(F.functions) if F.p.get(k) is not None}) if F is not None else []
    R.analysed = dict(R.analysed, **{"functions analysed": len(fns)})
    kn = known(prop)
    new = [o for o in R.violations if o[0] not in kn]
    for o in R.violations:
        if o[0] in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, o[0]))
    tier = os.environ.get("VERIF_TIER", "quick")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    holds = [o for o in R.obligations if o[1] == "holds"]
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static value-flow analysis of the MIR of the current tree: each obligation below is decided on the normal form of the values the analysed functions compute for symbolic inputs. Undecided ones raise no alarm.",
            "obligations": len(R.obligations),
            "discharged": len(holds),
            "undecided": len(R.undecided),
            "tree": info.get("tree"),
            "source_files": info.get("files"),
            "counts": R.analysed,
            "functions": fns,
            "samples": [{"obligation": o[0], "status": o[1], "detail": o[2][:2000]} for o in R.obligations[:400]],
        },
        "assumptions": R.assumptions + [
            "arithmetic on f32 is taken as exact; the modelled behaviour of std, svg, petgraph and chumsky functions (sa/models.py) is trusted",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%.1f s)" % (prop, len(R.obligations), len(holds), len(R.undecided), len(R.violations), time.time() - t0))
    if "-v" in sys.argv:
        for o in R.obligations:
            print("  ", *[str(x)[:1500] for x in (o[1], "|", o[0], "|", o[2])])
    else:
        for o in R.undecided:
            print("   undecided:", o[0], "|", o[2][:300])
    if new:
        rp = os.path.join(VERIF, "build", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, prop + ".txt")
        with open(path, "w") as f:
            for o in new:
                f.write("property: %s\nobligation: %s\nfound: %s\n\n" % (prop, o[0], o[2]))
        for o in new[:10]:
            print("  violated: %s -- %s" % (o[0], o[2][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    rc = []

    def run():
        try:
            rc.append(main(sys.argv[1]))
        except BaseException:
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    # what was given up is still running
    os._exit(rc[0])
