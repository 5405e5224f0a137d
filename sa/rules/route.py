import random
from fractions import Fraction as Fr
from docs import *
from rules.lower import truthful, finish

O = "Orientation"
SIDES = ("Up", "Down", "Left", "Right")

# (rows of each record, relations between records n or rows (n, i), ports: sides of related nodes or None for those the layout gives)
DOCS = [
    ((1, 1), [(0, 1)], {0: "R", 1: "L"}),
    ((2, 1), [((0, 1), (1, 0)), ((1, 0), (0, 0))], None),
    ((3, 2, 1, 4), [(0, 3), ((0, 2), (2, 0)), (1, (3, 1)), ((1, 1), (1, 1)), (2, (2, 0))], {0: "UD", 3: "LR", (0, 2): "LD", (2, 0): "UR", 1: "LR", (3, 1): "R", (1, 1): "LR", 2: "UD"}),
    # several relations of the same nodes
    ((1, 1, 1, 1), [(0, 1), (0, 2), (0, 1), (1, 0), (2, 1), (3, 1), (0, 3)], {0: "RD", 1: "L", 2: "D", 3: "U"}),
    ((1, 5, 1, 2, 1, 1, 3), [((6, 2), (0, 0)), ((5, 0), (1, 3)), (4, 2)], {(6, 2): "R", (0, 0): "L", (5, 0): "LU", (1, 3): "R", 4: "D", 2: "U"}),
]

Q = Fr(1, 4)

# laid out by hand: (rectangles of records, relations between records, ports or None for those the layout gives, what is special)
HAND = [
    ([(100, 100, 60, 40), (300, 100 + Q, 60, 40), (500, 100 + Q + Fr(1, 1024), 60, 40)], [(0, 1), (1, 2)], {0: "R", 1: "LR", 2: "L"}, "records at nearly the same height"),
    ([(100, 100, 60, 40), (100 + Q, 300, 60, 40), (100 + Q + Fr(1, 1024), 500, 60, 40)], [(0, 1), (1, 2)], {0: "D", 1: "UD", 2: "U"}, "records in nearly the same column"),
    # the middle of one's side is in line with another one's side
    ([(100, 100, 60, 40), (130, 180, 60, 40), (70, 260, 60, 40), (160, 300, 60, 40)], [(0, 1), (1, 2), (2, 3)], {0: "UDLR", 1: "UDLR", 2: "UDLR", 3: "L"}, "records like bricks, half a width apart"),
    ([(100, 100, 60, 40), (200, 120, 60, 40), (300, 80, 60, 40), (400, 60, 60, 40)], [(0, 1), (1, 2), (2, 3)], {0: "UDLR", 1: "UDLR", 2: "UDLR", 3: "UD"}, "records like bricks, half a height apart"),
    ([(100, 100, 60, 40), (163, 115, 4, 10), (170, 100, 60, 40), (100, 150, 60, 40), (125, 143, 10, 4)], [(0, 2), (0, 3)], {0: "RD", 2: "L", 3: "U"}, "small records between close ones"),
    ([(100, 100, 60, 40), (300, 200, 60, 40)], [(0, 1)],
     {0: [("U", 131, -211), ("D", 131, 400), ("L", -211, 121), ("R", 600, 121)], 1: [("U", 131, -100), ("D", 131, 500), ("L", -100, 121), ("R", 500, 121)]}, "ports away from their records"),
    ([(100, 100, 60, 40), (200, 100, 60, 40), (300, 100, 60, 40)], [(0, 2)], {0: "R", 2: "L"}, "a record between two others, after many records at one place", 66),
    ([(100, 100, 60, 40), (300, 200, 60, 40)], [(0, 1), (1, 0)],
     {0: [("U", 130, 100), ("D", 130, 140), ("L", 100, 120), ("U", 110, 100), ("D", 110, 140), ("L", 100, 110), ("R", 160, 120), ("R", 160, 130)], 1: [("U", 330, 200), ("U", 340, 200), ("L", 300, 220), ("R", 360, 220), ("D", 330, 240), ("L", 300, 230)]}, "several ports on each side"),
]


class Routed:
    def __init__(self, F, shape, rels, ports, cost, rects=None):
        self.F, self.shape = F, shape
        d = self.d = Doc(F)
        self.recs = [d.record(sym("r%d" % n), [sym("s%d.%d" % (n, i)) for i in range(k)]) for n, k in enumerate(shape)]
        V = d.view()
        self.nodes = {}
        for n, r in enumerate(self.recs):
            self.nodes[n] = r
            for i, c in enumerate(V.children(r)):
                self.nodes[(n, i)] = c
        self.rels = [(self.nodes[a], self.nodes[b]) for a, b in rels]
        for a, b in self.rels:
            d.edge(a, b)
        d.engine()
        if rects is None:
            d.layout("place_nodes")
        else:
            for r, (x, y, w, h) in zip(self.recs, rects):
                m = opt(d.call("Document", "get_node_mut", mref(d.root), r))
                d.st = d.st.copy()
                for f, z in (("origin", F.val("Point", "new", num(x), num(y))), ("size", F.val("Size", "new", num(w), num(h)))):
                    d.I.write(d.st, mref(m.args[0], m.args[1] + (("f", F.idx("NodeData", f)),)), some(z))
        if ports is None:
            d.layout("place_terminal_ports")
        else:
            V = d.view()
            for n, sides in ports.items():
                x0, y0, x1, y1 = rect_of(F, V.rect(self.nodes[n]))
                for s in sides:
                    x, y, o = (*s[1:], {"U": "Up", "D": "Down", "L": "Left", "R": "Right"}[s[0]]) if isinstance(s, tuple) else {"L": (x0, (y0 + y1) / 2, "Left"), "R": (x1, (y0 + y1) / 2, "Right"), "U": ((x0 + x1) / 2, y0, "Up"), "D": ((x0 + x1) / 2, y1, "Down")}[s]
                    m = opt(d.call("Document", "get_node_mut", mref(d.root), self.nodes[n]))
                    d.call("NodeData", "add_terminal_port", m, self.nodes[n], F.val("Point", "new", num(x), num(y)), F.mk(O, o))
        self.searches = []
        self.pairs = {}
        self.cost = cost
        d.I.search_result = self.search
        d.layout("draw_edge_path")
        self.V = d.view()

    def search(self, g, start, goal, cost, heur):
        """the result of a path search: any cost and any path from the start to a goal"""
        segs = graph_node_segs(g)
        nodes = [s.args[1] for s in segs if s.op == "one"]
        goals = [k for k in nodes if truth(apply_lam(goal, k)) is TRUE]
        if len(goals) != 1 or len(nodes) != len(segs):
            raise Unclear("%d goals of a path search" % len(goals))
        n = self.pairs.setdefault((start, goals[0]), len(self.pairs))
        # the cost has the shape of a connection's cost
        e = fresh()
        shape = apply_lam(heur, nodes[0])
        c = num(self.cost(start, goals[0]))
        if shape.op == "adt":
            if len(shape.args[2]) != 1:
                raise Unclear("cost " + show(shape, 3))
            c = adt(shape.args[0], shape.args[1], c)
        mid = [nodes[(n * 7) % len(nodes)], nodes[(n * 3 + 1) % len(nodes)]]
        path = [start] + mid + goals
        self.searches.append((g, start, goals[0], cost, heur, path, const(c.args[2][0] if c.op == "adt" else c)))
        return some(tup(c, seq([one(k) for k in path])))

    def graph(self):
        F = self.F
        e = self.d.st.roots[("ENGINE",)]
        g = F.val("SimpleLayoutEngine", "edge_route_graph", e)
        out = {}
        for i in items(F.val("RouteGraph", "node_ids", g)):
            n = opt(F.val("RouteGraph", "get_node", g, i))
            o = opt(F.val("RouteNodeData", "orientation", n))
            if o is not None and o.op != "adt":
                raise Unclear("orientation")
            out[i] = (tuple(point_of(F, F.val("RouteNodeData", "location", n))), o.args[1] if o is not None else None)
        edges = []
        for x in items(F.val("RouteGraph", "edges", g)):
            edges.append((F.val("RouteEdgeData", "source_id", x), F.val("RouteEdgeData", "target_id", x)))
        return g, out, edges

    def name(self, i):
        for k, v in self.nodes.items():
            if v is i:
                return "record %s" % k if isinstance(k, int) else "row %d of record %d" % (k[1], k[0])
        return show(i, 3)

    def ports(self, node):
        """-> [(location, orientation, route node)]"""
        F = self.F
        e = self.d.st.roots[("ENGINE",)]
        g = F.val("SimpleLayoutEngine", "edge_route_graph", e)
        return [(tuple(point_of(F, loc)), o.args[1], opt(F.val("RouteGraph", "get_terminal_port", g, pid))) for pid, loc, o in self.V.ports(node)]

    def paths(self):
        out = []
        for a, b, p in self.V.edges():
            q = opt(p)
            out.append((a, b, None if q is None else [tuple(point_of(self.F, x)) for x in items(q)]))
        return out


def det(spec):
    return "document with records of %s rows, relations %s" % (list(spec[0]), spec[1])


_cache = {}


def routed(F, n, cost=None, key=0):
    if (n, key) not in _cache:
        _cache[(n, key)] = Routed(F, *DOCS[n], cost or (lambda a, b: 7))
    return _cache[(n, key)]


def pp(p):
    return "(%g, %g)" % (float(p[0]), float(p[1]))


def direction(p, q):
    if p[0] == q[0] and p[1] != q[1]:
        return "Up" if q[1] < p[1] else "Down"
    if p[1] == q[1] and p[0] != q[0]:
        return "Left" if q[0] < p[0] else "Right"
    return None


def each(F, R, f, seen):
    def run():
        for n, spec in enumerate(DOCS):
            r = routed(F, n)
            R.count("documents")
            f(r, lambda: det(spec))
        finish(R, seen)

    def by_hand():
        from reach import Constants
        C = Constants(F, ("SimpleLayoutEngine", "draw_edge_path", "LayoutEngine"))
        for n, (rects, rels, ports, what, *many) in enumerate(HAND):
            if many:
                k = max(many + [c for c in C.ints if c <= 200]) + 4
                # the record between the two others is the last one
                rects = [rects[0]] + [(3000, 2000, 60, 40)] * k + [rects[2], rects[1]]
                rels, ports = [(0, k + 1), (k + 1, 0)], {0: "R", k + 1: "L"}
            if ("hand", n) not in _cache:
                _cache[("hand", n)] = Routed(F, [0] * len(rects), rels, ports, lambda a, b: 7, rects)
            R.count("documents laid out by hand")
            f(_cache[("hand", n)], lambda: "document with " + what)
        finish(R, seen)
    R.part("documents laid out by hand", by_hand)
    R.part("document by document", run)


def C15(F, R):
    seen = {}
    where = "draw_edge_path"

    def f(r, d):
        g, nodes, edges = r.graph()
        R.count("route nodes", len(nodes))
        for a, b in edges:
            p, q = nodes[a], nodes[b]
            R.count("connections")
            t = lambda: "%s: %s%s is connected to %s%s" % (d(), pp(p[0]), " facing %s" % p[1] if p[1] else "", pp(q[0]), " facing %s" % q[1] if q[1] else "")
            v = direction(p[0], q[0])
            truthful(R, seen, v is not None, "connected points differ in exactly one coordinate", t, where)
            if v is None:
                continue
            for (x, o), (y, _) in ((p, q), (q, p)):
                if o is not None:
                    truthful(R, seen, direction(x, y) == o, "a connection at a port is on the side the port faces", t, where)
        for (_, _, e) in r.V.edges():
            pass
    each(F, R, f, seen)


def crosses(p, q, rect):
    x0, y0, x1, y1 = rect
    return min(p[0], q[0]) <= x1 and max(p[0], q[0]) >= x0 and min(p[1], q[1]) <= y1 and max(p[1], q[1]) >= y0


def C16(F, R):
    seen = {}
    where = "draw_edge_path"

    def f(r, d):
        g, nodes, edges = r.graph()
        rects = [rect_of(F, r.V.rect(i)) for i in r.recs]
        for a, b in edges:
            p, q = nodes[a][0], nodes[b][0]
            for n, (x0, y0, x1, y1) in enumerate(rects):
                R.count("connections against records")
                truthful(R, seen, not crosses(p, q, (x0 + 1, y0 + 1, x1 - 1, y1 - 1)), "no connection intersects a record shrunk by one unit",
                         lambda: "%s: %s is connected to %s across record %d at %s - %s" % (d(), pp(p), pp(q), n, pp((x0, y0)), pp((x1, y1))), where)
    each(F, R, f, seen)


def C17(F, R):
    seen = {}
    where = "draw_edge_path"

    def f(r, d):
        ps = r.paths()
        if [(a, b) for a, b, _ in ps] != r.rels:
            raise Unclear("edges of the document")
        for n, (a, b, p) in enumerate(ps):
            t = lambda: "%s: relation %d from %s to %s has the path %s" % (d(), n, r.name(a), r.name(b), " ".join(pp(x) for x in p) if p else p)
            R.count("paths")
            truthful(R, seen, p is not None and len(p) > 1, "every edge has a path", t, where)
            if not p:
                continue
            src, dst = {x[0] for x in r.ports(a)}, {x[0] for x in r.ports(b)}
            truthful(R, seen, p[0] in src, "an edge's path starts at a port of its own source", t, where)
            truthful(R, seen, p[-1] in dst, "an edge's path ends at a port of its own target", t, where)
            truthful(R, seen, p[0] != p[-1], "the two ports are different", t, where)
    each(F, R, f, seen)


def C18(F, R):
    R.part("costs of connections", c18_costs, F, R)
    R.part("choice of ports", c18_choice, F, R)


def c18_costs(F, R):
    seen = {}
    where = "draw_edge_path"
    for n, spec in enumerate(DOCS[:4]):
        r = routed(F, n)
        _, nodes, _ = r.graph()
        key = {field(i, 0): v for i, v in nodes.items()}
        done = set()
        for g, start, goal, cost, heur, path, c in r.searches:
            if (start, goal) in done:
                continue
            done.add((start, goal))
            ks = [s.args[1] for s in graph_node_segs(g)]
            num_of = lambda x: numbers(x.args[2][0] if x.op == "adt" and len(x.args[2]) == 1 else x)[0]
            adj = {}
            for k in ks:
                es = known_edges(g, k)
                if es is None:
                    raise Unclear("edges of the route graph")
                for c_, e, y in es:
                    v = num_of(apply_lam(cost, mk("edgeref", mk("adjacent", g, k, y), e)))
                    p, q = key[k][0], key[y][0]
                    want = abs(p[0] - q[0]) + abs(p[1] - q[1])   # they are on a common line
                    adj.setdefault(k, []).append((y, v))
                    R.count("costs of connections")
                    truthful(R, seen, abs(v - want) < 1, "a connection costs its length", lambda: "%s: from %s to %s costs %s" % (det(spec), pp(p), pp(q), float(v)), where)
            dist = {goal: 0}
            todo = [goal]
            while todo:
                k = min(todo, key=lambda x: dist[x])
                todo.remove(k)
                for y, v in adj.get(k, []):
                    if y not in dist or dist[k] + v < dist[y]:
                        dist[y] = dist[k] + v
                        todo.append(y)
            for k in ks:
                h = num_of(apply_lam(heur, k))
                if k in dist:
                    truthful(R, seen, h <= dist[k], "the estimate of the remaining cost isn't too high", lambda: "%s: at %s the estimate is %s, the cost to %s is %s" % (det(spec), pp(key[k][0]), float(h), pp(key[goal][0]), float(dist[k])), where)
    finish(R, seen)


def c18_choice(F, R):
    seen = {}
    where = "draw_edge_path"
    for n, spec in list(enumerate(DOCS[:4])) + [(len(DOCS), HAND[-1])]:
        d = lambda: det(spec) if n < len(DOCS) else "document with " + spec[3]
        for trial in range(3):
            rnd = random.Random(trial * 31 + n)
            costs = {}

            def cost(a, b):
                if (a, b) not in costs:
                    costs[(a, b)] = rnd.choice((0, 1, 5, 90, 91, 4000, 70000, 10 ** 6)) * 16 + rnd.randrange(16)
                return costs[(a, b)]
            r = routed(F, n, cost, 1 + trial) if n < len(DOCS) else Routed(F, [0] * len(spec[0]), spec[1], spec[2], cost, spec[0])
            R.count("assumed costs of paths", len(r.searches))
            pos = {k: v[0] for k, v in r.graph()[1].items()}
            for (a, b, p) in r.paths():
                want = []
                for pa, _, ka in r.ports(a):
                    for pb, _, kb in r.ports(b):
                        if ka is None or kb is None:
                            raise Unclear("port without a route node")
                        for q, k in ((pa, ka), (pb, kb)):
                            truthful(R, seen, pos[k] == q, "every port takes part in the search, at its own place", lambda: "%s: the port at %s is searched from %s" % (d(), pp(q), pp(pos[k])), where)
                        if ka is kb:
                            continue
                        s = [x for x in r.searches if x[1] is field(ka, 0) and x[2] is field(kb, 0)]
                        t = lambda: "%s: relation from %s to %s, ports at %s and %s" % (d(), r.name(a), r.name(b), pp(pa), pp(pb))
                        truthful(R, seen, bool(s), "a path is searched between every two different ports of source and target", t, where)
                        if s:
                            want.append((s[0][6], [pos[adt(ka.args[0], ka.args[1], k)] for k in s[0][5]]))
                if want and p is not None:
                    best = min(w[0] for w in want)
                    truthful(R, seen, p in [w[1] for w in want if w[0] == best], "an edge gets the whole path of the cheapest pair of ports",
                             lambda: "%s: relation from %s to %s gets the path %s; the path of least cost %s is %s" % (d(), r.name(a), r.name(b), " ".join(map(pp, p)), best, " or ".join(" ".join(map(pp, w[1])) for w in want if w[0] == best)), where)
    finish(R, seen)
