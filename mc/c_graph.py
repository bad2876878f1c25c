"""C01-C03: directed graphs."""
import itertools

import core
from core import expect, raises, fn_harness, BFS, System

from solver.graph import Graph

# vertex names: falsy, string, tuple, negative numbers with equal hashes, ...
NAMES = core.Names([0, "0", ("t", 1), -1, -2, "", None, 2.5, frozenset([1]), "bb", core.Name(1), core.Name(2), 7, 8, 9, 10, 11, 12, 13, 14])
ABSENT = "never added"
NOVAL = "default"


class Model:
    """Vertices and valued edges; nothing else."""

    def __init__(self):
        self.v = {}
        self.e = {}

    def add_vertex(self, a):
        self.v[a] = 1

    def add_edge(self, a, b, val):
        self.v[a] = self.v[b] = 1
        self.e.setdefault((a, b), val)

    def set(self, a, b, val):
        self.v[a] = self.v[b] = 1
        self.e[a, b] = val

    def remove_edge(self, a, b):
        del self.e[a, b]

    def remove_vertex(self, a):
        del self.v[a]
        for k in [k for k in self.e if a in k]:
            del self.e[k]


def once(xs, what):
    xs = list(xs)
    expect(len(set(xs)) == len(xs), "{0} lists an element twice: {1}", what, xs)
    return set(xs)


def spoil(r):
    """A caller may do what it likes with a list it was given."""
    if isinstance(r, list):
        r.append("spoiled")


def check_graph(g, m, universe, what="graph"):
    """Every query of g against the model m."""
    r = g.vertices()
    expect(once(r, what + ".vertices()") == set(m.v), "{0}.vertices() = {1}, expected {2}", what, list(r), list(m.v))
    spoil(r)
    r = g.edges()
    expect(once(r, what + ".edges()") == set(m.e), "{0}.edges() = {1}, expected {2}", what, list(r), list(m.e))
    spoil(r)
    for a in universe:
        ina = a in m.v
        expect(g.has_vertex(a) is ina, "{0}.has_vertex({1!r}) wrong", what, a)
        for b in universe:
            ab, ba = (a, b) in m.e, (b, a) in m.e
            expect(g.has_edge(a, b) is ab, "{0}.has_edge({1!r}, {2!r}) is not {3}", what, a, b, ab)
            expect(g.has_bi_edge(a, b) is (ab and ba), "{0}.has_bi_edge({1!r}, {2!r}) wrong", what, a, b)
            expect(g.has_any_edge(a, b) is (ab or ba), "{0}.has_any_edge({1!r}, {2!r}) wrong", what, a, b)
            if ab:
                val, want = g.get(a, b), m.e[a, b]
                expect(val == want and type(val) is type(want), "{0}.get({1!r}, {2!r}) = {3!r}, expected {4!r}", what, a, b, val, want)
            else:
                expect(raises(g.get, a, b) is not None, "{0}.get({1!r}, {2!r}) does not fail", what, a, b)
        qs = (g.outgoing_vertices, g.ingoing_vertices, g.adjacent_vertices, g.outgoing_edges, g.ingoing_edges, g.adjacent_edges)
        if not ina:
            for q in qs[:2]:
                expect(raises(q, a) is not None, "{0}.{1}({2!r}) of a missing vertex does not fail", what, q.__name__, a)
            continue
        out = {y for x, y in m.e if x == a}
        inn = {x for x, y in m.e if y == a}
        oe = {(a, y) for y in out}
        ie = {(x, a) for x in inn}
        for q, want, dup in zip(qs, (out, inn, out | inn, oe, ie, oe | ie), (0, 0, 0, 0, 0, 1)):
            r = q(a)
            got = set(r) if dup else once(r, what + "." + q.__name__)
            expect(got == want, "{0}.{1}({2!r}) = {3}, expected {4}", what, q.__name__, a, list(r), want)
            spoil(r)


class GraphSys(System):
    def __init__(self, n):
        self.n = n
        self.universe = NAMES[:n] + [ABSENT]
        self.g = Graph()
        self.m = Model()
        self.turn = 0             # the form of the next call: the value by position or by name

    def enabled(self, op):
        return True

    def must_fail(self, what, f, *a):
        expect(raises(f, *a) is not None, "{0}{1} of something missing does not raise", what, a)

    def apply(self, op):
        g, m = self.g, self.m
        k = op[0]
        a = NAMES[op[1]] if op[1] >= 0 else ABSENT
        b = (NAMES[op[2]] if op[2] >= 0 else ABSENT) if len(op) > 2 else None
        val = op[3] if len(op) > 3 else NOVAL
        self.turn += 1
        args = () if val == NOVAL else (val,)
        kw = {}
        if args and self.turn % 2:
            args, kw = (), {"value": val}
        mval = 1 if val == NOVAL else val
        if k == "addv":
            g.add_vertex(a)
            m.add_vertex(a)
        elif k == "remv":
            if a in m.v:
                g.remove_vertex(a)
                m.remove_vertex(a)
            else:
                self.must_fail("remove_vertex", g.remove_vertex, a)
        elif k == "adde":
            g.add_edge(a, b, *args, **kw)
            m.add_edge(a, b, mval)
        elif k == "addbi":
            g.add_bi_edge(a, b, *args, **kw)
            m.add_edge(a, b, mval)
            m.add_edge(b, a, mval)
        elif k == "reme":
            if (a, b) in m.e:
                g.remove_edge(a, b)
                m.remove_edge(a, b)
            else:
                self.must_fail("remove_edge", g.remove_edge, a, b)
        elif k == "rembi":
            if (a, b) in m.e and (b, a) in m.e:
                g.remove_bi_edge(a, b)
                m.remove_edge(a, b)
                m.e.pop((b, a), None)
            else:
                self.must_fail("remove_bi_edge", g.remove_bi_edge, a, b)
        elif k == "set":
            g.set(a, b, *args, **kw)
            m.set(a, b, mval)
        elif k == "setbi":
            g.set_bi_edge(a, b, *args, **kw)
            m.set(a, b, mval)
            m.set(b, a, mval)
        else:
            raise AssertionError(op)

    def observe(self):
        check_graph(self.g, self.m, self.universe)

    def key(self):
        return (sorted(map(repr, self.m.v)), sorted(map(repr, self.m.e.items())), core.dump(self.g))


def graph_ops(n, values, loops=True):
    ops = [[k, i] for k in ("addv", "remv") for i in range(n)]
    ops.append(["remv", -1])
    for i in range(n):
        for j in range(n):
            if i == j and not loops:
                continue
            ops += [["adde", i, j], ["reme", i, j], ["addbi", i, j], ["rembi", i, j]]
            for v in values:
                ops += [["adde", i, j, v], ["set", i, j, v], ["addbi", i, j, v], ["setbi", i, j, v]]
    ops += [["reme", 0, -1], ["reme", -1, 0], ["rembi", 0, -1]]
    return ops


# ---- families of larger graphs, edited step by step

def family_edges(kind, n):
    if kind == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if kind == "cycle":
        return [(i, (i + 1) % n) for i in range(n)]
    if kind == "in-star":
        return [(i, 0) for i in range(1, n)]
    if kind == "out-star":
        return [(0, i) for i in range(1, n)]
    if kind == "complete":
        return [(i, j) for i in range(n) for j in range(n)]
    if kind == "tournament":
        return [(i, j) for i in range(n) for j in range(i + 1, n)]
    if kind == "two-cycles":
        h = n // 2
        return [(i, (i + 1) % h) for i in range(h)] + [(h + i, h + (i + 1) % (n - h)) for i in range(n - h)]
    if kind == "ladder":
        return [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    if kind == "binary":
        return [((i - 1) // 2, i) for i in range(1, n)]
    raise AssertionError(kind)


KINDS = ["chain", "cycle", "in-star", "out-star", "complete", "tournament", "two-cycles", "ladder", "binary"]


def fam_items(tier):
    top = 9 if tier == "quick" else 14
    for kind in KINDS:
        for n in range(2, top + 1):
            for rev in (0, 1):
                for mode in ("remv", "reme", "set", "rembi"):
                    yield [kind, n, rev, mode]


def fam_run(item, ctx):
    kind, n, rev, mode = item
    s = GraphSys(n)
    edges = family_edges(kind, n)
    if rev:
        edges = edges[::-1]
    ops = [["adde", i, j, 10 + k] for k, (i, j) in enumerate(edges)]
    if mode == "remv":
        ops += [["remv", i] for i in (range(n) if rev else range(n - 1, -1, -1))]
        ops += [["adde", i, j] for i, j in edges[:2]]
    elif mode == "reme":
        ops += [["reme", i, j] for i, j in edges[::-1]] + [["remv", 0]]
    elif mode == "set":
        ops += [["set", i, j, None] for i, j in edges] + [["setbi", i, j, "x"] for i, j in edges[::2]]
        ops += [["remv", n // 2]]
    else:
        ops += [["addbi", i, j, 5] for i, j in edges] + [["rembi", j, i] for i, j in edges] + [["remv", n - 1]]
    s.observe()
    for o in ops:
        s.apply(o)
        s.observe()
        ctx.state()
        ctx.step()
    ctx.trace()
    ctx.out(kind)


# ---- edge values that are equal but not the same

class Equal:
    """Equal to everything, like a wildcard."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


class Unequal:
    """Not even equal to itself."""

    def __eq__(self, other):
        return False

    def __hash__(self):
        return 2


EDGE_VALUES = [0, False, 0.0, -0.0, 1, True, 1.0, "1", "", None, (), (0,), (False,), float("nan"), NotImplemented, Ellipsis,
               frozenset(), frozenset([1]), frozenset([True]), Equal(), Unequal(), Exception, -1, 2 ** 70, 2.0 ** 70]


def same_value(a, b):
    return a is b or type(a) is type(b) and not isinstance(a, (Equal, Unequal)) and repr(a) == repr(b)


def value_items(tier):
    for i in range(len(EDGE_VALUES)):
        for j in range(len(EDGE_VALUES)):
            yield [i, j]


def value_run(item, ctx):
    """Two values of one edge after each other, given by every operation that takes a value."""
    x, y = [EDGE_VALUES[k] for k in item]
    ctx.state()

    def look(g, v, w, what):
        got = g.get("a", "b")
        expect(same_value(got, v), "{0}: the value of the edge is {1!r}, expected {2!r}", what, got, v)
        if w is not NOVAL:
            got = g.get("b", "a")
            expect(same_value(got, w), "{0}: the value of the edge back is {1!r}, expected {2!r}", what, got, w)
        expect(g.has_edge("a", "b") and g.has_edge("b", "a") == (w is not NOVAL), "{0}: wrong edges", what)
        ctx.step()

    for what, first in (("add_edge", lambda g: g.add_edge("a", "b", x)), ("set", lambda g: g.set("a", "b", x)),
                        ("add_edge by name", lambda g: g.add_edge("a", "b", value=x))):
        for what2, then, v, w in (("set", lambda g: g.set("a", "b", y), y, NOVAL),
                                  ("add_edge", lambda g: g.add_edge("a", "b", y), x, NOVAL),
                                  ("add_bi_edge", lambda g: g.add_bi_edge("a", "b", y), x, y),
                                  ("set_bi_edge", lambda g: g.set_bi_edge("a", "b", y), y, y),
                                  ("set_bi_edge the other way", lambda g: g.set_bi_edge("b", "a", y), y, y),
                                  ("set of the edge back", lambda g: g.set("b", "a", y), x, y)):
            g = Graph()
            first(g)
            look(g, x, NOVAL, what)
            then(g)
            look(g, v, w, what + ", then " + what2)
            g.set("a", "b", x)
            look(g, x, w, what + ", then " + what2 + ", then set back")
            g.remove_edge("a", "b")
            g.add_edge("a", "b", y)
            look(g, y, w, what + ", then " + what2 + ", then removed and added")
            g.set("a", "a", x)
            g.set_bi_edge("a", "a", y)
            expect(same_value(g.get("a", "a"), y), "the value of the loop is {0!r}, expected {1!r}", g.get("a", "a"), y)
    ctx.trace()


def value_derive_run(item, ctx):
    """Derived graphs keep the values themselves, whatever they are equal to."""
    x, y = [EDGE_VALUES[k] for k in item]
    ctx.state()
    g = Graph()
    for a, b, v in (("a", "b", x), ("b", "a", y), ("b", "c", y), ("c", "c", x), ("c", "a", x)):
        g.set(a, b, v)
    e = {("a", "b"): x, ("b", "a"): y, ("b", "c"): y, ("c", "c"): x, ("c", "a"): x}
    back = {(b, a): v for (a, b), v in e.items()}
    ab = {k: v for k, v in e.items() if "c" not in k}
    for what, d, want in (("copy", g.copy(), e), ("constructed copy", Graph(g), e), ("reverse", g.reverse(), back), ("double reverse", g.reverse().reverse(), e),
                          ("subgraph", g.subgraph(["b", "a"]), ab), ("copy of reverse", Graph(g.reverse()), back), ("subgraph of copy", g.copy().subgraph(["a", "b", "zz"]), ab), ("original", g, e)):
        expect(len(d.edges()) == len(want) and set(d.edges()) == set(want), "{0}: edges {1}, expected {2}", what, d.edges(), list(want))
        for (a, b), v in want.items():
            expect(same_value(d.get(a, b), v), "{0}: the value of {1} -> {2} is {3!r}, expected {4!r}", what, a, b, d.get(a, b), v)
        ctx.step()
    ctx.trace()


# ---- two graphs side by side (no shared state between objects)

def pair_items(tier):
    ops = graph_ops(2, [5])
    for o1 in range(len(ops)):
        for o2 in range(len(ops)):
            yield [o1, o2]


def pair_run(item, ctx):
    ops = graph_ops(2, [5])
    a, b = GraphSys(2), GraphSys(2)
    a.apply(["addbi", 0, 1, 3])
    b.apply(["adde", 1, 0, 4])
    for s, o in ((a, ops[item[0]]), (b, ops[item[1]]), (a, ops[item[1]]), (b, ops[item[0]])):
        s.apply(o)
        a.observe()
        b.observe()
        ctx.step()
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C02

def valued_graphs(n, values):
    """All valued digraphs on the vertices 0..n-1 (self-loops included), as value tuples."""
    return itertools.product([None] + list(values), repeat=n * n)


def build(n, vals, order=1):
    """Graph and model with the given edge values ('-' prefix: value None is no edge)."""
    g, m = Graph(), Model()
    names = NAMES[:n]
    for a in names[::order]:
        g.add_vertex(a)
        m.add_vertex(a)
    for k in range(n * n)[::order]:
        if vals[k] is not None:
            a, b = names[k // n], names[k % n]
            g.set(a, b, VAL[vals[k]])
            m.set(a, b, VAL[vals[k]])
    return g, m


VAL = {1: 1, 2: 0, 3: None, 4: "w"}


def sub_model(m, verts):
    r = Model()
    for a in verts:
        if a in m.v:
            r.add_vertex(a)
    for (a, b), v in m.e.items():
        if a in r.v and b in r.v:
            r.set(a, b, v)
    return r


def rev_model(m):
    r = Model()
    r.v = dict(m.v)
    r.e = {(b, a): v for (a, b), v in m.e.items()}
    return r


def clone_model(m):
    r = Model()
    r.v, r.e = dict(m.v), dict(m.e)
    return r


def same_graph(g, m, what):
    """Cheap exact comparison through the public API."""
    expect(set(g.vertices()) == set(m.v), "{0} has vertices {1}, expected {2}", what, list(g.vertices()), list(m.v))
    es = g.edges()
    expect(len(es) == len(m.e) and set(es) == set(m.e), "{0} has edges {1}, expected {2}", what, es, list(m.e))
    for (a, b), v in m.e.items():
        w = g.get(a, b)
        expect(w == v and type(w) is type(v), "{0}: edge {1} has value {2!r}, expected {3!r}", what, (a, b), w, v)
    for a in m.v:
        expect(set(g.ingoing_vertices(a)) == {x for x, y in m.e if y == a}, "{0}: wrong ingoing vertices of {1!r}", what, a)
        expect(set(g.outgoing_vertices(a)) == {y for x, y in m.e if x == a}, "{0}: wrong outgoing vertices of {1!r}", what, a)


def edits(names):
    yield "set", lambda g, m: [(g.set(a, b, 99), m.set(a, b, 99)) for a in names for b in names]
    yield "add vertex", lambda g, m: [(g.add_vertex("new"), m.add_vertex("new"))]
    yield "add edges", lambda g, m: [(g.add_edge(a, "new", 5), m.add_edge(a, "new", 5)) for a in names]
    yield "remove edges", lambda g, m: [(g.remove_edge(a, b), m.remove_edge(a, b)) for a in names[:2] for b in names[:2]]
    yield "remove vertex", lambda g, m: [(g.remove_vertex(names[-1]), m.remove_vertex(names[-1]))]


def derive(g, m, names, n):
    yield "copy()", g.copy(), clone_model(m)
    yield "Graph(g)", Graph(g), clone_model(m)
    yield "reverse()", g.reverse(), rev_model(m)
    yield "reverse().reverse()", g.reverse().reverse(), clone_model(m)
    for mask in range(1 << n):
        sel = [names[i] for i in range(n) if mask >> i & 1]
        yield "subgraph({0})".format(sel), g.subgraph(sel), sub_model(m, sel)
    yield "subgraph(with unknown)", g.subgraph([ABSENT] + names[:1] + ["zz"]), sub_model(m, names[:1])
    yield "subgraph(repeated)", g.subgraph(names[::-1] * 2), sub_model(m, names)
    yield "subgraph(set)", g.subgraph(set(names)), sub_model(m, names)


def der_items(tier):
    for n in (1, 2):
        for vals in valued_graphs(n, [1, 2, 3]):
            yield [n, list(vals), 1]
            yield [n, list(vals), -1]
    for vals in valued_graphs(3, [1, 2] if tier == "quick" else [1, 2, 3]):
        yield [3, list(vals), 1]


def der_run(item, ctx):
    n, vals, order = item
    g, m = build(n, vals, order)
    der_check(g, m, NAMES[:n], n, ctx)
    ctx.out("{0} vertices {1} edges".format(n, len(m.e)))


def der_check(g, m, names, n, ctx, subsets=True):
    ctx.state()
    before = clone_model(m)
    for what, d, dm in derive(g, m, names, n if subsets else 0):
        same_graph(d, dm, what)
        ctx.step()
    same_graph(g, before, "original after deriving")
    # independence: edit the original, look at the derived; then the other way round
    for k in range(4 if subsets else 3):
        def fresh():
            return [lambda: g2.copy(), lambda: Graph(g2), lambda: g2.reverse(), lambda: g2.subgraph(names)][k]()
        for side in (0, 1):
            g2, m2 = Graph(), Model()
            for a in m.v:
                g2.add_vertex(a)
                m2.add_vertex(a)
            for (a, b), v in m.e.items():
                g2.set(a, b, v)
                m2.set(a, b, v)
            d = fresh()
            dm = [clone_model(m2), clone_model(m2), rev_model(m2), sub_model(m2, names)][k]
            what = ["copy", "constructed copy", "reverse", "subgraph"][k]
            mine, my, other, om = (g2, m2, d, dm) if side == 0 else (d, dm, g2, m2)
            for name, edit in edits(names):
                edit(mine, my)
                same_graph(other, om, "{0} after '{1}' on the {2}".format(
                    what if side == 0 else "original of a " + what, name, "original" if side == 0 else what))
                ctx.step()
            same_graph(mine, my, "edited " + what)
    ctx.trace()


def derfam_items(tier):
    for kind in KINDS:
        for n in range(4, 9 if tier == "quick" else 13):
            yield [kind, n]


def derfam_run(item, ctx):
    kind, n = item
    g, m = Graph(), Model()
    for k, (i, j) in enumerate(family_edges(kind, n)):
        g.set(NAMES[i], NAMES[j], [k, None, "", 0][k % 4])
        m.set(NAMES[i], NAMES[j], [k, None, "", 0][k % 4])
    g.add_vertex("lonely")
    m.add_vertex("lonely")
    names = NAMES[:n]
    der_check(g, m, names, n, ctx, subsets=n <= 6)
    for size in (2, n // 2, n - 1):
        for sel in itertools.combinations(names, size):
            same_graph(g.subgraph(list(sel)), sub_model(m, sel), "subgraph({0})".format(sel))
            ctx.step()
    ctx.out(kind)


# --------------------------------------------------------------------------- C03

def closure(verts, edges):
    r = {a: {y for x, y in edges if x == a} for a in verts}
    for k in verts:
        for a in verts:
            if k in r[a]:
                r[a] = r[a] | r[k]
    return r


def check_reach(g, verts, edges, ctx):
    es = set(edges)
    fwd = closure(verts, es)
    both = closure(verts, es | {(b, a) for a, b in es})
    for a in verts:
        for b in verts:
            p = g.path(a, b)
            ctx.step()
            if b in fwd[a]:
                expect(isinstance(p, list) and len(p) >= 2 and p[0] == a and p[-1] == b
                       and all((x, y) in es for x, y in zip(p, p[1:])),
                       "path({0!r}, {1!r}) = {2}: not a path along the edges {3}", a, b, p, sorted(map(repr, es)))
                ctx.out("path of {0}".format(len(p)))
                spoil(p)
            else:
                expect(isinstance(p, list) and len(p) == 0, "path({0!r}, {1!r}) = {2} although there is none (edges {3})",
                       a, b, p, sorted(map(repr, es)))
        inn = {x for x in verts if a in fwd[x]} - {a}
        out = fwd[a] - {a}
        und = both[a] - {a}
        for what, got, want in (("connected", g.connected(a), und),
                                ("connected(ingoing)", g.connected(a, ingoing=True, outgoing=False), inn),
                                ("connected(outgoing)", g.connected(a, ingoing=False, outgoing=True), out),
                                ("connected(True, False)", g.connected(a, True, False), inn),
                                ("connected(False)", g.connected(a, False), out),
                                ("connected(not outgoing)", g.connected(a, outgoing=False), inn),
                                ("connected_via_outgoing", g.connected_via_outgoing(a), out),
                                ("connected_via_ingoing", g.connected_via_ingoing(a), inn)):
            expect(once(got, what) == want, "{0}({1!r}) = {2}, expected {3} (edges {4})", what, a, list(got), want, sorted(map(repr, es)))
            spoil(got)
            ctx.step()
    subs = [frozenset(s) for s in g.connected_subsets()]
    want = {frozenset(both[a] | {a}) for a in verts}
    expect(len(subs) == len(want) and set(subs) == want, "connected_subsets() = {0}, expected {1}", subs, want)
    # an unknown vertex: there is no path to it, from it no path is invented, and asking adds nothing
    for a in verts:
        p = g.path(a, ABSENT)
        expect(isinstance(p, list) and len(p) == 0, "path({0!r}, unknown) = {1}", a, p)
        ctx.step()
    for f, args in ((g.path, (ABSENT, verts[0] if verts else ABSENT)), (g.path, (ABSENT, ABSENT)), (g.connected, (ABSENT,)),
                    (g.connected_via_outgoing, (ABSENT,)), (g.connected_via_ingoing, (ABSENT,))):
        r = []
        if raises(lambda: r.extend(f(*args))) is None:
            expect(r == [], "{0} of an unknown vertex = {1}", f.__name__, r)
        ctx.step()
    expect(set(g.edges()) == es and set(g.vertices()) == set(verts), "searching changed the graph")
    ctx.step()


def plain(n, edges):
    g = Graph()
    for i in range(n):
        g.add_vertex(NAMES[i])
    for i, j in edges:
        g.add_edge(NAMES[i], NAMES[j])
    return g


def name_edges(edges):
    return [(NAMES[i], NAMES[j]) for i, j in edges]


def reach_items(tier):
    for n in (0, 1, 2, 3, 4):
        m = 1 << (n * n)
        for a in range(0, m, 64):
            yield [n, a, min(m, a + 64), "loops"]
    if tier == "thorough":
        for a in range(0, 1 << 20, 64):
            yield [5, a, a + 64, "plain"]


def mask_edges(n, mask, mode):
    cells = [(i, j) for i in range(n) for j in range(n) if mode == "loops" or i != j]
    return [c for k, c in enumerate(cells) if mask >> k & 1]


def reach_run(item, ctx):
    n, lo, hi, mode = item
    verts = NAMES[:n]
    for mask in range(lo, hi):
        e = mask_edges(n, mask, mode)
        ne = name_edges(e)
        check_reach(plain(n, e), verts, ne, ctx)
        if n < 5:
            check_reach(plain(n, e[::-1]), verts, ne, ctx)
        ctx.state()
        ctx.trace(2 if n < 5 else 1)


def order_items(tier):
    """All insertion orders of all edge sets with up to 4 (5) edges over 3 vertices, 5 over 4 in thorough."""
    top = 4 if tier == "quick" else 5
    cells = [(i, j) for i in range(3) for j in range(3)]
    for k in range(2, top + 1):
        for es in itertools.combinations(cells, k):
            yield [3, [list(e) for e in es]]
    cells = [(i, j) for i in range(4) for j in range(4) if i != j]
    for k in (4,) if tier == "quick" else (4, 5):
        for es in itertools.combinations(cells, k):
            yield [4, [list(e) for e in es]]


def order_run(item, ctx):
    n, es = item
    ctx.state()
    for perm in itertools.permutations([tuple(e) for e in es]):
        check_reach(plain(n, perm), NAMES[:n], name_edges(perm), ctx)
        ctx.trace()


def removed_items(tier):
    for mask in range(1 << 12):
        yield [4, mask]


def removed_run(item, ctx):
    """Search, edit (remove or add), search again on the same object."""
    n, mask = item
    e = mask_edges(n, mask, "plain")
    ctx.state()
    for k in range(n):
        g = plain(n, e)
        g.connected(NAMES[0])
        g.path(NAMES[0], NAMES[1])
        g.connected_subsets()
        g.remove_vertex(NAMES[k])
        rest = [x for x in e if k not in x]
        verts = [NAMES[i] for i in range(n) if i != k]
        check_reach(g, verts, name_edges(rest), ctx)
        if rest:
            x = rest[mask % len(rest)]
            g.remove_edge(NAMES[x[0]], NAMES[x[1]])
            rest = [y for y in rest if y != x]
            check_reach(g, verts, name_edges(rest), ctx)
        # the vertex comes back with one edge in each direction
        o = (k + 1) % n
        g.add_edge(NAMES[o], NAMES[k])
        check_reach(g, NAMES[:n], name_edges(rest + [(o, k)]), ctx)
        ctx.trace()


def reachfam_items(tier):
    for kind in KINDS:
        for n in range(5, 11 if tier == "quick" else 17):
            for rev in (0, 1):
                yield [kind, n, rev]


def reachfam_run(item, ctx):
    kind, n, rev = item
    e = family_edges(kind, n)
    if rev:
        e = e[::-1]
    check_reach(plain(n, e), NAMES[:n], name_edges(e), ctx)
    ctx.state()
    ctx.trace()
    for drop in range(len(e)):
        rest = e[:drop] + e[drop + 1:]
        g = plain(n, e)
        g.remove_edge(NAMES[e[drop][0]], NAMES[e[drop][1]])
        check_reach(g, NAMES[:n], name_edges(rest), ctx)
        ctx.state()
        ctx.trace()


# --------------------------------------------------------------------------- long graphs (C01-C03)

def long_edges(kind, n):
    if kind == "back-chain":
        return [(i + 1, i) for i in range(n - 1)]
    if kind == "comb":
        return [(i, i + 2) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    return family_edges(kind, n)


LONG = ["chain", "back-chain", "cycle", "in-star", "out-star", "two-cycles", "binary", "comb"]


def long_items(tier):
    for kind in LONG:
        for n in (60, 1200) if tier == "quick" else (60, 300, 1200, 3000):
            yield [kind, n]


def long_graph(kind, n):
    g, m = Graph(), Model()
    for k, (i, j) in enumerate(long_edges(kind, n)):
        g.add_edge(i, j, k)
        m.add_edge(i, j, k)
    return g, m


def long_same(g, m, what):
    """As same_graph, linear in the size."""
    expect(once(g.vertices(), what) == set(m.v), "{0}: wrong vertices", what)
    expect(once(g.edges(), what) == set(m.e), "{0}: wrong edges", what)
    inn, out = {a: set() for a in m.v}, {a: set() for a in m.v}
    for (a, b), v in m.e.items():
        inn[b].add(a)
        out[a].add(b)
        expect(g.get(a, b) == v, "{0}: edge {1} has value {2}, expected {3}", what, (a, b), g.get(a, b), v)
    for a in m.v:
        expect(once(g.ingoing_vertices(a), what) == inn[a] and once(g.outgoing_vertices(a), what) == out[a]
               and once(g.adjacent_vertices(a), what) == inn[a] | out[a], "{0}: wrong neighbours of {1}", what, a)
        expect(set(g.outgoing_edges(a)) == {(a, b) for b in out[a]} and set(g.ingoing_edges(a)) == {(b, a) for b in inn[a]}
               and set(g.adjacent_edges(a)) == {(a, b) for b in out[a]} | {(b, a) for b in inn[a]}, "{0}: wrong edges at {1}", what, a)


def long_edit_run(item, ctx):
    kind, n = item
    g, m = long_graph(kind, n)
    long_same(g, m, "built")
    for k, victim in enumerate((n // 2, 0, n - 1, 1)):
        g.remove_vertex(victim)
        m.remove_vertex(victim)
        long_same(g, m, "after removing vertex {0}".format(victim))
        g.add_edge(victim, n // 3 + k)
        m.add_edge(victim, n // 3 + k, 1)
        long_same(g, m, "after adding vertex {0} again".format(victim))
        ctx.step(2)
    for e in sorted(m.e)[::2]:
        g.remove_edge(*e)
        m.remove_edge(*e)
    long_same(g, m, "after removing every second edge")
    for a, b in sorted(m.e)[::3]:
        g.set_bi_edge(a, b, None)
        m.set(a, b, None)
        m.set(b, a, None)
    long_same(g, m, "after setting edges in both directions")
    for v in list(m.v):
        g.remove_vertex(v)
    long_same(g, Model(), "after removing all")
    ctx.state()
    ctx.trace()
    ctx.out(kind)


def long_derive_run(item, ctx):
    kind, n = item
    for k in range(4):
        for side in (0, 1):
            g, m = long_graph(kind, n)
            half = list(range(0, n, 2)) + list(range(1, n // 3, 2))
            d = [g.copy, lambda: Graph(g), g.reverse, lambda: g.subgraph(half)][k]()
            dm = [clone_model, clone_model, rev_model, lambda x: sub_model(x, set(half))][k](m)
            what = ["copy", "constructed copy", "reverse", "subgraph"][k]
            long_same(d, dm, what)
            mine, my, other, om = (g, m, d, dm) if side else (d, dm, g, m)
            for a, b in sorted(my.e)[::3]:
                mine.set(a, b, "changed")
                my.set(a, b, "changed")
            mine.remove_vertex(n // 2 if n // 2 in my.v else 0)
            my.remove_vertex(n // 2 if n // 2 in my.v else 0)
            mine.add_edge("x", 0)
            my.add_edge("x", 0, 1)
            long_same(mine, my, "edited side of " + what)
            long_same(other, om, "other side of " + what)
            ctx.step(4)
    ctx.state()
    ctx.trace()


def walk(starts, near):
    seen, front = set(starts), list(starts)
    while front:
        for y in near.get(front.pop(), ()):
            if y not in seen:
                seen.add(y)
                front.append(y)
    return seen


def long_reach_run(item, ctx):
    kind, n = item
    g, m = long_graph(kind, n)
    for what in ("whole", "cut"):
        if what == "cut":
            g.remove_vertex(n // 2)
            m.remove_vertex(n // 2)
        out, inn = {}, {}
        for a, b in m.e:
            out.setdefault(a, []).append(b)
            inn.setdefault(b, []).append(a)
        both = {a: out.get(a, []) + inn.get(a, []) for a in m.v}
        some = [v for v in (0, 1, n // 2 - 1, n // 2 + 1, n - 1) if v in m.v]
        for a in some:
            below = walk(out.get(a, []), out)
            for b in some:
                p = g.path(a, b)
                if b in below:
                    expect(len(p) >= 2 and p[0] == a and p[-1] == b and all(e in m.e for e in zip(p, p[1:])), "{0} of {1}: path({2}, {3}) is no path", kind, n, a, b)
                else:
                    expect(p == [], "{0} of {1}: path({2}, {3}) although there is none", kind, n, a, b)
                ctx.step()
            up, un = walk(inn.get(a, []), inn) - {a}, walk([a], both) - {a}
            for name, got, want in (("connected", g.connected(a), un), ("connected_via_outgoing", g.connected_via_outgoing(a), below - {a}),
                                    ("connected_via_ingoing", g.connected_via_ingoing(a), up)):
                expect(once(got, name) == want, "{0} of {1}: {2}({3}) is wrong", kind, n, name, a)
                ctx.step()
        rest, want = set(m.v), set()
        while rest:
            c = frozenset(walk([next(iter(rest))], both))
            want.add(c)
            rest -= c
        got = [frozenset(s) for s in g.connected_subsets()]
        expect(len(got) == len(want) and set(got) == want, "{0} of {1}: wrong connected subsets", kind, n)
    ctx.state()
    ctx.trace()
    ctx.out(kind)


# ---- asked, edited, asked again in the opposite order (answers kept from before must not show)

def ask_values(names):
    for q, want in (("outgoing_vertices", lambda e, a: {y for x, y in e if x == a}), ("ingoing_vertices", lambda e, a: {x for x, y in e if y == a}),
                    ("adjacent_vertices", lambda e, a: {y for x, y in e if x == a} | {x for x, y in e if y == a}),
                    ("outgoing_edges", lambda e, a: {k for k in e if k[0] == a}), ("ingoing_edges", lambda e, a: {k for k in e if k[1] == a}),
                    ("adjacent_edges", lambda e, a: {k for k in e if a in k})):
        for a in names:
            yield q, a, lambda g, m, q=q, a=a, want=want: (set(getattr(g, q)(a)), want(m.e, a)) if a in m.v else None
    for q, want in (("has_edge", lambda e, a, b: (a, b) in e), ("has_bi_edge", lambda e, a, b: (a, b) in e and (b, a) in e),
                    ("has_any_edge", lambda e, a, b: (a, b) in e or (b, a) in e)):
        for a in names:
            for b in names:
                yield q, (a, b), lambda g, m, q=q, a=a, b=b, want=want: (getattr(g, q)(a, b), want(m.e, a, b))
    for a in names:
        for b in names:
            yield "get", (a, b), lambda g, m, a=a, b=b: (g.get(a, b), m.e[a, b]) if (a, b) in m.e else None
        yield "has_vertex", a, lambda g, m, a=a: (g.has_vertex(a), a in m.v)
    yield "edges", (), lambda g, m: (sorted(map(repr, g.edges())), sorted(map(repr, m.e)))
    yield "vertices", (), lambda g, m: (sorted(map(repr, g.vertices())), sorted(map(repr, m.v)))


def shown(g):
    return sorted(map(repr, g.vertices())), sorted((repr(k), g.get(*k)) for k in g.edges())


def model_shown(m):
    return sorted(map(repr, m.v)), sorted((repr(k), v) for k, v in m.e.items())


def ask_derived(names):
    yield "copy", (), lambda g, m: (shown(g.copy()), model_shown(m))
    yield "Graph", (), lambda g, m: (shown(Graph(g)), model_shown(m))
    yield "reverse", (), lambda g, m: (shown(g.reverse()), model_shown(rev_model(m)))
    for k in range(1, len(names) + 1):
        for sel in itertools.combinations(names, k):
            yield "subgraph", sel, lambda g, m, sel=sel: (shown(g.subgraph(list(sel))), model_shown(sub_model(m, sel)))


def ask_reach(names):
    def both(m):
        return closure(m.v, set(m.e) | {(b, a) for a, b in m.e})
    for a in names:
        for b in names:
            def path(g, m, a=a, b=b):
                if a not in m.v:
                    return None
                p = g.path(a, b)
                ok = p[0] == a and p[-1] == b and len(p) > 1 and all(k in m.e for k in zip(p, p[1:])) if p else True
                return (ok, bool(p)), (True, b in closure(m.v, set(m.e))[a])
            yield "path", (a, b), path
    for a in names:
        yield "connected", a, lambda g, m, a=a: (set(g.connected(a)), both(m)[a] - {a}) if a in m.v else None
    for a in names:
        yield ("connected_via_outgoing", a,
               lambda g, m, a=a: (set(g.connected_via_outgoing(a)), closure(m.v, set(m.e))[a] - {a}) if a in m.v else None)
    for a in names:
        yield ("connected_via_ingoing", a,
               lambda g, m, a=a: (set(g.connected_via_ingoing(a)), {x for x in m.v if a in closure(m.v, set(m.e))[x]} - {a}) if a in m.v else None)
    yield "connected_subsets", (), lambda g, m: (set(map(frozenset, g.connected_subsets())), {frozenset(both(m)[a] | {a}) for a in m.v})


def again_items(tier):
    for mask in range(1 << 4):
        yield [2, mask, "loops"]
    for mask in range(1 << 6):
        yield [3, mask, "plain"]


def toggles(names, loops):
    """Edits that keep or change the sizes of a graph."""
    def edge(g, m, a, b):
        if (a, b) in m.e:
            g.remove_edge(a, b)
            m.remove_edge(a, b)
        else:
            g.add_edge(a, b, 2)
            m.add_edge(a, b, 2)

    def vertex(g, m, a):
        if a in m.v:
            g.remove_vertex(a)
            m.remove_vertex(a)
        else:
            g.add_vertex(a)
            m.add_vertex(a)

    def value(g, m, a, b):
        g.set(a, b, 3)
        m.set(a, b, 3)

    for a in names:
        for b in names:
            if a != b or loops:
                yield "edge", lambda g, m, a=a, b=b: edge(g, m, a, b)
        yield "vertex", lambda g, m, a=a: vertex(g, m, a)
    yield "set", lambda g, m: value(g, m, names[0], names[1])


def listed(ask, g, names):
    """The answers that are lists or sets of their own."""
    fs = []
    if ask is ask_values:
        yield "edges()", g.edges()
        fs = [g.outgoing_vertices, g.ingoing_vertices, g.adjacent_vertices, g.outgoing_edges, g.ingoing_edges, g.adjacent_edges]
    elif ask is ask_reach:
        yield "connected_subsets()", g.connected_subsets()
        fs = [g.connected, g.connected_via_outgoing, g.connected_via_ingoing]
        for a in g.vertices():
            for b in g.vertices():
                yield "path({0!r}, {1!r})".format(a, b), g.path(a, b)
    for f in fs:
        for a in list(g.vertices()):
            yield "{0}({1!r})".format(f.__name__, a), f(a)


def again_run(ask):
    def run(item, ctx):
        n, mask, mode = item
        names = NAMES[:n] + (["new"] if n == 2 else [])
        qs = list(ask(names))
        es = list(toggles(names, mode == "loops"))
        cells = mask_edges(n, mask, mode)
        for edit in [(e,) for e in es] + list(itertools.product(es, repeat=2)):
            g, m = Graph(), Model()
            for a in NAMES[:n]:
                g.add_vertex(a)
                m.add_vertex(a)
            for i, j in cells:
                g.add_edge(NAMES[i], NAMES[j])
                m.add_edge(NAMES[i], NAMES[j], 1)
            kept = [(what, r, frozenset(r), len(r)) for what, r in listed(ask, g, names)]
            for turn in (qs, None, qs[::-1]):
                if turn is None:
                    for what, e in edit:
                        e(g, m)
                    for what, r, was, k in kept:
                        expect(frozenset(r) == was and len(r) == k, "{0}, returned earlier, became {1} when the graph was edited by {2} (edges first {3})", what, r, [w for w, _ in edit], cells)
                    continue
                for q, args, f in turn:
                    r = f(g, m)
                    ctx.step()
                    expect(r is None or r[0] == r[1], "{0}({1!r}) {2} is {3}, expected {4} (edges first {5}, now {6})", q, args,
                           "at first" if turn is qs else "asked again after edits " + str([w for w, _ in edit]), *(r or (0, 0)), cells, list(m.e))
            ctx.trace()
        ctx.state()
        ctx.out(mode)
    return run


ASSUME = ["single-threaded use (the library promises no thread safety)",
          "vertices are hashable values; the universe holds falsy, string, tuple and equal-hash names"]

CHECKS = {
    "C01": {"rule": "BFS closure: every edit operation (including failing ones) in every reachable state; state key = model + "
                    "structural dump of the real object; all queries compared before and after each operation",
            "assumptions": ASSUME,
            "harnesses": [
                BFS("bfs-2-vertices", "2 vertices, edge values {1, 0, None, 'w'}, all histories (closure)", lambda: GraphSys(2),
                    graph_ops(2, [0, None, "w"]), 40),
                fn_harness("families", "9 graph families up to 9 (14) vertices, edited step by step", fam_items, fam_run),
                fn_harness("long", "8 families with 60 and 1200 (3000) vertices, edited", long_items, long_edit_run),
                fn_harness("values", "all ordered pairs of 25 values of 14 types, many equal but different, as successive values of an edge x 3 x 6 operations", value_items, value_run),
                fn_harness("two-objects", "all pairs of operations on two graphs side by side", pair_items, pair_run),
                core.endurance("endurance", "one graph through histories of 12000 (60000) operations that hold every ordered pair of operations",
                               [BFS("", "", lambda: GraphSys(2), graph_ops(2, [0, None, "w"]), 0), BFS("", "", lambda: GraphSys(4), graph_ops(4, [0]), 0)],
                               calm=lambda op: op[0] != "remv"),
                BFS("bfs-3-vertices", "3 vertices, self-loops, one edge value, all histories (closure)", lambda: GraphSys(3),
                    graph_ops(3, []), 40),
                BFS("bfs-3-valued", "3 vertices, edge values {1, 0}, no self-loops (thorough: with self-loops), all histories (closure)",
                    lambda: GraphSys(3), lambda tier: graph_ops(3, [0], loops=tier == "thorough"), 40),
                fn_harness("asked-again", "all digraphs on 2 vertices with loops and on 3 without: every query, all edit sequences of length <=2, every query in the opposite order", again_items, again_run(ask_values)),
            ]},
    "C02": {"rule": "all valued digraphs within the bound x all derivations x all vertex subsets, then edits of either side",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("all-small", "all digraphs on <=2 vertices with values {1,0,None}, on 3 with {1,0} (thorough: {1,0,None})", der_items, der_run),
                fn_harness("families", "9 families with 4..8 (12) vertices, subsets of size 2, n/2, n-1", derfam_items, derfam_run),
                fn_harness("long", "8 families with 60 and 1200 (3000) vertices, either side edited", long_items, long_derive_run),
                fn_harness("values", "all ordered pairs of 25 edge values of 14 types x 7 derivations", value_items, value_derive_run),
                fn_harness("asked-again", "all digraphs on 2 vertices with loops and on 3 without: every query, all edit sequences of length <=2, every query in the opposite order", again_items, again_run(ask_derived)),
            ]},
    "C03": {"rule": "all digraphs within the bound x all ordered vertex pairs x all directions, against a transitive closure",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("all-digraphs", "all digraphs with self-loops on <=4 vertices, two insertion orders (thorough: all loop-free ones on 5)", reach_items, reach_run),
                fn_harness("insertion-orders", "all insertion orders of all sets of up to 4 (5) edges", order_items, order_run),
                fn_harness("after-removal", "all loop-free digraphs on 4 vertices: search, remove each vertex, search, re-add, search", removed_items, removed_run),
                fn_harness("families", "9 families with 5..10 (16) vertices, every single edge removed", reachfam_items, reachfam_run),
                fn_harness("long", "8 families with 60 and 1200 (3000) vertices, whole and with the middle vertex removed", long_items, long_reach_run),
                fn_harness("asked-again", "all digraphs on 2 vertices with loops and on 3 without: every query, all edit sequences of length <=2, every query in the opposite order", again_items, again_run(ask_reach)),
            ]},
}
