"""C23: text forms and debug logging are total and have no effect.

Purely differential: every history runs three times on equal objects - silently, with every
object turned into text after every step, and with debug logging on and every record
formatted - and the three must give the same results and show the same contents.  What the
results should be is the business of the other properties."""
import itertools
import logging

import core
from core import expect, fn_harness, Violation

from solver.graph import Graph
from solver.method import (Method, AddMethod, SubMethod, SetMethod, AssignMethod, MultiVariable, MultiMethod, SumProdMethod, MethodGraph,
                           MethodGraphCycleException, MethodGraphDetermineException)
from solver.geometry import (Scalar, Matrix, Vector, cc_int, cl_int, cr_int, ll_int, lr_int, rr_int, angle_3p, distance_2p, is_clockwise,
                             is_counterclockwise, is_flat, is_acute, is_obtuse, make_hcs, make_hcs_scaled, cs_transform_matrix)
from solver.geometric.cluster import Rigid, Hedgehog, Balloon
from solver.geometric.configuration import Configuration
from solver.geometric.constraint import (PlusConstraint, SelectionConstraint, FunctionConstraint, NotClockwiseConstraint,
                                         NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint, ConstraintGraph)
from solver.geometric.relation import Distance, Angle


class Odd:
    """A name whose text forms are unusual."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return "<{}%d {0}" + self.s


class Once:
    """A value that can be gone through once, and can be neither compared nor measured, but has a text."""

    def __init__(self, items):
        self.left = list(items)

    def __iter__(self):
        while self.left:
            yield self.left.pop(0)

    def __refuse(self, *other):
        raise TypeError("neither true nor false, and not comparable")

    __bool__ = __len__ = __eq__ = __ne__ = __lt__ = __gt__ = __refuse
    __hash__ = None

    def __add__(self, other):
        return Once(self.left + ["+"])

    def __mul__(self, other):
        return ("*", len(self.left))

    def __sub__(self, other):
        return Once(self.left[1:])

    def __repr__(self):
        return "Once({0})".format(self.left)


NAMES = ["a", 0, ("t", 1), "", None, (), (1,), 2.5, frozenset([1]), "%s %d", "{0} {x}", "{", "%", b"xy", True, int, -1, (1, 2, 3), float("inf"),
         "\n", "\u00fc\ud7ff", MultiVariable("m"), MultiVariable(), Odd("o%s{}"), ("%d",), len, "}", "{}", 10 ** 30, ((), ((),)), (None,), "a, b", Ellipsis]


# --------------------------------------------------------------------------- logging switched on

class Formatter(logging.Handler):
    """Formats every record, as a handler writing a file would, and keeps the errors."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.errors, self.records = [], 0

    def handle(self, record):
        self.records += 1
        try:
            text = record.getMessage()
            if not isinstance(text, str):
                self.errors.append("message is {0!r}".format(text))
        except Exception as e:          # noqa: BLE001
            self.errors.append("message {0!r} cannot be formatted: {1!r}".format(record.msg, e))


class Logging:
    """mode: off, debug, disabled (switched off altogether)"""

    def __init__(self, mode):
        self.mode, self.handler = mode, Formatter()

    def __enter__(self):
        root = logging.getLogger()
        self.old = root.level
        if "debug" in self.mode:
            root.addHandler(self.handler)
            root.setLevel(logging.DEBUG)
        elif self.mode == "disabled":
            logging.disable(logging.CRITICAL)
        return self

    def __exit__(self, *exc):
        root = logging.getLogger()
        root.removeHandler(self.handler)
        root.setLevel(self.old)
        logging.disable(logging.NOTSET)


# --------------------------------------------------------------------------- contents as data

def data(o, names):
    """What the public interface shows of a result, as comparable data (order of sets ignored)."""
    for label, x in names.items():
        if x is o:
            return "<" + label + ">"
    if isinstance(o, Vector):
        return ("vector", repr(o.x), repr(o.y))
    if isinstance(o, Matrix):
        return ("matrix", repr(o.elements))
    if isinstance(o, Configuration):
        return ("configuration", sorted(((data(k, names), data(o.get(k), names)) for k in o.vars()), key=repr), bool(o.underconstrained), list(o.mapping) == list(o.vars()))
    if isinstance(o, Graph):
        return ("graph", data(list(o.vertices()), names), sorted(((data(a, names), data(b, names), data(o.get(a, b), names)) for a, b in o.edges()), key=repr))
    if isinstance(o, (Distance, Angle)):
        return (type(o).__name__, [data(x, names) for x in o.points])
    if isinstance(o, (Rigid, Hedgehog, Balloon)):
        return (type(o).__name__, sorted((data(x, names) for x in o.var_list()), key=repr), bool(o.overconstrained),
                data(list(o.var_list())[0], names) if isinstance(o, Hedgehog) else None)
    if isinstance(o, dict):
        return ("dict", sorted(((data(k, names), data(v, names)) for k, v in o.items()), key=repr))
    if isinstance(o, tuple):
        return ("tuple",) + tuple(data(x, names) for x in o)
    if isinstance(o, (list, set, frozenset)) or type(o).__name__ in ("dict_keys", "dict_values", "generator", "odict_keys", "filter", "map", "list_iterator", "dict_keyiterator"):
        return ("several", sorted((data(x, names) for x in o), key=repr))
    if isinstance(o, Once):
        return ("once", tuple(o.left))
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return (type(o).__name__, repr(o))
    return ("object", type(o).__name__)


def attempt(f, names):
    try:
        return data(f(), names)
    except Exception as e:          # noqa: BLE001 - an error is a result too
        return ("error", type(e).__name__)


def text_of(o, what):
    try:
        forms = str(o), repr(o), "{0}".format(o), "%s" % (o,)
        again = str(o), repr(o)
    except Exception as e:          # noqa: BLE001
        raise Violation("{0}: turning a {1} into text fails: {2}: {3}".format(what, type(o).__name__, type(e).__name__, e))
    expect(all(isinstance(f, str) for f in forms), "{0}: text of a {1} is {2!r}", what, type(o).__name__, forms)
    expect(forms[:2] == again, "{0}: the text of an unchanged {1} differs the second time: {2!r}, then {3!r}", what, type(o).__name__, forms[:2], again)


def history(make, ops, what, ctx, modes=("text", "debug", "disabled")):
    """Run ops silently, then in each mode; compare every result and every view."""
    def run(mode):
        w = make()
        seen = []
        with Logging(mode) as log:
            for op in [None] + list(ops):
                if op is not None:
                    seen.append(attempt(lambda: w.apply(op), w.names))
                if "text" in mode:
                    for o in w.objects():
                        text_of(o, what)
                        ctx.step()
                seen.append(w.view())
        if "debug" in mode:
            expect(not log.handler.errors, "{0}: with debug logging on, a {1}", what, (log.handler.errors or [""])[0])
            ctx.out("log records", log.handler.records)
        return seen
    want = run("silent")
    for mode in modes:
        got = run(mode)
        for k, (a, b) in enumerate(zip(want, got)):
            expect(a == b, "{0}: {1}: {2} is {3}; without it, {4}", what, {"text": "with objects turned into text", "debug": "with debug logging on", "disabled": "with logging disabled",
                                                                      "text+debug": "with objects turned into text and debug logging on"}[mode],
                   "the result of step {0}".format(k // 2) if k % 2 else "what is visible after step {0}".format(k // 2), b, a)
    ctx.state()
    ctx.trace(1 + len(modes))


class World:
    def __init__(self, ns):
        self.ns = ns
        self.names = {"n{0}".format(i): x for i, x in enumerate(ns) if not isinstance(x, (bool, int, float, str, bytes, type(None)))}

    def apply(self, op):
        return getattr(self, "do_" + op[0])(*op[1:])


class GraphWorld(World):
    VALUES = [1, None, ("v", 2), "%s{"]

    def __init__(self, ns):
        super().__init__(ns)
        self.g = Graph()
        self.other = None

    def objects(self):
        return [self.g] + ([self.other] if self.other is not None else [])

    def do_av(self, i):
        return self.g.add_vertex(self.ns[i])

    def do_rv(self, i):
        return self.g.remove_vertex(self.ns[i])

    def do_ae(self, i, j, v):
        return self.g.add_edge(self.ns[i], self.ns[j], self.VALUES[v])

    def do_re(self, i, j):
        return self.g.remove_edge(self.ns[i], self.ns[j])

    def do_set(self, i, j, v):
        return self.g.set(self.ns[i], self.ns[j], self.VALUES[v])

    def do_bi(self, i, j):
        return self.g.add_bi_edge(self.ns[i], self.ns[j])

    def do_rbi(self, i, j):
        return self.g.remove_bi_edge(self.ns[i], self.ns[j])

    def do_rev(self):
        self.other = self.g.reverse()

    def do_copy(self):
        self.other = self.g
        self.g = self.g.copy()

    def do_sub(self):
        self.other = self.g.subgraph(self.ns[:1])

    def view(self):
        r = [attempt(lambda: o, self.names) for o in self.objects()]
        for a in self.ns:
            for f in (self.g.outgoing_vertices, self.g.ingoing_vertices, self.g.outgoing_edges, self.g.ingoing_edges, self.g.connected):
                r.append(attempt(lambda: f(a), self.names))
            for b in self.ns:
                r.append(attempt(lambda: (self.g.has_edge(a, b), self.g.get(a, b)), self.names))
                r.append(attempt(lambda: self.g.path(a, b), self.names))
        return r


def graph_ops(n):
    ops = [["rev"], ["copy"], ["sub"]]
    for i in range(n):
        ops += [["av", i], ["rv", i]]
        for j in range(n):
            ops += [["ae", i, j, (i + 2 * j) % 4], ["re", i, j]]
            if i < j:
                ops += [["bi", i, j], ["rbi", i, j], ["set", i, j, 2], ["set", i, j, 1]]
    return ops


class Failing(Method):
    def __init__(self, a, b):
        super().__init__("Failing", [a], [b])

    def execute(self, inmap):
        raise KeyError("refused")


class Pair(Method):
    """Two outputs; its text is the inherited one."""

    def __init__(self, a, b, c):
        super().__init__("Pair", [a], [b, c])

    def execute(self, inmap):
        v = inmap[self.inputs[0]]
        return {self.outputs[0]: (v, 0), self.outputs[1]: (v, 1)}


class Text(Method):
    """The text of its input."""

    def __init__(self, a, b):
        super().__init__("Text", [a], [b])

    def execute(self, inmap):
        return {self.outputs[0]: repr(inmap[self.inputs[0]])}


class MethodWorld(World):
    VALUES = [3, None, ("v", 2), "%s{"]

    def __init__(self, ns):
        super().__init__(ns)
        self.mv = MultiVariable(ns[0])
        a, b, c = ns[:3]
        self.mets = [SetMethod(a, 5), SetMethod(b, ("x%d", 1)), AssignMethod(b, a), AddMethod(a, b, c), SubMethod(b, c, a), SumProdMethod(a, b, self.mv), Failing(b, c), Pair(a, b, c),
                     AddMethod(a, a, b), AssignMethod(c, self.mv), Text(b, c)]
        self.live = []
        self.names["mv"] = self.mv
        self.names.update(("m{0}".format(i), m) for i, m in enumerate(self.mets))
        self.g = MethodGraph()

    def value(self, v):
        if v == "live":
            # one list, altered and set again
            self.live.append(len(self.live))
            return self.live
        return Once([1, 2, 3]) if v == "once" else self.VALUES[v]

    def objects(self):
        return [self.g, self.mv] + self.mets

    def do_addv(self, i, v):
        return self.g.add_variable(self.ns[i], self.value(v))

    def do_remv(self, i):
        return self.g.rem_variable(self.ns[i])

    def do_set(self, i, v, prop):
        return self.g.set(self.ns[i], self.value(v), prop)

    def do_met(self, k, prop):
        return self.g.add_method(self.mets[k], prop)

    def do_rem(self, k):
        return self.g.rem_method(self.mets[k])

    def do_prop(self):
        return self.g.propagate()

    def do_clear(self):
        return self.g.clear()

    def do_exec(self, k):
        return self.g.execute(self.mets[k])

    def view(self):
        r = [attempt(lambda: list(self.g.variables()), self.names), attempt(lambda: list(self.g.methods()), self.names)]
        for x in self.ns[:3] + [self.mv]:
            r.append(attempt(lambda: self.g.get(x), self.names))
        for m in self.mets:
            r.append(attempt(lambda: (tuple(m.inputs), tuple(m.outputs), m.name), self.names))
        return r


METHOD_OPS = [["addv", 0, 0], ["addv", 1, 1], ["remv", 0], ["remv", 1], ["set", 0, 0, True], ["set", 0, 2, True], ["set", 1, 0, False], ["set", 1, 3, True], ["set", 2, 0, True], ["set", 1, "once", True], ["set", 0, "once", False],
              ["met", 0, True], ["met", 1, True], ["met", 2, True], ["met", 3, True], ["met", 3, False], ["met", 4, True], ["met", 5, True], ["met", 6, True], ["met", 7, True], ["met", 8, True], ["met", 9, True],
              ["rem", 0], ["rem", 3], ["rem", 5], ["prop"], ["clear"], ["exec", 3], ["exec", 0]]


class ConstraintWorld(World):
    def __init__(self, ns):
        super().__init__(ns)
        a, b, c = ns[:3]

        class Callable:
            def __call__(self, *args):
                return True

        class Selection(SelectionConstraint):
            def satisfied(self, mapping):
                return True
        import functools
        self.cons = [PlusConstraint(a, b, c), FunctionConstraint(Callable(), [a, b]), NotClockwiseConstraint(a, b, c), NotObtuseConstraint(b, c, a), FunctionConstraint(functools.partial(max, 1), []),
                     Selection(("my", "name"), (b,)), FunctionConstraint(lambda *a: True, (c,), name="{0}"), NotCounterClockwiseConstraint(a, b, c), NotAcuteConstraint(a, b, c),
                     FunctionConstraint(int, [a, a])]
        self.names.update(("k{0}".format(i), m) for i, m in enumerate(self.cons))
        self.g = ConstraintGraph()

    def objects(self):
        return [self.g] + self.cons

    def do_av(self, i):
        return self.g.add_variable(self.ns[i])

    def do_rv(self, i):
        return self.g.rem_variable(self.ns[i])

    def do_ac(self, k):
        return self.g.add_constraint(self.cons[k])

    def do_rc(self, k):
        return self.g.rem_constraint(self.cons[k])

    def view(self):
        r = [attempt(lambda: list(self.g.variables()), self.names), attempt(lambda: list(self.g.constraints()), self.names)]
        for x in self.ns[:3]:
            r.append(attempt(lambda: self.g.get_constraints_on(x), self.names))
        r.append(attempt(lambda: self.g.get_constraints_on_all(self.ns[:2]), self.names))
        r.append(attempt(lambda: self.g.get_constraints_on_any(self.ns[:2]), self.names))
        pts = dict(zip(self.ns[:3], [Vector(0, 0), Vector(1, 2), Vector(5, 1)]))
        for c in self.cons:
            r.append(attempt(lambda: tuple(c.variables()), self.names))
            r.append(attempt(lambda: c.satisfied(pts), self.names))
        return r


CONSTRAINT_OPS = [[o, i] for o in ("av", "rv") for i in range(3)] + [["ac", k] for k in range(10)] + [["rc", k] for k in (0, 1, 2, 4)]


class ConfigWorld(World):
    MAT = [[0.0, -1.0, 2.0], [1.0, 0.0, -3.0], [0.0, 0.0, 1.0]]

    def __init__(self, ns):
        super().__init__(ns)
        a, b, c = ns[:3]
        self.cs = [Configuration({a: Vector(0, 0), b: Vector(3, 1)}), Configuration({b: Vector(5, 5), c: Vector(2, 2), a: Vector(6, 8)}), Configuration({c: Vector(1, 1)}), Configuration({})]

    def objects(self):
        return self.cs + [self.cs[0].mapping]

    def pick(self, k):
        return self.cs[k if k < 3 else -1]

    def add(self, c):
        self.cs.append(c)
        return c

    def do_merge(self, i, j):
        return self.add(self.pick(i).merge(self.pick(j)))

    def do_matrix(self, i, j):
        return self.pick(i).transformation_matrix(self.pick(j))

    def do_add(self, i, j):
        return self.add(self.pick(i).add(self.pick(j)))

    def do_select(self, i, k):
        return self.add(self.pick(i).select(self.ns[:k]))

    def do_transform(self, i):
        return self.add(self.pick(i).transform(Matrix(self.MAT)))

    def do_copy(self, i):
        return self.add(self.pick(i).copy())

    def view(self):
        r = [attempt(lambda: c, self.names) for c in self.cs]
        r.append([attempt(lambda: x == y, self.names) for x in self.cs for y in self.cs])
        r.append([attempt(lambda: [j for j, y in enumerate(self.cs) if hash(x) == hash(y)], self.names) for x in self.cs])
        return r


CONFIG_OPS = [[o, i, j] for o in ("merge", "matrix", "add") for i in range(4) for j in range(4)] + [["select", i, k] for i in range(4) for k in range(4)] + [[o, i] for o in ("transform", "copy") for i in range(4)]


class ClusterWorld(World):
    def __init__(self, ns):
        super().__init__(ns)
        a, b, c, d = ns[:4]
        self.cs = [Rigid([a, b, c]), Rigid([b, c, d]), Hedgehog(a, [b, c]), Hedgehog(b, [a, c, d]), Balloon([a, b, c, d]), Balloon([b, c, d]), Rigid([a, b])]
        self.got = []

    def objects(self):
        return self.cs + self.got

    def flat(self, r):
        for x in r if isinstance(r, (list, tuple, set, frozenset)) else [r]:
            if isinstance(x, (list, tuple, set, frozenset)):
                self.flat(x)
            elif x is not None:
                self.got.append(x)
        return r

    def do_inter(self, i, j):
        return self.flat(self.cs[i].intersection(self.cs[j]))

    def do_common(self, i, j):
        return self.flat(self.cs[i].common_constraints(self.cs[j]))

    def do_mark(self, i):
        self.cs[i].overconstrained = not self.cs[i].overconstrained

    def view(self):
        r = [attempt(lambda: c, self.names) for c in self.objects()]
        r += [attempt(lambda: (c.n_constraints(), c.n_distances(), c.n_angles()), self.names) for c in self.cs]
        return r


CLUSTER_OPS = [[o, i, j] for o in ("inter", "common") for i in range(7) for j in range(7)] + [["mark", i] for i in range(7)]

WORLDS = {"graph": (GraphWorld, graph_ops(2), 2), "method": (MethodWorld, METHOD_OPS, 3), "constraint": (ConstraintWorld, CONSTRAINT_OPS, 3), "configuration": (ConfigWorld, CONFIG_OPS, 3),
          "cluster": (ClusterWorld, CLUSTER_OPS, 4)}
DEPTH = {"quick": {"graph": 3, "method": 3, "constraint": 3, "configuration": 2, "cluster": 2},
         "thorough": {"graph": 4, "method": 4, "constraint": 4, "configuration": 3, "cluster": 3}}


def nameset(k, n):
    """n names starting at the k-th, all different."""
    res = []
    i = k
    while len(res) < n:
        x = NAMES[i % len(NAMES)]
        if not any(x == y for y in res):
            res.append(x)
        i += 1
    return res


def hist_items(tier):
    for kind, (_, ops, _) in WORLDS.items():
        d = DEPTH[tier][kind]
        for pre in itertools.product(range(len(ops)), repeat=max(1, d - 2)):
            yield [kind, list(pre), d - len(pre)]


def hist_run(item, ctx):
    kind, pre, more = item
    cls, ops, n = WORLDS[kind]
    for k, rest in enumerate(itertools.product(range(len(ops)), repeat=more)):
        ns = nameset(5 * sum(pre) + k, n)
        seq = [ops[i] for i in list(pre) + list(rest)]
        history(lambda: cls(ns), seq, "{0} with names {1!r}, history {2}".format(kind, ns, seq), ctx, ("text+debug",))
    ctx.out(kind)


TYPICAL = {
    "graph": [["ae", 0, 1, 2], ["ae", 1, 0, 3], ["bi", 0, 1], ["ae", 1, 1, 1], ["rev"], ["copy"], ["sub"], ["re", 0, 1], ["rv", 1]],
    "method": [["addv", 0, 0], ["addv", 1, 2], ["met", 3, True], ["set", 0, 0, True], ["set", 1, 0, True], ["met", 5, True], ["set", 1, 3, True], ["met", 7, True], ["rem", 3], ["met", 6, True], ["prop"], ["clear"], ["met", 2, True],
               ["met", 10, True], ["set", 0, "live", True], ["set", 0, "live", True], ["set", 0, "live", False], ["prop"], ["remv", 0]],
    "constraint": [["ac", k] for k in range(10)] + [["rc", 0], ["rv", 1], ["rc", 0], ["rv", 1]],
    "configuration": [["merge", 0, 1], ["merge", 0, 2], ["select", 1, 2], ["transform", 3], ["merge", 3, 1], ["copy", 3], ["add", 0, 2], ["matrix", 0, 1]],
    "cluster": [["inter", 0, 1], ["inter", 2, 3], ["inter", 3, 4], ["common", 0, 1], ["common", 3, 4], ["mark", 0], ["mark", 2], ["common", 0, 3], ["inter", 6, 4], ["inter", 6, 2]],
}


def name_items(tier):
    for kind in WORLDS:
        for k in range(len(NAMES)):
            for step in (1, 3) if tier == "quick" else (1, 2, 3, 5, 7, 11):
                yield [kind, k, step]


def name_run(item, ctx):
    kind, k, step = item
    cls, _, n = WORLDS[kind]
    ns = []
    i = k
    while len(ns) < n:
        x = NAMES[i % len(NAMES)]
        if any(x == y for y in ns):
            i += 1
            continue
        ns.append(x)
        i += step
    for order in itertools.permutations(ns) if n < 4 else (ns, ns[::-1], ns[2:] + ns[:2]):
        history(lambda: cls(list(order)), TYPICAL[kind], "{0} with names {1!r}, typical history".format(kind, order), ctx)
    ctx.out("{0}: name of type {1}".format(kind, type(NAMES[k]).__name__))


# --------------------------------------------------------------------------- relations, vectors, matrices, geometry

def rel_items(tier):
    for k in range(len(NAMES)):
        yield k


def rel_run(k, ctx):
    for j in range(len(NAMES)):
        a, b, c = NAMES[k], NAMES[j], NAMES[(k + j) % len(NAMES)]
        for r in (Distance(a, b), Angle(a, b, c), MultiVariable(a), SetMethod(a, b), AssignMethod(a, b), FunctionConstraint(a, [b, c]), FunctionConstraint(max, [], a if a is None or a else "x")):
            before = list(getattr(r, "points", [])), attempt(lambda: hash(r), {})
            text_of(r, "{0} of {1!r}, {2!r}, {3!r}".format(type(r).__name__, a, b, c))
            after = list(getattr(r, "points", [])), attempt(lambda: hash(r), {})
            expect(len(before[0]) == len(after[0]) and all(x is y for x, y in zip(before[0], after[0])) and before[1] == after[1], "turning {0} into text altered it", type(r).__name__)
            ctx.step()
        ctx.state()
    ctx.trace()


NUMBERS = [0, -0.0, 1, -7, 0.1, 1e300, -1e-300, float("inf"), float("-inf"), float("nan"), 10 ** 40, True, 1234.5678]


def vec_items(tier):
    for i in range(len(NUMBERS)):
        yield i


def vec_run(i, ctx):
    for y in NUMBERS:
        x = NUMBERS[i]
        v = Vector(x, y)
        ms = [v, Vector(v), Matrix([[x, y], [y, x]]), Matrix([[x], [y], [x]]), Matrix([[x, y, x]]), Matrix([(x, y), (y, x)]), Matrix([[x]]), Matrix.identity(i), Configuration({"p": v, y: Vector(y, x)}),
              Matrix([["a", None], [x, ()]])]
        for t in ms[:3]:
            ms.append(t.transpose())
        for m in ms:
            before = repr(m.elements) if isinstance(m, Matrix) else [(repr(k), repr(p.elements)) for k, p in m.mapping.items()]
            text_of(m, "with numbers {0!r}, {1!r}".format(x, y))
            after = repr(m.elements) if isinstance(m, Matrix) else [(repr(k), repr(p.elements)) for k, p in m.mapping.items()]
            expect(before == after, "turning it into text changed a {0}: {1}, before {2}", type(m).__name__, after, before)
            ctx.step()
        ctx.state()
    ctx.trace()


def geo_items(tier):
    n = 3 if tier == "quick" else 4
    for x in range(-1, n):
        for y in range(-1, n):
            yield [x, y, n]


def geo_run(item, ctx):
    """Every geometric function, silently and with logging on; arguments turned into text in between."""
    x, y, n = item
    p = Vector(0.5, 0.25)
    for u in range(-1, n):
        for w in range(-1, n):
            a, b = (x, y), (u, w)
            calls = []
            for r in range(n):
                calls += [(cc_int, 0, r, 1, 1.5), (cc_int, 1, r, 0, 1), (cl_int, 0, r, 2, 1), (cr_int, 0, r, 2, 1)]
            calls += [(f, 0, 2, 1, 3) for f in (ll_int, lr_int, rr_int)] + [(f, 0, 1, 2) for f in (angle_3p, is_clockwise, is_counterclockwise, is_flat, is_acute, is_obtuse)]
            calls += [(distance_2p, 0, 1), (make_hcs, 0, 1), (make_hcs_scaled, 0, 1), (lambda s, t, o: cs_transform_matrix(make_hcs(s, t), make_hcs(o, t)), 0, 1, 2)]
            for call in calls:
                f, spec = call[0], call[1:]
                rounds = []
                for mode in ("silent", "text", "debug", "disabled"):
                    vs = [Vector(*a), Vector(*b), Vector(0.5, 0.25), Vector(1, w)]
                    line = f in (cl_int, cr_int)
                    args = [(k if i == 1 and f in (cc_int, cl_int, cr_int) or i == 3 and f is cc_int else vs[k]) for i, k in enumerate(spec)]
                    if mode == "text":
                        for q in args:
                            text_of(q, "argument of {0}".format(f.__name__))
                    with Logging(mode) as log:
                        r = attempt(lambda: tuple(f(*args)) if isinstance(f(*args), list) else f(*args), {})
                    if mode == "debug":
                        expect(not log.handler.errors, "{0}{1} with debug logging on: {2}", f.__name__, tuple(args), log.handler.errors)
                        ctx.out("log records", log.handler.records)
                    rounds.append((r, repr([v.elements for v in vs])))
                    ctx.step()
                for mode, got in zip(("arguments turned into text", "debug logging on", "logging disabled"), rounds[1:]):
                    expect(got == rounds[0], "{0} of {1}, {2}: with {3} {4}, without it {5}", f.__name__, a, b, mode, got, rounds[0])
            ctx.state()
    ctx.trace()


CHECKS = {
    "C23": {"rule": "every history runs silently, with all objects turned into text after every step, with debug logging on and all records formatted, and with logging disabled; results and visible contents must be the same",
            "assumptions": ["names have working text forms of their own; objects do not contain themselves"],
            "harnesses": [
                fn_harness("names", "33 names of all hashable kinds x 5 areas x all orders of the names (quick: 2 spacings, thorough: 6) on a typical history", name_items, name_run),
                fn_harness("relations", "all pairs of 33 names x 7 classes", rel_items, rel_run),
                fn_harness("vectors-matrices", "all pairs of 13 numbers (infinite, nan, huge) x 13 shapes", vec_items, vec_run),
                fn_harness("geometry", "19 geometric functions on all lattice arguments x 4 modes", geo_items, geo_run),
                fn_harness("histories", "all sequences of 2..3 (3..4) operations over graphs (26 operations), method graphs (29), constraint graphs (20), configurations (72), clusters (105), silently and with text forms and debug logging, names rotating", hist_items, hist_run),
            ]},
}
