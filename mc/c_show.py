"""C24: the text of an object shows what the object consists of.

Nothing here depends on the format: variables have distinctive one-word names, and a text is
judged by the words and numbers in it, their order where the content has one, and by objects of
different content having different texts."""
import itertools
import re

import core
from core import expect, fn_harness

from solver.graph import Graph
from solver.method import Method, AddMethod, SubMethod, SetMethod, AssignMethod, MultiVariable, SumProdMethod, MultiMethod, MethodGraph
from solver.geometry import Matrix, Vector
from solver.geometric.cluster import Rigid, Hedgehog, Balloon
from solver.geometric.configuration import Configuration
from solver.geometric.constraint import (PlusConstraint, SelectionConstraint, FunctionConstraint, NotClockwiseConstraint, NotCounterClockwiseConstraint, NotObtuseConstraint,
                                         NotAcuteConstraint, ConstraintGraph)
from solver.geometric.relation import Distance, Angle

WORDS = ["zzvarq", "zzvarj", "zzvark", "zzvarw", "zzvary", "zzvarz", "zzvarh", "zzvarf", "zzvarp", "zzvarm", "zzvaru", "zzvarg"]
VALUES = ["zzvalq", "zzvalj", "zzvalk"]
WORD = re.compile(r"zz[a-z]+")
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)")


class Named:
    """A hashable name with a text of its own."""

    def __init__(self, word):
        self.word = word

    def __str__(self):
        return self.word

    __repr__ = __str__


def name(k, style):
    """A name whose text has the word k: a plain word, an object, a pair, and a word among signs that mean something to text templates."""
    if style == 3:
        return ["{%s}", "%%d%s", "\\g%s", "%s%%", "{%s", "%s}{}"][k % 6] % WORDS[k]
    return [WORDS[k], Named(WORDS[k])][style] if style < 2 else ("x", WORDS[k])


def words(o, what):
    return WORD.findall(both(o, what))


def both(o, what):
    s = str(o)
    expect(isinstance(s, str), "the text of {0} is {1!r}", what, s)
    expect("{0}".format(o) == s and "%s" % o == s, "{0}: the text forms differ: {1!r}, {2!r}", what, s, "%s" % o)
    return s


def shows(o, want, what, order=None):
    """The words in the text are exactly the wanted ones; those in order appear in that order."""
    got = words(o, what)
    expect(set(got) == set(want), "the text of {0} names {1}, it consists of {2}: {3!r}", what, sorted(set(got)), sorted(set(want)), str(o))
    if order:
        it = iter(got)
        expect(all(w in it for w in order), "the text of {0} does not name {1} in this order: {2!r}", what, order, str(o))


class Distinct:
    """Different contents have different texts."""

    def __init__(self, what):
        self.what, self.seen = what, {}

    def add(self, text, content):
        old = self.seen.setdefault(text, content)
        expect(old == content, "two different {0} have the same text {1!r}: {2} and {3}", self.what, text, old, content)


# --------------------------------------------------------------------------- graphs

def graph_items(tier):
    for style in (0, 1, 3):
        for present in range(8 if style < 3 or tier == "thorough" else 7):
            yield [style, present, tier]


def graph_run(item, ctx):
    style, present, tier = item
    vs = [k for k in range(3) if present >> k & 1]
    pairs = [(a, b) for a in vs for b in vs]
    nv = 2 if len(vs) == 3 else 3
    if len(vs) == 3 and tier == "quick":
        pairs = [(a, b) for a, b in pairs if a != b] + [(1, 1)]
    d = Distinct("graphs")
    ns = [name(k, style) for k in range(3)]
    texts = VALUES if style < 3 else ["{%s}" % VALUES[0], "%%d%s" % VALUES[1], "%s{" % VALUES[2]]
    for vals in itertools.product(range(nv + (tier == "thorough" and len(vs) < 3)), repeat=len(pairs)):
        g = Graph()
        for k in vs:
            g.add_vertex(ns[k])
        edges = {}
        for (a, b), v in zip(pairs, vals):
            if v:
                g.add_edge(ns[a], ns[b], texts[v - 1])
                edges[a, b] = v
        shows(g, [WORDS[k] for k in vs] + [VALUES[v - 1] for v in edges.values()], "the graph with vertices {0} and edges {1}".format(vs, edges))
        d.add(str(g), (tuple(vs), tuple(sorted(edges.items()))))
        ctx.state()
        ctx.step()
    ctx.out("{0} vertices".format(len(vs)), len(d.seen))
    ctx.trace()


def edit_items(tier):
    ops = [["av", 0], ["av", 1], ["rv", 0], ["rv", 1], ["ae", 0, 1], ["ae", 1, 0], ["ae", 0, 0], ["re", 0, 1], ["set", 0, 1], ["bi", 0, 1], ["rbi", 0, 1]]
    for pre in itertools.product(range(len(ops)), repeat=2):
        yield [[ops[k] for k in pre], ops, 2 if tier == "quick" else 3]


def edit_run(item, ctx):
    """The text follows every edit (also when it was asked for before the edit)."""
    pre, ops, more = item
    d = Distinct("graphs")
    for rest, sparse in itertools.product(itertools.product(ops, repeat=more), (False, True)):
        g, vs, es = Graph(), {}, {}
        for k, op in enumerate(pre + list(rest)):
            ab = [WORDS[i] for i in op[1:]]
            val = VALUES[k % 3]
            try:
                {"av": g.add_vertex, "rv": g.remove_vertex, "re": g.remove_edge, "rbi": g.remove_bi_edge}.get(op[0], lambda *a: {"ae": g.add_edge, "set": g.set, "bi": g.add_bi_edge}[op[0]](*(a + (val,))))(*ab)
            except Exception:          # noqa: BLE001 - what fails is C01's business
                pass
            if sparse and k not in (len(pre) - 1, len(pre) + more - 1):
                continue
            vs = list(g.vertices())
            es = {(a, b): g.get(a, b) for a, b in g.edges()}
            shows(g, vs + list(es.values()), "the graph after {0}".format((pre + list(rest))[:k + 1]))
            d.add(str(g), (frozenset(vs), frozenset(es.items())))
            ctx.step()
        ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- methods

class Free(Method):
    def execute(self, inmap):
        return {}


class FreeMulti(MultiMethod):
    def multi_execute(self, inmap):
        return []


def method_items(tier):
    for style in range(4):
        for ni in range(4 if tier == "quick" else 5):
            for no in range(4 if tier == "quick" else 5):
                yield [style, ni, no]


def method_run(item, ctx):
    style, ni, no = item
    ns = [name(k, style) for k in range(4)]
    d = Distinct("methods")
    kinds = [("zznamea", Free), ("zznameb", Free)]
    for ins in itertools.product(range(4), repeat=ni):
        for outs in itertools.permutations(range(4), no):
            for label, cls in kinds:
                m = cls(label, [ns[k] for k in ins], [ns[k] for k in outs])
                order = [label] + [WORDS[k] for k in ins] + [WORDS[k] for k in outs]
                shows(m, order, "method {0} with inputs {1} and outputs {2}".format(label, ins, outs), order)
                if no or not ni:
                    d.add(str(m), (label, ins, outs))
                ctx.step()
            ctx.state()
    if no == 1:
        for ins in itertools.product(range(4), repeat=ni):
            for k in range(4):
                mv = [MultiVariable(ns[i]) for i in range(4)]
                m = FreeMulti("zznamem", [mv[i] if i % 2 else ns[i] for i in ins], [mv[k]])
                order = ["zznamem"] + [WORDS[i] for i in ins] + [WORDS[k]]
                shows(m, order, "multi-valued method with inputs {0} and output {1}".format(ins, k), order)
                d.add(str(m), ("multi", ins, k))
                ctx.step()
    ctx.trace()


class Val:
    def __init__(self, w):
        self.w = w

    def __str__(self):
        return self.w
    __repr__ = __str__


def supplied_items(tier):
    for style in range(4):
        yield [style, 5 if tier == "quick" else 8]


def supplied_run(item, ctx):
    style, n = item
    ns = [name(k, style) for k in range(n)]
    d = Distinct("methods")
    for a, b in itertools.product(range(n), repeat=2):
        for c in range(n):
            if c in (a, b):
                continue
            for cls in (AddMethod, SubMethod):
                m = cls(ns[a], ns[b], ns[c])
                shows(m, [WORDS[a], WORDS[b], WORDS[c]], "{0}{1}".format(cls.__name__, (a, b, c)), [WORDS[a], WORDS[b], WORDS[c]])
                d.add(str(m), (cls.__name__, a, b, c))
            m = SumProdMethod(ns[a], ns[b], MultiVariable(ns[c]))
            shows(m, [WORDS[a], WORDS[b], WORDS[c]], "SumProdMethod{0}".format((a, b, c)), [WORDS[a], WORDS[b], WORDS[c]])
            d.add(str(m), ("SumProdMethod", a, b, c))
            ctx.step()
        if a != b:
            m = AssignMethod(ns[a], ns[b])
            shows(m, [WORDS[a], WORDS[b]], "AssignMethod{0}".format((a, b)))
            d.add(str(m), ("AssignMethod", a, b))
        for v in ("zzvalq", "{zzvalj}", "%dzzvalk", Val("zzvalq"), [Val("zzvalj"), Val("zzvalk")], {"zzvalq": "zzvalj"}):
            m = SetMethod(ns[a], v)
            shows(m, [WORDS[a]] + WORD.findall(str(v)), "SetMethod({0}, {1})".format(a, v))
        ctx.state()
    for a in range(n):
        for v in (0, 1, -3, 2.5, 0.0, 17, 10 ** 20, None, False, True, "", (), [], [0], Vector(0, 0), Vector(1, 2)):
            m = SetMethod(ns[a], v)
            shows(m, [WORDS[a]], "SetMethod({0}, {1!r})".format(a, v))
            expect(str(v) in str(m), "the text of SetMethod({0}, {1!r}) does not show the value: {2!r}", a, v, str(m))
            d.add(str(m), ("SetMethod", a, str(v)))
            ctx.step()
        mv = MultiVariable(ns[a])
        shows(mv, [WORDS[a]], "MultiVariable({0})".format(a))
        expect(words(mv, "multi")[0] in repr(mv), "repr of MultiVariable({0}) does not name it: {1!r}", a, repr(mv))
    for v in (0, "", (), False):
        expect(str(v) in str(MultiVariable(v)), "text of MultiVariable({0!r}) does not show its name: {1!r}", v, str(MultiVariable(v)))
    d2 = Distinct("multi-variables")
    keep = [MultiVariable(x) for x in (None, None, 0, "", False, "zzvarq", "zzvarj", (), None)]
    for k, m in enumerate(keep):
        d2.add(str(m), k)
    ctx.trace()


# --------------------------------------------------------------------------- method graphs, constraint graphs

MET_OPS = [["av", 0], ["av", 3], ["rv", 0], ["rv", 1], ["rv", 3]] + [[o, k] for o in ("am", "rm") for k in range(6)] + [["clear"]]


def mg_items(tier):
    for style in range(4):
        for pre in itertools.product(range(len(MET_OPS)), repeat=1 if tier == "quick" else 2):
            yield [style, list(pre), 2]


def mg_run(item, ctx):
    style, pre, more = item
    ns = [name(k, style) for k in range(5)]
    for rest, sparse in itertools.product(itertools.product(range(len(MET_OPS)), repeat=more), (False, True)):
        mets = [AddMethod(ns[0], ns[1], ns[2]), SubMethod(ns[2], ns[3], ns[4]), SetMethod(ns[0], "zzvalq"), AssignMethod(ns[3], ns[2]), Free("zznamef", [ns[0]], [ns[1], ns[3]]),
                Free("zznameg", [], [])]
        g = MethodGraph()
        for at, k in enumerate(list(pre) + list(rest)):
            op = MET_OPS[k]
            try:
                if op[0] == "clear":
                    g.clear()
                elif op[0] in ("av", "rv"):
                    (g.add_variable if op[0] == "av" else g.rem_variable)(ns[op[1]])
                else:
                    (g.add_method if op[0] == "am" else g.rem_method)(mets[op[1]])
            except Exception:          # noqa: BLE001 - C05 and C06
                pass
            if sparse and at not in (len(pre) - 1, len(pre) + more - 1):
                continue
            graph_text(g, list(g.variables()), list(g.methods()), "method graph after {0}".format([MET_OPS[i] for i in list(pre) + list(rest)]))
            ctx.step()
        ctx.state()
    ctx.trace()


def graph_text(g, variables, parts, what):
    want = [w for v in variables for w in WORD.findall(str(v))] + [w for p in parts for w in WORD.findall(str(p))]
    shows(g, want, what)
    s = str(g)
    for p in parts:
        expect(s.count(str(p)) == sum(str(q).count(str(p)) for q in parts), "the text of the {0} does not show {1} once: {2!r}", what, p, s)
    for v in set(variables):
        own = WORD.findall(str(v))[0]
        inside = sum(WORD.findall(str(p)).count(own) for p in parts)
        expect(WORD.findall(s).count(own) == inside + 1, "the text of the {0} lists variable {1} {2} times: {3!r}", what, v, WORD.findall(s).count(own) - inside, s)


class Sel(SelectionConstraint):
    def satisfied(self, mapping):
        return True


def zzfunone(*args):
    return True


def zzfuntwo(*args):
    return False


CON_OPS = [["av", 0], ["av", 3], ["rv", 0], ["rv", 1], ["rv", 3]] + [[o, k] for o in ("ac", "rc") for k in range(5)]


def cg_items(tier):
    for style in range(4):
        for pre in itertools.product(range(len(CON_OPS)), repeat=1 if tier == "quick" else 2):
            yield [style, list(pre), 2]


def cg_run(item, ctx):
    style, pre, more = item
    ns = [name(k, style) for k in range(4)]
    for rest, sparse in itertools.product(itertools.product(range(len(CON_OPS)), repeat=more), (False, True)):
        cons = [PlusConstraint(ns[0], ns[1], ns[2]), FunctionConstraint(zzfunone, [ns[3], ns[1]]), NotClockwiseConstraint(ns[0], ns[1], ns[2]), Sel("zznamesel", [ns[2]]),
                NotAcuteConstraint(ns[1], ns[2], ns[3])]
        g = ConstraintGraph()
        for at, k in enumerate(list(pre) + list(rest)):
            op = CON_OPS[k]
            {"av": g.add_variable, "rv": g.rem_variable, "ac": g.add_constraint, "rc": g.rem_constraint}[op[0]](ns[op[1]] if op[0][1] == "v" else cons[op[1]])
            if sparse and at not in (len(pre) - 1, len(pre) + more - 1):
                continue
            graph_text(g, list(g.variables()), list(g.constraints()), "constraint graph after {0}".format([CON_OPS[i] for i in list(pre) + list(rest)]))
            ctx.step()
        ctx.state()
    ctx.trace()


def con_items(tier):
    for style in range(4):
        yield [style, 5 if tier == "quick" else 7]


def con_run(item, ctx):
    style, n = item
    ns = [name(k, style) for k in range(n)]
    d = Distinct("constraints")
    for t in itertools.product(range(n), repeat=3):
        w = [WORDS[k] for k in t]
        for cls in (PlusConstraint, NotClockwiseConstraint, NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint):
            c = cls(*[ns[k] for k in t])
            shows(c, w, "{0}{1}".format(cls.__name__, t), w)
            d.add(str(c), (cls.__name__, t))
            ctx.step()
        ctx.state()
    for r in range(0, 5):
        for t in itertools.product(range(n), repeat=r) if r < 4 else itertools.permutations(range(n), r):
            w = [WORDS[k] for k in t]
            for f in (zzfunone, zzfuntwo):
                for label in ("zznamex", "zznamey"):
                    c = FunctionConstraint(f, [ns[k] for k in t], name=label)
                    shows(c, w + [f.__name__, label], "FunctionConstraint {0}{1} of {2}".format(label, t, f.__name__), [label] + w)
                    d.add(str(c), ("F", label, f.__name__, t))
                    ctx.step()
            for label in ("zznamex", "zznamey"):
                c = Sel(label, [ns[k] for k in t])
                shows(c, w + [label], "SelectionConstraint {0}{1}".format(label, t), [label] + w)
                ctx.step()
    ctx.trace()


# --------------------------------------------------------------------------- relations and clusters

def rel_items(tier):
    for style in range(4):
        yield [style, 6 if tier == "quick" else 9]


def rel_run(item, ctx):
    style, n = item
    ns = [name(k, style) for k in range(n)]
    d = Distinct("relations")
    for t in itertools.product(range(n), repeat=2):
        r = Distance(ns[t[0]], ns[t[1]])
        shows(r, [WORDS[k] for k in t], "Distance{0}".format(t), [WORDS[k] for k in t])
        expect("Distance" in str(r), "the text of a Distance does not say so: {0!r}", str(r))
        d.add(str(r), t)
        ctx.step()
    for t in itertools.product(range(n), repeat=3):
        r = Angle(*[ns[k] for k in t])
        shows(r, [WORDS[k] for k in t], "Angle{0}".format(t), [WORDS[k] for k in t])
        expect("Angle" in str(r), "the text of an Angle does not say so: {0!r}", str(r))
        d.add(str(r), t)
        ctx.step()
        ctx.state()
    ctx.trace()


def clu_items(tier):
    for style in range(4):
        yield [style, 6 if tier == "quick" else 9]


def clu_run(item, ctx):
    style, n = item
    ns = [name(k, style) for k in range(n)]
    for size in range(1, n + 1):
        for vs in itertools.combinations(range(n), size):
            cs = [("Rigid", Rigid([ns[k] for k in vs]), None)]
            if size >= 3:
                cs.append(("Balloon", Balloon([ns[k] for k in vs]), None))
                cs += [("Hedgehog", Hedgehog(ns[c], [ns[k] for k in vs if k != c]), c) for c in vs]
            for kind, c, centre in cs:
                what = "{0} of {1}".format(kind, vs)
                texts = []
                for mark in (None, True, False, True):
                    if mark is not None:
                        c.overconstrained = mark
                    got = words(c, what)
                    expect(sorted(got) == sorted(WORDS[k] for k in vs), "the text of {0} names {1}: {2!r}", what, got, str(c))
                    expect(kind in str(c), "the text of {0} does not say what it is: {1!r}", what, str(c))
                    if centre is not None:
                        expect(got[0] == WORDS[centre], "the text of a hedgehog does not name its centre {0} first: {1!r}", WORDS[centre], str(c))
                    texts.append(str(c))
                    ctx.step()
                expect(texts[0] == texts[2] and texts[1] == texts[3] and texts[0] != texts[1], "the text of {0} does not show whether it is overconstrained: {1}", what, texts)
                # with a variable more, and without it again
                for more in (True, False):
                    for held in (c.vars, getattr(c, "x_vars", c.vars)):
                        (held.add if more else held.discard)("zzlater")
                    got = words(c, what)
                    expect(sorted(got) == sorted([WORDS[k] for k in vs] + ["zzlater"] * more), "the text of {0} {1} a further variable names {2}: {3!r}", what,
                           "after adding" if more else "after removing", got, str(c))
                    ctx.step()
                ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- vectors, matrices, configurations

COORDS = [0, 1, -1, 2.5, -0.125, 0.001, -0.002, 999.999, 123456, -1e6, 3.1416, 0.0004, 10, -10.01, 123456789.125, -4e15, 7.0005]


def near(text, xs, what, tol=0.000501):
    got = [float(s) for s in NUMBER.findall(text)]
    expect(len(got) == len(xs) and all(abs(a - b) <= tol for a, b in zip(got, xs)), "the text of {0} shows the numbers {1}, expected {2}: {3!r}", what, got, list(xs), text)


def vec_items(tier):
    for i in range(len(COORDS)):
        yield i


def vec_run(i, ctx):
    for y in COORDS:
        x = COORDS[i]
        v = Vector(x, y)
        for o, want in ((v, [x, y]), (Vector(v), [x, y]), (-v, [-x, -y]), (v + Vector(1, 2), [x + 1, y + 2])):
            near(both(o, "a vector"), want, "vector {0}".format(tuple(want)))
            near(repr(o), want, "vector {0} (repr)".format(tuple(want)))
            ctx.step()
        v.x, v.y = y, x
        near(str(v), [y, x], "vector {0} after its coordinates were set".format((y, x)))
        for rows in ([[x, y], [y, x]], [[x], [y], [1]], [[x, y, 7]], [[x]], [[1, x, 2], [3, y, 4], [5, 6, 7]]):
            for k in range(2):
                m = Matrix([[float(e) if k else e for e in row] for row in rows])
                flat = [e for row in rows for e in row]
                near(both(m, "a matrix"), flat, "matrix {0}".format(rows), 1e-9)
                lines = str(m).split("\n")
                expect(len(lines) == len(rows) and all(len(NUMBER.findall(a)) == len(b) for a, b in zip(lines, rows)), "the text of matrix {0} does not show its rows: {1!r}", rows, str(m))
                m.elements = [[e + 1 for e in row] for row in m.elements]
                near(str(m), [e + 1 for e in flat], "matrix {0} after its elements were set".format(rows), 1e-9)
                ctx.step()
        ctx.state()
    ctx.trace()


def conf_items(tier):
    for style in range(4):
        for n in range(0, 6):
            yield [style, n, 24 if tier == "quick" else 120]


def conf_show(c, want, what):
    s = both(c, what)
    expect(repr(c) == s, "{0}: repr and text differ: {1!r}, {2!r}", what, repr(c), s)
    got = {}
    parts = re.split("(" + WORD.pattern + ")", s)
    for w, rest in zip(parts[1::2], parts[2::2]):
        expect(w not in got, "the text of {0} names {1} twice: {2!r}", what, w, s)
        got[w] = [float(t) for t in NUMBER.findall(rest)]
    expect(set(got) == set(want), "the text of {0} names {1}, expected {2}: {3!r}", what, sorted(got), sorted(want), s)
    for w, (x, y) in want.items():
        expect(len(got[w]) == 2 and abs(got[w][0] - x) <= 0.000501 and abs(got[w][1] - y) <= 0.000501, "the text of {0} shows {1} at {2}, it is at {3}: {4!r}", what, w, got[w], (x, y), s)


def conf_run(item, ctx):
    style, n, most = item
    ns = [name(k, style) for k in range(12)]
    for perm in itertools.islice(itertools.permutations(range(n)), most):
        for shift in range(len(COORDS)):
            pts = {k: (COORDS[(k + shift) % len(COORDS)], COORDS[(2 * k + shift + 3) % len(COORDS)]) for k in perm}
            c = Configuration({ns[k]: Vector(*pts[k]) for k in perm})
            what = "a configuration of {0}".format(pts)
            conf_show(c, {WORDS[k]: p for k, p in pts.items()}, what)
            conf_show(c.copy(), {WORDS[k]: p for k, p in pts.items()}, "a copy of " + what)
            if n:
                sel = perm[:(shift % n) + 1]
                conf_show(c.select([ns[k] for k in sel]), {WORDS[k]: pts[k] for k in sel}, "a selection of {0} from {1}".format(sel, what))
                more = c.add(Configuration({ns[8]: Vector(3, shift), ns[perm[0]]: Vector(50, 50)}))
                conf_show(more, dict({WORDS[k]: p for k, p in pts.items()}, **{WORDS[8]: (3, shift)}), "a point more than " + what)
                moved = c.transform(Matrix([[0.0, -1.0, 2.0], [1.0, 0.0, -3.0], [0.0, 0.0, 1.0]]))
                conf_show(moved, {WORDS[k]: (2 - p[1], p[0] - 3) for k, p in pts.items()}, "a quarter turn of " + what)
                conf_show(c.merge(Configuration({ns[perm[0]]: Vector(9, 9)}))[0], {WORDS[k]: p for k, p in pts.items()}, "a merge with " + what)
                conf_show(c, {WORDS[k]: p for k, p in pts.items()}, what + " after use")
            ctx.step(7)
            ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- many of everything

def word(k):
    return "zz" + "".join(chr(97 + k // 26 ** i % 26) for i in range(4))


def wide_items(tier):
    for n in (6, 7, 9, 11, 17, 26, 33, 51, 65, 101, 130) + ((300, 520, 1030) if tier == "thorough" else (260,)):
        for part in range(6):
            yield [n, part]


def wide_run(item, ctx):
    n, part = item
    ns = [word(k) for k in range(n)]
    what = "of {0} variables".format(n)
    if part == 0:
        for step in (1, 2, n - 1):
            g = Graph()
            for k in range(0, n, 3):
                g.add_vertex(ns[k])
            es = {(ns[k], ns[k * step % n]): word(1000 + k) for k in range(0, n - 2)}
            for (a, b), v in es.items():
                g.add_edge(a, b, v)
            shows(g, list(g.vertices()) + list(es.values()), "a graph " + what)
            star = Graph()
            for k in range(1, n):
                star.add_edge(ns[0], ns[k], word(2000 + k))
            shows(star, ns + [word(2000 + k) for k in range(1, n)], "a star " + what)
    elif part == 1:
        m = Free("zznamea", ns[:n // 2], ns[n // 2:])
        shows(m, ["zznamea"] + ns, "a method " + what, ["zznamea"] + ns)
        m = FreeMulti("zznamea", ns, [MultiVariable("zzmulti")])
        shows(m, ["zznamea", "zzmulti"] + ns, "a multi-method " + what, ["zznamea"] + ns + ["zzmulti"])
        m = SetMethod("zzname", ns)
        shows(m, ["zzname"] + ns, "a set method with a long value")
        long = "zz" + "x" * n
        shows(AssignMethod(long, "zzname"), [long, "zzname"], "an assignment with a long name")
        shows(MultiVariable(long), [long], "a multi-variable with a long name")
    elif part == 2:
        g = MethodGraph()
        for k in range(1, n):
            g.add_method(AssignMethod(ns[k], ns[k - 1]) if k % 3 else SetMethod(ns[k], word(1000 + k)), False)
            if n < 70 or k == n - 1:
                graph_text(g, list(g.variables()), list(g.methods()), "method graph " + what)
    elif part == 3:
        g = ConstraintGraph()
        for k in range(2, n):
            g.add_constraint([PlusConstraint, NotClockwiseConstraint, NotObtuseConstraint][k % 3](ns[k - 2], ns[k - 1], ns[k]))
            if n < 70 or k == n - 1:
                graph_text(g, list(g.variables()), list(g.constraints()), "constraint graph " + what)
        c = FunctionConstraint(zzfunone, ns, name="zznamex")
        shows(c, ["zznamex", "zzfunone"] + ns, "a function constraint " + what, ["zznamex"] + ns)
    elif part == 4:
        for c in (Rigid(ns), Balloon(ns), Hedgehog(ns[-1], ns[:-1])):
            expect(sorted(words(c, "cluster")) == sorted(ns), "the text of a {0} {1} is {2!r}", type(c).__name__, what, str(c))
        for d in (2, 3, 7):
            rows = [[d * i + j + 0.5 for j in range(d)] for i in range(n)]
            for r in (rows, list(map(list, zip(*rows)))):
                near(str(Matrix(r)), [e for row in r for e in row], "a large matrix", 1e-9)
                expect(str(Matrix(r)).count("\n") == len(r) - 1, "the text of a large matrix has other rows: {0!r}", str(Matrix(r)))
    else:
        pts = {ns[k]: (k * 1.25 - 3, 1000 - k) for k in range(n)}
        c = Configuration({k: Vector(*p) for k, p in pts.items()})
        conf_show(c, pts, "a configuration " + what)
        conf_show(c.copy().add(Configuration({"zzlast": Vector(1, 2)})), dict(pts, zzlast=(1, 2)), "a larger configuration " + what)
    ctx.step()
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- equal texts

def twin_items(tier):
    for n in range(2, 7 if tier == "quick" else 13):
        for others in range(0, 4):
            yield [n, others]


def twin_run(item, ctx):
    """Different things that have one text are shown as often as there are."""
    n, k = item
    vs = [Named("zztwin") for _ in range(n)] + [Named(WORDS[i]) for i in range(k)]
    own = Named("zzown")

    def times(o, word, want, what):
        got = words(o, what).count(word)
        expect(got == want, "{0} of {1} things of one text and {2} others shows {3} of them: {4!r}", what, n, k, got, str(o))
        ctx.step()

    for order in (vs, vs[::-1]):
        g, c = MethodGraph(), ConstraintGraph()
        for v in order:
            g.add_variable(v)
            c.add_variable(v)
        times(g, "zztwin", n, "a method graph")
        times(c, "zztwin", n, "a constraint graph")
        g, c = MethodGraph(), ConstraintGraph()
        for i, v in enumerate(order):
            g.add_method(Free("zzname" if v in vs[:n] else WORDS[i], [own], []), False)
            c.add_constraint(FunctionConstraint(zzfunone, [own], name="zzname") if v in vs[:n] else Sel(WORDS[i], [own]))
        times(g, "zzname", n, "a method graph")
        times(c, "zzname", n, "a constraint graph")
        times(g, "zzown", n + k + 1, "a method graph")
        times(c, "zzown", n + k + 1, "a constraint graph")
        for m in [m for m in g.methods() if m.name == "zzname"][1:]:
            g.rem_method(m)
        for m in [m for m in c.constraints() if m.name == "zzname"][1:]:
            c.rem_constraint(m)
        times(g, "zzname", 1, "what is left of a method graph")
        times(c, "zzname", 1, "what is left of a constraint graph")
        times(Free("zzname", order, []), "zztwin", n, "a method's input list")
        times(Free("zzname", [own], order), "zztwin", n, "a method's output list")
        times(FunctionConstraint(zzfunone, order), "zztwin", n, "a function constraint")
        times(Sel("zzname", order), "zztwin", n, "a selection constraint")
        times(Rigid(order), "zztwin", n, "a rigid")
        times(Hedgehog(own, order), "zztwin", n, "a hedgehog")
        times(Hedgehog(vs[0], order), "zztwin", n, "a hedgehog") if n + k > 2 else None
        times(Balloon(order + [own]), "zztwin", n, "a balloon")
        times(Configuration({v: Vector(i, 2 * i) for i, v in enumerate(order)}), "zztwin", n, "a configuration")
        times(Configuration({v: Vector(1, 2) for v in order}), "zztwin", n, "a configuration of one point")
        g = Graph()
        for v in order:
            g.add_edge(own, v, "zzvalue")
        times(g, "zzvalue", n + k, "a graph")
    times(Distance(*vs[:2]), "zztwin", 2, "a distance")
    times(Angle(vs[0], own, vs[1]), "zztwin", 2, "an angle")
    ctx.state()
    ctx.trace()


CHECKS = {
    "C24": {"rule": "the words (distinctive names) and numbers found in each text must be exactly those of the object's content, in its order where it has one; all objects of one enumeration with different content must have different texts",
            "assumptions": ["variables, values and names have texts that are words, distinct ones except in twins", "the format is not judged"],
            "harnesses": [
                fn_harness("graphs", "all graphs on up to 3 vertices with 2..3 edge values (quick: one self-loop at 3 vertices), three kinds of names", graph_items, graph_run),
                fn_harness("graph-edits", "all sequences of 4 (5) of 11 edits on 2 vertices, text asked after each", edit_items, edit_run),
                fn_harness("methods", "all input tuples and output selections of 4 variables up to 3 (4) each, four kinds of names", method_items, method_run),
                fn_harness("supplied-methods", "all triples of 5 (8) variables, 16 values", supplied_items, supplied_run),
                fn_harness("method-graphs", "all sequences of 3 (4) of 18 operations with 6 methods", mg_items, mg_run),
                fn_harness("constraints", "all variable tuples up to length 3 (and 4 without repetition) of 5 (7) names", con_items, con_run),
                fn_harness("constraint-graphs", "all sequences of 3 (4) of 15 operations with 5 constraints", cg_items, cg_run),
                fn_harness("relations", "all pairs and triples of 6 (9) points", rel_items, rel_run),
                fn_harness("clusters", "all clusters over 6 (9) variables, marked and not", clu_items, clu_run),
                fn_harness("vectors-matrices", "all pairs of 17 numbers x 5 shapes, before and after changes", vec_items, vec_run),
                fn_harness("twins", "2..6 (12) variables, methods or constraints that have one text among 0..3 others, in every kind of object", twin_items, twin_run),
                fn_harness("wide", "graphs, methods, method and constraint graphs, clusters, matrices, configurations with 6..260 (1030) variables", wide_items, wide_run),
                fn_harness("configurations", "up to 5 points x 24 (120) orders x 17 placements, and everything derived from them", conf_items, conf_run),
            ]},
}
