"""C04-C08: method graphs and methods."""
import copy
import itertools
import operator

import numpy as np

import core
from core import expect, raises, fn_harness, BFS, System, Violation

from solver.method import (Method, MethodGraph, MethodGraphCycleException, MethodGraphDetermineException,
                           AddMethod, SubMethod, SetMethod, AssignMethod, MultiMethod, MultiVariable, SumProdMethod)
from solver.geometry import Vector
from solver.geometric.configuration import Configuration

V = core.Names(["aa", 0, None, -1, -2, "", "0", ("t", 1), core.Name(1), core.Name(2), "e", "f", "g", "h", "i", "j", "k", 1.5, frozenset(), "l", "m",
                "n", "o", "p", "q", "r", "s", "t", "u", "v", "w"])
ABSENT = "no such variable"
BAD, HALF = -555, -777        # inputs for which a method yields nothing / only its first output


class Boom(Exception):
    pass


class Ctl:
    """Execution log and fault switch shared by the methods of one system."""

    def __init__(self):
        self.log = []
        self.given = []
        self.fault = None          # index of the execution that fails
        self.exc = Boom
        self.fired = False

    def arm(self, at, exc=Boom):
        self.log.clear()
        self.fault, self.exc, self.fired = at, exc, False


def term(i, k, vals):
    return hash((i, k) + tuple(vals)) % 1000003 + 1


class Term(Method):
    """Outputs are distinct codes of (method, output, input values)."""

    def __init__(self, i, inputs, outputs, ctl, kind="plain"):
        # any collection will do, and it stays the caller's
        given = [(list(inputs), list(outputs)), (tuple(inputs), tuple(outputs)), (iter(list(inputs)), iter(list(outputs)))][i % 3]
        super().__init__("m{0}".format(i), *given)
        if i % 3 == 0:
            given[0].append("later")
            given[1].insert(0, "later")
        self.i, self.ctl, self.kind, self.kept = i, ctl, kind, {}

    def result(self, get):
        vals = [get(v) for v in self.inputs]
        if any(v is None for v in vals) or BAD in vals:
            return {}
        outs = self.outputs[:1] if HALF in vals else self.outputs
        return {o: term(self.i, k, vals) for k, o in enumerate(outs)}

    def execute(self, inmap):
        n = len(self.ctl.log)
        self.ctl.log.append(self.i)
        if self.ctl.fault is not None and n == self.ctl.fault:
            self.ctl.fired = True
            raise self.ctl.exc("planned failure")
        return self.result(lambda v: inmap[v]) if self.kind == "plain" else self.unusual(inmap)

    def unusual(self, inmap):
        """Methods as users may write them; none of this changes what the method yields for given inputs."""
        kind, none = self.kind, any(inmap[v] is None for v in self.inputs)
        if kind == "fussy" and none:
            raise ValueError("m{0} ran although an input is None".format(self.i))
        out = self.result(lambda v: inmap[v])
        if kind == "eager" and none:
            return {o: -1 for o in self.outputs}
        if kind == "previous":
            for o in self.outputs:
                if inmap[o] != self.ctl.mg.get(o):
                    raise ValueError("m{0} sees {1!r} as the previous value of {2!r}".format(self.i, inmap[o], o))
        elif kind == "nested":
            # works with a method graph of its own
            if not self.kept:
                self.kept["graph"] = g = MethodGraph()
                for x in V[:2]:
                    g.add_variable(x)
                g.add_method(AddMethod(V[0], V[1], V[2]))
                g.add_method(AssignMethod(V[3], V[2]))
            g = self.kept["graph"]
            n = len(self.ctl.log)
            g.set(V[0], n, False)
            g.set(V[1], self.i)
            if g.get(V[3]) != n + self.i:
                raise ValueError("m{0} gets {1!r} from its own graph, expected {2!r}".format(self.i, g.get(V[3]), n + self.i))
            if out != self.result(lambda v: inmap[v]):
                raise ValueError("the inputs of m{0} changed while it used another graph".format(self.i))
        elif kind == "keeps":
            # keeps what it was given and alters it later
            for old in self.ctl.given:
                old.clear()
            self.ctl.given.append(inmap)
            if out != self.result(lambda v: inmap[v]):
                raise ValueError("the inputs of m{0} are maps it was given before".format(self.i))
        elif kind == "scribbles":
            for v in list(inmap):
                inmap[v] = -2
            inmap.update({v: -3 for v in V[:6]})
            if self.i % 2:
                inmap.clear()
        elif kind == "more":
            out = {**{v: -4 for v in V[:6] if v not in self.outputs}, **out}
        elif kind == "same dict":
            self.kept.clear()
            self.kept.update(out)
            return self.kept
        elif kind == "None":
            out = {o: out.get(o) for o in self.outputs}
        return out


UNUSUAL = ["fussy", "eager", "previous", "scribbles", "more", "same dict", "None", "nested", "keeps"]


class MGSys(System):
    """A real MethodGraph and its model."""

    def __init__(self, menu, pre=()):
        self.ctl = Ctl()
        self.menu = [Term(i, [V[x] for x in ins], [V[x] for x in outs], self.ctl, *kind) for i, (ins, outs, *kind) in enumerate(menu)]
        self.names = {id(m): "m{0}".format(m.i) for m in self.menu}
        self.mg = self.ctl.mg = MethodGraph()
        self.vals = {}            # expected value of every variable
        self.meths = {}           # methods in the graph, in order
        self.over = {}            # determined variables set by hand -> (value, inputs then)
        self.dirty = False
        self.turn = 0             # the form of the next call: arguments by position or by name
        for op in pre:
            self.apply(op)

    # -- model
    def det(self):
        return {o: m for m in self.meths.values() for o in m.outputs}

    def reach(self, extra=None):
        ms = list(self.meths.values()) + ([extra] if extra else [])
        r = {}
        for m in ms:
            for i in m.inputs:
                r.setdefault(i, set()).update(m.outputs)
        ks = set(r)
        for k in ks:
            for x in r.values():
                if k in x:
                    x |= r[k]
        return r

    def topo(self):
        det = self.det()
        done, order = set(), []

        def visit(m):
            if m.i in done:
                return
            done.add(m.i)
            for i in m.inputs:
                if i in det:
                    visit(det[i])
            order.append(m)
        for m in self.meths.values():
            visit(m)
        return order

    def settle(self):
        """Expected values once everything is propagated (adopting the value of hand-set outputs where both are right)."""
        for m in self.topo():
            res = m.result(self.vals.__getitem__)
            ins = [self.vals[i] for i in m.inputs]
            for o in m.outputs:
                want = res.get(o)
                if o in self.over:
                    val, then = self.over[o]
                    got = self.mg.get(o)
                    if then == ins and got == val:
                        self.vals[o] = val
                        continue
                    if got == want:
                        del self.over[o]
                self.vals[o] = want
        self.dirty = False

    # -- operations
    def enabled(self, op):
        return True

    def executed_ok(self, also=None):
        bad = [i for i in self.ctl.log if i not in self.meths and i != also]
        self.ctl.log.clear()
        expect(not bad, "method m{0} ran although it is not in the graph", bad[0] if bad else None)

    def must_raise(self, what, f, *a):
        expect(raises(f, *a) is not None, "{0} of something that is not in the graph does not raise", what)

    def apply(self, op):
        mg, k = self.mg, op[0]
        also = None
        self.ctl.log.clear()
        if k == "var":
            v = V[op[1]]
            mg.add_variable(v, *op[2:3])
            self.vals.setdefault(v, op[2] if len(op) > 2 else None)
        elif k == "set":
            v, val, prop = V[op[1]], op[2], op[3]
            if v not in self.vals:
                self.must_raise("set", mg.set, v, val, prop)
            else:
                self.turn += 1
                if prop and op[2] == 1:
                    mg.set(v, val)
                elif self.turn % 2:
                    mg.set(v, val, prop=prop)
                else:
                    mg.set(v, val, prop)
                m = self.det().get(v)
                self.vals[v] = val
                if m is not None:
                    self.over[v] = (val, [self.vals[i] for i in m.inputs])
                if prop:
                    clean = not self.dirty
                    self.settle()
                    if m is not None and clean:
                        expect(mg.get(v) == val, "set({0!r}, {1!r}) did not set the variable: {2!r}", v, val, mg.get(v))
                else:
                    self.dirty = True
        elif k == "add":
            m, prop = self.menu[op[1]], op[2]
            also = self.add(m, prop)
        elif k == "remm":
            m = self.menu[op[1]]
            if m.i in self.meths:
                mg.rem_method(m)
                self.drop(m)
            else:
                self.must_raise("rem_method", mg.rem_method, m)
        elif k == "remv":
            v = V[op[1]]
            if v in self.vals:
                mg.rem_variable(v)
                for m in [m for m in self.meths.values() if v in m.inputs or v in m.outputs]:
                    self.drop(m)
                del self.vals[v]
                self.over.pop(v, None)
            else:
                self.must_raise("rem_variable", mg.rem_variable, v)
        elif k == "clear":
            mg.clear()
            self.vals, self.meths, self.over = {}, {}, {}
            self.dirty = False
        elif k == "prop":
            mg.propagate()
            self.settle()
        elif k == "exec":
            m = self.menu[op[1]]
            if m.i in self.meths:
                mg.execute(m)
                for o in m.outputs:
                    self.over.pop(o, None)
                self.settle()
            else:
                self.must_raise("execute", mg.execute, m)
        elif k == "unknown":
            self.must_raise("get", mg.get, ABSENT)
            self.must_raise("set", mg.set, ABSENT, 1)
            self.must_raise("set", mg.set, ABSENT, 1, False)
            self.must_raise("rem_variable", mg.rem_variable, ABSENT)
            for m in self.menu:
                if m.i not in self.meths:
                    self.must_raise("rem_method", mg.rem_method, m)
                    self.must_raise("execute", mg.execute, m)
        else:
            raise AssertionError(op)
        self.executed_ok(also)

    def drop(self, m):
        del self.meths[m.i]
        for o in m.outputs:
            self.over.pop(o, None)

    def add(self, m, prop):
        mg = self.mg
        self.turn += 1
        add = [lambda m: mg.add_method(m, prop), lambda m: mg.add_method(m, prop=prop), mg.add_method][self.turn % (3 if prop else 2)]
        args = [m]
        if m.i in self.meths:
            add(*args)
            return None
        det = self.det()
        conflict = any(o in det for o in m.outputs)
        r = self.reach(m)
        cycle = any(o in r.get(o, ()) for o in m.outputs)
        if conflict or cycle:
            e = raises(add, *args)
            expect(e is not None, "{0} was accepted although it {1}", m, "closes a cycle" if cycle else "determines a determined variable")
            okay = ((MethodGraphDetermineException,) if conflict else ()) + ((MethodGraphCycleException,) if cycle else ())
            expect(isinstance(e, okay), "{0} was refused with {1!r} instead of {2}", m, e, [t.__name__ for t in okay])
            # whether variables named by a refused method for the first time stay is left open
            for v in m.inputs + m.outputs:
                if v not in self.vals and v in mg.variables():
                    self.vals[v] = None
            expect(m.i not in self.ctl.log, "the refused {0} was executed", m)
            return None
        e = raises(add, *args)
        expect(e is None, "{0} was refused with {1!r} although it neither closes a cycle nor determines a determined variable", m, e)
        for v in m.inputs + m.outputs:
            self.vals.setdefault(v, None)
        self.meths[m.i] = m
        if prop:
            self.settle()
        else:
            self.dirty = True
        return None

    def observe(self):
        mg = self.mg
        vs = list(mg.variables())
        expect(len(vs) == len(set(vs)) and set(vs) == set(self.vals), "variables are {0}, expected {1}", vs, list(self.vals))
        ms = list(mg.methods())
        expect({id(m) for m in ms} == {id(m) for m in self.meths.values()} and len(ms) == len(self.meths),
               "methods are {0}, expected {1}", [str(m) for m in ms], [str(m) for m in self.meths.values()])
        for v, want in self.vals.items():
            got = mg.get(v)
            if got != want or type(got) is not type(want):
                m = self.det().get(v)
                raise Violation("value of {0!r} is {1!r}, expected {2!r} ({3}; values {4})".format(
                    v, got, want, "determined by {0}".format(m) if m else "not determined by a method", self.vals))

    def key(self):
        return (repr(list(self.vals.items())), list(self.meths), sorted(map(repr, self.over.items())), self.dirty,
                core.dump(self.mg, self.names, ordered=True))


def play(menu, ops, ctx, observe=True):
    s = MGSys(menu)
    done = []
    try:
        for op in ops:
            done.append(op)
            s.apply(op)
            s.observe()
            ctx.step()
    except Violation as v:
        raise Violation("methods {0}, history {1}: {2}".format(show(menu), done, v))
    except Exception:
        import traceback
        raise Violation("methods {0}, history {1}: unexpected exception\n{2}".format(show(menu), done, traceback.format_exc(limit=-4)))
    ctx.trace()
    return s


def show(menu):
    return ["m{0}: {1}->{2}{3}".format(i, [V[x] for x in a], [V[x] for x in b], "".join(" ({0})".format(k) for k in kind))
            for i, (a, b, *kind) in enumerate(menu)]


# --------------------------------------------------------------------------- wirings

def subsets(xs, lo, hi):
    return [list(c) for k in range(lo, hi + 1) for c in itertools.combinations(xs, k)]


def wirings(n, width=9):
    """All acyclic wirings over v0..v(n-1) (in topological numbering): single-output methods, then those with one
    two-output method."""
    def rec(k):
        if k == n:
            yield []
            return
        for ins in [None] + subsets(range(k), 1, min(k, width)):
            for rest in rec(k + 1):
                yield ([[ins, [k]]] if ins else []) + rest
    for w in rec(1):
        if w:
            yield w
    # one method with two outputs p < q; inputs from variables before p; the others single-output
    for p, q in itertools.combinations(range(1, n), 2):
        for ins in subsets(range(p), 1, 2):
            others = [k for k in range(1, n) if k not in (p, q)]

            def rec2(j):
                if j == len(others):
                    yield []
                    return
                for i2 in [None] + subsets(range(others[j]), 1, 2):
                    for rest in rec2(j + 1):
                        yield ([[i2, [others[j]]]] if i2 else []) + rest
            for w in rec2(0):
                yield [[ins, [p, q]]] + w


def free_vars(menu, n):
    det = {o for m in menu for o in m[1]}
    return [v for v in range(n) if v not in det]


def scripts(menu, n, order):
    """Change scripts for one wiring and method order; every grouping of immediate and deferred changes."""
    free = free_vars(menu, n)
    det = [v for v in range(n) if v not in free]
    k = len(menu)
    init = [["var", v, 100 + v] for v in free]
    adds = [["add", m, True] for m in order]
    # values first, methods added with every combination of immediate / deferred
    for mask in range(1 << k):
        ops = init + [["add", m, bool(mask >> j & 1)] for j, m in enumerate(order)]
        yield ops + [["prop"]] if mask != (1 << k) - 1 else ops
    # methods first, values later, every order of the sources, immediate
    for perm in itertools.permutations(free):
        yield adds + [["var", v] for v in free] + [["set", v, 200 + v, True] for v in perm]
    base = init + adds
    # single changes and every ordered pair, every immediate/deferred grouping
    for v in free:
        yield base + [["set", v, 300, True], ["set", v, 300, True], ["set", v, None, True], ["set", v, 301, True],
                      ["set", v, BAD, True], ["set", v, 0, True], ["set", v, HALF, True], ["set", v, False, True]]
        yield base + [["set", v, 300, False], ["set", v, 301, False], ["prop"], ["prop"]]
    for perm in itertools.permutations(free, min(2, len(free))):
        if len(perm) < 2:
            continue
        for p in ((False, False), (False, True)):
            yield base + [["set", v, 400 + v, x] for v, x in zip(perm, p)] + [["prop"]]
    for perm in itertools.permutations(free, 3):
        yield base + [["set", v, 400 + v, False] for v in perm] + [["prop"]]
    # a deferred change before a method arrives
    for v in free:
        yield init + adds[:-1] + [["set", v, 500, False]] + adds[-1:] + [["set", v, 501, True]]
    # outputs set by hand, then their inputs change
    for d in det:
        yield base + [["set", d, 600, True]] + [["set", free[0], 601, True], ["set", d, 602, False], ["set", free[-1], 603, False], ["prop"]]
        yield base + [["set", d, 604, False], ["prop"], ["exec", order[0]], ["set", free[-1], 605, True]]
    # explicit execution flushes pending changes
    yield base + [["set", free[0], 700, False], ["exec", order[-1]]]


def wire_items(tier):
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for w in wirings(n):
            yield [n, w]


def wire_items5(tier):
    """5 variables, only two sources (every other variable determined): the deep wirings."""
    for w in wirings(5, 2 if tier == "quick" else 9):
        if len(free_vars(w, 5)) <= 2 and len(w) == 3:
            yield [5, w]


def wire_items6(tier):
    if tier == "thorough":
        for w in wirings(6, 2):
            if len(free_vars(w, 6)) == 2 and len(w) == 4:
                yield [6, w]


def wire_run(item, ctx):
    n, menu = item
    for order in itertools.permutations(range(len(menu))):
        for ops in scripts(menu, n, order):
            play(menu, ops, ctx)
    # inputs named in the opposite order
    rev = [[m[0][::-1], m[1][::-1]] + m[2:] for m in menu]
    if rev != menu:
        for ops in scripts(rev, n, tuple(range(len(menu)))):
            play(rev, ops, ctx)
    ctx.state()
    ctx.out("{0} methods on {1} free variables".format(len(menu), len(free_vars(menu, n))))


# methods as users may write them: variables named twice, no inputs, no outputs, unusual treatment of the input map

ODD = [[2, [[[0, 0], [1]]]], [3, [[[0, 0], [1]], [[1, 1, 0], [2]]]], [3, [[[0], [1, 1]], [[1], [2]]]], [2, [[[0], []], [[0], [1]], [[1, 0], []]]],
       [3, [[[], [1]], [[0, 1], [2]]]], [4, [[[], [1, 2]], [[1, 0, 2], [3]], [[3, 3], []]]], [3, [[[], []], [[], [0]], [[0, 1], [2, 2]]]]]


def odd_items(tier):
    for n, menu in ODD:
        yield [n, menu]
        for k in UNUSUAL:
            yield [n, [m + [k] for m in menu]]
    for n in (2, 3, 4):
        for w in wirings(n, 2 if n == 4 else 9):
            if len(w) < 3 or tier == "thorough":
                for kinds in itertools.product(["plain"] + UNUSUAL, repeat=len(w)):
                    if any(k != "plain" for k in kinds):
                        yield [n, [m + [k] for m, k in zip(w, kinds)]]
            else:
                for k in UNUSUAL:
                    yield [n, [m + [k] for m in w]]
                    for i in range(len(w)):
                        yield [n, [m + [k if i == j else "plain"] for j, m in enumerate(w)]]


def odd_run(item, ctx):
    n, menu = item
    free = free_vars(menu, n)
    init = [["var", v, 100 + v] for v in free]
    for order in itertools.permutations(range(len(menu))):
        adds = [["add", m, True] for m in order]
        sets = [["set", v, x + v if x else x, True] for v in free for x in (200, None, 300, BAD, HALF, 400)]
        play(menu, init + adds + sets, ctx)
        play(menu, adds + [["set", v, 500, False] for v in free] + [["prop"]] + [["exec", order[0]]], ctx)
        play(menu, init + [["add", m, False] for m in order] + [["prop"]] + [["set", v, None, False] for v in free] + [["prop"]] + sets[:1], ctx)
        play(menu, init + adds + [["remm", order[0]]] + sets[:3] + [["add", order[0], True]] + sets[:3], ctx)
    ctx.state()
    ctx.out("+".join(sorted(set(m[2] if len(m) > 2 else "plain" for m in menu))))


# larger shapes

def shapes(n):
    yield "chain", [[[i], [i + 1]] for i in range(n - 1)]
    yield "chain with feed", [[[0], [2]]] + [[[i, 1], [i + 1]] for i in range(2, n - 1)]
    yield "fan-out", [[[0], [i]] for i in range(1, n)]
    yield "fan-in", [[list(range(n - 1)), [n - 1]]]
    yield "fibonacci", [[[i, i + 1], [i + 2]] for i in range(n - 2)]
    yield "all before", [[list(range(i)), [i]] for i in range(1, n)]
    yield "outputs", [[[0], list(range(1, n))]]
    yield "diamonds", [x for i in range(0, n - 3, 3) for x in ([[i], [i + 1]], [[i], [i + 2]], [[i + 1, i + 2], [i + 3]])]
    yield "tree", [[[(i - 1) // 2], [i]] for i in range(1, n)]
    yield "skip", [[[i], [i + 2]] for i in range(n - 2)] + [[[0, n - 2, n - 1], [n]]]
    yield "two outputs", [[[i, i + 1], [i + 2, i + 3]] for i in range(0, n - 3, 2)]


def shape_items(tier):
    for n in range(4, 11 if tier == "quick" else 21):
        for name, menu in shapes(n):
            if menu:
                yield [name, n + 1, menu]


def shape_orders(k):
    ids = list(range(k))
    yield ids
    yield ids[::-1]
    yield ids[::2] + ids[1::2]
    yield ids[1::2] + ids[::2]
    for r in range(1, k, max(1, k // 4)):
        yield ids[r:] + ids[:r]


def shape_run(item, ctx):
    name, n, menu = item
    free = free_vars(menu, n)
    for order in shape_orders(len(menu)):
        init = [["var", v, 100 + v] for v in free]
        for addprop in (True, False):
            adds = [["add", m, addprop] for m in order] + [["prop"]]
            some = free[:2] + free[-1:]
            for v in some:
                play(menu, init + adds + [["set", v, 7, True], ["set", v, None, True], ["set", v, 8, True]], ctx)
            play(menu, init + adds + [["set", v, 9, False] for v in free] + [["prop"]], ctx)
            play(menu, init + adds + [["set", v, 9, False] for v in free[::-1]] + [["prop"]], ctx)
            mid = n // 2
            if mid not in free:
                play(menu, init + adds + [["set", mid, 11, True], ["set", free[0], 12, True]], ctx)
        play(menu, [["add", m, True] for m in order] + [["var", v] for v in free] + [["set", v, 5, True] for v in free], ctx)
    ctx.state()
    ctx.out(name)


# two graphs side by side

def merges(a, b):
    if not a or not b:
        yield [(0, x) for x in a] + [(1, x) for x in b]
        return
    for r in merges(a[1:], b):
        yield [(0, a[0])] + r
    for r in merges(a, b[1:]):
        yield [(1, b[0])] + r


def side_items(tier):
    for how in ("own", "shared"):
        for n in (2, 3, 4) if tier == "thorough" else (2, 3):
            for w in wirings(n, 2):
                yield [how, n, w]
        if tier == "quick":
            for w in wirings(4, 2):
                if len(w) == 3 and len(free_vars(w, 4)) == 1:
                    yield [how, 4, w]


def side_play(menu, how, first, second, ctx):
    """One interleaving after another of the histories of two graphs (own method objects, or the same ones in both)."""
    n = 0
    for h in merges(first[1], second[1]):
        a, b = MGSys(menu), MGSys(menu)
        if how == "shared":
            b.menu, b.ctl = a.menu, a.ctl
        both = [a, b]
        failed = [False, False]
        done = []
        try:
            for k, ops in enumerate((first[0], second[0])):
                for op in ops:
                    both[k].apply(op)
            for k, op in h:
                done.append(["first", "second"][k] + " graph: " + str(op))
                s = both[k]
                if op[0] == "fails":
                    s.ctl.arm(op[3])
                    e = raises(s.mg.set, V[op[1]], op[2]) if op[1] is not None else raises(s.mg.propagate)
                    expect(isinstance(e, Boom) if s.ctl.fired else e is None, "got {0!r} from {1}", e, op)
                    s.ctl.arm(None)
                    if op[1] is not None:
                        s.vals[V[op[1]]] = op[2]
                    failed[k] = True
                else:
                    s.apply(op)
                    failed[k] = failed[k] and op[0] != "prop"
                for x in (0, 1):
                    if not failed[x]:
                        both[x].observe()
                ctx.step()
        except Violation as v:
            raise Violation("two graphs ({3} method objects) over {0}, history {1}: {2}".format(show(menu), done, v, how))
        except Exception:
            import traceback
            raise Violation("two graphs over {0}, history {1}: unexpected exception\n{2}".format(show(menu), done, traceback.format_exc(limit=-4)))
        ctx.trace()
        n += 1


def side_run(item, ctx):
    how, n, menu = item
    free = free_vars(menu, n)
    k = len(menu)
    init = [[["var", v, g + v] for v in free] for g in (100, 500)]
    adds = [["add", m, True] for m in range(k)]
    f, l = free[0], free[-1]
    A = [["set", f, 201, False], ["set", l, 202, True], ["prop"]]
    B = [["set", l, 203, False], ["set", f, 204, False], ["prop"]]
    side_play(menu, how, (init[0] + adds, A), (init[1] + adds, B), ctx)
    # one is still being built, is cleared, loses a method or a variable while the other has changes pending
    later = [["add", m, False] for m in range(k)] + [["prop"]]
    side_play(menu, how, (init[0], later), (init[1] + adds, [["set", f, 205, False], ["prop"]]), ctx)
    side_play(menu, how, (init[0] + adds, [["set", f, 206, False], ["clear"], ["var", f, 3], ["add", 0, True]]), (init[1] + adds, B[1:]), ctx)
    for m in range(k):
        side_play(menu, how, (init[0] + adds, [["set", l, 207, False], ["remm", m], ["prop"], ["add", m, True]]), (init[1] + adds, B[1:]), ctx)
    for v in range(n):
        side_play(menu, how, (init[0] + adds, [["remv", v], ["unknown"], ["prop"]]), (init[1] + adds, B[1:] + [["exec", k - 1]]), ctx)
    ctx.state()
    ctx.out("{0} methods, {1}".format(k, how))


def side_fault_run(item, ctx):
    how, n, menu = item
    free = free_vars(menu, n)
    k = len(menu)
    init = [[["var", v, g + v] for v in free] for g in (100, 500)]
    adds = [["add", m, True] for m in range(k)]
    later = [["add", m, False] for m in range(k)]
    for at in range(k):
        side_play(menu, how, (init[0], later + [["fails", None, None, at], ["prop"]]), (init[1] + adds, [["set", free[0], 215, True]]), ctx)
        for v in free:
            side_play(menu, how, (init[0] + adds, [["set", free[-1], 210, False], ["fails", v, 211, at], ["prop"]]),
                      (init[1] + adds, [["set", free[0], 213, False], ["prop"], ["set", free[-1], 214, True]]), ctx)
            side_play(menu, how, (init[0] + adds, [["fails", v, 211, at], ["prop"]]),
                      (init[1] + adds, [["fails", free[-1], 212, 0], ["prop"]]), ctx)
            side_play(menu, how, (init[0] + adds, [["fails", v, 211, at], ["prop"]]), (init[1], adds + [["set", v, 9, True]]), ctx)
    ctx.state()
    ctx.out("{0} methods, {1}".format(k, how))


# BFS over histories

PRE = {
    "diamond": ([[[0, 1], [2]], [[2, 1], [3]], [[0, 2], [4]], [[3], [0]], [[0], [3]]],
                [["var", 0, 1], ["var", 1, 2], ["add", 0, True], ["add", 1, True], ["add", 2, True]]),
    "chain": ([[[0], [1]], [[1], [2]], [[2], [0]], [[0, 1], [2]], [[], [0]]],
              [["var", 0, 1], ["add", 0, True], ["add", 1, True]]),
    "empty": ([[[0, 1], [2]], [[2], [3]], [[1, 2], [3]], [[3], [1]]], []),
    "split": ([[[0], [1, 2]], [[1], [3]], [[2, 3], [4]], [[0, 4], [2]]],
              [["var", 0, 1], ["add", 1, True], ["add", 0, True], ["add", 2, True]]),
}


def bfs_ops(name, vals=(1, 2, None)):
    menu, _ = PRE[name]
    vs = sorted({v for a, b in menu for v in a + b})
    ops = []
    for v in vs:
        for x in vals:
            ops += [["set", v, x, True], ["set", v, x, False]]
    for i in range(len(menu)):
        ops += [["add", i, True], ["add", i, False], ["remm", i], ["exec", i]]
    ops += [["remv", v] for v in vs] + [["var", v, 3] for v in vs] + [["clear"], ["prop"], ["unknown"]]
    return ops


def bfs(name, quick, thorough, vals):
    menu, pre = PRE[name]
    return BFS("bfs-" + name, "all histories of depth {0} ({1} thorough) from a pre-built graph over methods {2}".format(quick, thorough, show(menu)),
               lambda: MGSys(menu, pre), bfs_ops(name, vals), {"quick": quick, "thorough": thorough}, cap_states=3000000)


# --------------------------------------------------------------------------- C05

def full_menu(n, hi_in, hi_out):
    return [[i, o] for i in subsets(range(n), 0, hi_in) for o in subsets(range(n), 1, hi_out)]


def adm_items(tier):
    m = full_menu(4, 2, 2)
    for a in range(len(m)):
        for b in range(len(m)):
            yield [4, 2, 2, a, b]


def adm_run(item, ctx):
    """Two methods, then every third (with one output; any in thorough): admission, refusal without a trace."""
    n, hi, ho, a, b = item
    m = full_menu(n, hi, ho)
    pre = [["var", v, 10 + v] for v in range(n - 1)]
    after = [["set", v, 20 + v, True] for v in range(n - 1)] + [["set", 0, 31, False], ["set", 1, 32, False], ["prop"]]
    play([m[a], m[b]], pre + [["add", 0, True], ["add", 1, True], ["add", 0, True]] + after, ctx)
    play([m[a], m[b]], [["add", 0, False], ["add", 1, False]] + pre + [["set", 2, 5, True], ["prop"]] + after, ctx)
    ctx.state(2)
    if a < b and (a * 7 + b) % (1 if core_tier() == "thorough" else 2) == 0:
        for c in range(len(m)):
            if len(m[c][1]) == 1 or core_tier() == "thorough":
                play([m[a], m[b], m[c]], pre + [["add", 0, True], ["add", 1, True], ["add", 2, True]] + after[:2], ctx)
                ctx.state()


ODD_MENU = [[[0, 0], [1]], [[0], [1, 1]], [[1, 1], [2, 2]], [[0], []], [[], [1]], [[], []], [[2], [0, 1, 3]], [[0, 1, 2], [3, 3]], [[2, 2], [2]], [[1], [2, 1, 2]],
            [[1, 2, 3], [0]], [[], [0, 1, 2, 3]], [[3, 0], []], [[2], [1]]]


def odd_adm_items(tier):
    n = len(ODD_MENU)
    for a in range(n):
        for b in range(n):
            for c in range(n):
                if len({a, b, c}) == 3:
                    yield [a, b, c]


def odd_adm_run(item, ctx):
    """Variables named twice, no inputs, no outputs, many outputs."""
    menu = [ODD_MENU[i] for i in item]
    vs = [["var", v, 10 + v] for v in range(3)]
    sets = [["set", v, 20 + v, True] for v in range(3)] + [["set", 0, 31, False], ["set", 2, 32, False], ["prop"]]
    play(menu, vs + [["add", k, True] for k in (0, 1, 2, 0)] + sets, ctx)
    play(menu, [["add", k, False] for k in (0, 1, 2)] + vs + [["var", 3]] + sets, ctx)
    play(menu, vs + [["add", 0, True], ["add", 1, False], ["remm", 0], ["add", 2, True], ["add", 0, True]] + sets[:2], ctx)
    ctx.state()
    ctx.out("{0} inputs, {1} outputs".format(sum(len(m[0]) for m in menu), sum(len(m[1]) for m in menu)))


_TIER = ["quick"]


def core_tier():
    return _TIER[0]


def with_tier(f):
    def g(tier):
        _TIER[0] = tier
        return f(tier)
    return g


def chain_items(tier):
    """Cycles closed through long chains, in every rotation and order of arrival; and one step short of a cycle."""
    for n in range(2, 8 if tier == "quick" else 14):
        for closing in range(n):
            for rev in (0, 1):
                yield [n, closing, rev]


def chain_run(item, ctx):
    n, closing, rev = item
    menu = [[[i], [(i + 1) % n]] for i in range(n)]
    order = [i for i in range(n) if i != closing]
    order = order[::-1] if rev else order
    pre = [["var", i, 5 + i] for i in range(n)]
    src = (closing + 1) % n
    play(menu, pre + [["add", i, True] for i in order] + [["add", closing, True], ["set", src, 77, True], ["add", closing, False],
                                                         ["set", src, 78, True], ["unknown"]], ctx)
    # two chains joined by one method: refused while it closes, accepted once the chain is broken
    cut = order[len(order) // 2]
    play(menu, pre + [["add", i, True] for i in order] + [["add", closing, True], ["remm", cut], ["add", closing, True],
                                                         ["add", cut, True], ["set", (cut + 1) % n, 79, True]], ctx)
    # multi-output and multi-input closing methods
    for extra in ([[closing], [src, n]], [[closing, n], [src]], [[n], [src, n + 1]]):
        menu2 = menu[:closing] + [extra] + menu[closing + 1:]
        play(menu2, pre + [["var", n, 3]] + [["add", i, True] for i in order] + [["add", closing, True], ["set", src, 77, True], ["set", n, 4, True]], ctx)
    ctx.state()


# --------------------------------------------------------------------------- C06

def rem_items(tier):
    for n, menu in ODD:
        yield [n, menu]
    for n in (2, 3, 4):
        for w in wirings(n):
            yield [n, w]
    for w in wirings(5, 2):
        if len(w) == 3 and (tier == "thorough" or len(free_vars(w, 5)) == 2):
            yield [5, w]


def rem_run(item, ctx):
    n, menu = item
    k = len(menu)
    free = free_vars(menu, n)
    det = [v for v in range(n) if v not in free]
    orders = [tuple(range(k)), tuple(range(k))[::-1]]
    menu = [m[:2] for m in menu]
    # a spare method for every output: may determine it again after removal
    full = menu + [[[n], [d]] for d in det] + [[[det[0]], [n + 1]]]
    base = [["var", v, 100 + v] for v in free] + [["var", n, 50]]
    for order in orders:
        adds = [["add", m, True] for m in order]
        sets = [["set", v, 200 + v, True] for v in free]
        sets2 = [["set", v, 300 + v, False] for v in free] + [["prop"]]
        for pend in ([], [["set", free[0], 150, False]], [["set", det[0], 151, False]]):
            for m in order:
                spare = [["add", k + j, True] for j in range(len(det))]
                play(full, base + adds + pend + [["remm", m]] + [["prop"]] + sets + spare + sets2, ctx)
                play(full, base + adds + pend + [["remm", m], ["add", m, True]] + sets + [["remm", m], ["add", m, False]] + sets2, ctx)
                for m2 in order:
                    if m2 != m:
                        play(full, base + adds + pend + [["remm", m], ["remm", m2], ["add", m, True]] + sets, ctx)
            for v in range(n):
                play(full, base + adds + pend + [["remv", v], ["prop"], ["unknown"]] + sets + [["var", v, 60]] + sets2
                     + [["add", m, True] for m in order] + sets, ctx)
                for v2 in range(n):
                    if v2 != v:
                        play(full, base + adds + pend + [["remv", v], ["remv", v2], ["prop"], ["add", k, True], ["set", n, 51, True]], ctx)
            play(full, base + adds + pend + [["clear"], ["prop"], ["unknown"], ["clear"]] + base + adds + sets, ctx)
            # removals while no variable has a value
            for m in order:
                play(full, adds + [["remm", m]] + base + sets + [["add", m, True]] + sets2, ctx)
            # a method that has not run yet is removed
            play(full, base + adds[:-1] + [["add", order[-1], False]] + pend + [["remm", order[-1]], ["prop"]] + sets, ctx)
            play(full, base + adds[:-1] + [["add", order[-1], False]] + pend + [["remv", (menu[order[-1]][0] or free)[0]], ["prop"]] + sets, ctx)
            play(full, base + [["add", m, False] for m in order] + pend + [["clear"]] + base + [["prop"]] + adds + sets, ctx)
    ctx.state()


def remshape_items(tier):
    for n in range(4, 9 if tier == "quick" else 14):
        for name, menu in shapes(n):
            if menu:
                yield [name, n + 1, menu]


def remshape_run(item, ctx):
    name, n, menu = item
    free = free_vars(menu, n)
    base = [["var", v, 100 + v] for v in free]
    adds = [["add", m, True] for m in range(len(menu))]
    sets = [["set", v, 200 + v, True] for v in free[:2]] + [["set", v, 300 + v, False] for v in free] + [["prop"]]
    for m in range(len(menu)):
        play(menu, base + adds + [["remm", m]] + sets + [["add", m, True]] + sets, ctx)
    for v in range(n):
        play(menu, base + adds + [["remv", v]] + sets + [["var", v, 4]] + adds + sets, ctx)
    for m in range(len(menu)):
        play(menu, adds + [["remm", m]] + base + sets + [["add", m, True]] + sets, ctx)
    for v in range(n):
        play(menu, adds + [["remv", v]] + base + sets + [["var", v, 4]] + adds + sets, ctx)
    play(menu, base + adds + [["remv", v] for v in range(n)] + base + adds + sets, ctx)
    play(menu, base + adds + [["remm", m] for m in range(len(menu))] + sets + adds[::-1] + sets, ctx)
    play(menu, base + adds + [["clear"]] + base + adds[::-1] + sets, ctx)
    ctx.state()
    ctx.out(name)


class EqualTerm(Term):
    """Methods that are equal without being the same object."""

    def __eq__(self, other):
        return isinstance(other, EqualTerm) and self.i == other.i

    def __hash__(self):
        return hash(self.i % 2)


def equal_items(tier):
    for n in (2, 3, 4):
        for w in wirings(n, 2 if n == 4 else 9):
            yield [n, w]


def equal_run(item, ctx):
    """Adding, executing and removing by an equal method; a refused equal of a present method is simply present."""
    n, menu = item
    free = free_vars(menu, n)
    for order in itertools.permutations(range(len(menu))):
        for prop in (True, False):
            ctl = Ctl()
            twins = [[EqualTerm(i, [V[x] for x in ins], [V[x] for x in outs], ctl) for i, (ins, outs) in enumerate(menu)] for _ in range(2)]
            mg = MethodGraph()
            vals = {V[v]: 100 + v for v in free}
            for v in free:
                mg.add_variable(V[v], 100 + v)

            def check(live, what):
                for m in live * len(live):
                    res = m.result(vals.__getitem__)
                    vals.update({o: res.get(o) for o in m.outputs})
                got = list(mg.methods())
                expect(len(got) == len(live) and set(got) == set(live), "{0}: methods are {1}, expected {2}", what, got, live)
                expect(set(mg.variables()) == set(vals), "{0}: variables are {1}", what, list(mg.variables()))
                for v, want in vals.items():
                    expect(mg.get(v) == want, "{0}: methods {1}: {2!r} is {3!r}, expected {4!r}", what, show(menu), v, mg.get(v), want)
                ctx.step()
            live = []
            for m in order:
                mg.add_method(twins[0][m], prop)
                live.append(twins[0][m])
                for v in twins[0][m].inputs + twins[0][m].outputs:
                    vals.setdefault(v, None)
            mg.propagate()
            check(live, "added")
            for m in order:
                mg.add_method(twins[1][m], prop)
                check(live, "an equal method added")
                # overwritten outputs stay as they are: nothing has changed
                ends = [o for o in twins[0][m].outputs if not any(o in t.inputs for t in twins[0])]
                keep = {o: vals[o] for o in ends}
                for o in ends:
                    mg.set(o, 77)
                ctl.log.clear()
                for t in (twins[1][m], twins[0][m]):
                    mg.add_method(t, prop)
                    expect(not ctl.log and all(mg.get(o) == 77 for o in ends), "adding m{0} of {1} again ran {2}, its outputs, set to 77, are {3}", m, show(menu), ctl.log, [mg.get(o) for o in ends])
                mg.propagate()
                expect(all(mg.get(o) == 77 for o in ends), "adding m{0} of {1} again changed its outputs at the next propagation", m, show(menu))
                for o in ends:
                    mg.set(o, keep[o])
            for m in order:
                mg.execute(twins[1][m])
                check(live, "executed by an equal method")
            for k, v in enumerate(free):
                vals[V[v]] = 200 + k
                mg.set(V[v], 200 + k)
                check(live, "changed")
            for m in order:
                mg.rem_method(twins[1][m])
                live.remove(twins[0][m])
                check(live, "removed by an equal method")
                expect(raises(mg.rem_method, twins[0][m]) is not None, "a removed method can be removed again")
                ctl.log.clear()
                for k, v in enumerate(free):
                    vals[V[v]] = 300 + k
                    mg.set(V[v], 300 + k)
                expect(m not in ctl.log, "m{0} ran after its removal", m)
                check(live, "changed after a removal")
            for m in order:
                mg.add_method(twins[1][m])
                live.append(twins[1][m])
                check(live, "the equal method added after the removal")
            ctx.trace()
    ctx.state()


# --------------------------------------------------------------------------- variables and methods that look alike

LOOK = [1, "1", None, 2, "2", None]


class Known(core.Name):
    def __str__(self):
        return str(self.tag)

    __repr__ = __str__


def look_menu(style):
    """(class, arguments as indices): methods whose texts are the same in groups."""
    left, right = (0, 1, 2), (3, 4, 5)
    menu = [("assign", y, x) for x in left for y in right] + [("assign", x, y) for x in left[:2] for y in right[:2]]
    menu += [("set", y, 7) for y in right] + [("add", 0, 1, 3), ("add", 1, 0, 3), ("add", 1, 2, 4), ("sub", 0, 1, 4), ("sub", 1, 0, 3), ("set", 0, 7), ("set", 1, 7), ("add", 3, 4, 0)]
    return menu


def look_items(tier):
    for a in range(len(look_menu(0))):
        for b in range(len(look_menu(0))):
            yield [a, b, tier == "thorough"]


def look_run(item, ctx):
    """Variables of different identity with one text: nothing may take one for the other."""
    first, second, wide = item
    names = LOOK[:2] + [Known(1)] + LOOK[3:5] + [Known(2)]
    menu = look_menu(0)
    for third in range(len(menu) if wide else 0 if first == second else len(menu)):
        for prop in (True, False):
            mets = []
            for kind, *a in menu:
                mets.append({"assign": lambda y, x: AssignMethod(names[y], names[x]), "set": lambda y, v: SetMethod(names[y], v),
                             "add": lambda x, y, z: AddMethod(names[x], names[y], names[z]), "sub": lambda x, y, z: SubMethod(names[x], names[y], names[z])}[kind](*a))
            mg = MethodGraph()
            vals = [100, 210, 320, None, None, None]
            for v, x in zip(names, vals):
                mg.add_variable(v, x)
            live = []

            def outs(k):
                return menu[k][-1] if menu[k][0] in ("add", "sub") else menu[k][1]

            def ins(k):
                return {"assign": menu[k][2:], "set": [], "add": menu[k][1:3], "sub": menu[k][1:3]}[menu[k][0]]

            def settle():
                for _ in range(len(live) + 1):
                    for k in live:
                        got = [vals[i] for i in ins(k)]
                        vals[outs(k)] = (menu[k][2] if menu[k][0] == "set" else None if any(x is None for x in got) else got[0] if menu[k][0] == "assign" else
                                         got[0] + got[1] if menu[k][0] == "add" else got[0] - got[1])

            def check(what):
                got = [mg.get(v) for v in names]
                expect(got == vals, "methods {0}, variables {1!r}, {2}: values are {3!r}, expected {4!r}", [str(mets[k]) for k in (first, second, third)], names, what, got, vals)
                here = list(mg.methods())
                expect(len(here) == len(live) and all(any(m is mets[k] for m in here) for k in live), "{0}: methods are {1}, expected {2}", what, here, [str(mets[k]) for k in live])
                expect(len(list(mg.variables())) == 6, "{0}: variables are {1!r}", what, list(mg.variables()))
                ctx.step()
            for k in (first, second, third):
                e = raises(mg.add_method, mets[k], prop)
                reach, old = {outs(k)}, None
                while reach != old:
                    old = set(reach)
                    reach |= {outs(m) for m in live if reach & set(ins(m))}
                if k in live:
                    expect(e is None, "adding a present method gives {0!r}", e)
                    continue
                reasons = ([MethodGraphDetermineException] if any(outs(m) == outs(k) for m in live) else []) + ([MethodGraphCycleException] if set(ins(k)) & reach else [])
                if reasons:
                    expect(type(e) in reasons, "variables {0!r}: adding {1} to {2} gives {3!r}, expected {4}", names, mets[k], [str(mets[m]) for m in live], e, [r.__name__ for r in reasons])
                else:
                    expect(e is None, "variables {0!r}: adding {1} to {2} gives {3!r}", names, mets[k], [str(mets[m]) for m in live], e)
                    live.append(k)
                mg.propagate()
                settle()
                check("after adding {0}".format(mets[k]))
            for i in range(6):
                if not any(outs(k) == i for k in live):
                    mg.set(names[i], 1000 + i, prop)
                    mg.propagate()
                    vals[i] = 1000 + i
                    settle()
                    check("after setting {0!r}".format(names[i]))
            for k in list(live):
                mg.rem_method(mets[k])
                live.remove(k)
                check("after removing {0}".format(mets[k]))
                o = outs(k)
                mg.set(names[o], 2000 + o)
                vals[o] = 2000 + o
                settle()
                check("after setting {0!r}".format(names[o]))
            ctx.trace()
    ctx.state()


# --------------------------------------------------------------------------- C07

class Interrupted(BaseException):
    """As KeyboardInterrupt: not an Exception."""


FAULTS = {"Interrupted": Interrupted, "Boom": Boom, "KeyError": KeyError, "RuntimeError": RuntimeError, "StopIteration": StopIteration, "TypeError": TypeError}


def fault_ops(menu, n, order):
    """Histories and the index of the operation during which an execution fails."""
    free = free_vars(menu, n)
    base = [["var", v, 100 + v] for v in free]
    adds = [["add", m, True] for m in order]
    for v in free:
        yield base + adds, [["set", v, 300, True]]
    if len(free) > 1:
        yield base + adds + [["set", v, 310 + v, False] for v in free], [["prop"]]
        yield base + adds + [["set", free[0], 320, False]], [["set", free[1], 321, True]]
    yield base + [["add", m, False] for m in order], [["prop"]]
    for j in range(len(order)):
        yield base + adds[:j], adds[j:j + 1]
    yield base + adds[:-1] + [["set", free[0], 330, False]], adds[-1:]
    yield base + adds + [["set", free[0], 340, False]], [["exec", order[-1]]]


def fault_run(item, ctx):
    n, menu = item
    ctx.state()
    orders = list(itertools.permutations(range(len(menu))))
    for order in orders if len(orders) <= 6 else orders[::5]:
        for prefix, (op,) in fault_ops(menu, n, order):
            at = 0
            while True:
                fired = False
                for rec in ("prop", "set", "twice", "exec", "remove") if at < 2 else ("prop",):
                    for exc in FAULTS if (at, rec) == (0, "prop") else ["Boom"]:
                        fired = fault_case(menu, n, prefix, op, at, rec, exc, ctx)
                at += 1
                if not fired:
                    break


def fault_case(menu, n, prefix, op, at, recovery, exc, ctx):
    label = "methods {0}, history {1}, then {2} with its execution number {3} raising {4}, recovery '{5}'".format(
        show(menu), prefix, op, at, exc, recovery)
    try:
        return fault_case1(menu, n, prefix, op, at, recovery, exc, ctx)
    except Violation as v:
        raise Violation(label + ": " + str(v))


def fault_case1(menu, n, prefix, op, at, recovery, exc, ctx):
    s = MGSys(menu)
    for o in prefix:
        s.apply(o)
    s.observe()
    vs0 = set(s.mg.variables())
    ms0 = {id(m) for m in s.mg.methods()}
    new = s.menu[op[1]] if op[0] == "add" else None
    s.ctl.arm(at, FAULTS[exc])
    mg = s.mg

    def act():
        if op[0] == "set":
            mg.set(V[op[1]], op[2])
        elif op[0] == "prop":
            mg.propagate()
        elif op[0] == "add":
            mg.add_method(new)
        else:
            mg.execute(s.menu[op[1]])
    try:
        e = raises(act)
    except Interrupted as i:
        e = i
    fired = s.ctl.fired
    if not fired:
        expect(e is None, "unexpected {0!r}", e)
        return False
    ctx.step()
    failed = s.ctl.log[at]
    expect(isinstance(e, FAULTS[exc]), "the error did not reach the caller (got {0!r})", e)
    vs1, ms1 = set(mg.variables()), {id(m) for m in mg.methods()}
    newv = set(new.inputs + new.outputs) if new else set()
    expect(vs0 <= vs1 <= vs0 | newv, "variables changed from {0} to {1}", vs0, vs1)
    expect(ms0 <= ms1 <= ms0 | ({id(new)} if new else set()), "the set of methods changed")
    # whether a method that failed while being added stays is left open
    if op[0] == "set":
        s.vals[V[op[1]]] = op[2]
    if new is not None and id(new) in ms1:
        s.meths[new.i] = new
    for v in vs1:
        s.vals.setdefault(v, None)
    free = {V[x] for x in range(len(V))} - set(s.det())
    for v in vs1 & free:
        expect(mg.get(v) == s.vals[v] or (new is not None and v in new.outputs), "the failure changed the value of {0!r}, which no method determines", v)
    if recovery == "twice":
        s.ctl.arm(0, Boom)
        e = raises(mg.propagate)
        expect((e is not None) == s.ctl.fired, "unexpected {0!r} in the second propagation", e)
    s.ctl.arm(None)
    s.dirty = True
    if recovery == "remove":
        # the failing method goes; what it determined keeps its value, whatever that is by now
        m = s.menu[failed]
        if m.i in s.meths:
            held = {v: mg.get(v) for v in mg.variables()}
            mg.rem_method(m)
            s.drop(m)
            expect({v: mg.get(v) for v in mg.variables()} == held, "removing the failed {0} changed values", m)
            for o in m.outputs:
                s.vals[o] = held[o]
    if recovery == "exec" and failed in s.meths:
        mg.execute(s.menu[failed])
    elif recovery == "set":
        f = [v for v in s.vals if v not in s.det()]
        v = f[-1]
        mg.set(v, 987)
        s.vals[v] = 987
    else:
        mg.propagate()
    s.settle()
    s.executed_ok()
    s.observe()
    ctx.trace()
    ctx.out("failure at execution {0}".format(at))
    # still fully usable
    for v in [v for v in range(n) if V[v] in s.vals and V[v] not in s.det()]:
        s.apply(["set", v, 654, True])
        s.observe()
    s.apply(["unknown"])
    s.observe()
    if s.meths:
        m = next(iter(s.meths))
        s.apply(["remm", m])
        s.apply(["prop"])
        s.observe()
    s.apply(["clear"])
    s.observe()
    return True


def fault_items(tier):
    for n, menu in ODD:
        yield [n, menu]
    for n in (2, 3, 4):
        for w in wirings(n):
            yield [n, w]
    for w in wirings(5, 2):
        if len(w) == 3 and len(free_vars(w, 5)) <= 2 and (tier == "thorough" or len(w[2][0]) == 2):
            yield [5, w]


def unknown_run(item, ctx):
    """Invalid requests in every state of a script; nothing changes and everything works afterwards."""
    n, menu = item
    free = free_vars(menu, n)
    spare = [[free[:1], [n]], [[menu[0][1][0]], [free[0]]]]
    full = menu + spare
    k = len(menu)
    base = [["var", v, 100 + v] for v in free]
    adds = [["add", m, True] for m in range(k)]
    u = ["unknown"]
    hist = base + adds + [["set", free[0], 5, False], ["add", k + 1, True], ["prop"], ["set", free[-1], 6, True], ["add", k, False],
                          ["remm", 0], ["set", free[0], 7, True], ["remv", free[0]], ["prop"], ["clear"]]
    for i in range(len(hist) + 1):
        play(full, hist[:i] + [u, u] + hist[i:] + [u], ctx)
    bad = [["set", n + 2, 1, True], ["set", n + 2, 1, False], ["remv", n + 2], ["remm", k + 1], ["exec", k + 1]]
    for b in bad:
        for i in range(0, len(hist) + 1, 2):
            play(full, hist[:i] + [b] + hist[i:], ctx)
    ctx.state()


def unknown_items(tier):
    for n in (2, 3, 4):
        for w in wirings(n):
            yield [n, w]


# --------------------------------------------------------------------------- C08

class Touchy:
    """A value that can be added and subtracted but neither compared, tested for truth nor hashed."""

    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise TypeError("cannot be compared")

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __bool__(self):
        raise TypeError("has no truth value")

    def __len__(self):
        raise TypeError("has no length")

    def __add__(self, other):
        return Touchy(self.n + other.n) if isinstance(other, Touchy) else NotImplemented

    def __sub__(self, other):
        return Touchy(self.n - other.n) if isinstance(other, Touchy) else NotImplemented

    def __repr__(self):
        return "Touchy({0})".format(self.n)


def val_alphabet():
    return [0, 1, -3, 2.5, "", "ab", (), (1, 2), [], [3], True, False, Vector(0, 0), Vector(1, 2), Vector(-3, 0.5), 10 ** 20, 1j,
            frozenset([1]), frozenset(), Touchy(0), Touchy(3), np.array([1, 2]), np.array([0, 0]), 0.0, float("inf"), None]


def eqv(a, b):
    """Same type and same value (vectors by coordinates)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, Vector):
        return a.x == b.x and a.y == b.y
    if isinstance(a, Configuration):
        return {k: (p.x, p.y) for k, p in a.mapping.items()} == {k: (p.x, p.y) for k, p in b.mapping.items()}
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, Touchy):
        return a.n == b.n
    if isinstance(a, dict):
        return list(a) == list(b) and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, (set, frozenset)):
        return a == b
    if isinstance(a, float):
        return a == b and str(a) == str(b) or a != a and b != b
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and all(eqv(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return a == b or a != a and b != b


def bin_items(tier):
    n = len(val_alphabet())
    for kind in ("add", "sub"):
        for i in range(n):
            for j in range(n):
                yield [kind, i, j]


def snap(d):
    return [(k, core.dump(v)) for k, v in d.items()]


def bin_run(item, ctx):
    kind, i, j = item
    x, y = val_alphabet()[i], val_alphabet()[j]
    cls, op = (AddMethod, operator.add) if kind == "add" else (SubMethod, operator.sub)
    ctx.state()
    try:
        want = op(x, y) if x is not None and y is not None else None
        err = None
    except Exception as e:
        want, err = None, e
    for names in (("a", "b", "c"), (0, "", ()), (-1, -2, None)):
        m = cls(*names)
        for extra in ({}, {names[2]: "old"}, {"other": 5}):
            inmap = {names[0]: x, names[1]: y}
            inmap.update(extra)
            before = snap(inmap)
            if err is not None:
                # the values do not support the operation: what happens is left open, but the inputs stay as they are
                raises(m.execute, inmap)
                expect(snap(inmap) == before, "{0} altered its inputs", kind)
                continue
            out = m.execute(inmap)
            if want is None:
                expect(isinstance(out, dict) and not out, "{0}({1!r}, {2!r}) yields {3!r}, expected nothing", kind, x, y, out)
            else:
                expect(isinstance(out, dict) and list(out) == [names[2]] and eqv(out[names[2]], want),
                       "{0}({1!r}, {2!r}) yields {3!r}, expected {4!r}", kind, x, y, out, want)
            expect(snap(inmap) == before, "{0} altered its inputs", kind)
            expect(m.inputs == list(names[:2]) and m.outputs == [names[2]], "executing altered the method")
            ctx.step()
        for missing in (names[:1], names[1:2], names[:2]):
            inmap = {k: v for k, v in ((names[0], x), (names[1], y)) if k not in missing}
            out = m.execute(inmap)
            expect(out == {}, "{0} with a missing input yields {1!r}", kind, out)
            ctx.step()
    # inside a method graph: values first, method first, and one at a time
    if err is None:
        for how in range(4):
            mg = MethodGraph()
            if how == 0:
                mg.add_variable("a", x)
                mg.add_variable("b", y)
                mg.add_method(cls("a", "b", "c"))
            elif how == 1:
                mg.add_method(cls("a", "b", "c"))
                mg.set("a", x)
                mg.set("b", y)
            elif how == 2:
                mg.add_method(SetMethod("b", y))
                mg.add_method(cls("a", "b", "c"))
                mg.add_method(AssignMethod("a", "src"))
                mg.set("src", x)
            else:
                mg.add_method(cls("a", "b", "c"))
                mg.set("b", y, prop=False)
                mg.set("a", x, prop=False)
                mg.propagate()
            got = mg.get("c")
            expect(got is None if want is None else eqv(got, want), "in a method graph (way {4}) {0}({1!r}, {2!r}) gives {3!r}, expected {5!r}",
                   kind, x, y, got, how, want)
            if how != 2 and x is not None:
                mg.set("a", None)
                expect(mg.get("c") is None, "{0} keeps its result {1!r} after an input became None", kind, mg.get("c"))
            ctx.step()
    ctx.trace()
    ctx.out("error" if err is not None else "nothing" if want is None else type(want).__name__)


def one_items(tier):
    for i in range(len(val_alphabet())):
        yield ["set", i]
        yield ["assign", i]


def one_run(item, ctx):
    kind, i = item
    x = val_alphabet()[i]
    ctx.state()
    for a, b in (("a", "b"), (0, ""), ((), -1)):
        if kind == "set":
            m = SetMethod(a, x)
            for inmap in ({}, {a: 5}, {a: None, b: 2}):
                out = m.execute(inmap)
                if x is None:
                    expect(out == {} or (list(out) == [a] and out[a] is None), "SetMethod(None) yields {0!r}", out)
                else:
                    expect(list(out) == [a] and eqv(out[a], x), "SetMethod({0!r}) yields {1!r}", x, out)
                ctx.step()
            expect(m.inputs == [] and m.outputs == [a], "SetMethod has inputs {0}, outputs {1}", m.inputs, m.outputs)
            for prop in (True, False):
                for first in (True, False):
                    mg = MethodGraph()
                    if first:
                        mg.add_variable(a, 99)
                    mg.add_method(SetMethod(a, x), prop)
                    if not prop:
                        mg.propagate()
                    got = mg.get(a)
                    expect(eqv(got, x), "SetMethod({0!r}) in a graph (prop={1}) gives {2!r}", x, prop, got)
                    mg.add_method(AssignMethod(b, a))
                    expect(eqv(mg.get(b), x), "assignment from a set variable gives {0!r}", mg.get(b))
                    ctx.step()
        else:
            m = AssignMethod(a, b)
            expect(m.inputs == [b] and m.outputs == [a], "AssignMethod has inputs {0}, outputs {1}", m.inputs, m.outputs)
            for extra in ({}, {a: 5}):
                inmap = {b: x}
                inmap.update(extra)
                before = snap(inmap)
                out = m.execute(inmap)
                if x is None:
                    expect(out == {} or (list(out) == [a] and out[a] is None), "AssignMethod of None yields {0!r}", out)
                else:
                    expect(list(out) == [a] and eqv(out[a], x), "AssignMethod of {0!r} yields {1!r}", x, out)
                expect(snap(inmap) == before, "AssignMethod altered its inputs")
                ctx.step()
            expect(m.execute({a: 1}) == {}, "AssignMethod without its input yields {0!r}", m.execute({a: 1}))
            for how in range(3):
                mg = MethodGraph()
                if how == 0:
                    mg.add_variable(b, x)
                mg.add_method(m)
                if how == 1:
                    mg.set(b, x)
                if how == 2:
                    mg.set(b, "first")
                    mg.set(b, x)
                expect(eqv(mg.get(a), x), "assignment in a graph gives {0!r}, expected {1!r}", mg.get(a), x)
                mg.set(b, 12)
                expect(mg.get(a) == 12, "assignment is not repeated: {0!r}", mg.get(a))
                ctx.step()
    ctx.trace()


class Combo(MultiMethod):
    """Yields one or two codes per combination; every combination is recorded."""

    def __init__(self, inputs, out, width, log):
        super().__init__("Combo", inputs, [out])
        self.width, self.log = width, log
        self.inner = []

    def multi_execute(self, inmap):
        if self.inner:
            # another method, and this one again on other alternatives
            m, work, want = self.inner.pop()
            got = m.execute(work)
            self.inner.append((m, work, want))
            if set(got[m.outputs[0]]) != want:
                raise ValueError("inside another method it yields {0}, expected {1}".format(got, want))
        vals = tuple(inmap[i] for i in self.inputs)
        self.log.append(vals)
        return [vals + (k,) for k in range(self.width(vals) if callable(self.width) else self.width)]


ALTS = [set(), {0}, {0, 1}, {"x", None, False}, [2, 2, 3], (1, 2, 3, 4), frozenset([7, 8])]


def multi_items(tier):
    """All input lists of up to 4 inputs, each plain or multi-valued with one of the alternative sets."""
    kinds = ["plain"] + list(range(len(ALTS)))
    for k in range(1, 5):
        for combo in itertools.product(kinds, repeat=k):
            yield list(combo)
    if tier == "thorough":
        for combo in itertools.product(["plain", 0, 1, 2, 3], repeat=5):
            yield list(combo)


def big_multi_items(tier):
    for n in (30, 65, 130, 300, 1100) + ((3000,) if tier == "thorough" else ()):
        for where in range(3):
            yield [n, where]


def big_multi_run(item, ctx):
    """Many alternatives of one of three inputs; a plain variable is named like a multi-valued one."""
    n, where = item
    ctx.state()
    ms = [MultiVariable("m{0}".format(i)) for i in range(3)]
    alts = [set(range(100, 100 + n)) if i == where else {5, 6} for i in range(3)]
    for ins in (ms, ms + [str(ms[0])], [str(ms[2])] + ms + ["m0"]):
        plain = {v: 7 for v in ins if isinstance(v, str)}
        vals = dict(zip(ms, alts))
        vals.update(plain)
        log = []
        out = MultiVariable("m0")
        m = Combo(ins, out, 1, log)
        combos = set(itertools.product(*[[7] if v in plain else sorted(vals[v]) for v in ins]))
        want = {c + (0,) for c in combos}
        mg = MethodGraph()
        for v in ins:
            mg.add_variable(v, vals[v])
        mg.add_method(m)
        expect(set(mg.get(out)) == want, "multi-method with {0} alternatives of input {1} yields {2} values, expected {3}", n, where, len(mg.get(out)), len(want))
        expect(set(log) == combos, "multi_execute was called for {0} combinations, expected {1}", len(set(log)), len(combos))
        mg.set(ms[where], {1})
        expect(len(set(mg.get(out))) == 4, "after a change the multi-method yields {0} values, expected 4", len(mg.get(out)))
        ctx.step()
    ctx.trace()
    ctx.out("{0} alternatives".format(n))


def multi_run(item, ctx):
    ctx.state()
    for width in (0, 1, 2, lambda vals: 1 if vals[0] in (0, 2) else 3):
        log = []
        # every multi-valued variable is a variable of its own, whatever its name
        name = {0: lambda i: "m{0}".format(i), 1: lambda i: "m", 2: lambda i: None}.get(width, lambda i: ("p0", i)[i % 2])
        ins = ["p{0}".format(i) if k == "plain" else MultiVariable(name(i)) for i, k in enumerate(item)]
        out = MultiVariable(name(0))
        m = Combo(ins, out, width, log)
        vals = [10 + i if k == "plain" else ALTS[k] for i, k in enumerate(item)]
        combos = set(itertools.product(*[[v] if k == "plain" else list(v) for k, v in zip(item, vals)]))
        want = {c + (j,) for c in combos for j in range(width(c) if callable(width) else width)}
        inmap = dict(zip(ins, vals))
        inmap[out] = {"previous"}
        before = snap(inmap)
        r = m.execute(inmap)
        expect(list(r) == [out], "execute() yields values for {0}", list(r))
        expect(set(r[out]) == want, "multi-method over {0} yields {1}, expected {2}", vals, r[out], want)
        expect(set(log) == combos, "multi_execute was called for {0}, expected {1}", set(log), combos)
        expect(snap(inmap) == before, "execute() altered its inputs")
        r2 = m.execute(dict(zip(ins, vals)))
        expect(set(r2[out]) == want, "a second execution yields {0}, expected {1}", r2[out], want)
        ctx.step(2)
        # while it runs, another method of its class, or it itself, is used on other alternatives
        work = {i: 41 if k == "plain" else {31, 32} for i, k in zip(ins, item)}
        for other in (Combo(ins, out, width, []), m):
            w4 = {c + (j,) for c in itertools.product(*[[41] if k == "plain" else [31, 32] for k in item]) for j in range(width(c) if callable(width) else width)}
            m.inner = [(other, work, w4)]
            r4 = m.execute(dict(zip(ins, vals)))
            m.inner = []
            expect(set(r4[out]) == want, "using {0} while it runs, the multi-method over {1} yields {2}, expected {3}", "itself" if other is m else "another", vals, r4[out], want)
            ctx.step()
        # the answer is the caller's, and the alternatives may have changed since
        if isinstance(r2[out], (set, list)):
            r2[out].clear()
        live = {i: list(v) if isinstance(v, (list, tuple)) else set(v) if isinstance(v, (set, frozenset)) else v for i, v in zip(ins, vals)}
        for i, v in [(None, None)] + list(live.items()):
            if isinstance(v, list):
                v[:] = v[1:] + [96]
            elif isinstance(v, set):
                v.add(95)
                v.discard(0)
            elif i is not None:
                continue
            w3 = {c + (j,) for c in itertools.product(*[list(live[i]) if isinstance(i, MultiVariable) else [live[i]] for i in ins])
                  for j in range(width(c) if callable(width) else width)}
            r3 = m.execute(live)
            expect(set(r3[out]) == w3, "with alternatives altered in place the multi-method yields {0}, expected {1}", r3[out], w3)
            ctx.step()
        # in a graph: values before and after the method, then one alternative set changes
        for first in (True, False):
            mg = MethodGraph()
            if first:
                for i, v in zip(ins, vals):
                    mg.add_variable(i, v)
            mg.add_method(m)
            if not first:
                for i, v in zip(ins, vals):
                    mg.set(i, v)
            expect(set(mg.get(out)) == want, "in a graph the multi-method gives {0}, expected {1}", mg.get(out), want)
            mg.set(ins[-1], 99 if item[-1] == "plain" else {98, 97})
            alts = [[v] if k == "plain" else list(v) for k, v in zip(item, vals)]
            alts[-1] = [99] if item[-1] == "plain" else [98, 97]
            c2 = set(itertools.product(*alts))
            w2 = {c + (j,) for c in c2 for j in range(width(c) if callable(width) else width)}
            expect(set(mg.get(out)) == w2, "after a change the multi-method gives {0}, expected {1}", mg.get(out), w2)
            mg.set(ins[0], None)
            expect(mg.get(out) is None, "multi-method with an input that is None gives {0!r}", mg.get(out))
            ctx.step(3)
    ctx.trace()
    ctx.out("{0} inputs, {1} multi-valued".format(len(item), sum(k != "plain" for k in item)))


ALTERNATIVES = [0, False, 0.0, 1, True, "1", "", None, (), [], [1], [True], {}, {"k": 2}, set(), Vector(1, 2), Vector(1.0, 3), float("nan"), frozenset()]


def alt_tag(v):
    return "{0} {1}".format(type(v).__name__, v if isinstance(v, Vector) else repr(v))


class Tagger(MultiMethod):
    """Yields the kinds and texts of what it is called with."""

    def multi_execute(self, inmap):
        return [" | ".join(alt_tag(inmap[v]) for v in self.inputs)]


def alt_items(tier):
    n = len(ALTERNATIVES)
    for k in range(0, 3 if tier == "quick" else 4):
        for combo in itertools.product(range(n), repeat=k):
            yield list(combo)
    for i in range(n):
        yield [i, 3, i, 4, i]
    yield list(range(n))
    yield list(range(n))[::-1]


def alt_run(item, ctx):
    """Alternatives that cannot be hashed, that are equal but not the same, or that are missing values."""
    ctx.state()
    alts = [ALTERNATIVES[i] for i in item]
    m1, m2, out = MultiVariable("m"), MultiVariable("m"), MultiVariable("out")
    forms = [list, tuple, lambda a: iterable(a)]
    if item:
        forms.append(lambda a: dict(enumerate(a)).values())
    for form in forms:
        for ins in ([m1], [m1, m2], ["p", m1], [m2, "p", m1], [m1, m1]):
            given = {"p": "plain", m1: form(alts), m2: form(alts[::-1] + [7])}
            parts = []
            for v in ins:
                parts.append([alt_tag("plain")] if v == "p" else [alt_tag(a) for a in (alts if v is m1 else alts + [7])])
            want = {" | ".join(c) for c in itertools.product(*parts)}
            if ins == [m1, m1]:
                want = {c + " | " + c for c in parts[0]}
            met = Tagger("Tagger", ins, [out])
            before = [alt_tag(a) for a in alts]
            r = met.execute({v: given[v] for v in ins})
            expect(list(r) == [out] and set(r[out]) == want, "multi-method on {0} x {1} yields {2}, expected {3}", given[m1], ins, r, want)
            mg = MethodGraph()
            for v in dict.fromkeys(ins):
                mg.add_variable(v, given[v])
            mg.add_method(met)
            expect(set(mg.get(out)) == want, "in a graph the multi-method on {0} x {1} yields {2}, expected {3}", given[m1], ins, mg.get(out), want)
            mg.set(m1, [5])
            expect(len(set(mg.get(out))) == (len(want) // max(1, len(set(parts[ins.index(m1)]))) if item else len(set(mg.get(out)))), "after a change the multi-method yields {0}", mg.get(out))
            expect([alt_tag(a) for a in alts] == before, "the alternatives were altered")
            ctx.step(3)
        # an input that is also the output is an input like any other (such a method is for use outside graphs)
        r = Tagger("Tagger", [m1, "p"], [m1]).execute({m1: form(alts), "p": "plain"})
        want = {alt_tag(a) + " | " + alt_tag("plain") for a in alts}
        expect(list(r) == [m1] and set(r[m1]) == want, "multi-method from {0} to its own input yields {1}, expected {2}", given[m1], r, want)
        ctx.step()
    ctx.trace()
    ctx.out("{0} alternatives".format(len(item)))


class iterable:
    """Alternatives that can only be gone through (again and again)."""

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return iter(self.items)

    def __repr__(self):
        return "iterable({0!r})".format(self.items)


def sp_items(tier):
    xs = [[0], [1, 2], [3, -1, 0], [2, 2.5]]
    for a in range(len(xs)):
        for b in range(len(xs)):
            for c in range(len(xs)):
                yield [xs[a], xs[b], xs[c]]


def sp_run(item, ctx):
    """Sum/product networks: plain -> multi -> multi, in all orders of construction, and a repeated input."""
    xs, ys, zs = item
    ctx.state()
    names = ["x", "y", "z"]
    sp = lambda p, q: {r for a in p for b in q for r in (a + b, a * b)}
    want = sp(sp(xs, ys), zs)
    for perm in itertools.permutations(range(2)):
        mv = {n: MultiVariable(n) for n in ("x", "y", "z", "u", "w", "v")}
        ms = [SumProdMethod(mv["x"], mv["y"], mv["u"]), SumProdMethod(mv["u"], mv["z"], mv["w"])]
        mg = MethodGraph()
        for n, v in zip(names, (xs, ys, zs)):
            mg.add_variable(mv[n], set(v))
        for i in perm:
            mg.add_method(ms[i])
        expect(set(mg.get(mv["w"])) == want, "sum/product network gives {0}, expected {1}", mg.get(mv["w"]), want)
        mg.set(mv["y"], {5, 6})
        w2 = sp(sp(xs, [5, 6]), zs)
        expect(set(mg.get(mv["w"])) == w2, "after a change gives {0}, expected {1}", mg.get(mv["w"]), w2)
        ctx.step(2)
    # the same multi-valued variable as both inputs: one alternative at a time
    x, o = MultiVariable("x"), MultiVariable("o")
    got = SumProdMethod(x, x, o).execute({x: set(xs)})[o]
    expect(set(got) == {r for a in xs for r in (a + a, a * a)}, "a repeated input gives {0}", got)
    a = SumProdMethod("p", "q", o).execute({"p": xs[0], "q": ys[0]})[o]
    expect(set(a) == {xs[0] + ys[0], xs[0] * ys[0]}, "plain inputs give {0}", a)
    ctx.step(2)
    ctx.trace()


def cons_run(item, ctx):
    """Which multi-methods can be created."""
    ok = item == ["multi"]
    class OwnMulti(MultiVariable):
        pass

    for Multi in (MultiVariable, OwnMulti):
        creatable(item, ok, Multi, ctx)
    ctx.state()
    ctx.trace()


def creatable(item, ok, Multi, ctx):
    outs = [Multi("o{0}".format(i)) if k == "multi" else "o{0}".format(i) for i, k in enumerate(item)]

    class MM(MultiMethod):
        def multi_execute(self, inmap):
            return []
    for ins in ([], ["a"], [Multi("m")], ["a", Multi("m")]):
        e = raises(MM, "mm", ins, outs)
        expect((e is None) == ok, "a multi-method with outputs {0}: {1!r}", item, e)
        ctx.step()
    if len(item) == 1:
        e = raises(SumProdMethod, "a", "b", outs[0])
        expect((e is None) == ok, "SumProdMethod with output {0}: {1!r}", item, e)
        if ok:
            x = Multi("x")
            got = SumProdMethod(x, "b", outs[0]).execute({x: {2, 3}, "b": 5})[outs[0]]
            expect(set(got) == {7, 10, 8, 15}, "sums and products over the alternatives 2, 3 and 5 are {0}", got)


def cons_items(tier):
    for k in range(4):
        for c in itertools.product(["plain", "multi"], repeat=k):
            yield list(c)


NET = ["set", "assign", "add", "sub"]


def net_items(tier):
    """All networks of two and three supplied methods over variables with two free ones."""
    srcs2 = [0, 1]
    def meths(out, earlier):
        for a in earlier:
            yield ["assign", a, out]
            for b in earlier:
                yield ["add", a, b, out]
                yield ["sub", a, b, out]
        yield ["set", 42 + out, out]
    for m2 in meths(2, [0, 1]):
        for m3 in meths(3, [0, 1, 2]):
            yield [m2, m3]
            for m4 in meths(4, [0, 1, 2, 3]):
                yield [m2, m3, m4]


def net_run(item, ctx):
    ctx.state()

    def mk(m):
        if m[0] == "assign":
            return AssignMethod(V[m[2]], V[m[1]])
        if m[0] == "set":
            return SetMethod(V[m[2]], m[1])
        return (AddMethod if m[0] == "add" else SubMethod)(V[m[1]], V[m[2]], V[m[3]])

    def ev(vals):
        vals = list(vals) + [None] * len(item)
        for m in item:
            if m[0] == "assign":
                vals[m[2]] = vals[m[1]]
            elif m[0] == "set":
                vals[m[2]] = m[1]
            else:
                a, b = vals[m[1]], vals[m[2]]
                vals[m[3]] = None if a is None or b is None else a + b if m[0] == "add" else a - b
        return vals
    for order in itertools.permutations(range(len(item))):
        for prop in (True, False):
            mg = MethodGraph()
            ms = [mk(m) for m in item]
            mg.add_variable(V[0], 5)
            mg.add_variable(V[1], 3)
            for i in order:
                mg.add_method(ms[i], prop)
            mg.propagate()
            cur = [5, 3]
            steps = [(None, None), (0, 0), (1, 7), (0, None), (1, 0), (0, -2)]
            if not any(m[0] == "set" for m in item):
                # only values of one type meet: a propagation may run a method on a mixture of old and new inputs
                steps += [(0, None), (1, None), (1, Vector(1, 2)), (0, Vector(0, 0)), (1, None), (0, None)]
            for v, x in steps + [(0, 4), (1, 6)]:
                if v is not None:
                    cur[v] = x
                    mg.set(V[v], x)
                want = ev(cur)
                for k in range(len(want)):
                    if k < 2 or any(m[-1] == k for m in item):
                        got = mg.get(V[k])
                        expect(eqv(got, want[k]), "network {0} with sources {1}: variable {2} is {3!r}, expected {4!r}", item, cur, k, got, want[k])
                ctx.step()
            ctx.trace()
    ctx.out("+".join(m[0] for m in item))


# --------------------------------------------------------------------------- values of every kind (C04)

class Describe(Method):
    """The input values themselves, with their types."""

    def execute(self, inmap):
        return {self.outputs[0]: tuple((type(inmap[v]).__name__, copy.deepcopy(inmap[v])) for v in self.inputs)}


class Even(Method):
    """An output only for some inputs."""

    def execute(self, inmap):
        v = inmap[self.inputs[0]]
        if isinstance(v, (int, float)) and v == 1:
            return {}
        return {self.outputs[0]: copy.deepcopy(v)}


def close_values():
    """Values that are equal to another one of the alphabet but not the same."""
    return [1.0, -0.0, 2, 2.0, Vector(1, 2 + 1e-12), Vector(1, 2 + 1e-9), Vector(1.0, 2.0), [3], [3.0], "ab"[:1] + "b", 1 + 0j, float("nan"),
            np.array([1, 3]), np.array([1.0, 2.0]), Configuration({"a": Vector(0, 0), "b": Vector(1, 0)}),
            Configuration({"a": Vector(5, 5), "b": Vector(6, 5)}), {}, {1: 2}, set(), {1}]


def values_items(tier):
    n = len(val_alphabet()) + len(close_values())
    for i in range(n):
        for j in range(n):
            yield [i, j]


def values_mg(order):
    mg = MethodGraph()
    ms = [AssignMethod("b", "a"), Describe("d", ["b"], ["c"]), Even("e", ["b"], ["d"]), Describe("d", ["a", "d"], ["e"]), AssignMethod("f", "d")]
    for i in order:
        mg.add_method(ms[i])
    return mg


def values_check(mg, a, what):
    d = None if a is None or isinstance(a, (int, float)) and a == 1 else a
    show_ = lambda *vs: None if any(v is None for v in vs) else tuple((type(v).__name__, v) for v in vs)
    for v, want in (("a", a), ("b", a), ("c", show_(a)), ("d", d), ("e", show_(a, d)), ("f", d)):
        got = mg.get(v)
        expect(eqv(got, want), "{0}: variable {1} is {2!r}, expected {3!r}", what, v, got, want)


def values_run(item, ctx):
    i, j = item
    alphabet = lambda: val_alphabet() + close_values()
    ctx.state()
    for order in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0)):
        x, y = alphabet()[i], alphabet()[j]
        mg = values_mg(order)
        what = "a = {0!r}, then {1!r}".format(x, y)
        mg.set("a", x)
        values_check(mg, x, "a = {0!r}".format(x))
        mg.set("a", y)
        values_check(mg, y, what)
        mg.set("a", x, False)
        mg.propagate()
        values_check(mg, x, what + ", then the first again, deferred")
        mg.set("a", y, False)
        mg.set("a", x, False)
        mg.set("a", y, False)
        mg.propagate()
        values_check(mg, y, what + ", deferred, three changes at once")
        ctx.step(4)
        # the object itself is altered and set again
        for imm in (True, False):
            if isinstance(y, (list, np.ndarray)) and len(y):
                y[0] += 1
            elif isinstance(y, Touchy):
                y.n += 1
            elif isinstance(y, set):
                y.add("new")
            elif isinstance(y, dict):
                y["new"] = len(y)
            elif isinstance(y, Vector):
                y.x += 1e-3
            else:
                break
            mg.set("a", y, imm)
            if not imm:
                mg.propagate()
            values_check(mg, y, what + ", altered in place and set again")
            ctx.step()
    ctx.trace()


# --------------------------------------------------------------------------- long method graphs (C04-C07)

def long_menu(kind, n):
    return dict(shapes(n))[kind]


DENSE = [("all before", 45), ("fibonacci", 90)]
LONG = [("chain", 1200), ("chain", 5000), ("fan-out", 400), ("fan-in", 400), ("tree", 255), ("outputs", 300), ("chain", 150), ("diamonds", 31)]


class Long:
    """A large method graph; variables are numbers, menus are in topological order."""

    def __init__(self, menu, n):
        self.ctl = Ctl()
        self.mg = MethodGraph()
        self.ms = [Term(i, ins, outs, self.ctl) for i, (ins, outs) in enumerate(menu)]
        det = {o for m in self.ms for o in m.outputs}
        self.vals = {v: 100 + v for v in range(n) if v not in det and any(v in m.inputs for m in self.ms)}
        self.free = sorted(self.vals)
        self.live = list(self.ms)
        for v in self.free:
            self.mg.add_variable(v, self.vals[v])

    def settle(self):
        for m in self.live:
            res = m.result(self.vals.get)
            for o in m.outputs:
                self.vals[o] = res.get(o)

    def check(self, what):
        self.settle()
        expect(set(self.mg.variables()) == set(self.vals), "{0}: wrong variables", what)
        expect({id(m) for m in self.mg.methods()} == {id(m) for m in self.live}, "{0}: wrong methods", what)
        for v, want in self.vals.items():
            expect(self.mg.get(v) == want, "{0}: variable {1} is {2!r}, expected {3!r}", what, v, self.mg.get(v), want)

    def add(self, order, prop):
        for i in order:
            self.mg.add_method(self.ms[i], prop)
        if not prop:
            self.mg.propagate()
        self.check("all methods added")

    def set(self, v, val, prop=True):
        self.mg.set(v, val, prop)
        self.vals[v] = val
        if prop:
            self.check("variable {0} set to {1!r}".format(v, val))


def long_items(tier):
    for kind, n in LONG:
        for mode in ("now", "later", "back"):
            if (mode != "back" or n <= 300 and kind != "outputs") and (n < 5000 or mode == "later"):
                yield [kind, n, mode]


def dense_items(tier):
    for kind, n in DENSE + ([("all before", 90)] if tier == "thorough" else []):
        for mode in ("now", "later", "back"):
            yield [kind, n, mode]


BUDGET = 300000


class TooCostly(BaseException):
    """The order in which a dense graph is worked off costs more executions than can be waited for."""


def dense_run(item, ctx):
    """How often a method runs is left open, so a run that uses up the budget is not judged."""
    try:
        long_run(item, ctx, BUDGET)
    except TooCostly:
        ctx.out("left open: more than {0} executions".format(BUDGET))


def long_build(item, budget=None):
    kind, n, mode = item
    s = Long(long_menu(kind, n), n)
    if budget:
        s.ctl.arm(budget, TooCostly)
    order = range(len(s.ms))
    if not budget:
        s.ctl.arm(BUDGET, TooCostly)
    s.add(reversed(order) if mode == "back" else order, mode == "now")
    if not budget:
        s.ctl.arm(None)
    return s


def patient(f):
    """How often a method runs is left open, so a run that uses up the budget is not judged."""
    def run(item, ctx):
        try:
            f(item, ctx)
        except TooCostly:
            ctx.out("left open: too many executions")
    return run


def long_run(item, ctx, budget=None):
    s = long_build(item, budget)
    for val in (1, None, 0, BAD, 2):
        s.set(s.free[0], val)
        ctx.step()
    for v in s.free:
        s.set(v, 3000 + v, False)
    s.mg.propagate()
    s.check("all sources set")
    ctx.step()
    ctx.state()
    ctx.trace()
    ctx.out(item[0])


def long_refuse_run(item, ctx):
    """Cycles and second determinations at the far end of a large graph."""
    s = long_build(item)
    last = s.ms[-1].outputs[-1]
    source = s.ms[0].inputs[0]
    inner = s.ms[len(s.ms) // 2].outputs[0]
    s.mg.add_variable("x", 7)
    s.vals["x"] = 7
    refused = [(Term(9001, ["x"], [o], s.ctl), MethodGraphDetermineException) for o in (last, inner, s.ms[0].outputs[0])]
    below = walk_down(s.ms, source)
    if last in below:
        refused.append((Term(9002, [last], [source], s.ctl), MethodGraphCycleException))
        refused.append((Term(9003, ["x", last], [source], s.ctl), MethodGraphCycleException))
    for m, err in refused:
        s.ctl.log.clear()
        e = raises(s.mg.add_method, m)
        expect(isinstance(e, err), "{0} was answered with {1!r}, expected {2}", m, e, err.__name__)
        expect(m.i not in s.ctl.log, "the refused {0} ran", m)
        s.check("after refusing {0}".format(m))
        s.set(source, s.vals[source] + 1)
        expect(m.i not in s.ctl.log, "the refused {0} ran later", m)
        ctx.step()
    for m in list(s.ms):
        s.mg.add_method(m)
    s.check("methods added again")
    ok = Term(9004, [last, "x"], ["y"], s.ctl)
    s.mg.add_method(ok)
    s.live.append(ok)
    s.check("one more method")
    s.set(source, 55)
    ctx.state()
    ctx.trace()


def walk_down(ms, v):
    seen = {v}
    for m in ms:
        if any(i in seen for i in m.inputs):
            seen.update(m.outputs)
    return seen - {v}


def long_remove_run(item, ctx):
    s = long_build(item)
    k = len(s.ms) // 2
    m = s.ms[k]
    for step in ("method", "variable", "more"):
        if step == "method":
            s.mg.rem_method(m)
            s.live.remove(m)
        elif step == "variable":
            v = s.ms[k // 2].outputs[0]
            s.mg.rem_variable(v)
            s.live = [x for x in s.live if v not in x.inputs and v not in x.outputs]
            del s.vals[v]
        else:
            for x in s.live[::2]:
                s.mg.rem_method(x)
            s.live = s.live[1::2]
        s.ctl.log.clear()
        s.mg.propagate()
        s.check("after removing a " + step)
        for v in s.free[:3] + s.free[-2:]:
            if v in s.vals:
                s.set(v, s.vals[v] + 1)
        ids = {x.i for x in s.live}
        expect(all(i in ids for i in s.ctl.log), "a removed method ran")
        ctx.step()
    s.mg.clear()
    s.live, s.vals = [], {}
    s.check("cleared")
    for x in s.ms:
        s.mg.add_method(x)
    s.live = list(s.ms)
    s.vals = {v: None for x in s.ms for v in x.inputs + x.outputs}
    s.check("rebuilt")
    s.set(s.ms[0].inputs[0], 5)
    for v in (s.ms[-1].inputs[-1], s.ms[0].inputs[0], s.ms[-1].outputs[0]):
        if v in s.vals:
            s.mg.rem_variable(v)
            s.live = [x for x in s.live if v not in x.inputs and v not in x.outputs]
            del s.vals[v]
            s.ctl.log.clear()
            s.mg.propagate()
            s.check("variable {0} removed".format(v))
            for w in s.free[:2]:
                if w in s.vals:
                    s.set(w, 6)
            ids = {x.i for x in s.live}
            expect(all(i in ids for i in s.ctl.log), "a removed method ran")
            ctx.step()
    ctx.state()
    ctx.trace()


def wide_items(tier):
    for n in (3, 5, 9, 17, 33, 65) + ((129, 300) if tier == "thorough" else ()):
        for k in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
            for prop in (True, False):
                yield [n, k, prop]


def wide_run(item, ctx):
    """Methods with many inputs or outputs of which one is in the way."""
    n, k, prop = item
    outs, ins = list(range(n)), list(range(1000, 1000 + n))
    for case in ("determined", "cycle", "far cycle", "both", "free"):
        for wide in ("outputs", "inputs", "all"):
            one, other = ([3000], outs) if wide == "outputs" else (ins, [4000]) if wide == "inputs" else (ins, outs)
            i, o = one[min(k, len(one) - 1)], other[min(k, len(other) - 1)]
            first = {"determined": [([2000], [o])], "cycle": [([o, 2000], [i])], "far cycle": [([o], [2001]), ([2001, 2000], [2002, i])],
                     "both": [([2000], [o]), ([other[0]] if other[0] != o else [2003], [i])], "free": [([2000], [i]), ([o], [2004])]}[case]
            s = Long([], 0)
            s.ms = [Term(3 + j, a, b, s.ctl) for j, (a, b) in enumerate(first)]
            det = {x for m in s.ms for x in m.outputs}
            for v in sorted({x for m in s.ms for x in m.inputs} | {3000, 2000, *ins, *outs, 4000}):
                s.vals[v] = None if v in det else 100 + v
                s.mg.add_variable(v, s.vals[v])
            for m in s.ms:
                s.mg.add_method(m, prop)
            s.live = list(s.ms)
            s.mg.propagate()
            s.check("prepared")
            m = Term(90 + k % 3, one, other, s.ctl)
            s.ctl.log.clear()
            e = raises(s.mg.add_method, m, prop)
            if case == "free":
                expect(e is None, "{0} was refused: {1!r}", m, e)
                # in the order of dependence
                s.live.insert(1, m)
                s.mg.propagate()
            else:
                okay = ((MethodGraphDetermineException,) if case in ("determined", "both") else ()) + ((MethodGraphCycleException,) if "cycle" in case or case == "both" else ())
                expect(isinstance(e, okay), "{0} ({1} at {2}) was answered with {3!r}", m, case, o, e)
                s.mg.propagate()
                expect(m.i not in s.ctl.log, "the refused {0} ran", m)
            s.check("{0} {1}".format(case, "accepted" if case == "free" else "refused"))
            for v in (2000, one[0], one[-1]):
                if v not in det:
                    s.set(v, s.vals[v] + 1)
            expect(case == "free" or m.i not in s.ctl.log, "the refused {0} ran later", m)
            # out of the way
            if case != "free":
                for x in list(s.live):
                    s.mg.rem_method(x)
                s.live = []
                s.check("first methods removed")
                e = raises(s.mg.add_method, m)
                expect(e is None, "{0} was refused when nothing was in its way any more: {1!r}", m, e)
                s.live.append(m)
                s.check("accepted")
                s.set(one[-1], 7)
            s.mg.rem_method(m)
            s.live.remove(m)
            s.ctl.log.clear()
            s.set(one[0] if case != "free" else 2000, 8)
            expect(m.i not in s.ctl.log, "the removed {0} ran", m)
            ctx.step()
        ctx.out(case)
        ctx.state()
    ctx.trace()


def long_fault_run(item, ctx):
    kind, n, mode = item
    s = long_build(item)
    for at in (0, 1, 5, len(s.ms) // 2, len(s.ms) - 1):
        for v in (s.free[0], s.free[-1]):
            s.vals[v] = 4000 + 10 * at + v
            s.ctl.arm(at)
            e = raises(s.mg.set, v, s.vals[v])
            expect(isinstance(e, Boom) if s.ctl.fired else e is None, "setting with execution {0} failing gives {1!r}", at, e)
            s.ctl.arm(None)
            s.mg.propagate()
            s.check("after a failure of execution {0}".format(at))
            ctx.step()
    ctx.state()
    ctx.trace()


ASSUME = ["single-threaded use; method functions are deterministic",
          "variables are hashable names; values of generated methods are hash codes of their inputs (collisions are deterministic)",
          "setting a variable that a method determines overrides it until that method runs again"]

def endure(*names):
    """One method graph through thousands of operations; and through thousands of changes only."""
    return core.endurance("endurance", "one graph through histories of 12000 (60000) operations that hold every ordered pair of operations, with and without removals",
                          [bfs(name, 0, 0, (1, 2, None)) for name in names], calm=lambda op: op[0] in ("set", "prop", "exec", "add"))


CHECKS = {
    "C04": {"rule": "all acyclic wirings within the bound x all orders of adding the methods x all change scripts, every step compared with a "
                    "topological evaluation; plus BFS over operation histories with hidden state in the key",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("wirings", "all wirings on <=4 (5) variables incl. two-output methods x all method orders x ~50 scripts", wire_items, wire_run),
                fn_harness("wirings-5", "all wirings of 3 methods on 5 variables with <=2 sources (quick: <=2 inputs per method)", wire_items5, wire_run),
                fn_harness("wirings-6", "thorough: all wirings of 4 methods with <=2 inputs on 6 variables", wire_items6, wire_run),
                fn_harness("shapes", "11 families (chains, fans, diamonds, ...) with up to 10 (20) variables x 5+ method orders", shape_items, shape_run),
                fn_harness("long", "7 families with up to 5000 variables: chains, fans, trees, diamonds; methods added at once, deferred, and last first", long_items, patient(long_run)),
                fn_harness("dense", "every variable determined from all (from the two) before it, 45 (thorough 90) and 90 variables; methods added at once, deferred, and last first", dense_items, dense_run),
                fn_harness("unusual", "all wirings on <=4 variables x methods that read the previous outputs, alter the map they get, yield for None, yield more than "
                           "their outputs, name variables twice, have no inputs or no outputs", odd_items, odd_run),
                fn_harness("values", "all ordered pairs of 46 values of 18 types, many equal but different, some incomparable, through a net of 5 methods, "
                           "immediate and deferred, and altered in place", values_items, values_run),
                fn_harness("side-by-side", "two graphs over all wirings on <=3 (4) variables (<=2 inputs) and the deepest on 4, method objects of their own and shared; "
                           "all interleavings of pairs of histories of 2..4 operations", side_items, side_run),
                fn_harness("lookalikes", "all triples of 21 supplied methods on six variables with two texts, immediate and deferred, then changes and removals", look_items, look_run),
                endure("diamond", "split"),
                bfs("diamond", 3, 4, (1, 2, None)),
                bfs("split", 3, 5, (1, None)),
            ]},
    "C05": {"rule": "all sequences of methods from the complete menu, admission decided against reachability on the model; refused methods must leave no trace",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("sequences", "all ordered pairs of the 110 methods with <=2 inputs and 1-2 outputs over 4 variables, half of the unordered pairs "
                           "(all in thorough) followed by every third method", with_tier(adm_items), adm_run),
                fn_harness("unusual", "all ordered triples of 14 methods that name variables twice, have no inputs, no outputs or up to four outputs", odd_adm_items, odd_adm_run),
                fn_harness("wide", "methods with 3..65 (300) inputs or outputs of which one is determined already or closes a cycle, at six positions; removed, added again", wide_items, wide_run),
                fn_harness("long-cycles", "cycles through chains of 2..7 (13) methods, every closing method", chain_items, chain_run),
                fn_harness("long", "7 families with up to 5000 variables: chains, fans, trees, diamonds; methods added at once, deferred, and last first", long_items, patient(long_refuse_run)),
                fn_harness("equal-methods", "all wirings on <=4 variables, every method with an equal twin used to add again, execute and remove", equal_items, equal_run),
                fn_harness("side-by-side", "two graphs over all wirings on <=3 (4) variables (<=2 inputs) and the deepest on 4, method objects of their own and shared; "
                           "all interleavings of pairs of histories of 2..4 operations", side_items, side_run),
                fn_harness("lookalikes", "all triples of 21 supplied methods on six variables with two texts, immediate and deferred, then changes and removals", look_items, look_run),
                endure("empty"),
                bfs("empty", 4, 6, (1, None)),
            ]},
    "C06": {"rule": "all removals of one or two methods or variables and clears from all wirings, with and without pending changes, followed by re-additions and changes; BFS",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("removals", "all wirings on <=4 variables and those of 3 methods on 5", rem_items, rem_run),
                fn_harness("wide", "methods with 3..65 (300) inputs or outputs of which one is determined already or closes a cycle, at six positions; removed, added again", wide_items, wide_run),
                fn_harness("shapes", "11 families with up to 8 (13) variables", remshape_items, remshape_run),
                fn_harness("long", "7 families with up to 5000 variables: chains, fans, trees, diamonds; methods added at once, deferred, and last first", long_items, patient(long_remove_run)),
                fn_harness("equal-methods", "all wirings on <=4 variables, every method with an equal twin used to add again, execute and remove", equal_items, equal_run),
                fn_harness("side-by-side", "two graphs over all wirings on <=3 (4) variables (<=2 inputs) and the deepest on 4, method objects of their own and shared; "
                           "all interleavings of pairs of histories of 2..4 operations", side_items, side_run),
                fn_harness("lookalikes", "all triples of 21 supplied methods on six variables with two texts, immediate and deferred, then changes and removals", look_items, look_run),
                endure("chain"),
                bfs("chain", 4, 6, (1, None)),
            ]},
    "C07": {"rule": "every execution index of every script is made to fail once (five error types for the first), then recovery by propagation, by a set or after a second failure",
            "assumptions": ASSUME + ["a failing method raises before it has an effect of its own"],
            "harnesses": [
                fn_harness("failures", "all wirings on <=4 variables and those of 3 methods on 5 x method orders x scripts x failing execution", fault_items, fault_run),
                fn_harness("invalid-requests", "all wirings on <=4 variables: every invalid request in every state of a script", unknown_items, unknown_run),
                fn_harness("long", "7 families with up to 5000 variables: chains, fans, trees, diamonds; methods added at once, deferred, and last first", long_items, patient(long_fault_run)),
                fn_harness("side-by-side", "two graphs over all wirings on <=3 (4) variables (<=2 inputs) and the deepest on 4, method objects of their own and shared; "
                           "all interleavings of pairs of histories of 2..4 operations", side_items, side_fault_run),
            ]},
    "C08": {"rule": "all operand pairs of a typed alphabet; all multi-methods within the bound; all networks of up to three supplied methods",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("binary", "addition and subtraction: all pairs of 26 values of 14 types, some of which cannot be compared", bin_items, bin_run),
                fn_harness("set-assign", "set and assignment methods: 26 values", one_items, one_run),
                fn_harness("multi", "all multi-methods with <=4 inputs (thorough: 5 inputs, 4 sets), each plain or one of 7 alternative sets, 4 result widths", multi_items, multi_run),
                fn_harness("many", "multi-methods with 30..1100 (3000) alternatives of one of three inputs, plain inputs with the text of a multi-valued one", big_multi_items, big_multi_run),
                fn_harness("sum-product", "sum/product networks over 64 alternative sets", sp_items, sp_run),
                fn_harness("alternatives", "all lists of <=2 (3) of 19 alternatives (unhashable, equal but different, missing, incomparable) x 4 containers x 5 input lists", alt_items, alt_run),
                fn_harness("constructible", "all output lists of <=3 plain or multi-valued variables", cons_items, cons_run),
                fn_harness("networks", "all networks of two and three supplied methods over two free variables x all orders of adding them", net_items, net_run),
            ]},
}
