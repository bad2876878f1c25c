"""C09, C10: constraint graphs and selection constraints."""
import itertools

import core
from core import expect, raises, fn_harness, BFS, System, Violation

from solver.geometry import Vector, is_clockwise, is_counterclockwise, is_obtuse, is_acute
from solver.geometric.constraint import (Constraint, PlusConstraint, FunctionConstraint, NotClockwiseConstraint,
                                         NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint,
                                         ConstraintGraph)

# --------------------------------------------------------------------------- C09

NAMES = core.Names(["aa", 0, None, -1, -2, "", 1.5, "0", core.Name(1), core.Name(2), frozenset(), "e", ("t", 1)])


class Own(Constraint):
    """A user-defined constraint that lists its variables itself."""

    def __init__(self, vs):
        self._mine = tuple(vs)

    def variables(self):
        return list(self._mine)

    def satisfied(self, mapping):
        return True

    def __str__(self):
        return "Own({0!r})".format(self._mine)


class Extended(FunctionConstraint):
    """A user-defined constraint that names one variable more than the one it is derived from."""

    def __init__(self, vs):
        super().__init__(lambda *a: True, vs[:-1])
        self._more = vs[-1:]

    def variables(self):
        return super().variables() + self._more


class Valued(Constraint):
    """A user-defined constraint with value equality: equal constraints are the same constraint."""

    def __init__(self, tag, vs):
        self.tag = tag
        self._variables = list(vs)

    def satisfied(self, mapping):
        return True

    def __eq__(self, other):
        return isinstance(other, Valued) and (self.tag, self._variables) == (other.tag, other._variables)

    def __hash__(self):
        return hash(self.tag)

    def __str__(self):
        return "Valued({0!r})".format(self.tag)


def make_constraint(spec):
    kind, vs = spec[0], [NAMES[i] for i in spec[1]]
    if kind == "plus":
        return PlusConstraint(*vs)
    if kind == "fn":
        return FunctionConstraint(lambda *a: True, vs)
    if kind == "ncw":
        return NotClockwiseConstraint(*vs)
    if kind == "nccw":
        return NotCounterClockwiseConstraint(*vs)
    if kind == "nob":
        return NotObtuseConstraint(*vs)
    if kind == "nac":
        return NotAcuteConstraint(*vs)
    if kind == "own":
        return Own(vs)
    if kind == "ext":
        return Extended(vs)
    if kind == "val":
        return Valued(spec[2], vs)
    raise AssertionError(spec)


class CGSys(System):
    def __init__(self, specs, nvars):
        self.specs = specs
        self.nvars = nvars
        self.cg = ConstraintGraph()
        self.cons = [make_constraint(s) for s in specs]
        self.names = {id(c): "c{0}".format(i) for i, c in enumerate(self.cons)}
        self.vars = []                 # model
        self.held = []                 # indices of the constraints in the graph, in order of arrival

    def enabled(self, op):
        return True

    def same(self, i):
        """The held constraint equal to constraint i (value-equal constraints are one)."""
        for j in self.held:
            if self.cons[j] == self.cons[i]:
                return j
        return None

    def cvars(self, i):
        return [NAMES[k] for k in self.specs[i][1]]

    def apply(self, op):
        k, x = op
        cg = self.cg
        if k == "av":
            cg.add_variable(NAMES[x])
            if NAMES[x] not in self.vars:
                self.vars.append(NAMES[x])
        elif k == "rv":
            cg.rem_variable(NAMES[x])
            if NAMES[x] in self.vars:
                self.vars.remove(NAMES[x])
                self.held = [i for i in self.held if NAMES[x] not in self.cvars(i)]
        elif k == "ac":
            cg.add_constraint(self.cons[x])
            if self.same(x) is None:
                self.held.append(x)
                for v in self.cvars(x):
                    if v not in self.vars:
                        self.vars.append(v)
        elif k == "rc":
            cg.rem_constraint(self.cons[x])
            j = self.same(x)
            if j is not None:
                self.held.remove(j)
        else:
            raise AssertionError(op)

    def ids(self, found, what):
        res = []
        for c in found:
            m = [j for j, d in enumerate(self.cons) if d is c]
            expect(m, "{0} lists something that was never added: {1!r}", what, c)
            res.append(m[0])
        expect(len(set(res)) == len(res), "{0} lists a constraint twice: {1}", what, res)
        return set(res)

    def on(self, v):
        return {i for i in self.held if v in self.cvars(i)}

    def tell(self):
        return "variables {0}, constraints {1}".format(self.vars, [self.specs[i] for i in self.held])

    def observe(self, back=False):
        cg = self.cg
        turn = reversed if back else list
        vs = list(cg.variables())
        expect(len(set(vs)) == len(vs) and set(vs) == set(self.vars), "variables() gives {0} ({1})", vs, self.tell())
        got = self.ids(cg.constraints(), "constraints()")
        expect(got == set(self.held), "constraints() gives {0} ({1})", got, self.tell())
        allv = NAMES[:self.nvars] + ["nowhere"]
        for v in turn(allv):
            r = cg.get_constraints_on(v)
            got = self.ids(r, "get_constraints_on")
            expect(got == self.on(v), "get_constraints_on({0!r}) gives {1} ({2})", v, got, self.tell())
            if isinstance(r, list):
                r.clear()          # the answer belongs to the caller
        seqs = [()] + [s for k in (1, 2) for s in itertools.product(allv, repeat=k)]
        seqs += list(itertools.combinations(allv[:-1], 3)) + [tuple(allv[:-1]), tuple(allv[::-1])]
        for s in turn(seqs):
            s = list(s)
            want_all = set.intersection(*[self.on(v) for v in s]) if s else set()
            want_any = set.union(*[self.on(v) for v in s]) if s else set()
            arg = list(s)
            got = self.ids(cg.get_constraints_on_all(arg), "get_constraints_on_all")
            expect(got == want_all, "get_constraints_on_all({0}) gives {1}, expected {2} ({3})", s, got, want_all, self.tell())
            got = self.ids(cg.get_constraints_on_any(arg), "get_constraints_on_any")
            expect(got == want_any, "get_constraints_on_any({0}) gives {1}, expected {2} ({3})", s, got, want_any, self.tell())
            expect(arg == s, "a query altered the list it was given")
        for i, c in enumerate(self.cons):
            r = c.variables()
            expect(list(r) == self.cvars(i), "variables of {0} are {1}", self.specs[i], r)
            if isinstance(r, list):
                r.append("x")

    def key(self):
        return (core.dump(self.cg, self.names, ordered=self.ordered), sorted(map(repr, self.vars)), sorted(self.held))

    ordered = False


class CGSysOrdered(CGSys):
    ordered = True

    def key(self):
        return (core.dump(self.cg, self.names, ordered=True), repr(self.vars), list(self.held))


MIX = [["plus", [0, 1, 2]], ["fn", [0]], ["ncw", [1, 2, 3]], ["own", []], ["val", [0, 3], "x"], ["val", [0, 3], "x"]]
MIX2 = [["nccw", [0, 1, 2]], ["nob", [0, 1, 2]], ["nac", [2, 1, 0]], ["fn", [1, 1, 2]], ["ext", [0, 2]]]
MIX5 = [["plus", [0, 1, 2]], ["fn", [0, 3]], ["ncw", [1, 2, 3]], ["own", []], ["val", [4, 3], "x"], ["val", [4, 3], "y"],
        ["nob", [2, 4, 0]]]


def cg_ops(specs, n):
    return [[k, i] for i in range(n) for k in ("av", "rv")] + [[k, i] for i in range(len(specs)) for k in ("ac", "rc")]


def cg_bfs(name, specs, n, cls, quick, thorough):
    return BFS(name, "operation histories over {0} variables and constraints {1}, depth {2} ({3} thorough) or closure".format(n, specs, quick, thorough),
               lambda: cls(specs, n), cg_ops(specs, n), {"quick": quick, "thorough": thorough}, cap_states=2000000, observe_prefix=False)


def run_ops(specs, n, ops, ctx):
    s = CGSys(specs, n)
    done = []
    try:
        for op in ops:
            done.append(op)
            s.apply(op)
            s.observe()
            ctx.step()
    except Violation as v:
        raise Violation("constraints {0}, history {1}: {2}".format(specs, done, v))
    ctx.trace()


def fam_items(tier):
    """Larger graphs: chains, stars, cliques of constraints over up to 9 (12) variables."""
    for n in range(3, 9 if tier == "quick" else 13):
        chain = [["plus", [i, i + 1, i + 2]] for i in range(n - 2)]
        star = [["fn", [0, i]] for i in range(1, n)]
        wide = [["own", list(range(k))] for k in range(n + 1)]
        dup = [["val", [i, (i + 1) % n], i % 2] for i in range(n)]
        for name, specs in (("chain", chain), ("star", star), ("wide", wide), ("values", dup), ("all", chain + star + wide)):
            for r in range(n):
                yield [name, n, specs, r]


def fam_run(item, ctx):
    name, n, specs, r = item
    k = len(specs)
    order = list(range(r % k, k)) + list(range(r % k))
    adds = [["ac", i] for i in order]
    run_ops(specs, n, [["av", r]] + adds + adds[:1] + [["rv", r], ["rv", r]] + adds[::-1] + [["rc", order[0]], ["rc", order[0]], ["rv", (r + 1) % n]] + adds, ctx)
    run_ops(specs, n, adds + [["rc", i] for i in order] + [["av", v] for v in range(n)] + [["rv", v] for v in range(n)], ctx)
    run_ops(specs, n, adds + [["rv", v] for v in range(n)] + adds, ctx)
    ctx.state()
    ctx.out(name)


def long_items(tier):
    for n in (60, 400) if tier == "quick" else (60, 400, 2000):
        for name in ("star", "wide", "chain"):
            yield [name, n]


def long_run(item, ctx):
    """Hundreds of variables and constraints: one variable in all of them, one constraint on all of them, a chain."""
    name, n = item
    if name == "star":
        named = [[0, i] for i in range(1, n)]
    elif name == "wide":
        named = [list(range(n)), list(range(n // 2)), list(range(n // 2, n)), [0, n - 1]]
    else:
        named = [[i, i + 1] for i in range(n - 1)]
    cons = [FunctionConstraint(max, vs) for vs in named]
    no = {id(c): i for i, c in enumerate(cons)}
    cg = ConstraintGraph()
    held, vs = [], []

    def add(i):
        cg.add_constraint(cons[i])
        if i not in heldset():
            held.append(i)
        known = set(vs)
        vs.extend(v for v in named[i] if v not in known)

    def heldset():
        return set(held)

    def check(what):
        got = list(cg.variables())
        expect(len(got) == len(vs) and set(got) == set(vs), "{0} of {1}, {2}: wrong variables", name, n, what)
        got = [no[id(c)] for c in cg.constraints()]
        expect(len(got) == len(held) and set(got) == set(held), "{0} of {1}, {2}: wrong constraints", name, n, what)
        on = {v: set() for v in range(n)}
        for i in held:
            for v in named[i]:
                on[v].add(i)
        for v in range(n):
            got = [no[id(c)] for c in cg.get_constraints_on(v)]
            expect(len(got) == len(on[v]) and set(got) == on[v], "{0} of {1}, {2}: wrong constraints on {3}", name, n, what, v)
        for a, b in ((0, 1), (n - 1, 0), (n // 2, n // 2 + 1), (1, n // 2)):
            al, an = cg.get_constraints_on_all([a, b]), cg.get_constraints_on_any([a, b])
            expect(len(al) == len(on[a] & on[b]) and {no[id(c)] for c in al} == on[a] & on[b], "{0} of {1}, {2}: wrong constraints on both {3} and {4}", name, n, what, a, b)
            expect(len(an) == len(on[a] | on[b]) and {no[id(c)] for c in an} == on[a] | on[b], "{0} of {1}, {2}: wrong constraints on {3} or {4}", name, n, what, a, b)
        al, an = cg.get_constraints_on_all(list(range(n))), cg.get_constraints_on_any(list(range(n)))
        expect({no[id(c)] for c in al} == set.intersection(*on.values()) and len(al) == len(set.intersection(*on.values())), "{0} of {1}, {2}: wrong constraints on all variables", name, n, what)
        expect({no[id(c)] for c in an} == set(held) and len(an) == len(held), "{0} of {1}, {2}: wrong constraints on any variable", name, n, what)
        ctx.step()

    for i in range(len(cons)):
        add(i)
    check("all added")
    for i in range(0, len(cons), 3):
        cg.rem_constraint(cons[i])
        held.remove(i)
    check("every third constraint removed")
    for v in (n // 2, n - 1, 0):
        cg.rem_variable(v)
        vs.remove(v)
        held[:] = [i for i in held if v not in named[i]]
        check("variable {0} removed".format(v))
    for i in reversed(range(len(cons))):
        add(i)
    check("all added again")
    ctx.state()
    ctx.trace()


def again_items(tier):
    for specs in (MIX, MIX2):
        for k in range(3):
            for held in itertools.permutations(range(len(specs)), k):
                yield [specs, list(held)]


def again_run(item, ctx):
    """Everything asked, one or two edits, everything asked in the opposite order: answers kept from before must not show."""
    specs, held = item
    ops = cg_ops(specs, 4)
    edits = [[e] for e in ops] + [list(e) for e in itertools.product(ops, repeat=2) if e[0] != e[1]]
    for edit in edits:
        s = CGSys(specs, 4)
        for i in held:
            s.apply(["ac", i])
        try:
            s.observe()
            kept = [(v, r, s.ids(r, "get_constraints_on")) for v in NAMES[:4] for r in [s.cg.get_constraints_on(v)]]
            kept += [(vs, r, s.ids(r, f.__name__)) for vs in (NAMES[:1], NAMES[:2], NAMES[1:4]) for f in (s.cg.get_constraints_on_all, s.cg.get_constraints_on_any) for r in [f(list(vs))]]
            for op in edit:
                s.apply(op)
            for v, r, was in kept:
                now = s.ids(r, "the constraints on {0!r}, returned earlier,".format(v))
                expect(now == was, "the constraints on {0!r}, returned earlier, became {1}, they were {2}", v, now, was)
            s.observe(back=True)
        except Violation as v:
            raise Violation("constraints {0}, {1} held and asked, then {2}: {3}".format(specs, held, edit, v))
        ctx.step(len(edit))
        ctx.trace()
    ctx.state()


# --------------------------------------------------------------------------- C10

KINDS = {"ncw": NotClockwiseConstraint, "nccw": NotCounterClockwiseConstraint, "nob": NotObtuseConstraint, "nac": NotAcuteConstraint}
# placements: (a + bi) * z / d + offset, with exact integers a, b, d
PLACES = [(1, 0, 1, 0, 0), (3, 4, 5, 0, 0), (-1, 0, 100, 7, -3), (0, 1000, 1, 0, 0), (1, 0, 8, 1000, 1000), (0, -1, 1, -3, 0.5), (1, 0, 1, 2.0 ** 30, -2.0 ** 31),
          (0, 1, 512, 2.0 ** 24, 2.0 ** 23)]


def verdicts(p, q, r):
    """Exact classification of an integer triplet: kinds whose constraint is violated."""
    ux, uy, vx, vy = q[0] - p[0], q[1] - p[1], r[0] - q[0], r[1] - q[1]
    cross = ux * vy - uy * vx
    bad = set()
    if cross < 0:
        bad.add("ncw")
    if cross > 0:
        bad.add("nccw")
    if (ux or uy) and (vx or vy):
        d = -(ux * vx + uy * vy)
        if d < 0:
            bad.add("nob")
        elif d > 0:
            bad.add("nac")
    return bad


def place(z, t):
    a, b, d, ox, oy = t
    return Vector((z[0] * a - z[1] * b) / d + ox, (z[0] * b + z[1] * a) / d + oy)


VARSETS = [("a", "b", "c"), (2, 1, 0), (("t",), "", -1), (-1, -2, None), (1, "1", (1,)), (core.Name(1), core.Name(2), core.Name(3))]


def tri_check(p, q, r, t, vs, ctx):
    bad = verdicts(p, q, r)
    pts = [place(z, t) for z in (p, q, r)]
    maps = [dict(zip(vs, pts)), dict(reversed(list(zip(vs, pts))))]
    maps[1]["other"] = Vector(5, 6)
    maps[1]["unrelated"] = None
    before = [(v.x, v.y) for v in pts]
    # the measures themselves as functions of a constraint
    for f, kind in ((is_clockwise, "ncw"), (is_counterclockwise, "nccw"), (is_obtuse, "nob"), (is_acute, "nac")):
        got = FunctionConstraint(f, vs).satisfied(maps[0])
        expect(got == (kind in bad), "FunctionConstraint({0}, {1}) on {2} is {3!r}, expected {4}", f.__name__, vs, pts, got, kind in bad)
    for kind, cls in KINDS.items():
        c = cls(*vs)
        for m in maps:
            got = c.satisfied(m)
            expect(got is (kind not in bad) or (got == (kind not in bad) and isinstance(got, bool)),
                   "{0}{1} on {2} is {3!r}, expected {4}", cls.__name__, vs, pts, got, kind not in bad)
        expect(list(c.variables()) == list(vs), "{0} lists {1}", cls.__name__, c.variables())
        ctx.step()
    expect([(v.x, v.y) for v in pts] == before and len(maps[0]) == 3 and len(maps[1]) == 5, "checking altered the mapping")


def lat_items(tier):
    n = 4 if tier == "quick" else 5
    pts = [[x, y] for x in range(n) for y in range(n)]
    for p in pts:
        for q in pts:
            yield [n, p, q]


def lat_run(item, ctx):
    n, p, q = item
    for x in range(n):
        for y in range(n):
            for k, t in enumerate(PLACES):
                tri_check(p, q, [x, y], t, VARSETS[(k + x) % len(VARSETS)], ctx)
            ctx.state()
            ctx.out("violates " + "+".join(sorted(verdicts(p, q, [x, y]))))
    ctx.trace()


FINE = [[0, 0], [1, 0], [0, 1], [2000, 0], [2000, 1], [1, 2000], [-1, 2000], [0, 2000], [1999, 2], [-2000, 1], [-2000, 0], [-1, -2000], [2001, 0], [2000, -1], [1000, 1]]


def fine_items(tier):
    for p in FINE:
        for q in FINE:
            yield [p, q]


def fine_run(item, ctx):
    """Nearly flat and nearly right triplets that are still far from the tolerance."""
    p, q = item
    for r in FINE:
        a, b = (p[0] - q[0], p[1] - q[1]), (r[0] - q[0], r[1] - q[1])
        dot, sq = abs(a[0] * b[0] + a[1] * b[1]), (a[0] ** 2 + a[1] ** 2) * (b[0] ** 2 + b[1] ** 2)
        if dot and dot * dot * 10 ** 8 < 4 * sq:
            ctx.out("closer to right than 2e-4: left open")
            continue
        for t in ((1, 0, 1, 0, 0), (0, 1, 2, 0, 0), (-1, 0, 50, 3, 4)):
            tri_check(p, q, r, t, VARSETS[0], ctx)
        ctx.state()
    ctx.trace()


def repeat_items(tier):
    for vs in itertools.product("ab", repeat=3):
        yield list(vs)


def repeat_run(item, ctx):
    """A variable may be named more than once."""
    for a in itertools.product(range(3), repeat=2):
        for b in itertools.product(range(3), repeat=2):
            m = {"a": a, "b": b}
            bad = verdicts(*[m[v] for v in item])
            pts = {v: Vector(*m[v]) for v in m}
            for kind, cls in KINDS.items():
                got = cls(*item).satisfied(pts)
                expect(got == (kind not in bad), "{0}{1} on {2} is {3!r}", cls.__name__, item, pts, got)
                ctx.step()
    ctx.state()
    ctx.trace()


RETURNS = [True, False, None, 0, 1, 1.0, "yes", "", 2, [1], (True,), {}, "True"]


def fun_items(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for perm in itertools.permutations(range(4), n):
            yield list(perm)
    for n in (2, 3, 4):
        for rep in itertools.product(range(3), repeat=n):
            if len(set(rep)) < n:
                yield list(rep)
    for n in range(4, 8 if tier == "quick" else 9):
        yield list(range(n))
        yield list(range(n))[::-1]
        yield list(range(n))[::2] + list(range(n))[1::2]


def fun_run(item, ctx):
    """Arguments arrive in the declared order; only True satisfies; errors of the function reach the caller."""
    vs = [NAMES[i] for i in item]
    there = [3, 1, 0, 2, 5] + [i for i in item if i > 3 and i != 5]
    for r in RETURNS:
        seen = []

        def f(*args):
            seen.append(args)
            return r
        for name in (None, "own name"):
            declared = list(vs)
            c = FunctionConstraint(f, declared) if name is None else FunctionConstraint(f, declared, name=name)
            declared.append("later")
            m = {NAMES[i]: ["value", i] for i in there}
            del seen[:]
            got = c.satisfied(m)
            expect(got is (r is True), "FunctionConstraint whose function returns {0!r} gives {1!r}", r, got)
            expect(seen and all(s == tuple(["value", i] for i in item) for s in seen), "the function was called with {0}, expected the values of {1}", seen, vs)
            expect(m == {NAMES[i]: ["value", i] for i in there}, "checking altered the mapping")
            expect(list(c.variables()) == vs, "variables() gives {0}, expected {1}", c.variables(), vs)
            for value in (None, 0, "", False):
                del seen[:]
                got = c.satisfied({NAMES[i]: value for i in there})
                expect(got is (r is True) and seen and all(len(s) == len(vs) and all(x is value for x in s) for s in seen),
                       "FunctionConstraint whose function returns {0!r} gives {1!r} when all values are {2!r}", r, got, value)
            ctx.step(5)
    # a mapping that lacks a variable does not satisfy
    for v in vs:
        m = {NAMES[i]: 1 for i in there if NAMES[i] != v}
        for c in (FunctionConstraint(lambda *a: True, vs), FunctionConstraint(lambda *a: len(a) == len(vs), vs)):
            try:
                got = c.satisfied(m)
            except Exception:
                got = None
            expect(not got, "FunctionConstraint on {0} is satisfied by {1}, where {2!r} is missing", vs, m, v)
            ctx.step()
    # decided by the values
    g = FunctionConstraint(lambda *a: list(a) == sorted(a), vs)
    for vals in itertools.product(range(3), repeat=len(set(item))):
        m = dict(zip([NAMES[i] for i in sorted(set(item))], vals))
        want = [m[v] for v in vs] == sorted(m[v] for v in vs)
        for _ in range(2):
            expect(g.satisfied(dict(m)) is want, "ordered{0} on {1} is not {2}", vs, m, want)
        ctx.step()
    ctx.state()
    ctx.trace()


SUMMANDS = [0, 1, -1, 2, 0.5, 2 ** 70, "", "a", "aa", "ab", [], [1], [1, 1], (), (1,), Vector(0, 0), Vector(1, 2), Vector(2, 4)]


def sum_items(tier):
    for vs in itertools.product(range(3), repeat=3):
        yield list(vs)


def sum_run(item, ctx):
    """The first two values add up to the third, for values of every kind that can be added."""
    vs = [NAMES[i] for i in item]
    c = PlusConstraint(*vs)
    used = sorted(set(item))
    for vals in itertools.product(SUMMANDS, repeat=len(used)):
        if len({type(v) if not isinstance(v, (int, float)) else int for v in vals}) > 1:
            continue
        m = dict(zip([NAMES[i] for i in used], vals))
        want = m[vs[0]] + m[vs[1]] == m[vs[2]]
        for k, mm in enumerate((m, dict(reversed(list(m.items())), unrelated=None, other=7))):
            before = [(a, repr(b)) for a, b in mm.items()]
            got = c.satisfied(mm)
            expect(bool(got) == want, "PlusConstraint{0} on {1} is {2!r}, expected {3}", vs, mm, got, want)
            expect([(a, repr(b)) for a, b in mm.items()] == before, "checking altered the mapping")
            ctx.step()
    for v in set(vs):
        for e in (0, "", None):
            m = {w: e for w in vs if w != v}
            try:
                got = c.satisfied(m)
            except Exception:
                got = None
            expect(not got, "PlusConstraint{0} is satisfied by {1}, where {2!r} is missing", vs, m, v)
            ctx.step()
    expect(list(c.variables()) == vs, "variables() gives {0}, expected {1}", c.variables(), vs)
    ctx.state()
    ctx.trace()


def seq_items(tier):
    for kind in list(KINDS) + ["fn", "plus"]:
        for k in range(4):
            yield [kind, k]


def seq_run(item, ctx):
    """One constraint object asked again and again while the points move (also in place)."""
    kind, k = item
    vs = VARSETS[k]
    if kind in ("fn", "plus"):
        c = FunctionConstraint(lambda x, y, z: x < y < z, vs) if kind == "fn" else PlusConstraint(*vs)
        m = {}
        for trip in itertools.product((0, 1, 2), repeat=3):
            want = trip[0] < trip[1] < trip[2] if kind == "fn" else trip[0] + trip[1] == trip[2]
            for v, z in zip(vs, trip):
                m[v] = z
            expect(bool(c.satisfied(m)) == want, "{0}{1}: after changing the values in the mapping to {2} the answer is not {3}", kind, vs, trip, want)
            ctx.step()
        if kind == "fn":
            # functions that ask this very constraint and others about other mappings
            low = FunctionConstraint(lambda z, x: z > x, [vs[2], vs[0]])
            add = PlusConstraint(*vs)

            def fun(*args):
                calls.append(args)
                x, y, z = args
                if z > 0 and c.satisfied(dict(zip(vs, (x, y, z - 1)))) is not (x > y):
                    return None
                if low.satisfied(dict(zip(vs, (y, x, z)))) is not (z > y) or add.satisfied(dict(zip(vs, (z, y, x)))) is not (z + y == x):
                    return None
                return x > y
            c = FunctionConstraint(fun, vs)
            for trip in itertools.product((0, 1, 2), repeat=3):
                calls = []
                m = dict(zip(vs, trip))
                expect(c.satisfied(m) is (trip[0] > trip[1]) and calls == [trip[:2] + (z,) for z in range(trip[2], -1, -1)] and m == dict(zip(vs, trip)),
                       "fn{0}: a function that asks its own constraint again, on {1}: the answer is not {2}, or it was called with {3}", vs, trip, trip[0] > trip[1], calls)
                ctx.step()
        ctx.state()
        ctx.trace()
        return
    c = KINDS[kind](*vs)
    m = {v: Vector(0, 0) for v in vs}
    for trip in itertools.permutations([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)], 3):
        for v, z in zip(vs, trip):
            m[v].x, m[v].y = z
        expect(c.satisfied(m) == (kind not in verdicts(*trip)), "{0}{1}: after moving the points of the same mapping to {2} the answer is wrong", kind, vs, trip)
        ctx.step()
    for trip in itertools.permutations([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)], 3):
        for v, z in zip(vs, trip):
            m[v] = Vector(*z)
        expect(c.satisfied(m) == (kind not in verdicts(*trip)), "{0}{1}: after other points were put into the same mapping ({2}) the answer is wrong", kind, vs, trip)
        ctx.step()
    c = KINDS[kind](*vs)
    pts = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)]
    m = {v: Vector(0, 0) for v in vs}
    for trip in itertools.permutations(pts, 3):
        want = kind not in verdicts(*trip)
        for v, z in zip(vs, trip):
            m[v].x, m[v].y = z
        expect(c.satisfied(m) == want, "{0}{1}: after moving the points to {2} the answer is not {3}", kind, vs, trip, want)
        m2 = dict(zip(vs, [Vector(*z) for z in trip]))
        expect(c.satisfied(m2) == want, "{0}{1}: on {2} the answer is not {3}", kind, vs, trip, want)
        ctx.step(2)
    ctx.state()
    ctx.trace()


CHECKS = {
    "C09": {"rule": "all reachable states of a constraint graph over the alphabet (closure, or ordered histories to a depth); every query over all variables, "
                    "pairs, triples and the whole set compared with sets",
            "assumptions": ["constraints are immutable and hashable, as documented; variables are hashable names and distinct from the constraints"],
            "harnesses": [
                cg_bfs("mixed", MIX, 4, CGSys, 12, 12),
                cg_bfs("selection", MIX2, 3, CGSys, 12, 12),
                cg_bfs("five", MIX5, 5, CGSys, 4, 16),
                core.endurance("endurance", "one graph through histories of 2500 (30000) operations that hold every ordered pair of operations, with and without removals",
                               [cg_bfs("", MIX5, 5, CGSys, 0, 0), cg_bfs("", MIX2, 3, CGSys, 0, 0)], length=(2500, 30000), calm=lambda op: op[0] in ("av", "ac")),
                cg_bfs("ordered", MIX2, 3, CGSysOrdered, 4, 6),
                cg_bfs("ordered-mixed", MIX, 4, CGSysOrdered, 3, 5),
                fn_harness("families", "chains, stars, nested and value-equal constraints over up to 8 (12) variables, all removal positions", fam_items, fam_run),
                fn_harness("long", "60 and 400 (2000) variables: one variable in all constraints, one constraint on all variables, a chain", long_items, long_run),
                fn_harness("asked-again", "up to 2 of 6 (5) constraints held: every query, all edit sequences of length <=2, every query in the opposite order", again_items, again_run),
            ]},
    "C10": {"rule": "all triplets of a lattice under six placements x four constraints x mapping orders, against exact integer products",
            "assumptions": ["coordinates differ by much more than the absolute tolerance or not at all",
                            "functions used in function constraints are deterministic"],
            "harnesses": [
                fn_harness("lattice", "all triplets of the 4x4 (5x5) lattice, six placements (rotation, scale 0.01..1000, offset), four name sets", lat_items, lat_run),
                fn_harness("fine", "all triplets of 15 points giving angles within 5e-4 of flat and right", fine_items, fine_run),
                fn_harness("repeated", "all namings of three places by two variables x 81 positions", repeat_items, repeat_run),
                fn_harness("sums", "all choices of 3 from 3 variables with repetition x all values of one kind out of 18", sum_items, sum_run),
                fn_harness("functions", "all ordered choices of <=3 (4) of 4 variables, all repetitions of 3 variables in lists of <=4, lists of <=7 (8) x 11 return values, all value assignments over 3 values", fun_items, fun_run),
                fn_harness("reuse", "one constraint object asked on all permutations of five points in sequence", seq_items, seq_run),
            ]},
}
