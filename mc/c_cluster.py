"""C11-C14: clusters and relations."""
import itertools
import math

import core
from core import expect, raises, fn_harness, Violation

from solver.geometric.cluster import Cluster, Rigid, Hedgehog, Balloon
from solver.geometric.relation import Distance, Angle

# the same structures under different names: falsy values, equal hashes (-1 and -2), mixed types
NAMINGS = [["a", "b", "c", "d", "e", "f", "g"],
           [0, -1, -2, "", None, ("t", 0), 7],
           [frozenset([1]), (1, 2), "x", 2.5, b"y", True, -1],
           core.Names([core.Name(1), core.Name(2), core.Name(3), (1, 2), "(1, 2)", 1000, "1000"])]

INTS, FLOATS = list(range(7)), [float(i) for i in range(7)]


def subs(xs, lo, hi=99):
    return [tuple(c) for k in range(lo, min(hi, len(xs)) + 1) for c in itertools.combinations(xs, k)]


def all_specs(n, rigid_from=0):
    """Every cluster over n variables: ["R", vars], ["B", vars], ["H", centre, others]."""
    vs = list(range(n))
    res = [["R", None, list(s)] for s in subs(vs, rigid_from)]
    res += [["B", None, list(s)] for s in subs(vs, 3)]
    for c in vs:
        res += [["H", c, list(s)] for s in subs([v for v in vs if v != c], 2)]
    return res


def make(spec, names, how=0):
    kind, c, xs = spec
    arg = [names[x] for x in xs]
    if how == 1:
        arg = arg[::-1] + arg
    elif how == 2:
        arg = (x for x in list(arg))
    if kind == "R":
        return Rigid(arg)
    if kind == "B":
        return Balloon(arg)
    return Hedgehog(names[c], arg)


class OwnRigid(Rigid):
    pretty_name = "Body"


class OwnBalloon(Balloon):
    pretty_name = "own"


class OwnHedgehog(Hedgehog):
    pretty_name = "Rigid"


class Deeper(OwnRigid):
    pass


def make_own(spec, names):
    """The same cluster as an object of a subclass."""
    kind, c, xs = spec
    arg = [names[x] for x in xs]
    if kind == "R":
        return (Deeper if len(arg) % 2 else OwnRigid)(arg)
    return OwnBalloon(arg) if kind == "B" else OwnHedgehog(names[c], arg)


def dset(spec):
    return {frozenset(p) for p in itertools.combinations(spec[2], 2)} if spec[0] == "R" else set()


def aset(spec):
    kind, c, xs = spec
    if kind == "H":
        return {(c, frozenset(p)) for p in itertools.combinations(xs, 2)}
    return {(v, frozenset(p)) for v in xs for p in itertools.combinations([x for x in xs if x != v], 2)}


def show(spec, names):
    vs = [names[x] for x in spec[2]]
    return {"R": "Rigid({0})", "B": "Balloon({0})", "H": "Hedgehog({1!r}, {0})"}[spec[0]].format(vs, None if spec[1] is None else names[spec[1]])


def exact_spec(D, A):
    """The cluster whose distances and angles are D and A (None if there are none)."""
    if not D and not A:
        return None
    vs = set().union(*D) if D else set().union(*[e | {v} for v, e in A])
    centres = {v for v, _ in A}
    if D:
        s = ["R", None, sorted(vs)]
    elif len(centres) == 1:
        c = next(iter(centres))
        s = ["H", c, sorted(vs - {c})]
    else:
        s = ["B", None, sorted(vs)]
    assert dset(s) == D and aset(s) == A, (D, A)
    return s


def snapshot(c):
    r = (type(c), frozenset(c.vars), c.overconstrained)
    if isinstance(c, Hedgehog):
        r += (c.c_var, frozenset(c.x_vars))
    return r


def as_spec(c, names):
    """Reads a cluster back through its attributes."""
    inv = {n: i for i, n in enumerate(names)}
    expect(isinstance(c, (Rigid, Balloon, Hedgehog)), "the intersection is {0!r}", c)
    vs = sorted(inv[v] for v in c.vars)
    listed = c.var_list()
    expect(len(listed) == len(c.vars) and set(listed) == set(c.vars), "{0}: var_list() gives {1} but vars are {2}", type(c).__name__, listed, c.vars)
    if isinstance(c, Hedgehog):
        expect(set(c.x_vars) | {c.c_var} == set(c.vars) and c.c_var not in c.x_vars, "hedgehog with centre {0!r}, others {1}, vars {2}", c.c_var, c.x_vars, c.vars)
        return ["H", inv[c.c_var], sorted(inv[v] for v in c.x_vars)]
    return ["R" if isinstance(c, Rigid) else "B", None, vs]


def check_intersection(a, b, sa, sb, names, ctx):
    want = exact_spec(dset(sa) & dset(sb), aset(sa) & aset(sb))
    before = snapshot(a), snapshot(b)
    r = a.intersection(b)
    expect((snapshot(a), snapshot(b)) == before, "intersecting {0} with {1} altered one of them", show(sa, names), show(sb, names))
    if want is None:
        expect(r is None, "intersection of {0} and {1}, which share nothing, is {2}", show(sa, names), show(sb, names), r and show(as_spec(r, names), names))
    else:
        expect(r is not None, "intersection of {0} and {1} is missing, expected {2}", show(sa, names), show(sb, names), show(want, names))
        got = as_spec(r, names)
        expect(got == want, "intersection of {0} and {1} is {2}, expected {3}", show(sa, names), show(sb, names), show(got, names), show(want, names))
    ctx.step()
    return r, want


def pair_items(tier):
    n = 6 if tier == "quick" else 7
    for s in all_specs(n):
        yield [n, s]


def inter_run(item, ctx):
    n, sa = item
    for sb in all_specs(n):
        for k, names in enumerate(NAMINGS):
            a, b = make(sa, names, k), make(sb, names, (k + 1) % 3)
            r, want = check_intersection(a, b, sa, sb, names, ctx)
            if k == 1:
                check_intersection(b, a, sb, sa, names, ctx)
                check_intersection(a, b, sa, sb, names, ctx)
                if r is not None:
                    check_intersection(a, r, sa, want, names, ctx)
                    check_intersection(r, b, want, sb, names, ctx)
                    # neither does a mark make the order matter
                    for ma, mb in ((True, False), (False, True), (True, True)):
                        a.overconstrained, b.overconstrained = ma, mb
                        one, two = a.intersection(b), b.intersection(a)
                        expect(one is not None and two is not None and one.overconstrained == two.overconstrained, "intersection of {0} (marked {1}) and {2} (marked {3}) depends on their order",
                               show(sa, names), ma, show(sb, names), mb)
        ctx.state()
        ctx.out("{0}{1} -> {2}".format(sa[0], sb[0], want and want[0]))
        check_intersection(make(sa, INTS), make(sb, FLOATS, 2), sa, sb, INTS, ctx)
    for names in NAMINGS:
        a = make(sa, names)
        check_intersection(a, a, sa, sa, names, ctx)
    ctx.trace()


def reuse_items(tier):
    n = 5 if tier == "quick" else 6
    for s in all_specs(n):
        for how in range(3):
            yield [n, s, how]


def reuse_run(item, ctx, common=False):
    """One cluster asked about all others in turn, each of which is gone when the next one comes."""
    n, sa, how = item
    names = NAMINGS[how % len(NAMINGS)]
    specs = all_specs(n)
    if how == 1:
        specs.reverse()
    elif how == 2:
        specs.sort(key=lambda s: (len(s[2]), s[2], str(s[1])))
    a = make(sa, names)
    for sb in specs:
        for turn in (0, 1):
            b = make(sb, names)
            # whether clusters are marked as overconstrained does not matter
            a.overconstrained, b.overconstrained = how == 1 and turn == 1, how > 0
            x, y, sx, sy = (a, b, sa, sb) if turn == 0 else (b, a, sb, sa)
            if common:
                check_common(x, y, sx, sy, names, ctx, again=False)
            else:
                r, _ = check_intersection(x, y, sx, sy, names, ctx)
                if r is not None:
                    # the result is the caller's, and no part of the clusters
                    before = snapshot(a), snapshot(b)
                    r.overconstrained = not (a.overconstrained and b.overconstrained)
                    for vs in (r.vars, getattr(r, "x_vars", None)):
                        if hasattr(vs, "clear"):
                            vs.clear()
                    expect((snapshot(a), snapshot(b)) == before, "altering the intersection of {0} and {1} alters one of them", show(sx, names), show(sy, names))
            del b, x, y
        ctx.state()
    if common:
        counts(a, sa, names, ctx)
    ctx.trace()


def reuse_common_run(item, ctx):
    reuse_run(item, ctx, True)


def altered_items(tier):
    n = 4 if tier == "quick" else 5
    for sa in all_specs(n):
        for sb in all_specs(n):
            yield [n, sa, sb]


def alter(c, spec, names):
    """Changes the variables of a cluster in place (a hedgehog keeps its centre)."""
    xs = {names[x] for x in spec[2]}
    if isinstance(c, Hedgehog):
        c.x_vars.clear()
        c.x_vars.update(xs)
        xs = xs | {c.c_var}
    c.vars.clear()
    c.vars.update(xs)


def altered_run(item, ctx, ask=None):
    """Asked, one of the two altered, asked again: the answer is that for the clusters as they are now."""
    n, sa, sb = item
    names = NAMINGS[1]
    ask = ask or check_intersection
    for sc in all_specs(n):
        if sc[:2] != sb[:2] or sc[2] == sb[2]:
            continue
        for turn in (0, 1):
            a, b = make(sa, names), make(sb, names)

            def pose(s):
                ask(*((a, b, sa, s) if turn == 0 else (b, a, s, sa)), names, ctx)
            pose(sb)
            alter(b, sc, names)
            pose(sc)
            alter(b, sb, names)
            pose(sb)
            ctx.trace()
    ctx.state()


def altered_common_run(item, ctx):
    def ask(a, b, sa, sb, names, ctx):
        D, A = dset(sa) & dset(sb), aset(sa) & aset(sb)
        got = read(a.common_constraints(b), names, "common_constraints")
        expect(got == (D, A), "after an alteration the common constraints of {0} and {1} are {2}, expected {3}", show(sa, names), show(sb, names), got, (D, A))
        check_common(a, b, sa, sb, names, ctx, again=False)
    altered_run(item, ctx, ask)


def altered_count_items(tier):
    n = 5 if tier == "quick" else 6
    for sa in all_specs(n):
        yield [n, sa]


def altered_count_run(item, ctx):
    n, sa = item
    names = NAMINGS[1]
    for sc in all_specs(n):
        if sc[:2] == sa[:2] and sc[2] != sa[2]:
            a = make(sa, names)
            for s in (sa, sc, sa):
                alter(a, s, names)
                counts(a, s, names, ctx)
            ctx.trace()
    ctx.state()


def own_items(tier):
    n = 5
    for sa in all_specs(n):
        for sb in all_specs(n):
            yield [sa, sb]


def own_run(item, ctx, common=False):
    """Clusters of subclasses of the three kinds, on either side and on both."""
    sa, sb = item
    names = NAMINGS[1]
    for a in (make(sa, names), make_own(sa, names)):
        for b in (make(sb, names), make_own(sb, names)):
            if common:
                check_common(a, b, sa, sb, names, ctx, again=False)
                counts(a, sa, names, ctx)
            else:
                check_intersection(a, b, sa, sb, names, ctx)
    ctx.state()
    ctx.trace()


def own_common_run(item, ctx):
    own_run(item, ctx, True)


def triple_items(tier):
    n = 5
    for sa in all_specs(n, 2):
        yield [n, sa]


def triple_run(item, ctx):
    """Intersections of intersections: (A & B) & C and A & (B & C) are what all three share; the first three stay as they were."""
    n, sa = item
    names = NAMINGS[1]
    specs = all_specs(n, 2)
    for sb in specs:
        for sc in specs:
            cl = [make(s, names) for s in (sa, sb, sc)]
            before = [snapshot(c) for c in cl]
            D, A = dset(sa) & dset(sb) & dset(sc), aset(sa) & aset(sb) & aset(sc)
            want = exact_spec(D, A)
            for x, y, z in ((0, 1, 2), (1, 2, 0)):
                r = cl[x].intersection(cl[y])
                r = r.intersection(cl[z]) if r is not None else None
                got = as_spec(r, names) if r is not None else None
                expect(got == want, "intersection of {0} is {1}, expected {2}", [show(s, names) for s in (sa, sb, sc)], got, want)
                ctx.step(2)
            expect([snapshot(c) for c in cl] == before, "intersecting altered one of {0}", [show(s, names) for s in (sa, sb, sc)])
            ctx.state()
    ctx.trace()


def big_pairs(tier):
    """Large clusters: every overlap size, centre shared or not."""
    sizes = (3, 4, 8, 20, 33) if tier == "quick" else (3, 4, 8, 20, 33, 64)
    for na in sizes:
        for nb in sizes:
            for sh in sorted({0, 1, 2, 3, min(na, nb) - 1, min(na, nb)}):
                yield [na, nb, sh]


def big_specs(na, nb, sh):
    A, B = list(range(na)), list(range(na - sh, na - sh + nb))
    mk = lambda X: [["R", None, X], ["B", None, X], ["H", X[0], X[1:]], ["H", X[-1], X[:-1]], ["H", X[len(X) // 2], X[:len(X) // 2] + X[len(X) // 2 + 1:]]]
    return mk(A), mk(B), list(range(na + nb))


def big_inter_run(item, ctx):
    la, lb, ids = big_specs(*item)
    for names in (["v{0}".format(i) for i in ids], ids):
        for sa in la:
            for sb in lb:
                check_intersection(make(sa, names), make(sb, names), sa, sb, names, ctx)
                check_intersection(make(sb, names), make(sa, names), sb, sa, names, ctx)
    ctx.state()
    ctx.trace()


def create_items(tier):
    for n in range(0, 5):
        for xs in itertools.product(range(4), repeat=n):
            yield list(xs)


def create_run(item, ctx):
    """Which hedgehogs and balloons exist: at least three distinct variables, whatever the form of the list."""
    for names in NAMINGS:
        vs = [names[x] for x in item]
        for form in (list, tuple, set, iter):
            e = raises(Balloon, form(vs))
            if len(set(vs)) < 3:
                expect(isinstance(e, ValueError), "Balloon({0}) is not refused with ValueError: {1!r}", vs, e)
            else:
                expect(e is None, "Balloon({0}) is refused: {1!r}", vs, e)
                expect(as_spec(Balloon(form(vs)), names) == ["B", None, sorted(set(item))], "Balloon({0}) has other variables", vs)
            for c in range(4):
                e = raises(Hedgehog, names[c], form(vs))
                xs = set(item) - {c}
                if len(xs) < 2:
                    expect(isinstance(e, ValueError), "Hedgehog({0!r}, {1}) is not refused with ValueError: {2!r}", names[c], vs, e)
                else:
                    expect(e is None, "Hedgehog({0!r}, {1}) is refused: {2!r}", names[c], vs, e)
                    expect(as_spec(Hedgehog(names[c], form(vs)), names) == ["H", c, sorted(xs)], "Hedgehog({0!r}, {1}) has other variables", names[c], vs)
                ctx.step()
            e = raises(Rigid, form(vs))
            expect(e is None and as_spec(Rigid(form(vs)), names) == ["R", None, sorted(set(item))], "Rigid({0}): {1!r}", vs, e)
            ctx.step(2)
        # the list a cluster was made from belongs to the caller
        if len(set(item) - {0}) >= 2:
            arg = list(vs)
            cl = [Rigid(arg), Balloon(arg) if len(set(vs)) > 2 else None, Hedgehog(names[0], arg)]
            sarg = set(vs)
            cl += [Rigid(sarg), Balloon(sarg) if len(set(vs)) > 2 else None, Hedgehog(names[0], sarg)]
            before = [snapshot(c) for c in cl if c]
            arg.clear()
            sarg.add("later")
            expect([snapshot(c) for c in cl if c] == before, "a cluster changes with the collection it was made from")
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C12, C13

def read(rels, names, what):
    """Distances and angles of a collection, each once."""
    inv = {n: i for i, n in enumerate(names)}
    D, A = set(), set()
    n = 0
    for r in rels:
        n += 1
        if isinstance(r, Distance):
            p = [inv[x] for x in r.points]
            expect(len(p) == 2, "{0} lists a distance between {1}", what, r.points)
            D.add(frozenset(p))
        else:
            expect(isinstance(r, Angle), "{0} lists {1!r}", what, r)
            p = [inv[x] for x in r.points]
            expect(len(p) == 3, "{0} lists an angle of {1}", what, r.points)
            A.add((p[1], frozenset((p[0], p[2]))))
    expect(n == len(D) + len(A), "{0} lists a relation twice: {1}", what, [(type(r).__name__, r.points) for r in rels])
    return D, A


def check_common(a, b, sa, sb, names, ctx, again=True):
    D, A = dset(sa) & dset(sb), aset(sa) & aset(sb)
    before = snapshot(a), snapshot(b)
    txt = show(sa, names), show(sb, names)
    for rep in range(2 if again else 1):
        cd, ca, cc = a.common_distances(b), a.common_angles(b), a.common_constraints(b)
        what = "common_{0} of {1} and {2}"
        got = read(cd, names, what.format("distances", *txt))
        expect(got == (D, set()), "common distances of {0} and {1} are {2}, expected {3}", txt[0], txt[1], got, D)
        got = read(ca, names, what.format("angles", *txt))
        expect(got == (set(), A), "common angles of {0} and {1} are {2}, expected {3}", txt[0], txt[1], got, A)
        got = read(cc, names, what.format("constraints", *txt))
        expect(got == (D, A), "common constraints of {0} and {1} are {2}, expected {3}", txt[0], txt[1], got, (D, A))
        if rep == 0:
            for d in D:
                x, y = sorted(d)
                expect(Distance(names[x], names[y]) in cd and Distance(names[y], names[x]) in cc, "common distances of {0} and {1} do not contain {2}", txt[0], txt[1], d)
            for v, e in A:
                x, y = sorted(e)
                expect(Angle(names[x], names[v], names[y]) in ca and Angle(names[y], names[v], names[x]) in cc, "common angles of {0} and {1} do not contain {2}", txt[0], txt[1], (v, e))
            # the answers belong to the caller
            for s in (cd, ca, cc):
                if hasattr(s, "clear"):
                    s.clear()
        ctx.step(3)
    expect((snapshot(a), snapshot(b)) == before, "asking for common constraints of {0} and {1} altered one of them", *txt)


def common_items(tier):
    n = 6 if tier == "quick" else 7
    for s in all_specs(n):
        yield [n, s]


def common_run(item, ctx):
    n, sa = item
    for sb in all_specs(n):
        for k, names in enumerate(NAMINGS):
            a, b = make(sa, names, k), make(sb, names, (k + 1) % 3)
            check_common(a, b, sa, sb, names, ctx, again=(k == 0))
            if k == 1:
                check_common(b, a, sb, sa, names, ctx, again=False)
        ctx.state()
        ctx.out(sa[0] + sb[0])
        check_common(make(sa, INTS), make(sb, FLOATS, 2), sa, sb, INTS, ctx, again=False)
    for names in NAMINGS:
        a = make(sa, names)
        check_common(a, a, sa, sa, names, ctx)
    ctx.trace()


def big_common_run(item, ctx):
    la, lb, ids = big_specs(*item)
    for names in (["v{0}".format(i) for i in ids], ids):
        for sa in la:
            for sb in lb:
                check_common(make(sa, names), make(sb, names), sa, sb, names, ctx, again=False)
    ctx.state()
    ctx.trace()


def wide_items(tier):
    for n in (18, 33, 41, 65, 101, 130) + ((260, 400) if tier == "thorough" else ()):
        yield n


def wide_run(n, ctx):
    """Kinds of pairs whose number of common constraints is only quadratic in their size."""
    names = ["v{0}".format(i) for i in range(n + 4)]
    whole, left, right = list(range(n)), list(range(n - 2)), list(range(1, n + 3))
    for sa, sb in ((["R", None, whole], ["R", None, left]), (["R", None, right], ["R", None, whole])):
        a, b = make(sa, names), make(sb, names)
        for x, y in ((a, b), (b, a)):
            got = read(x.common_distances(y), names, "common_distances of large rigids")
            expect(got == (dset(sa) & dset(sb), set()), "{0} and {1} have {2} common distances, expected {3}", show(sa, names), show(sb, names), len(got[0]), len(dset(sa) & dset(sb)))
            ctx.step()
    for c, outer in ((0, whole[1:]), (n - 1, whole[:-1]), (n // 2, whole[:n // 2] + whole[n // 2 + 1:])):
        h = ["H", c, outer]
        for other in (["H", c, outer[:-1]], ["R", None, left + [n - 1]], ["B", None, left + [n - 1]], ["R", None, right], ["H", outer[0], outer[1:] + [c]]):
            sh = set(h[2]) & (set(other[2]) - {other[1]})
            D, A = set(), set()
            if other[0] == "H" and other[1] == c or other[0] != "H" and c in other[2]:
                A = {(c, frozenset(p)) for p in itertools.combinations(sorted(sh - {c}), 2)}
            a, b = make(h, names), make(other, names)
            for x, y in ((a, b), (b, a)):
                got = read(x.common_constraints(y), names, "common_constraints of large clusters")
                expect(got == (D, A), "{0} and {1} have {2} common angles, expected {3}", show(h, names), show(other, names), len(got[1]), len(A))
                ctx.step()
    ctx.state()
    ctx.trace()


def big_common_items(tier):
    sizes = (3, 4, 7, 12, 17) if tier == "quick" else (3, 4, 7, 12, 20, 26)
    for na in sizes:
        for nb in sizes:
            for sh in sorted({0, 1, 2, 3, min(na, nb) - 1, min(na, nb)}):
                yield [na, nb, sh]


def derived_items(tier):
    n = 5 if tier == "quick" else 6
    for s in all_specs(n, 2):
        yield [n, s]


def derived_run(item, ctx):
    """Common constraints of intersections, after the clusters were used for other questions."""
    n, sa = item
    names = NAMINGS[0]
    for sb in all_specs(n, 2):
        a, b = make(sa, names), make(sb, names)
        a.n_constraints()
        r, want = check_intersection(a, b, sa, sb, names, ctx)
        check_common(a, b, sa, sb, names, ctx, again=False)
        if r is not None:
            check_common(r, a, want, sa, names, ctx, again=False)
            check_common(b, r, sb, want, names, ctx, again=False)
            counts(r, want, names, ctx)
        a.overconstrained = True
        check_common(a, b, sa, sb, names, ctx, again=False)
        ctx.state()
    ctx.trace()


def counts(c, spec, names, ctx):
    nd, na = len(dset(spec)), len(aset(spec))
    got = c.n_distances(), c.n_angles(), c.n_constraints()
    expect(got == (nd, na, nd + na), "{0} counts {1} distances, angles, constraints, expected {2}", show(spec, names), got, (nd, na, nd + na))
    expect(all(isinstance(x, int) for x in got), "counts of {0} are not integers: {1!r}", show(spec, names), got)
    ctx.step(3)


def count_items(tier):
    n = 7
    for s in all_specs(n):
        yield [s]


def count_run(item, ctx):
    s = item[0]
    for k, names in enumerate(NAMINGS):
        c = make(s, names, k)
        before = snapshot(c)
        counts(c, s, names, ctx)
        counts(c, s, names, ctx)
        expect(len(c.common_distances(c)) == len(dset(s)) and len(c.common_angles(c)) == len(aset(s)) and len(c.common_constraints(c)) == len(dset(s)) + len(aset(s)),
               "{0}: constraints in common with itself are not all its constraints", show(s, names))
        counts(c, s, names, ctx)
        expect(snapshot(c) == before, "counting altered {0}", show(s, names))
        # marks do not matter
        for mark in (True, False):
            c.overconstrained = mark
            counts(c, s, names, ctx)
        # nor do variables given twice, be it the centre
        if s[0] == "H":
            counts(Hedgehog(names[s[1]], [names[x] for x in [s[1]] + s[2]]), s, names, ctx)
        counts(make(s, names, 1), s, names, ctx)
    ctx.state()
    ctx.out("{0}{1}".format(s[0], len(s[2])))
    ctx.trace()


def size_items(tier):
    for n in list(range(0, 601 if tier == "quick" else 3001)) + [10 ** 4, 10 ** 5, 262147, 300001]:
        yield n


def size_run(n, ctx):
    """Every size: counts against the binomial coefficients (exact integers)."""
    for shift in (0, 1000003):
        vs = range(shift, shift + n)
        c2, c3 = math.comb(n, 2), 3 * math.comb(n, 3)
        r = Rigid(vs)
        got = r.n_distances(), r.n_angles(), r.n_constraints()
        expect(got == (c2, c3, c2 + c3), "a rigid of {0} points counts {1}, expected {2}", n, got, (c2, c3, c2 + c3))
        if n >= 3:
            b = Balloon(vs)
            got = b.n_distances(), b.n_angles(), b.n_constraints()
            expect(got == (0, c3, c3), "a balloon of {0} points counts {1}, expected {2}", n, got, (0, c3, c3))
            h = Hedgehog("c", vs)
            got = h.n_distances(), h.n_angles(), h.n_constraints()
            expect(got == (0, c2, c2), "a hedgehog with {0} outer points counts {1}, expected {2}", n, got, (0, c2, c2))
        ctx.step(3)
    ctx.state()
    ctx.trace()


def self_items(tier):
    for n in range(3, 16 if tier == "quick" else 28):
        yield n


def self_run(n, ctx):
    """Counts against the constraints a cluster has in common with itself and with an equal cluster."""
    names = list(range(n))
    for s in (["R", None, names], ["B", None, names], ["H", n - 1, names[:-1]], ["H", 0, names[1:]]):
        if s[0] == "H" and n < 3:
            continue
        c, d = make(s, names), make(s, names, 1)
        for x in (c, d):
            D, A = read(c.common_constraints(x), names, "common_constraints")
            expect((len(D), len(A), len(D) + len(A)) == (c.n_distances(), c.n_angles(), c.n_constraints()),
                   "{0} counts {1} but has {2} distances and {3} angles in common with itself", show(s, names), (c.n_distances(), c.n_angles(), c.n_constraints()), len(D), len(A))
            ctx.step()
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C14

POINTS = ["a", "b", 0, 1, -1, -2, "", None, ("t", 1), (1, "t"), frozenset([1, 2]), 2.5, b"a", "ab", "ba", 2 ** 61 - 1]


def rel_items(tier):
    """All relations over each window of the alphabet, compared with all others."""
    k = 5 if tier == "quick" else 6
    for w in itertools.combinations(range(len(POINTS)), k):
        yield list(w)


def rel_run(w, ctx):
    pts = [POINTS[i] for i in w]
    rels = []
    for p in itertools.product(range(len(pts)), repeat=2):
        rels.append((("D", frozenset(p)), Distance(pts[p[0]], pts[p[1]])))
    for p in itertools.permutations(range(len(pts)), 3):
        rels.append((("A", p[1], frozenset((p[0], p[2]))), Angle(pts[p[0]], pts[p[1]], pts[p[2]])))
    for k1, r1 in rels:
        for k2, r2 in rels:
            same = k1 == k2
            e, n = r1 == r2, r1 != r2
            expect(e is same and n is (not same), "{0} {1} and {2} {3}: == gives {4!r}, != gives {5!r}", k1[0], r1.points, k2[0], r2.points, e, n)
            if same:
                expect(hash(r1) == hash(r2), "{0} and {1} are equal with different hashes", r1.points, r2.points)
        for other in (None, 0, "a", tuple(r1.points), list(r1.points), frozenset(r1.points), object()):
            expect(not (r1 == other) and r1 != other, "{0} equals {1!r}", r1.points, other)
        ctx.step(len(rels))
    want = {k for k, _ in rels}
    for order in (rels, rels[::-1]):
        expect(len({r for _, r in order}) == len(want), "a set keeps {0} of {1} distinct relations over {2}", len({r for _, r in order}), len(want), pts)
        d = {}
        for k, r in order:
            expect(d.setdefault(r, k) == k, "a dictionary takes {0} for another relation", r.points)
        expect(len(d) == len(want), "a dictionary keeps {0} of {1} distinct relations", len(d), len(want))
        for k, r in order:
            expect(d[r] == k, "looking up {0} finds {1}", r.points, d[r])
    ctx.state(len(want))
    ctx.trace()


class OwnDistance(Distance):
    pass


class OwnAngle(Angle):
    pass


def relsub_items(tier):
    for w in itertools.combinations(range(len(POINTS)), 3 if tier == "quick" else 4):
        yield list(w)


def relsub_run(w, ctx):
    """A distance or angle of a subclass is the distance or angle between its points."""
    pts = [POINTS[i] for i in w]
    rels = []
    for p in itertools.combinations_with_replacement(range(len(pts)), 2):
        for c in (Distance, OwnDistance):
            rels.append((("D", frozenset(p)), c(pts[p[1]], pts[p[0]])))
    for p in itertools.permutations(range(len(pts)), 3):
        for c in (Angle, OwnAngle):
            rels.append((("A", p[1], frozenset((p[0], p[2]))), c(pts[p[0]], pts[p[1]], pts[p[2]])))
    for k1, r1 in rels:
        for k2, r2 in rels:
            expect((r1 == r2) is (k1 == k2) and (r1 != r2) is (k1 != k2), "{0} {1} and {2} {3}: == gives {4!r}", type(r1).__name__, r1.points, type(r2).__name__, r2.points, r1 == r2)
            expect(k1 != k2 or hash(r1) == hash(r2), "{0} {1} and {2} {3} are equal with different hashes", type(r1).__name__, r1.points, type(r2).__name__, r2.points)
    expect(len({r for _, r in rels}) == len({k for k, _ in rels}), "a set keeps {0} distinct relations over {1}", len({r for _, r in rels}), pts)
    ctx.step(len(rels))
    ctx.state()
    ctx.trace()


def relhash_items(tier):
    for n in (3, 5, 8, 12):
        yield n


class Same:
    """Hashable names that all have the same hash."""

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Same) and self.k == other.k

    def __repr__(self):
        return "S{0}".format(self.k)


def relhash_run(n, ctx):
    """Larger families: names with colliding hashes, names that are equal without being identical, equal names of different types."""
    for mk in (lambda i: Same(i), lambda i: "p" + str(i), lambda i: ("q", i), lambda i: float(i), lambda i: frozenset([i, "r"])):
        ds = [Distance(mk(i), mk(j)) for i in range(n) for j in range(n)]
        expect(len(set(ds)) == n * (n + 1) // 2, "{0} distances over {1} points", len(set(ds)), n)
        an = [Angle(mk(i), mk(j), mk(k)) for i, j, k in itertools.permutations(range(n), 3)]
        expect(len(set(an)) == 3 * math.comb(n, 3), "{0} angles over {1} points", len(set(an)), n)
        expect(len(set(ds) | set(an)) == n * (n + 1) // 2 + 3 * math.comb(n, 3), "distances and angles are mixed up")
        ctx.step(len(ds) + len(an))
    expect(Distance(1, 2) == Distance(2.0, 1.0) and hash(Distance(1, 2)) == hash(Distance(2.0, 1.0)), "equal points of different types make different distances")
    expect(Angle(1, 2, 3) == Angle(3.0, 2.0, True) and hash(Angle(1, 2, 3)) == hash(Angle(3.0, 2.0, True)), "equal points of different types make different angles")
    expect(Distance(1, 2) != Distance(1, "2") and Angle(1, 2, 3) != Angle(1, "2", 3), "different points make the same relation")
    ctx.state()
    ctx.trace()


ASSUME = ["cluster variables are hashable names; clusters are of the three documented kinds"]

CHECKS = {
    "C11": {"rule": "all ordered pairs of clusters over the variables, all triples over fewer, large overlap families; result compared with the unique cluster "
                    "having exactly the shared distances and angles",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("pairs", "all ordered pairs of the 262 (6 variables; thorough 626, 7 variables) clusters x four namings x forms of the argument", pair_items, inter_run),
                fn_harness("triples", "all triples of clusters over 5 variables, two groupings", triple_items, triple_run),
                fn_harness("reuse", "each cluster over 5 (6) variables intersected with every other in turn, three orders, both ways round, results spoilt", reuse_items, reuse_run),
                fn_harness("altered", "all pairs over 4 (5) variables: asked, one altered in place to any other of its kind, asked, altered back, asked", altered_items, altered_run),
                fn_harness("large", "clusters of up to 33 (64) variables, every characteristic overlap, five centre positions", big_pairs, big_inter_run),
                fn_harness("subclasses", "all ordered pairs over 5 variables, either or both of a subclass", own_items, own_run),
                fn_harness("creation", "all variable lists of length <=4 over 4 names x centre x form of the list x namings", create_items, create_run),
            ]},
    "C12": {"rule": "all ordered pairs of clusters over the variables and large overlap families, answers compared as sets of pairs and (vertex, ends)",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("pairs", "all ordered pairs of the 262 (626) clusters over 6 (7) variables x four namings", common_items, common_run),
                fn_harness("derived", "intersections asked for their common constraints with both parents, all pairs over 5 (6) variables", derived_items, derived_run),
                fn_harness("subclasses", "all ordered pairs over 5 variables, either or both of a subclass", own_items, own_common_run),
                fn_harness("reuse", "each cluster over 5 (6) variables asked about every other in turn, three orders, both ways round", reuse_items, reuse_common_run),
                fn_harness("altered", "all pairs over 4 (5) variables: asked, one altered in place to any other of its kind, asked, altered back, asked", altered_items, altered_common_run),
                fn_harness("large", "clusters of up to 17 (26) variables, every characteristic overlap", big_common_items, big_common_run),
                fn_harness("wide", "rigids with 18..130 (400) points in common, hedgehogs of as many with every kind", wide_items, wide_run),
            ]},
    "C13": {"rule": "all clusters over the variables and all sizes up to the bound against exact binomial coefficients and the constraints in common with itself",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("clusters", "all clusters over 7 variables x four namings", count_items, count_run),
                fn_harness("altered", "all clusters over 5 (6) variables, counted, altered in place to any other of their kind, counted, altered back, counted", altered_count_items, altered_count_run),
                fn_harness("sizes", "rigids, balloons and hedgehogs of every size 0..600 (3000) and 10^4, 10^5, 262147, 300001", size_items, size_run),
                fn_harness("self", "clusters of 3..15 (27) variables against their constraints in common with themselves", self_items, self_run),
            ]},
    "C14": {"rule": "all pairs of all distances and angles over every choice of 5 (6) of 16 typed points, as ==, != and in sets and dictionaries",
            "assumptions": ["angles are between three distinct points; points are hashable"],
            "harnesses": [
                fn_harness("relations", "all 5- (6-) subsets of 16 points of different types: all pairs of relations", rel_items, rel_run),
                fn_harness("subclasses", "all 3- (4-) subsets of the points: all pairs of relations, either or both of a subclass", relsub_items, relsub_run),
                fn_harness("families", "3..12 points with colliding hashes and equal but not identical names", relhash_items, relhash_run),
            ]},
}
