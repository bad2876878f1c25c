"""C15-C17: configurations."""
import collections
import itertools
import math

import core
from core import expect, raises, fn_harness, Violation

from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration


class HV:
    """A variable whose hash is chosen, so that sets of variables can be made to iterate in every order."""

    def __init__(self, k, h):
        self.k, self.h = k, h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, HV) and self.k == other.k

    def __repr__(self):
        return "v{0}".format(self.k)


def hvars(perm):
    """Variables v0..; sets of them iterate in the order of their hashes."""
    return [HV(k, h) for k, h in enumerate(perm)]


# a placement is an exact similarity of the integer lattice: z -> z * (a + bi) / d + offset
MOVES = [(1, 0, 1, 0, 0), (3, 4, 5, 2, -1), (0, -1, 1, -3, 0.5), (-4, 3, 5, 100, 40), (-1, 0, 1, 0, 0), (5, -12, 13, 0, 7), (-12, 5, 13, 30000, -50000)]


def at(z, m, f=1.0):
    a, b, d, ox, oy = m
    return Vector((z[0] * a - z[1] * b) / d * f + ox, (z[0] * b + z[1] * a) / d * f + oy)


def config(zs, ks, names, m=(1, 0, 1, 0, 0), f=1.0, rev=False):
    """Configuration of the variables ks; zs[k] is the lattice point of variable k."""
    ks = list(ks)
    return Configuration({names[k]: at(zs[k], m, f) for k in (reversed(ks) if rev else ks)})


def congruent(za, zb):
    """Exact: some rotation and translation maps each za[i] onto zb[i]."""
    if not za:
        return True
    a = [complex(x - za[0][0], y - za[0][1]) for x, y in za]
    b = [complex(x - zb[0][0], y - zb[0][1]) for x, y in zb]
    for i, p in enumerate(a):
        if p != 0:
            q = b[i]
            if p.real ** 2 + p.imag ** 2 != q.real ** 2 + q.imag ** 2:
                return False
            return all(b[j] * p == q * a[j] for j in range(len(a)))
    return all(q == 0 for q in b)


def snap(c):
    return ({v: (p.x, p.y) for v, p in c.mapping.items()}, c.underconstrained, hash(c))


def same_eq(A, B, want, what, *args, both=True):
    r1, r2 = A == B, B == A
    n1, n2 = (A != B, B != A) if both else (not want, not want)
    expect((r1, r2, n1, n2) == (want, want, not want, not want), what + ": == gives {1!r}, reversed {2!r}, != gives {3!r}, {4!r}; expected {0}", want, r1, r2, n1, n2, *args)
    if want:
        expect(hash(A) == hash(B), what + ": equal configurations with different hashes", *args)


def desc(zs, ks):
    return {"v{0}".format(k): tuple(zs[k]) for k in ks}


# --------------------------------------------------------------------------- C15

def lattice(w, h):
    return [(x, y) for x in range(w) for y in range(h)]


def eq_items(tier):
    """First configurations: k points, the first one fixed."""
    for k, pts in ((1, lattice(2, 2)), (2, lattice(4, 4)), (3, lattice(3, 3)), (4, lattice(2, 2))) + (((4, lattice(3, 2)), (3, lattice(4, 4))) if tier == "thorough" else ()):
        for rest in itertools.product(pts, repeat=k - 1):
            yield [k, [list(p) for p in pts], [[0, 0]] + [list(p) for p in rest], tier]


def eq_run(item, ctx):
    """All second configurations; every iteration order for the pairs that share a hard feature, one order for the rest."""
    k, pts, za, tier = item
    perms = list(itertools.permutations(range(k)))
    coin_a = len({tuple(p) for p in za}) < k
    for zb in itertools.product(pts, repeat=k):
        want = congruent(za, zb)
        hard = want or coin_a or len({tuple(p) for p in zb}) < k
        for j, perm in enumerate(perms):
            if not hard and j != (zb[0][0] + zb[-1][1]) % len(perms):
                continue
            if k == 4 and not want and j % 4 != (zb[0][0] * 2 + zb[-1][1]) % 4 and tier == "quick":
                continue
            names = hvars(perm)
            A = config(za, range(k), names)
            B = config(zb, range(k), names, rev=True)
            same_eq(A, B, want, "configurations {5} and {6}, iterated {7}", desc(za, range(k)), desc(zb, range(k)), perm, both=(j == 0))
            ctx.step()
        ctx.out("{0} points: {1}".format(k, "equal" if want else "different"))
        ctx.state()
    ctx.trace()


WORLDS = [[(0, 0)], [(0, 0), (0, 0)], [(0, 0), (3, 1)], [(0, 0), (0, 0), (2, 1)], [(0, 0), (2, 1), (0, 0)], [(2, 1), (0, 0), (0, 0)],
          [(0, 0), (4, 0), (1, 2)], [(0, 0), (4, 0), (2, 3)], [(0, 0), (1, 0), (0, 1), (1, 1)], [(0, 0), (0, 0), (3, 1), (3, 1)], [(0, 0), (3, 1), (0, 0), (2, 5)],
          [(0, 0), (0, 0), (0, 0), (1, 4)], [(0, 0), (2, 0), (4, 0), (6, 0)], [(0, 0), (5, 1), (2, 7), (3, 3), (9, 2)], [(1, 1)] * 5,
          [(0, 0), (0, 0), (4, 1), (0, 0), (1, 3)], [(0, 0), (500, 1), (2, 300), (1, 1)], [(0, 0), (1, 0), (40, 900), (1000, 3), (7, 7), (1, 1)]]


def seq_items(tier):
    for n, pts in ((2, lattice(2, 2)), (3, lattice(2, 2)), (4, lattice(2, 1))):
        for rest in itertools.product(pts, repeat=n - 1):
            yield [n, [list(p) for p in pts], [[0, 0]] + [list(p) for p in rest]]


def seq_run(item, ctx):
    """One configuration compared with two others in turn: what was found about the first does not show in the second."""
    n, pts, za = item
    for perm in itertools.permutations(range(n)):
        names = hvars(perm)
        others = [[(1, 1)] + [(x + 1, y + 1) for x, y in r] for r in itertools.product(pts, repeat=n - 1)]
        wants = [congruent(za, zb) for zb in others]
        made = [config(zb, range(n), names) for zb in others]
        for i in range(len(others)):
            for j in range(len(others)):
                A = config(za, range(n), names)
                r = (A == made[i], A == made[j])
                expect(r == (wants[i], wants[j]), "{0} compared with {1} and then {2}, iterated {3}: {4}, expected {5}", desc(za, range(n)), desc(others[i], range(n)),
                       desc(others[j], range(n)), perm, r, (wants[i], wants[j]))
                ctx.step(2)
    ctx.state()
    ctx.trace()


def move_items(tier):
    for w in range(len(WORLDS)):
        for f in (1.0, 0.01, 30.0, 1e4, 1e7, 1e8, 1e9, 1e12, 1e15, 1e100):
            yield [w, f]


def move_run(item, ctx):
    """Moved, mirrored, scaled and perturbed images of one configuration, all iteration orders up to 4 (24 of 5-6) points."""
    w, f = item
    zs = WORLDS[w]
    k = len(zs)
    perms = list(itertools.permutations(range(k)))
    step = max(1, len(perms) // (12 if f < 1e3 or k < 4 else 6))
    # large configurations are also moved far
    big = f if f >= 1e3 else 1
    moves = [(a, b, d, ox * big, oy * big) for a, b, d, ox, oy in MOVES]
    flat = all((zs[i][0] - zs[0][0]) * (zs[j][1] - zs[0][1]) == (zs[i][1] - zs[0][1]) * (zs[j][0] - zs[0][0]) for i in range(k) for j in range(k))
    single = len(set(zs)) == 1
    for pi, perm in enumerate(perms[::step]):
        names = hvars(perm)
        A = config(zs, range(k), names, f=f)
        imgs = []
        for m in moves:
            B = config(zs, range(k), names, m, f, rev=True)
            imgs.append(B)
            same_eq(A, B, True, "configuration {5} and its image under {6} (scale {7})", zs, m, f)
            M = config([(-x, y) for x, y in zs], range(k), names, m, f)
            same_eq(A, M, flat, "configuration {5} and its mirror image under {6} (scale {7})", zs, m, f)
            S = config(zs, range(k), names, m, f * 1.25)
            same_eq(A, S, single, "configuration {5} and its enlargement under {6} (scale {7})", zs, m, f)
            ctx.step(3)
            for j in range(k):
                if k == 1 or (k > 4 and (j + pi) % 2):
                    continue
                # one point moved: a different configuration unless the move is part of another symmetry
                for dx, dy in ((2, 0), (0, 1), (-1, 3)):
                    zp = list(zs)
                    zp[j] = (zs[j][0] + dx, zs[j][1] + dy)
                    P = config(zp, range(k), names, m, f)
                    same_eq(A, P, congruent(zs, zp), "configuration {5} and {6} under {7} (scale {8})", zs, zp, m, f, both=False)
                for off in (Vector(2e-5, 1e-5) * big, Vector(6e-7, -3e-7) * big):
                    q = {n: Vector(p.x, p.y) for n, p in B.mapping.items()}
                    q[names[j]] = q[names[j]] + off
                    # above the tolerance, far below the size of the configuration (unless no distance changes)
                    p = [complex(q[n].x, q[n].y) for n in names]
                    o = [complex(B.get(n).x, B.get(n).y) for n in names]
                    if max(abs(abs(x - y) - abs(z - t)) for (x, z), (y, t) in itertools.combinations(list(zip(p, o)), 2)) < off.length / 4:
                        continue
                    same_eq(A, Configuration(q), False, "configuration {5} and its image under {6} with point {7} off by {9} (scale {8})", zs, m, j, f, (off.x, off.y), both=False)
                    ctx.step()
                ctx.step(3)
            if k > 1:
                same_eq(A, config(zs, range(k - 1), names, m, f), False, "configuration {5} and a part of it under {6}", zs, m)
                same_eq(A, config(zs, range(1, k), names, m, f), False, "configuration {5} and a part of it under {6}", zs, m)
        for X, Y in itertools.combinations(imgs, 2):
            same_eq(X, Y, True, "two images of configuration {5}", zs)
            ctx.step()
        same_eq(A, A, True, "configuration {5} (scale {6}) and itself", zs, f)
        same_eq(A, A.copy(), True, "configuration {5} (scale {6}) and its copy", zs, f)
        expect(len({A} | set(imgs)) == 1 and {A: 1}.get(imgs[-1]) == 1, "a set of images of {0} keeps {1} of them", zs, len({A} | set(imgs)))
    ctx.state()
    ctx.trace()


NAMESETS = [["a", "b", "c"], [0, 1, 2], [-1, -2, 5], [1, 4, "x"], [2, 3, "x"], [("t",), frozenset(), ""], ["c", "b", "a"], [-2, -1, 5], [1.5, b"z", True],
            [0, 5, "x"], ["a", "b"], ["b"], [3, 2], [5], [1, 4], [2.0, 3.0, "x"], [], [0], [""], [False]]


def name_items(tier):
    for i in range(len(NAMESETS)):
        yield i


def name_run(i, ctx):
    """Equality depends on the set of variables, not on their names' hashes or order."""
    pts = [(0, 0), (3, 1), (1, 4)]
    na = NAMESETS[i]
    A = Configuration({n: at(p, MOVES[0]) for n, p in zip(na, pts)})
    for nb in NAMESETS:
        for perm in itertools.permutations(range(len(nb))):
            ma = {n: p for n, p in zip(na, pts)}
            mb = {nb[j]: pts[t] for t, j in enumerate(perm)}
            B = Configuration({n: at(p, MOVES[1]) for n, p in mb.items()})
            want = set(ma) == set(mb) and congruent([ma[n] for n in na], [mb[n] for n in na])
            same_eq(A, B, want, "configurations over {5} and {6}", ma, mb)
            ctx.step()
    for other in (None, 0, "x", {}, dict(A.mapping), A.mapping.items(), hash(A), object(), [A], (A,), HV(0, hash(A)), Vector(0, 0) if False else 1.5, type(A)):
        for _ in range(2):
            e, n = A == other, A != other
            expect(e is False and n is True, "configuration {0!r} compared with {1!r}: == {2!r}, != {3!r}", A, other, e, n)
        expect((other == A) is False, "{0!r} == configuration", other)
        ctx.step()
    expect(A == A and not (A != A), "a configuration differs from itself")
    ctx.state()
    ctx.trace()


HASHF = [1, 3, 0.7]


def hashround_items(tier):
    for p in range(1, 10):
        for f in HASHF:
            yield [p, f]


def hashround_run(item, ctx):
    """Lengths, areas and centres on the boundaries at which numbers are rounded; many motions of each."""
    p, f = item
    for k in (0, 1, 7):
        d = f + (k + 0.5) * 10.0 ** -p
        for zs in ([(0, 0), (d, 0), (0, 1)], [(0, 0), (d, 0)], [(0, 0), (d, 0), (0, d)], [(d, 0), (-d / 2, d), (0, -1), (0, 0)]):
            names = ["a", 0, "b", "c"][:len(zs)]
            A = Configuration({n: Vector(*z) for n, z in zip(names, zs)})
            for i in range(24):
                w = complex(math.cos(0.1 + 0.7 * i), math.sin(0.1 + 0.7 * i))
                q = [complex(*z) * w + complex(i % 5, -i / 7) for z in zs]
                B = Configuration({n: Vector(z.real, z.imag) for n, z in zip(names, q)})
                expect(A == B and B == A and not A != B, "configuration {0} does not equal its image {1}", A.mapping, B.mapping)
                expect(hash(A) == hash(B) and len({A, B}) == 1, "configuration {0} and its image {1} have different hashes", A.mapping, B.mapping)
                ctx.step()
            ctx.state()
    ctx.trace()


def large_worlds(n):
    yield [((7 * i) % 11 + i // 11, (5 * i * i) % 13) for i in range(n)]
    yield [(0, 0)] * (n - 1) + [(3, 1)]
    yield [(2, 2)] + [(0, 0)] * (n - 1)
    yield [((i % 2) * 3, i % 2) for i in range(n)]
    yield [(i, 0) for i in range(n)]
    yield [(0, 0)] * (n // 2) + [(i, i * i % 7) for i in range(n - n // 2)]


def large_items(tier):
    for n in (7, 8, 9, 12, 16, 17, 24, 33, 65) if tier == "quick" else (7, 8, 9, 10, 12, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65, 100, 130):
        for w in range(6):
            yield [n, w]


def large_run(item, ctx):
    """One point anywhere in a large configuration decides."""
    n, w = item
    zs = list(large_worlds(n))[w]
    nums = list(range(n))
    for t, perm in enumerate((nums, nums[::-1], [(k * 37 + 11) % 251 for k in nums])):
        names = hvars(perm)
        A = config(zs, nums, names)
        B = config(zs, nums, names, MOVES[1 + t], rev=True)
        same_eq(A, B, True, "{5} points {6} and their image", n, zs)
        for j in nums:
            for dx, dy in ((1, 0), (0, -2)):
                zp = list(zs)
                zp[j] = (zs[j][0] + dx, zs[j][1] + dy)
                same_eq(A, config(zp, nums, names, MOVES[1 + (t + j) % 6]), congruent(zs, zp), "{5} points {6} with point {7} moved to {8}", n, zs, j, zp[j], both=False)
            if j % 5 == t:
                X = Configuration({v: p for v, p in B.mapping.items() if v is not names[j]})
                same_eq(A, X, False, "{5} points {6} and the same without point {7}", n, zs, j)
                Y = Configuration({HV(1000, names[j].h) if v is names[j] else v: p for v, p in B.mapping.items()})
                same_eq(A, Y, False, "{5} points {6} and the same with another variable in place of {7}", n, zs, j)
            ctx.step()
        ctx.state()
    ctx.trace()


def made_items(tier):
    for w in range(len(WORLDS)):
        yield w


def made_run(w, ctx):
    """Equality does not depend on how a configuration came about, or on its mark."""
    zs = WORLDS[w]
    k = len(zs)
    for perm in itertools.islice(itertools.permutations(range(k)), 0, None, max(1, math.factorial(k) // 6)):
        names = hvars(list(perm)) + [HV(90, 90)]
        fresh = config(zs, range(k), names, MOVES[2])
        far = Configuration({names[k]: Vector(1, 1)})
        made = [("new", fresh), ("copied", fresh.copy()), ("asked for its hash", config(zs, range(k), names))]
        hash(made[-1][1])
        made.append(("selected", config(zs, range(k), names, MOVES[1], rev=True).select(names[:k])))
        made.append(("added", config(zs, range(k // 2), names, MOVES[3]).add(config(zs, range(k), names, MOVES[3]))))
        made.append(("transformed", fresh.transform(Matrix([[0.6, -0.8, 3.0], [0.8, 0.6, -1.0], [0.0, 0.0, 1.0]]))))
        m = fresh.merge(far)[0]
        expect(m.underconstrained, "merging with nothing shared is not underconstrained")
        both = [("merged with another", m), ("a copy of that", m.copy()), ("added one more", fresh.add(far.transform(Matrix([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])))),
                ("merged again", m.merge(fresh)[0]), ("merged with itself", m.merge(m)[0])]
        made.append(("part of a marked one", m.select(names[:k])))
        made.append(("merged with itself", fresh.merge(fresh)[0]))
        other = list(zs)
        other[0] = (zs[0][0] + 20, zs[0][1])
        if k > 1:
            d = config(other, range(k), names)
            for n1, x in made:
                same_eq(x, d, False, "configurations {5} ({6}) and {7}", zs, n1, other)
            for y in (d.merge(far)[0], d.add(far)):
                for n1, x in both:
                    same_eq(x, y, False, "configurations {5} ({6}) and {7}, each with another point", zs, n1, other)
        for group in (made, both):
            for (n1, x), (n2, y) in itertools.product(group, repeat=2):
                same_eq(x, y, True, "configurations of {5} ({6}) and ({7})", zs, n1, n2)
                ctx.step()
            expect(len({x for _, x in group}) == 1, "a set of congruent configurations keeps more than one")
        for (_, x), (_, y) in itertools.product(made, both):
            same_eq(x, y, False, "configurations with and without another point")
        ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C16

def rigid_image(src, dst, tol):
    """Numeric: one rotation and translation maps each src[i] (complex) onto dst[i]."""
    n = len(src)
    if n < 2:
        return True
    i, j = max(itertools.combinations(range(n), 2), key=lambda p: abs(src[p[0]] - src[p[1]]))
    d = src[j] - src[i]
    if abs(d) < 1e-9:
        return all(abs(x - dst[0]) <= tol for x in dst)
    u = (dst[j] - dst[i]) / d
    return abs(abs(u) - 1) * abs(d) <= tol and all(abs(dst[i] + u * (src[k] - src[i]) - dst[k]) <= tol for k in range(n))


def cpts(c):
    return {v: complex(p.x, p.y) for v, p in c.mapping.items()}


TOL = 1e-6


def flag_oracle(a, b, fa, fb, tol=TOL):
    """True / False / None (left open) for the mark of a merge of the points a and b."""
    shared = [v for v in a if v in b]

    def close(p, q):
        return abs(p - q) <= tol
    if fa or fb or not shared:
        return True
    ca = all(close(a[v], a[shared[0]]) for v in shared)
    cb = all(close(b[v], b[shared[0]]) for v in shared)
    if not ca and not cb:
        return False
    if (len(a) == 1 or len(b) == 1):
        return False
    if ca and cb and any(not close(p, a[shared[0]]) for p in a.values()) and any(not close(p, b[shared[0]]) for p in b.values()):
        return True
    return None


def check_merge(A, B, what, size=1):
    """Merges A with B and checks the outcome; returns the merged configuration and the mark."""
    sa, sb = snap(A), snap(B)
    r = A.merge(B)
    expect(isinstance(r, tuple) and len(r) == 2, "{0}: merge returns {1!r}", what, r)
    M, flag = r
    expect(snap(A) == sa and snap(B) == sb, "{0}: merging altered one of the configurations", what)
    expect(isinstance(M, Configuration) and flag in (True, False), "{0}: merge returns {1!r}", what, r)
    expect(M.underconstrained == flag, "{0}: the merge reports underconstrained={1} but the result is marked {2}", what, flag, M.underconstrained)
    a, b, m = cpts(A), cpts(B), cpts(M)
    expect(set(m) == set(a) | set(b) and set(M.vars()) == set(m), "{0}: the merged variables are {1}", what, list(m))
    for v, p in a.items():
        expect(m[v] == p, "{0}: merging moved {1} of the first configuration from {2} to {3}", what, v, p, m[v])
    shared = [v for v in b if v in a]
    only = [v for v in b if v not in a]
    if rigid_image([b[v] for v in shared], [a[v] for v in shared], 1e-9 * size):
        vs = shared + only
        expect(rigid_image([b[v] for v in vs], [m[v] for v in vs], TOL * size), "{0}: the second configuration is not moved rigidly onto the shared points: {1}", what, m)
    else:
        expect(rigid_image([b[v] for v in only], [m[v] for v in only], TOL * size), "{0}: the added points are not moved rigidly: {1}", what, m)
    want = flag_oracle(a, b, sa[1], sb[1], TOL * size)
    expect(want is None or flag == want, "{0}: underconstrained is {1}, expected {2}", what, flag, want)
    return M, flag


def merge_shapes(tier):
    top = 4 if tier == "quick" else 5
    for s in range(4):
        for a in range(3):
            for b in range(3):
                if 0 < s + a + b <= top:
                    yield s, a, b


def merge_items(tier):
    for s, a, b in merge_shapes(tier):
        n = s + a + b
        pts = lattice(3, 2) if n <= 4 else lattice(2, 2)
        for w0 in itertools.product(pts, repeat=min(2, n)):
            yield [s, a, b, [list(p) for p in w0]]


def merge_run(item, ctx):
    """Compatible parts of one world, every placement of the remaining points, every iteration order of the shared variables."""
    s, a, b, w0 = item
    n = s + a + b
    pts = lattice(3, 2) if n <= 4 else lattice(2, 2)
    ka, kb = list(range(s)) + list(range(s, s + a)), list(range(s)) + list(range(s + a, n))
    for rest in itertools.product(pts, repeat=n - len(w0)):
        w = [tuple(p) for p in w0] + list(rest)
        for perm in itertools.permutations(range(s)):
            names = hvars(list(perm) + list(range(s, n)))
            mi = (w[0][0] + w[-1][1] * 2 + len(perm) + perm[0] if perm else 1) % len(MOVES)
            for m1, m2 in ((MOVES[0], MOVES[mi]), (MOVES[(mi + 2) % len(MOVES)], MOVES[1])):
                A, B = config(w, ka, names, m1), config(w, kb, names, m2, rev=True)
                M, flag = check_merge(A, B, "merging parts {0} and {1} of {2} placed by {3} and {4}, shared iterated {5}".format(ka, kb, w, m1, m2, perm))
                ctx.step()
                ctx.out("{0} shared, {1}+{2}: {3}".format(s, a, b, "underconstrained" if flag else "determined"))
        ctx.state()
    ctx.trace()


def clash_items(tier):
    pts = lattice(2, 2)
    for s, a, b in ((1, 1, 1), (2, 0, 1), (2, 1, 1), (3, 0, 1)) + (((3, 1, 0), (3, 1, 1), (2, 1, 2)) if tier == "thorough" else ()):
        for za in itertools.product(pts + [(3, 1)], repeat=s + a):
            yield [s, a, b, [list(p) for p in za]]


def clash_run(item, ctx):
    """Unrelated placements: the shared points fit only sometimes."""
    s, a, b, za = item
    n = s + a + b
    pts = lattice(2, 2)
    for zb in itertools.product(pts, repeat=s + b):
        for perm in itertools.permutations(range(s)):
            names = hvars(list(perm) + list(range(s, n)))
            A = Configuration({names[k]: at(za[k], MOVES[0]) for k in range(s + a)})
            kb = list(range(s)) + list(range(s + a, n))
            B = Configuration({names[k]: at(z, MOVES[1]) for k, z in zip(kb, zb)})
            check_merge(A, B, "merging {0} and {1}, shared iterated {2}".format(za, zb, perm))
            ctx.step()
        ctx.state()
    ctx.trace()


CHAIN = [[0, 1], [1, 2], [0, 2, 3], [0, 1, 2], [3], [2, 3], [1, 3, 4], [0], [3, 4], [0, 1, 2, 3, 4], []]
CHAIN_WORLDS = [[(0, 0), (3, 1), (1, 4), (5, 5), (2, 0)], [(0, 0), (0, 0), (1, 4), (5, 5), (1, 4)], [(0, 0), (3, 1), (0, 0), (3, 1), (3, 1)], [(2, 2)] * 5,
                [(0, 0), (3, 1), (3, 1), (3, 1), (0, 0)]]


def chain_items(tier):
    for w in range(len(CHAIN_WORLDS)):
        for i in range(len(CHAIN)):
            yield [w, i]


def chain_run(item, ctx):
    """Three (four in selected cases) parts merged in both groupings; marks stay with everything merged from a marked configuration."""
    wi, i = item
    w = CHAIN_WORLDS[wi]
    for j, k in itertools.product(range(len(CHAIN)), repeat=2):
        for perm in (list(range(5)), [4, 3, 2, 1, 0], [2, 0, 3, 1, 4]):
            names = hvars(perm)
            parts = [config(w, CHAIN[x], names, MOVES[t]) for t, x in enumerate((i, j, k))]
            what = "parts {0}, {1}, {2} of {3}".format(CHAIN[i], CHAIN[j], CHAIN[k], w)
            M, f = check_merge(parts[0], parts[1], what)
            M1, f1 = check_merge(M, parts[2], what + " (first two merged)")
            N, g = check_merge(parts[1], parts[2], what)
            N1, g1 = check_merge(parts[0], N, what + " (last two merged)")
            expect(f1 or not f, "{0}: the mark of the first merge is lost", what)
            expect(g1 or not g, "{0}: the mark of the second merge is lost", what)
            for X, fx in ((M1, f1), (N1, g1)):
                expect(X.copy().underconstrained == fx, "{0}: a copy loses the mark", what)
                K, fk = check_merge(X, parts[0], what + " merged with its first part again")
                expect(fk or not fx, "{0}: the mark is lost in a later merge", what)
                if not fx:
                    vs = list(X.vars())
                    src = config(w, range(5), names)
                    expect(rigid_image([complex(src.get(v).x, src.get(v).y) for v in vs], [complex(X.get(v).x, X.get(v).y) for v in vs], TOL),
                           "{0}: determined merges give {1}, not an image of the whole", what, X)
            ctx.step(6)
        ctx.state()
    ctx.trace()


def flagged_items(tier):
    for s, a, b in merge_shapes(tier):
        yield [s, a, b]


def flagged_run(item, ctx):
    """Marked inputs (marked by an underconstrained merge, or copies of such) give marked results."""
    s, a, b = item
    n = s + a + b
    for w in ([(0, 0), (3, 1), (1, 4), (5, 5), (2, 0)], [(0, 0), (0, 0), (3, 1), (0, 0), (1, 2)]):
        ka, kb = list(range(s + a)), list(range(s)) + list(range(s + a, n))
        names = hvars(list(range(n))) + [HV(90, 90), HV(91, 91)]
        for which in itertools.product((False, True), repeat=2):
            for cp in (False, True):
                cs = []
                for t, (ks, f) in enumerate(zip((ka, kb), which)):
                    c = config(w, ks, names, MOVES[t])
                    if f:
                        c, fl = check_merge(c, Configuration({names[n + t]: Vector(1, 1)}), "marking")
                        expect(fl, "merging with nothing shared is not underconstrained")
                    cs.append(c.copy() if cp else c)
                M, flag = check_merge(cs[0], cs[1], "marks {0}, parts {1} and {2} of {3}".format(which, ka, kb, w))
                if any(which):
                    expect(flag, "a merge with a marked configuration is not marked")
                M2, f2 = check_merge(M, cs[1], "merging the second part again")
                ctx.step(3)
    ctx.state()
    ctx.trace()


SCALE_W = [[(0, 0), (0, 0), (3, 1), (1, 2), (4, 4)], [(0, 0), (3, 1), (0, 0), (1, 2), (2, 0)], [(3, 1), (0, 0), (0, 0), (0, 0), (1, 5)], [(1, 0), (1, 0), (1, 0), (5, 5), (2, 1)],
           [(0, 0), (0, 0), (0, 0), (0, 0), (0, 0)], [(0, 0), (1, 0), (1000, 1), (30, 40), (1, 1)], [(0, 0), (0, 0), (1, 1), (999, 7), (7, 999)]]
SCALES = [1e-4, 1e-3, 0.01, 0.1, 30.0, 1e3, 1e5, 1e9, 1e12, 1e15, 1e17, 1e100]


def scale_items(tier):
    for w in range(len(SCALE_W)):
        for f in SCALES:
            yield [w, f]


def scale_run(item, ctx):
    """Compatible parts of small and large worlds, some shared points coinciding, all iteration orders."""
    w, f = item
    zs = SCALE_W[w]
    # large configurations are also placed far away
    big = f if f > 1e5 else 1
    moves = [(a, b, d, ox * big, oy * big) for a, b, d, ox, oy in MOVES]
    for s in range(1, 5):
        ka, kb = list(range(s)) + [4], list(range(4))
        for perm in itertools.permutations(range(s)):
            names = hvars(list(perm) + list(range(s, 5)))
            for m1, m2 in ((moves[0], moves[1]), (moves[1], moves[2]), (moves[4], moves[3])):
                for x, y in ((ka, kb), (kb, ka), (ka[:-1], kb), (kb, ka[:-1])):
                    check_merge(config(zs, x, names, m1, f), config(zs, y, names, m2, f, rev=True), "merging parts {0} and {1} of {2} (scale {3}) placed by {4} and {5}, shared iterated {6}".format(x, y, zs, f, m1, m2, perm),
                                max(1, f / 10))
                    ctx.step()
    ctx.state()
    ctx.trace()


def uneven_items(tier):
    for e in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 2e-7):
        for size in (1, 10, 100, 1000) + ((3000, 7000) if tier == "thorough" else ()):
            for d in ((1, 0), (0.6, -0.8), (-0.8, -0.6)):
                yield [e, size, list(d)]


def uneven_world(item):
    """Two points very near each other, others far away, the last one near a far one."""
    e, size, d = item
    return [(0.0, 0.0), (e * d[0], e * d[1]), (float(size), size / 3), (-size / 2, size / 5), (size - e * d[1], size / 3 + e * d[0])]


PARTS = [(0, 1, 2), (0, 1, 2, 3), (0, 1, 2, 4), (4, 0, 2, 1, 3)]


def uneven_run(item, ctx):
    """What two points next to each other say about the far ones is worth little: equality does not depend on the order of the variables."""
    w = uneven_world(item)
    e, size = item[:2]
    for ks in PARTS:
        for perm in itertools.permutations(range(len(ks))):
            if len(ks) > 4 and (perm[0] + 2 * perm[1] + perm[2]) % 5:
                continue
            hs = dict(zip(ks, perm))
            names = [HV(k, hs.get(k, k)) for k in range(5)]
            for i, m in enumerate(MOVES):
                A = config(w, ks, names, MOVES[(i + perm[0]) % len(MOVES)])
                what = "{0}, moved by {1}, iterated {2}".format(desc(w, ks), m, perm)
                same_eq(A, config(w, ks, names, m, rev=True), True, "{5}", what, both=(i == 0))
                for f in (1.001, 0.99):
                    same_eq(A, config(w, ks, names, m, f), False, "{5}, enlarged by {6}", what, f, both=False)
                if e >= 1e-6:
                    same_eq(A, config([(x, -y) for x, y in w], ks, names, m), False, "{5}, mirrored", what, both=False)
                for k in ks:
                    # away from the far points, by much more than the tolerance
                    v = [(x + 1e-4, y + 1e-4 / 3) if j == k else (x, y) for j, (x, y) in enumerate(w)]
                    same_eq(A, config(v, ks, names, m), False, "{5}, v{6} moved", what, k, both=False)
                ctx.step(5 + len(ks))
            ctx.state()
    ctx.trace()


def uneven_merge_run(item, ctx):
    """Shared points next to each other and far ones: the others end up where the far ones put them."""
    w = uneven_world(item) + [(item[1] * 0.75, -item[1] / 2), (item[1] * 0.3, item[1] * 0.9)]
    for ks in PARTS:
        for perm in itertools.permutations(range(len(ks))):
            if len(ks) > 4 and (perm[0] + 2 * perm[1] + perm[2]) % 5:
                continue
            hs = dict(zip(ks, perm))
            names = [HV(k, hs.get(k, k)) for k in range(7)]
            for m1, m2 in itertools.product(MOVES[:6:2], MOVES):
                M, flag = config(w, [5] + list(ks), names, m1).merge(config(w, list(ks) + [6], names, m2))
                what = "merging {0} with further points, placed by {1} and {2}, iterated {3}".format(desc(w, ks), m1, m2, perm)
                expect(flag is False and M.underconstrained is False, "{0}: underconstrained is {1}", what, flag)
                whole = config(w, list(ks) + [5, 6], names, m1)
                for v in whole.vars():
                    p, q = M.get(v), whole.get(v)
                    expect(math.hypot(p.x - q.x, p.y - q.y) <= 1e-8 + 1e-12 * item[1], "{0}: {1} is at {2!r}, expected {3!r}", what, v, p.elements, q.elements)
                ctx.step()
            ctx.state()
    ctx.trace()


GAPS = [1e-11, 1e-10, 1e-9, 1e-7, 3e-7, 1e-6, 1e-5, 1e-3]


def gap_items(tier):
    for g in range(len(GAPS)):
        for d in ((1, 0), (0, 1), (-1, 0), (0.6, -0.8), (-0.8, -0.6)):
            yield [g, list(d)]


def gap_run(item, ctx):
    """Shared points as close as ten times the tolerance are two points, as close as a tenth of it are one."""
    gi, d = item
    g = GAPS[gi]
    one = g < 1e-8
    tol = 1e-9 + 1e-12 / g
    w = [(0.0, 0.0), (g * d[0], g * d[1]), (3, 1), (1, 2), (-2, 1), (0.0, 0.0)]
    for ka, kb in (([5, 0, 1, 2], [0, 5, 1, 3]), ([0, 1, 2], [0, 1, 3]), ([0, 1, 2], [0, 1, 3, 4]), ([0, 1], [0, 1, 3]), ([0, 1, 2], [0, 1]), ([0, 1, 4, 2], [0, 1, 4, 3]), ([0, 1, 4], [0, 1, 4, 3, 2])):
        shared = [v for v in ka if v in kb]
        far = any(v in (2, 3, 4) for v in shared)
        for perm in itertools.permutations(range(len(shared))):
            names = [None] * 6
            for v, n in zip(shared + [k for k in range(6) if k not in shared], hvars(list(perm) + list(range(len(shared), 6)))):
                names[v] = n
            for m1, m2 in itertools.product(MOVES[:6], (MOVES[0], MOVES[1], MOVES[2])):
                for x, y in ((ka, kb), (kb, ka)):
                    M, flag = config(w, x, names, m1).merge(config(w, y, names, m2))
                    what = "merging parts {0} and {1} of {2} placed by {3} and {4}, shared iterated {5}".format(x, y, w, m1, m2, perm)
                    if far or not one or (len(x) > 2 and len(y) > 2):
                        expect(flag == (one and not far) and M.underconstrained == flag, "{0}: underconstrained is {1}", what, flag)
                    if not flag and (far or not one):
                        whole = config(w, range(6), names, m1)
                        for v in set(x) | set(y):
                            p, q = M.get(names[v]), whole.get(names[v])
                            expect(math.hypot(p.x - q.x, p.y - q.y) <= (tol if not far else tol + 1e-6), "{0}: variable {1} is at {2!r}, expected {3!r}", what, v, p.elements, q.elements)
                    ctx.step()
                    ctx.out("gap {0:g}: {1}".format(g, "underconstrained" if flag else "determined"))
    ctx.state()
    ctx.trace()


def big_items(tier):
    for n in (5, 6, 7, 8, 12) if tier == "quick" else (5, 6, 7, 8, 12, 20, 40):
        for s in range(0, n + 1):
            yield [n, s]


def big_run(item, ctx):
    """Larger configurations; only the last one or two shared variables lie elsewhere (every position)."""
    n, s = item
    base = [((7 * i) % 11, (5 * i * i) % 13) for i in range(2 * n - s)]
    # one shared point lies elsewhere in the first configuration, another one in the second
    names = hvars(range(2 * n - s))
    for i, j in itertools.permutations(range(s), 2) if n == max(s, 8) else ():
        wa = [(4, 4) if k == i else (2, 3) for k in range(s)] + base[s:n]
        wb = [(6, 3) if k == j else (2, 3) for k in range(s)] + base[n:]
        check_merge(config(wa, range(n), names), Configuration({names[k if k < s else n + k - s]: at(z, MOVES[1]) for k, z in enumerate(wb)}),
                    "{0} points, {1} shared, {2} lies elsewhere in the first and {3} in the second".format(n, s, i, j))
        ctx.step()
    for lone in [None] + list(range(s)):
        for lone2 in [None] + ([x for x in range(0, s, 2)] if lone is not None else []):
            w = list(base)
            if lone is not None:
                for k in range(s):
                    if k != lone and k != lone2:
                        w[k] = (2, 3)
                w[lone] = (4, 4)
                if lone2 is not None and lone2 != lone:
                    w[lone2] = (4, 4)
            names = hvars([(k * 5 + 3) % 64 for k in range(2 * n - s)]) if 2 * n - s <= 60 else hvars(range(2 * n - s))
            A, B = config(w, range(n), names, MOVES[0]), config(w, list(range(s)) + list(range(n, 2 * n - s)), names, MOVES[3])
            M, f = check_merge(A, B, "{0} points, {1} shared, lone {2}, {3}".format(n, s, lone, lone2))
            whole = config(w, range(2 * n - s), names, MOVES[1])
            if not f:
                expect(M == whole and whole == M, "{0} points, {1} shared: a determined merge is not congruent to the whole", n, s)
            ctx.step()
    ctx.state()
    ctx.trace()


NAMINGS = [("a", "b", "c", "d"), (0, "", None, ()), (-1, -2, "-1", ("a",)), (frozenset(), 1, 2.5, "z"), (("b",), b"", 1 + 0j, frozenset([1])), (False, "0", "None", "()")]


def naming_items(tier):
    for i in range(len(NAMINGS)):
        for j in range(len(NAMINGS)):
            yield [i, j]


def naming_run(item, ctx):
    """Every split of worlds of four variables with names of all kinds; the parts may name theirs by equal but different objects."""
    i, j = item
    like = {0: False, False: 0, 1: True, 2.5: 2.5, (1 + 0j): 1.0}
    na = NAMINGS[i]
    # the second part names its variables as the first, or by equal objects, or otherwise
    nb = na if i == j else [like.get(x, x) if isinstance(x, (int, float, complex)) else x for x in na] if j == 0 else NAMINGS[j]
    w = [(0, 0), (3, 1), (0, 0), (2, 5)]
    for ka in itertools.product((0, 1), repeat=4):
        for kb in itertools.product((0, 1), repeat=4):
            A = Configuration({na[k]: at(w[k], MOVES[0]) for k in range(4) if ka[k]})
            B = Configuration({nb[k]: at(w[k], MOVES[1]) for k in (3, 2, 1, 0) if kb[k]})
            check_merge(A, B, "parts {0!r} and {1!r}".format(A, B))
            ctx.step()
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C17

MATS = [[[1.0, 0.0, 1e-6], [0.0, 1.0, -1e-6], [0.0, 0.0, 1.0]], [[1.0, 1e-6, 0.0], [-1e-6, 1.0, 0.0], [0.1, -0.05, 1.0]], [[0.0, -1.0, 2.0], [1.0, 0.0, -3.0], [0.0, 0.0, 1.0]], [[2.0, 0.0, 0.0], [0.0, -2.0, 1.0], [0.0, 0.0, 2.0]], [[1.0, 0.5, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]
POOL = [({"a": (0, 0), "b": (3, 1)}), ({"b": (5, 5), "c": (2, 2), "a": (6, 8)}), ({"d": (1, 1)}), ({"a": (4, 4), "b": (4, 4), "d": (0, 2)})]


class PoolSys:
    """A pool of configurations; everything that exists is observed again after every operation."""

    def __init__(self, pool, naming=0, extra=0):
        self.name = dict(zip("abcd", NAMINGS[naming]))
        pool = [dict(m, **{"x{0}".format((i + 5 * k) % (extra + 4)): ((i * 7 + k) % 11, -i) for i in range(extra)}) for k, m in enumerate(pool)]
        self.name.update({v: v for m in pool for v in m if v not in "abcd"})
        pool = [{self.name[k]: p for k, p in m.items()} for m in pool]
        self.src = [{k: Vector(*p) for k, p in m.items()} for m in pool]
        self.src[-1] = collections.defaultdict(lambda: Vector(0, 0), self.src[-1])
        self.cs = [Configuration(m) for m in self.src]
        self.seen = [snap(c) for c in self.cs]
        self.mats = [Matrix([list(r) for r in m]) for m in MATS]
        self.elems = [[list(r) for r in m] for m in MATS]
        for c, m in zip(self.cs, pool):
            expect(snap(c)[0] == {k: (float(x), float(y)) for k, (x, y) in m.items()} and c.underconstrained is False, "a new configuration is {0!r}", c)

    def put(self, c):
        expect(isinstance(c, Configuration), "the result is {0!r}", c)
        self.cs.append(c)
        self.seen.append(snap(c))

    def apply(self, op):
        k = op[0]
        c = self.cs[op[1]]
        m = self.seen[op[1]][0]
        if k == "copy":
            n = c.copy()
            self.put(n)
            expect(n is not c and snap(n) == self.seen[op[1]], "a copy of {0!r} is {1!r}, marked {2}, original marked {3}", c, n, n.underconstrained, c.underconstrained)
            expect(n == c and c == n, "a copy of {0!r} is not equal to it", c)
        elif k == "add":
            o = self.seen[op[2]][0]
            self.put(c.add(self.cs[op[2]]))
            want = dict(o)
            want.update(m)
            expect(self.seen[-1][0] == want, "{0!r} extended with {1!r} is {2!r}", c, self.cs[op[2]], self.cs[-1])
        elif k == "select":
            vs = [self.name[v] for v in op[2] if self.name[v] in m]
            self.put(c.select(op[3] and tuple(vs) or vs))
            expect(self.seen[-1][0] == {v: m[v] for v in vs}, "selecting {0} from {1!r} gives {2!r}", vs, c, self.cs[-1])
        elif k == "unknown":
            for a in (["nope"], list(m) + ["nope"], ["nope"] + list(m), [v for v in self.name.values() if v not in m]):
                if a:
                    expect(raises(c.select, a) is not None, "selecting {0}, of which not all exist, from {1!r} does not fail", a, c)
                    expect(raises(c.get, a[0]) is not None or a[0] in m, "get({0!r}) of {1!r} does not fail", a[0], c)
        elif k == "transform":
            t = self.mats[op[2]]
            self.put(c.transform(t))
            e = self.elems[op[2]]
            expect(t.elements == e, "transforming altered the matrix")
            want = {}
            for v, (x, y) in m.items():
                w = e[2][0] * x + e[2][1] * y + e[2][2]
                want[v] = ((e[0][0] * x + e[0][1] * y + e[0][2]) / w, (e[1][0] * x + e[1][1] * y + e[1][2]) / w)
            got = self.seen[-1][0]
            expect(set(got) == set(want) and all(math.hypot(got[v][0] - want[v][0], got[v][1] - want[v][1]) <= 1e-9 * (1 + abs(want[v][0]) + abs(want[v][1])) for v in want),
                   "{0!r} transformed by {1} is {2!r}, expected {3}", c, e, self.cs[-1], want)
        elif k == "merge":
            M, f = check_merge(c, self.cs[op[2]], "merging {0!r} with {1!r}".format(c, self.cs[op[2]]))
            self.put(M)
        elif k == "look":
            o = self.cs[op[2]]
            c == o, c != o, o == c, hash(c), str(c), repr(o), c == 5, list(c.vars()), {c: 1}, c in {o}
            for v in m:
                p = c.get(v)
                expect((p.x, p.y) == m[v], "get({0!r}) gives {1!r}", v, p)
            c.transformation_matrix(o)
        elif k == "remat":
            # the caller writes another transform into the matrix
            e = MATS[op[2]] if self.elems[op[2]] != MATS[op[2]] else MATS[(op[2] + 2) % len(MATS)]
            for i, row in enumerate(e):
                for j, x in enumerate(row):
                    self.mats[op[2]].elements[i][j] = self.elems[op[2]][i][j] = x
        elif k == "source":
            s = self.src[op[1]]
            if op[2] == 0:
                s["z"] = Vector(9, 9)
            elif op[2] == 1 and s:
                s[next(iter(s))] = Vector(-7, 7)
            elif op[2] == 2:
                s.clear()
        else:
            raise AssertionError(op)
        for i, (c, old) in enumerate(zip(self.cs, self.seen)):
            now = snap(c)
            expect(now == old, "configuration {0} changed from {1} to {2}", i, old, now)
            expect(set(c.vars()) == set(old[0]) and len(list(c.vars())) == len(old[0]), "variables of configuration {0} are {1}", i, list(c.vars()))


def pool_ops(n, npool, small):
    """Operations on a pool of n configurations."""
    ops = []
    idx = range(n) if not small else sorted({0, n - 2, n - 1})
    for i in idx:
        ops += [["copy", i]] + ([] if small else [["unknown", i]])
        ops += [["select", i, s, f] for s, f in ((["a", "b"], False), (["d", "a"], True), ([], False))[:1 if small else 3]]
        ops += [["transform", i, t] for t in range(len(MATS) if not small else 1)]
        for j in idx:
            ops += [["add", i, j], ["merge", i, j], ["look", i, j]]
    ops += [["remat", 0, t] for t in range(len(MATS) if not small else 1)]
    ops += [["source", i, k] for i in range(npool if not small else 1) for k in range(3 if not small else 1)]
    return ops


def pool_items(tier):
    for start in range(len(POOL)):
        order = [start, (start + 1) % 4, (start + 2) % 4]
        n = 3
        for op in pool_ops(n, 3, False):
            yield [order, op, 1 if tier == "quick" else 2, "wide"]
            for naming in range(1, len(NAMINGS)):
                yield [order, op, 1, "wide", naming]
            yield [order, op, 1, "wide", 0, 6]
            if op[0] != "look":
                yield [order, op, 0 if tier == "quick" else 1, "wide", 0, 40]
        for op in pool_ops(n, 3, True):
            yield [order, op, 2 if tier == "quick" else 3, "deep"]


def pool_run(item, ctx):
    """Every continuation of the first operation."""
    order, first, more, mode = item[:4]
    naming = item[4] if len(item) > 4 else 0
    extra = item[5] if len(item) > 5 else 0

    def grow(hist, left):
        s = PoolSys([POOL[k] for k in order], naming, extra)
        try:
            for op in hist:
                s.apply(op)
                ctx.step()
        except Violation as v:
            raise Violation("pool {0}{3}, history {1}: {2}".format([POOL[k] for k in order], hist, v, " named {0}".format(NAMINGS[naming]) if naming else " with {0} more points each".format(extra) if extra else ""))
        if left:
            for op in pool_ops(len(s.cs), 3, mode == "deep"):
                grow(hist + [op], left - 1)
        else:
            ctx.trace()
            ctx.state()
    grow([first], more)
    ctx.out(first[0])


# subclasses

class SubConf(Configuration):
    """A user's own kind of configuration."""


class SubVec(Vector):
    """A user's own kind of point."""


class SubMap(dict):
    """A user's own kind of mapping."""


def kind_items(tier):
    for w in range(len(CHAIN_WORLDS)):
        for ka in range(len(CHAIN)):
            yield [w, ka]


def kind_run(item, ctx):
    """Configurations and points of user-defined subclasses are configurations and points."""
    w, ka = item
    world = CHAIN_WORLDS[w]
    other = [(x + (k == 1), y) for k, (x, y) in enumerate(world)]
    for kb in range(len(CHAIN)):
        for ca, va, cb, vb in itertools.product((Configuration, SubConf), (Vector, SubVec), (Configuration, SubConf), (Vector, SubVec)):
            if (ca, va, cb, vb) == (Configuration, Vector, Configuration, Vector):
                continue
            mk = lambda c, v, ks, m, pts: c(SubMap({"v{0}".format(k): v(at(pts[k], m).x, at(pts[k], m).y) for k in ks}))
            A, B, C = mk(ca, va, CHAIN[ka], MOVES[0], world), mk(cb, vb, CHAIN[kb], MOVES[1], world), mk(cb, vb, CHAIN[kb], MOVES[1], other)
            what = "{0} of {1} and {2} of {3}: parts {4!r} and {5!r}".format(ca.__name__, va.__name__, cb.__name__, vb.__name__, A, B)
            same_eq(A, B, set(CHAIN[ka]) == set(CHAIN[kb]), "{5}", what)
            if set(CHAIN[ka]) == set(CHAIN[kb]):
                same_eq(A, C, congruent([world[k] for k in CHAIN[ka]], [other[k] for k in CHAIN[ka]]), "{5}, the second with v1 moved", what)
            before = snap(A), snap(B)
            check_merge(A, B, what)
            ma, mb = before[0][0], before[1][0]
            for c, want in ((A.copy(), ma), (A.add(B), dict(mb, **ma)), (A.select(list(ma)[1:]), {v: ma[v] for v in list(ma)[1:]}),
                            (A.transform(Matrix(MATS[2])), {v: (2 - y, x - 3) for v, (x, y) in ma.items()})):
                expect(isinstance(c, Configuration) and c.underconstrained is False and snap(c)[0].keys() == want.keys()
                       and all(math.hypot(snap(c)[0][v][0] - want[v][0], snap(c)[0][v][1] - want[v][1]) < 1e-9 for v in want), "{0}: got {1!r}, expected {2}", what, c, want)
            expect((snap(A), snap(B)) == before, "{0}: an operation changed a configuration", what)
            ctx.step(7)
        ctx.state()
    ctx.trace()


ASSUME = ["coordinates coincide exactly or differ by much more than the absolute tolerance 1e-8",
          "which variable a set yields first is controlled through the variables' hashes (CPython sets of up to 8 small hashes iterate in hash order)"]

CHECKS = {
    "C15": {"rule": "all pairs of lattice configurations against exact congruence over Gaussian integers, with the iteration order of the variable sets enumerated; "
                    "moved, mirrored, scaled and perturbed images of 18 configurations; all pairs of 20 name lists",
            "assumptions": ASSUME,
            "harnesses": [
                fn_harness("pairs", "all pairs of 1..4 points (4x4, 3x3, 2x2 lattices; thorough larger), first point of one fixed; all iteration orders where points coincide or the pair is congruent", eq_items, eq_run),
                fn_harness("in-turn", "one of all configurations of 2..4 points (2x2, 2x1 lattices), compared with all pairs of others in turn, all iteration orders", seq_items, seq_run),
                fn_harness("images", "18 configurations of 1..6 points x 10 scales 0.01..1e100 x 7 motions x up to 12 iteration orders: moved, mirrored, enlarged, one point moved", move_items, move_run),
                fn_harness("rounding", "lengths on the rounding boundaries of 1 to 9 digits x 4 shapes x 24 motions", hashround_items, hashround_run),
                fn_harness("large", "7..65 (130) points in 6 arrangements x 3 iteration orders: every single point moved, left out or renamed", large_items, large_run),
                fn_harness("uneven", "5 points, two of them 2e-7..1e-2 apart, the others 1..1000 (7000) away: 4 choices x all iteration orders x 7 placements; also enlarged, mirrored, one point moved", uneven_items, uneven_run),
                fn_harness("origins", "18 configurations, new, copied, selected, added, transformed, merged, marked and not: all pairs", made_items, made_run),
                fn_harness("subclasses", "all pairs of 11 parts of 5 worlds as configurations and points of subclasses", kind_items, kind_run),
                fn_harness("names", "all pairs of 20 name lists (falsy names, equal hashes, equal hash sums) x all assignments; 13 foreign objects", name_items, name_run),
            ]},
    "C16": {"rule": "all splits of all lattice worlds into two overlapping parts placed by rotations and translations, unrelated placements, chains of three parts in both groupings, marked inputs",
            "assumptions": ASSUME + ["when the shared points cannot be made to overlap, only rigidity and the first configuration's points are checked",
                                     "the mark is left open where the statement does: the only freedom left is about points that all coincide"],
            "harnesses": [
                fn_harness("compatible", "0..3 shared, 0..2 further points each side, at most 4 (5) in all: all lattice worlds x iteration orders x placements", merge_items, merge_run),
                fn_harness("unrelated", "1..3 shared, up to 1 further point each side: all pairs of placements on a 2x2 lattice x iteration orders", clash_items, clash_run),
                fn_harness("chains", "all triples of 11 parts of 5 worlds x 3 iteration orders, both groupings, merged again", chain_items, chain_run),
                fn_harness("subclasses", "all pairs of 11 parts of 5 worlds as configurations and points of subclasses", kind_items, kind_run),
                fn_harness("names", "6 x 6 lists of names (falsy, equal but different, equal hashes) x all pairs of parts of 4 points", naming_items, naming_run),
                fn_harness("marked", "all shapes x which input is marked x copies", flagged_items, flagged_run),
                fn_harness("large", "5..12 (40) points, every number of shared points, all but one or two of them coinciding", big_items, big_run),
                fn_harness("gaps", "shared points 1e-11..1e-3 apart in 5 directions, with and without a farther shared point, all iteration orders x 18 placements", gap_items, gap_run),
                fn_harness("uneven", "7 points, two shared ones 2e-7..1e-2 apart, other shared ones 1..1000 (7000) away: 4 choices x all iteration orders x 21 placements", uneven_items, uneven_merge_run),
                fn_harness("scales", "7 worlds x 12 scales 1e-4..1e100 x 1..4 shared variables x all iteration orders x 3 placements, both orders of the operands", scale_items, scale_run),
            ]},
    "C17": {"rule": "all operation sequences over a pool of configurations; after every operation every configuration that exists is compared with what it was",
            "assumptions": ["points handed to a configuration are not modified in place by the caller (documented shallow copy)"],
            "harnesses": [
                fn_harness("subclasses", "all pairs of 11 parts of 5 worlds as configurations and points of subclasses", kind_items, kind_run),
                fn_harness("histories", "4 pools of 3: all sequences of 2 (3) of ~60 operations and of 3 (4) of ~35; 6 and 40 more points each: of 2 and 1", pool_items, pool_run),
            ]},
}
