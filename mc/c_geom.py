"""C18-C22: intersections, measures, vectors and matrices, coordinate systems, tolerant comparisons."""
import cmath
import itertools
import math
from fractions import Fraction

import numpy as np

import core
from core import expect, raises, fn_harness, Violation

from solver import geometry as G
from solver.geometry import (Scalar, Matrix, Vector, cc_int, cl_int, cr_int, ll_int, lr_int, rr_int, angle_3p, distance_2p,
                             is_clockwise, is_counterclockwise, is_flat, is_acute, is_obtuse, make_hcs, make_hcs_scaled,
                             cs_transform_matrix)

# placements: z -> z * (a + bi) / d * f + offset; exact similarity of the integer lattice
PLACES = [(1, 0, 1, 1.0, 0, 0), (3, 4, 5, 1.0, 2, -1), (0, -1, 1, 0.25, -3, 0.5), (1, 0, 1, 1024.0, 0, 0), (-4, 3, 5, 2.0, 40, 100)]


class Place:
    def __init__(self, t):
        a, b, d, f, ox, oy = t
        self.w, self.o, self.f = complex(a, b) / d * f, complex(ox, oy), f
        self.t = t

    def pt(self, z):
        p = complex(*z) * self.w + self.o
        return Vector(p.real, p.imag)

    def c(self, z):
        """Complex lattice point to the placed complex point."""
        return z * self.w + self.o

    def dir(self, z, k=1.0):
        p = complex(*z) * self.w * k
        return Vector(p.real, p.imag)


PL = [Place(t) for t in PLACES]


def same_points(got, want, tol):
    """got: list of vectors, want: list of complex; the same points, each once."""
    if not isinstance(got, list) or len(got) != len(want):
        return False
    g = [complex(p.x, p.y) for p in got]
    if len(want) == 2:
        return max(abs(g[0] - want[0]), abs(g[1] - want[1])) <= tol or max(abs(g[0] - want[1]), abs(g[1] - want[0])) <= tol
    return all(abs(x - y) <= tol for x, y in zip(g, want))


def frozen(*vs):
    return [(v.x, v.y) if isinstance(v, Vector) else v for v in vs]


def ask(f, args, want, tol, what):
    before = frozen(*args)
    got = f(*args)
    expect(same_points(got, want, tol), "{0}{1}: {2} gives {3}, expected {4}", f.__name__, tuple(before), what, got, want)
    expect(frozen(*args) == before, "{0}{1} altered its arguments", f.__name__, tuple(before))
    for q in got:
        old = q.x, q.y
        q.x, q.y = 0.25, -0.75
        expect(frozen(*args) == before, "changing the result of {0}{1} altered an argument", f.__name__, tuple(before))
        q.x, q.y = old
    if len(got) == 2:
        expect(got[0] is not got[1] and same_points(got, want, tol), "{0}{1} gives one object twice", f.__name__, tuple(before))
    # equal arguments may be one object, whole numbers may be integers
    same = {b: a for a, b in zip(args, before)}
    for other in ([same[b] for b in before], [int(b) if isinstance(b, float) and b == int(b) else a for a, b in zip(args, before)]):
        if any(a is not b for a, b in zip(other, args)):
            again = f(*other)
            expect(same_points(again, want, tol), "{0}{1} of the very same objects or of integers: {2} gives {3}, expected {4}", f.__name__, tuple(before), what, again, want)
            expect(frozen(*other) == before, "{0}{1} altered its arguments", f.__name__, tuple(before))
    return got


# --------------------------------------------------------------------------- C18

def cc_want(dx, dy, r1, r2):
    """Exact number of common points of the circle r1 about 0 and r2 about (dx, dy), and the points."""
    d2 = dx * dx + dy * dy
    if d2 == 0 or d2 > (r1 + r2) ** 2 or d2 < (r1 - r2) ** 2:
        return []
    d = math.sqrt(d2)
    e = complex(dx, dy) / d
    u = (d2 + r1 * r1 - r2 * r2) / (2 * d)
    if d2 in ((r1 + r2) ** 2, (r1 - r2) ** 2):
        return [e * u]
    # h^2 = r1^2 - u^2, as an exact fraction
    h = math.sqrt(Fraction(4 * d2 * r1 * r1 - (d2 + r1 * r1 - r2 * r2) ** 2, 4 * d2))
    return [e * complex(u, h), e * complex(u, -h)]


def touching(args, want, tol, ctx):
    """Coordinates that are not exact: a touch may be seen as one point or as two that agree."""
    got = cc_int(*args)
    expect(isinstance(got, list) and len(got) in (1, 2) and all(abs(complex(q.x, q.y) - want) <= tol for q in got), "touching circles {0}: {1}, expected {2}", args, got, want)
    ctx.step()
    ctx.out("touch seen as {0} points".format(len(got)))


def cc_items(tier):
    n = 6 if tier == "quick" else 10
    for dx in range(-n, n + 1):
        for dy in range(-n, n + 1):
            yield [dx, dy, n + 2]


def cc_run(item, ctx):
    dx, dy, rmax = item
    for r1 in range(rmax):
        for r2 in range(rmax):
            z = cc_want(dx, dy, r1, r2)
            for p in PL:
                f = p.f
                tol = 1e-6 * f + 1e-9
                a, b = p.pt((0, 0)), p.pt((dx, dy))
                want = [p.c(s) for s in z]
                what = "{0} circles at distance {1}".format("tangent" if len(z) == 1 else "meeting" if z else "apart", math.hypot(dx, dy) * f)
                if len(z) == 1 and p.t[2] != 1:
                    touching((a, r1 * f, b, r2 * f), want[0], tol, ctx)
                    touching((b, r2 * f, a, r1 * f), want[0], tol, ctx)
                    continue
                ask(cc_int, (a, r1 * f, b, r2 * f), want, tol, what)
                ask(cc_int, (b, r2 * f, a, r1 * f), want, tol, what + ", exchanged")
                ctx.step(2)
            ctx.out("circle/circle: {0} points".format(len(z)))
            ctx.state()
    ctx.trace()


BIG = [(20, 0, 9, 11), (20, 0, 9, 12), (2000, 0, 1000, 1000), (2000, 0, 1000, 1001), (2000, 0, 999, 1000), (0, 3000, 1, 2999), (0, 3000, 1, 3001), (0, 3000, 2, 2999), (0, 3000, 5, 3000),
       (300, 400, 100, 400), (300, 400, 100, 401), (300, 400, 600, 100), (300, 400, 601, 100), (300, 400, 500, 1), (1, 0, 1000, 1000), (1, 0, 1000, 999), (1, 1, 500, 500), (1, 0, 1000, 1002),
       (0, 0, 5, 5), (0, 0, 5, 7), (0, 0, 0, 0), (0, 0, 0, 3), (7, 24, 25, 25), (7, 24, 50, 25), (7, 24, 0, 25), (7, 24, 25, 0), (1, 0, 0, 0), (-12, 5, 13, 26), (-12, 5, 13, 0)]


def big_cc_items(tier):
    for b in BIG:
        yield list(b)


def big_cc_run(item, ctx):
    """Very unequal, far, touching and nearly touching circles."""
    dx, dy, r1, r2 = item
    for dx, dy in ((dx, dy), (-dy, dx), (dx, -dy), (-dx, -dy)):
        z = cc_want(dx, dy, r1, r2)
        for p in PL:
            f = p.f
            # a touching point is only as exact as the square root of the rounding error
            tol = (1e-5 if len(z) == 1 else 1e-6) * f * (1 + max(r1, r2, abs(dx), abs(dy)) / 100)
            a, b = p.pt((0, 0)), p.pt((dx, dy))
            if len(z) == 1 and (p.t[2] != 1 or max(abs(dx), abs(dy)) > 30):
                touching((a, r1 * f, b, r2 * f), p.c(z[0]), 100 * tol, ctx)
                touching((b, r2 * f, a, r1 * f), p.c(z[0]), 100 * tol, ctx)
                continue
            ask(cc_int, (a, r1 * f, b, r2 * f), [p.c(s) for s in z], tol, "circles")
            ask(cc_int, (b, r2 * f, a, r1 * f), [p.c(s) for s in z], tol, "circles, exchanged")
            ctx.step(2)
    ctx.state()
    ctx.trace()


def sq_items(tier):
    n = 3 if tier == "quick" else 5
    for dx in range(0, n + 1):
        for dy in range(-n, n + 1):
            yield [dx, dy]


def sq_run(item, ctx):
    """Circles through lattice points: radii are square roots of integers."""
    dx, dy = item
    d2 = dx * dx + dy * dy
    for s1 in range(1, 27):
        for s2 in range(1, 27):
            # exact: (s1 + s2 - d2)^2 vs 4 s1 s2
            k = 4 * s1 * s2 - (s1 + s2 - d2) ** 2
            if d2 == 0:
                z = []
            elif k < 0:
                z = []
            else:
                u = Fraction(d2 + s1 - s2, 2)
                e = complex(dx, dy) / d2
                h = math.sqrt(k) / 2
                z = [e * complex(float(u), h), e * complex(float(u), -h)]
            for p in PL[:3]:
                a, b = p.pt((0, 0)), p.pt((dx, dy))
                R1, R2 = math.sqrt(s1) * p.f, math.sqrt(s2) * p.f
                if d2 and k == 0:
                    touching((a, R1, b, R2), p.c(z[0]), 1e-6, ctx)
                    touching((b, R2, a, R1), p.c(z[0]), 1e-6, ctx)
                    continue
                ask(cc_int, (a, R1, b, R2), [p.c(s) for s in z], 1e-6, "circles with squared radii {0}, {1} about 0 and {2}".format(s1, s2, item))
                ask(cc_int, (b, R2, a, R1), [p.c(s) for s in z], 1e-6, "circles with squared radii {0}, {1} about 0 and {2}, exchanged".format(s1, s2, item))
                ctx.step(2)
            ctx.state()
    ctx.trace()


def dirs(n):
    return [(x, y) for x in range(-n, n + 1) for y in range(-n, n + 1) if (x, y) != (0, 0)]


def line_solutions(r, px, py, vx, vy):
    """Circle r about 0 and line p + t v: list of (point, sign of t), exact counts and signs."""
    D = px * vy - py * vx
    v2 = vx * vx + vy * vy
    E = r * r * v2 - D * D
    if E < 0:
        return []
    b = px * vx + py * vy
    res = []
    for s in ((0,) if E == 0 else (1, -1)):
        # t = (-b + s sqrt(E)) / v2
        if s == 0:
            sign = (-b > 0) - (-b < 0)
        else:
            x = -b
            if x == 0 or (x > 0) == (s > 0):
                sign = s
            else:
                c = x * x - E
                sign = 0 if c == 0 else (1 if x > 0 else -1) * (1 if c > 0 else -1)
        t = (-b + s * math.sqrt(E)) / v2
        res.append((complex(px + t * vx, py + t * vy), sign))
    return res


def cl_items(tier):
    n, m = (4, 3) if tier == "quick" else (7, 4)
    for x in range(-n, n + 1):
        for y in range(-n, n + 1):
            yield [x, y, m, n + 2]


def cl_run(item, ctx):
    x, y, m, rmax = item
    for v in dirs(m):
        for r in range(rmax):
            sol = line_solutions(r, x, y, *v)
            p = PL[(x * 3 + v[0] + v[1] * 2 + r) % len(PL)]
            for pl, k in ((PL[0], 1.0), (p, 0.5 if v[0] > 0 else 3.0)):
                f = pl.f
                tol = 1e-6 * f + 1e-9
                args = (pl.pt((0, 0)), r * f, pl.pt((x, y)), pl.dir(v, k))
                ask(cl_int, args, [pl.c(z) for z, _ in sol], tol, "circle {0} and line through {1} along {2}".format(r, (x, y), v))
                ask(cr_int, args, [pl.c(z) for z, t in sol if t >= 0], tol, "circle {0} and ray from {1} along {2}".format(r, (x, y), v))
                ctx.step(2)
            ctx.out("circle/line {0} points, ray {1}".format(len(sol), len([1 for _, t in sol if t >= 0])))
            ctx.state()
    ctx.trace()


FINE_CL = [(1000, 0, 1000, 0, 1), (1000, 0, 999, 0, 1), (1000, 0, 1001, 1, 0), (5, 3, 4, 1, 0), (5, 3, 4, 0, 1), (5, 1000, 4, -1, 0), (5, -1000, 5, 1, 0), (5, -1000, 5, -1, 0),
           (5, -1000, 6, 1, 0), (1, 1, 0, 1, 1000), (1, 1, 0, 0, 1), (1, 1, 0, -1, 1000), (100, 100, 1, -1000, 1), (100, 101, 0, 1, 0), (100, 99, 0, 1, 0), (100, 101, 0, -1, 0),
           (100, 0, 0, 1, 999), (0, 0, 0, 1, 0), (0, 0, 0, 0, 1), (0, 1, 0, 1, 0), (0, 1, 0, -1, 0), (0, 1, 1, 0, 1), (65, 16, 63, 63, -16), (65, 16, 63, -63, 16), (65, 0, 0, 16, 63), (1, 0, 1, 1, 0), (1, 7, 1, -1, 0), (1, -7, -1, -1, 0)]


def fine_cl_items(tier):
    for c in FINE_CL:
        yield list(c)


def fine_cl_run(item, ctx):
    r, x, y, vx, vy = item
    for k in range(4):
        for mirror in (1, -1):
            rot = lambda a, b: [(a, b * mirror), (-b * mirror, a), (-a, -b * mirror), (b * mirror, -a)][k]
            sol = line_solutions(r, *rot(x, y), *rot(vx, vy))
            for pl in (PL[0], PL[2], PL[3]):
                f = pl.f
                args = (pl.pt((0, 0)), r * f, pl.pt(rot(x, y)), pl.dir(rot(vx, vy), 1 / f))
                tol = 1e-6 * f * (1 + max(r, abs(x), abs(y)) / 10)
                ask(cl_int, args, [pl.c(z) for z, _ in sol], tol, "circle/line")
                ask(cr_int, args, [pl.c(z) for z, t in sol if t >= 0], tol, "circle/ray")
                ctx.step(2)
    ctx.state()
    ctx.trace()


def scale_items(tier):
    for e in range(0, 13 if tier == "quick" else 31, 2 if tier == "quick" else 1):
        yield [e, 18 if tier == "quick" else 72]


def scale_run(item, ctx):
    """Lines that touch, cut and miss circles of every size by little, along directions of every length."""
    e, n = item
    R = 10.0 ** e
    for k in range(n):
        u = cmath.rect(1.0, 0.1 + k * 2 * math.pi / n)
        for off in (0, 1, -3, 7, 100):
            for c in (0, 1 - 2j, 0.3 + 7j):
                for vs in (1.0, R, 0.01, -30.0):
                    for gap in (0, 1e-3, -1e-3):
                        c0, p0 = c * R, (c + u * complex(1 + gap, off)) * R
                        v = u * 1j * vs
                        args = (Vector(c0.real, c0.imag), R, Vector(p0.real, p0.imag), Vector(v.real, v.imag))
                        # the ray is not asked for where it starts on the circle
                        ahead = off * vs < 0
                        h = math.sqrt(max(0.0, 1 - (1 + gap) ** 2))
                        want = [] if gap > 0 else [c0 + u * complex(1 + gap, h) * R, c0 + u * complex(1 + gap, -h) * R]
                        if unseen(R, vs, gap):
                            continue
                        for f, w in ((cl_int, want), (cr_int, want if ahead else [])):
                            if f is cr_int and off == 0:
                                continue
                            got = f(*args)
                            good = isinstance(got, list) and (len(got) == 2 or gap == 0 and len(got) == 1 if w else got == [])
                            good = good and all(min(abs(complex(q.x, q.y) - z) for z in w) <= 1e-6 * R for q in got)
                            good = good and (gap == 0 or all(min(abs(complex(q.x, q.y) - z) for q in got) <= 1e-6 * R for z in w))
                            expect(good, "{0}{1}: {2}, expected {3}", f.__name__, args, got, w)
                            ctx.step()
        for q in (1.0, 0.5, 3.0, 0.01):
            for c in (0, 1 - 2j, 0.3 + 7j):
                for inside in (False, True):
                    if inside and q == 1:
                        continue
                    for gap in (0, 1e-3, -1e-3):
                        # circles of radii R and q R that touch, cut and miss each other
                        # by enough to show in the squares of the larger radius
                        small = min(1.0, q) if q > 0.1 else 500 * q
                        d = (abs(1 - q) - gap * small) if inside else (1 + q + gap * small)
                        c1, c2 = c * R, (c + u * d) * R
                        a, b = (Vector(c1.real, c1.imag), R), (Vector(c2.real, c2.imag), q * R)
                        x = (1 - q * q + d * d) / (2 * d)
                        h = math.sqrt(max(0.0, 1 - x * x)) if gap < 0 else 0.0
                        want = [] if gap > 0 else [c1 + u * complex(x, h) * R, c1 + u * complex(x, -h) * R]
                        for args in (a + b, b + a):
                            got = cc_int(*args)
                            good = isinstance(got, list) and (len(got) == 2 or gap == 0 and len(got) == 1 if want else got == [])
                            good = good and all(min(abs(complex(p.x, p.y) - z) for z in want) <= 1e-5 * R for p in got)
                            good = good and (gap == 0 or all(min(abs(complex(p.x, p.y) - z) for p in got) <= 1e-5 * R for z in want))
                            expect(good, "cc_int{0}: {1}, expected {2}", args, got, want)
                            ctx.step()
        for q in (1e-3, 1e-4, 1e-5, 1e-6):
            if q * R < 0.25:
                continue
            for c in (0, 1 - 2j):
                for shift in (0.0, 0.5, -0.5):
                    # a circle about a point on or near a circle that is far larger
                    d = 1 + shift * q
                    y = q * (2 * shift + (shift * shift + 1) * q) / (2 * d)
                    h = math.sqrt(q * q - y * y)
                    c1, c2 = c * R, (c + u * d) * R
                    want = [c2 + u * complex(-y, h) * R, c2 + u * complex(-y, -h) * R]
                    a, b = (Vector(c1.real, c1.imag), R), (Vector(c2.real, c2.imag), q * R)
                    for args in (a + b, b + a):
                        got = cc_int(*args)
                        good = isinstance(got, list) and len(got) == 2 and all(min(abs(complex(p.x, p.y) - z) for p in got) <= 1e-2 * q * R for z in want)
                        expect(good, "cc_int{0}: {1}, expected {2}", args, got, want)
                        ctx.step()
        ctx.state()
    ctx.out("circle/line sizes")
    ctx.trace()


def unseen(R, vs, gap):
    """Whether the absolute tolerance swallows the gap."""
    return gap and R * R * vs * vs * abs(gap) < 1e-6


def ll_items(tier):
    m = 2 if tier == "quick" else 3
    for v1 in dirs(m):
        for v2 in dirs(m):
            yield [v1, v2, 3 if tier == "quick" else 4]


def ll_case(v1, v2, x, y, pls, ctx, tolf=1.0, inexact=()):
    """Line 1 through 0 along v1, line 2 through (x, y) along v2.

    The placements in inexact are left out when the lines meet at a ray's very start: there
    rounding of large coordinates decides on which side of the start the meeting lies."""
    den = v1[0] * v2[1] - v1[1] * v2[0]
    if den:
        t1, t2 = Fraction(x * v2[1] - y * v2[0], den), Fraction(x * v1[1] - y * v1[0], den)
        z = [complex(float(t1 * v1[0]), float(t1 * v1[1]))]
    else:
        z, t1, t2 = [], -1, -1
    for pl, k in pls:
        if pl in inexact and 0 in (t1, t2):
            ctx.out("at a ray's start, coordinates too large: left open")
            continue
        a, b = pl.pt((0, 0)), pl.pt((x, y))
        d1, d2 = pl.dir(v1, k), pl.dir(v2, 1.0)
        tol = (1e-6 * pl.f + 1e-9) * tolf
        w = [pl.c(s) for s in z]
        what = "from 0 along {0} and from {1} along {2}".format(v1, (x, y), v2)
        ask(ll_int, (a, d1, b, d2), w, tol, "lines " + what)
        ask(lr_int, (a, d1, b, d2), w if t2 >= 0 else [], tol, "line and ray " + what)
        ask(rr_int, (a, d1, b, d2), w if t1 >= 0 and t2 >= 0 else [], tol, "rays " + what)
        ask(ll_int, (b, d2, a, d1), w, tol, "lines, exchanged, " + what)
        ask(lr_int, (b, d2, a, d1), w if t1 >= 0 else [], tol, "line and ray, exchanged, " + what)
        ask(rr_int, (b, d2, a, d1), w if t1 >= 0 and t2 >= 0 else [], tol, "rays, exchanged, " + what)
        ctx.step(6)
    ctx.out("parallel" if not den else "meet {0}/{1}".format("ahead" if t1 > 0 else "start" if t1 == 0 else "behind", "ahead" if t2 > 0 else "start" if t2 == 0 else "behind"))


def ll_run(item, ctx):
    v1, v2, n = item
    for x in range(-n, n + 1):
        for y in range(-n, n + 1):
            p = PL[(x + 2 * y + v1[0]) % len(PL)]
            ll_case(v1, v2, x, y, ((PL[0], 1.0), (p, 0.5 if x > 0 else 4.0)), ctx)
            ctx.state()
    ctx.trace()


FINE_V = [(1, 0), (0, 1), (1000, 1), (1000, -1), (1, 1000), (-1, 1000), (-1000, 1), (-1, 0), (0, -1), (1, 1), (999, 1000), (7, -3)]
FINE_P = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1000, 1), (1000, 2), (-1000, -1), (1, 1000), (999, 999), (-1, 1000), (500, -3)]


def fine_ll_items(tier):
    for v1 in FINE_V:
        for v2 in FINE_V:
            yield [v1, v2]


def fine_ll_run(item, ctx):
    v1, v2 = item
    for x, y in FINE_P:
        ll_case(v1, v2, x, y, ((PL[0], 1.0), (PL[2], 1.0), (PL[3], 0.01)), ctx, tolf=3000.0, inexact=(PL[3],) if max(abs(x), abs(y)) < 2 else (PL[0], PL[2], PL[3]))
        ctx.state()
    ctx.trace()


TINY_V = [(300000, 1), (300000, -1), (1, 0), (-300000, 1), (1, 300000), (0, 1), (-1, 300000), (200000, 199999), (-200000, -199999), (1, 1), (400000, 200001), (2, 1)]
TINY_P = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (3, -2), (-5, 7)]


def tiny_ll_items(tier):
    for v1 in TINY_V:
        for v2 in TINY_V:
            yield [v1, v2]


def tiny_ll_run(item, ctx):
    """Lines at angles of a millionth, given by directions so long that they are far from parallel in the library's terms."""
    v1, v2 = item
    for x, y in TINY_P:
        ll_case(v1, v2, x, y, ((PL[0], 1.0),), ctx, tolf=1e6, inexact=(PL[0],))
        ctx.state()
    ctx.trace()


SMALL_K = [0.1, 0.03, 1e-3, 5e-4, 1e-5, 2e-6, 3e-7, 1.5e-7]


def unit_dirs():
    res = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (0.6, 0.8), (-0.8, 0.6)]
    for k in SMALL_K:
        res += [(1.0, k), (-1.0, k), (1.0, -k), (k, 1.0), (-k, 1.0), (k, -1.0)]
    return res


def unit_items(tier):
    for i in range(len(unit_dirs())):
        yield i


def unit_run(i, ctx):
    """Directions of about unit length at all angles down to 1.5e-7; exact arithmetic on the very floats."""
    v1 = unit_dirs()[i]
    for v2 in unit_dirs():
        F1, F2 = [Fraction(x) for x in v1], [Fraction(x) for x in v2]
        den = F1[0] * F2[1] - F1[1] * F2[0]
        if den and abs(den) < 1e-7:
            ctx.out("nearly parallel: left open")
            continue
        for x, y in ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-2.0, 3.0), (5.0, -0.25), (-1.0, -1.0)):
            for o in ((0.0, 0.0), (7.0, -3.0)):
                a, b, d1, d2 = Vector(*o), Vector(x + o[0], y + o[1]), Vector(*v1), Vector(*v2)
                if not den:
                    w, t1, t2 = [], None, None
                else:
                    t1, t2 = (Fraction(x) * F2[1] - Fraction(y) * F2[0]) / den, (Fraction(x) * F1[1] - Fraction(y) * F1[0]) / den
                    w = [complex(float(t1 * F1[0] + Fraction(o[0])), float(t1 * F1[1] + Fraction(o[1])))]
                tol = 1e-9 if not w else 1e-12 * (10 + abs(w[0])) / abs(float(den))
                what = "from {0} along {1} and from {2} along {3}".format(a, v1, b, v2)
                ask(ll_int, (a, d1, b, d2), w, tol, "lines " + what)
                ask(ll_int, (b, d2, a, d1), w, tol, "lines, exchanged, " + what)
                ctx.step(2)
                if w and (abs(t1) < 1e-4 or abs(t2) < 1e-4):
                    continue
                ask(lr_int, (a, d1, b, d2), w if w and t2 > 0 else [], tol, "line and ray " + what)
                ask(lr_int, (b, d2, a, d1), w if w and t1 > 0 else [], tol, "line and ray, exchanged, " + what)
                ask(rr_int, (a, d1, b, d2), w if w and t1 > 0 and t2 > 0 else [], tol, "rays " + what)
                ask(rr_int, (b, d2, a, d1), w if w and t1 > 0 and t2 > 0 else [], tol, "rays, exchanged, " + what)
                ctx.step(4)
        ctx.state()
    # circles cut by the line at a depth far above the tolerance
    F1 = [Fraction(x) for x in v1]
    n2 = F1[0] ** 2 + F1[1] ** 2
    for r in (1.0, 5.0, 0.25):
        for x, y in ((0.0, 0.0), (1.0, 0.5), (-2.0, 0.125), (0.0, -3.0), (4.0, 4.0), (-30.0, 0.0), (0.0, 25.0)):
            sol = line_solutions(Fraction(r), Fraction(x), Fraction(y), *F1)
            D2 = (Fraction(x) * F1[1] - Fraction(y) * F1[0]) ** 2 / n2
            if abs(Fraction(r) ** 2 - D2) < 1e-3:
                continue
            args = (Vector(3, 3), r, Vector(x + 3, y + 3), Vector(*v1))
            pts = [z + complex(3, 3) for z, _ in sol]
            ask(cl_int, args, pts, 1e-6, "circle and line")
            if all(abs(z - complex(x, y)) > 1e-4 for z, _ in sol):
                ask(cr_int, args, [z + complex(3, 3) for z, t in sol if t > 0], 1e-6, "circle and ray")
            ctx.step(2)
        ctx.state()
    ctx.trace()


def close_items(tier):
    for k in range(16):
        yield k


def close_run(k, ctx):
    """Figures that are closer to touching, or centres closer to each other, than in the other harnesses, but ten times and more the tolerance away."""
    w = cmath.exp(1j * math.pi * k / 8) if k % 4 else 1j ** (k // 4)
    for o in (0j, complex(7, -3)):
        a = Vector(o.real, o.imag)
        # equal circles about nearly the same centre cut each other across the middle
        for r in (1.0, 5.0):
            for gap in (1e-7, 4e-7, 1e-6, 1e-5, 1e-3):
                b = Vector((o + w * gap).real, (o + w * gap).imag)
                g = complex(b.x - a.x, b.y - a.y)
                h = 1j * g / abs(g) * math.sqrt(r * r - abs(g) ** 2 / 4)
                want = [o + g / 2 + h, o + g / 2 - h]
                # the direction is known as well as the coordinates of the centres allow
                ask(cc_int, (a, r, b, r), want, 1e-9 + 1e-14 / gap, "equal circles {0} apart".format(gap))
                ask(cc_int, (b, r, a, r), want, 1e-9 + 1e-14 / gap, "equal circles {0} apart".format(gap))
                ctx.step(2)
        # outside and inside each other with a gap of 6e-5 and more of the radius
        for r1, r2 in ((1.0, 1.0), (2.0, 1.0), (1.0, 3.0), (0.25, 4.0)):
            for gap in (8e-5, 2e-4, 1e-3, 0.1):
                for d in (r1 + r2 + gap * (r1 + r2), abs(r1 - r2) - gap * (r1 + r2)):
                    if d > 0:
                        b = Vector((o + w * d).real, (o + w * d).imag)
                        ask(cc_int, (a, r1, b, r2), [], 1e-9, "circles that miss each other")
                        ask(cc_int, (b, r2, a, r1), [], 1e-9, "circles that miss each other")
                        ctx.step(2)
        # lines that cut or miss the circle by little
        for r in (1.0, 3.0):
            for e in (1.5e-7, 4e-7, 1e-6, 1e-5, 1e-3):
                for s in (1, -1):
                    dist = math.sqrt(r * r - s * e)
                    half = math.sqrt(max(0.0, r * r - dist * dist))
                    for at in (0, 2.0, -7.0):
                        q = o + w * dist + 1j * w * at
                        want = [o + w * dist + 1j * w * half, o + w * dist - 1j * w * half] if s > 0 else []
                        args = (a, r, Vector(q.real, q.imag), Vector((1j * w).real, (1j * w).imag))
                        ask(cl_int, args, want, 1e-5, "line {0} the circle by {1}".format("into" if s > 0 else "off", abs(r - dist)))
                        ask(cr_int, args, [] if at > 0.5 else want if at < -0.5 else want[:1], 1e-5, "ray {0} the circle by {1}".format("into" if s > 0 else "off", abs(r - dist)))
                        ctx.step(2)
        # short directions
        for size in (2e-3, 1e-2, 1e3):
            for r, dist in ((5.0, 3.0), (10.0, 0.0), (5.0, 6.0), (13.0, -5.0)):
                half = math.sqrt(max(0.0, r * r - dist * dist))
                q = o + w * dist - 20j * w
                want = [o + w * dist + 1j * w * half, o + w * dist - 1j * w * half] if r > abs(dist) else []
                args = (a, r, Vector(q.real, q.imag), Vector((1j * w * size).real, (1j * w * size).imag))
                ask(cl_int, args, want, 1e-6, "direction of length {0}".format(size))
                ask(cr_int, args, want, 1e-6, "direction of length {0}".format(size))
                ctx.step(2)
    ctx.state()
    ctx.trace()


START_EPS = [1e-5, 1e-4, 1e-3, 1e-2, 0.3]


def start_items(tier):
    for i in range(12):
        for v in dirs(3):
            yield [i, v]


def start_run(item, ctx):
    """Rays that start a little before or behind the place where they meet something."""
    i, v = item
    n = math.hypot(*v)
    u = (v[0] / n, v[1] / n)
    p = [(5, 0), (3, 4), (-4, 3), (0, -5), (4, -3), (-3, -4), (0, 5), (-5, 0), (4, 3), (-4, -3), (3, -4), (-3, 4)][i]
    radial = p[0] * u[0] + p[1] * u[1]
    for size in (1.0, n, 10.0):
        d = Vector(u[0] * size, u[1] * size)
        for eps in START_EPS:
            for s in (1, -1):
                # s = 1: the ray starts behind the meeting point p and reaches it
                q = Vector(p[0] - s * eps * u[0], p[1] - s * eps * u[1])
                if abs(radial) > 0.5:
                    # the line meets the circle of radius 5 at p and at another point, 2 * radial back along it
                    other = complex(p[0] - 2 * radial * u[0], p[1] - 2 * radial * u[1])
                    want = ([complex(*p)] if s > 0 else []) + ([other] if -2 * radial + s * eps > 0 else [])
                    ask(cr_int, (Vector(0, 0), 5.0, q, d), want, 1e-6, "circle and ray that {0} {1} of the circle".format("starts behind" if s > 0 else "has left", p))
                    ctx.step()
                for w in ((1, 0), (0, 1), (2, -1), (-3, 5)):
                    if abs(w[0] * u[1] - w[1] * u[0]) < 0.1:
                        continue
                    want = [complex(*p)] if s > 0 else []
                    base = Vector(p[0] - 2 * w[0], p[1] - 2 * w[1])
                    ask(lr_int, (base, Vector(*w), q, d), want, 1e-6, "line and ray")
                    ask(rr_int, (base, Vector(*w), q, d), want, 1e-6, "rays")
                    ask(rr_int, (q, d, base, Vector(*w)), want, 1e-6, "rays")
                    ask(rr_int, (base, Vector(-w[0], -w[1]), q, d), [], 1e-6, "rays")
                    for far in (1, -1):
                        b2 = Vector(p[0] - far * eps * w[0], p[1] - far * eps * w[1])
                        ask(rr_int, (b2, Vector(*w), q, d), want if far > 0 else [], 1e-6, "rays")
                    ctx.step(6)
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C19

# ---- the same vector objects, moved between two calls

MOVED = {"C18": [("cc_int", "vrvr"), ("cl_int", "vrvd"), ("cr_int", "vrvd"), ("ll_int", "vdvd"), ("lr_int", "vdvd"), ("rr_int", "vdvd")],
         "C19": [("is_clockwise", "vvv"), ("is_counterclockwise", "vvv"), ("is_flat", "vvv"), ("is_acute", "vvv"), ("is_obtuse", "vvv"), ("angle_3p", "vvv"), ("distance_2p", "vv")],
         "C21": [("make_hcs", "vv"), ("make_hcs_scaled", "vv")]}
MOVE_WAYS = [lambda v, z: (setattr(v, "x", z[0]), setattr(v, "y", z[1])), lambda v, z: set_rows(v, [[z[0]], [z[1]]]),
             lambda v, z: [row.__setitem__(0, float(c)) for row, c in zip(v.elements, z)]]


def moved_items(prop):
    def items(tier):
        for name, sig in MOVED[prop]:
            for way in range(len(MOVE_WAYS)):
                yield [name, sig, way, tier]
    return items


def plain_answer(r):
    if isinstance(r, list):
        return [plain_answer(x) for x in r]
    return [list(row) for row in r.elements] if isinstance(r, Matrix) else r


def moved_run(item, ctx):
    """A call, one argument moved in place, the same call with the same objects, moved back, again: answers as for new objects."""
    name, sig, way, tier = item
    f, move = getattr(G, name), MOVE_WAYS[way]
    small = tier == "quick"
    dom = {"v": [(0, 0), (3, 0), (0, 4), (1, 2), (-2, 1)][:4 if small and len(sig) > 3 else 5], "r": [1, 3, 5] if small else [0, 1, 2, 3, 5], "d": [(1, 0), (0, 2), (1, 1), (-3, 4)][:3 if small else 4]}
    if len(sig) < 4:
        dom["v"] = dom["v"] + [(2, 4), (4, 0), (-1, -1)]

    def new(a):
        return [Vector(*z) if isinstance(z, tuple) else z for z in a]

    for args in itertools.product(*[dom[k] for k in sig]):
        base = plain_answer(f(*new(args)))
        for i, k in enumerate(sig):
            if k == "r":
                continue
            for z in dom[k]:
                if z == args[i]:
                    continue
                objs = new(args)
                there = list(args)
                there[i] = z
                keep = new(there)
                want = plain_answer(f(*keep))
                for turn, w in enumerate((base, want, base)):
                    if turn:
                        move(objs[i], z if turn == 1 else args[i])
                    r = f(*objs)
                    got = plain_answer(r)
                    expect(got == w, "{0}: of {1} it is {2}; {3} argument {4} moved to {5} gives {6}, expected {7}", name, args, base,
                           ("before", "after", "after having moved back")[turn], i + 1, z, got, w)
                    if isinstance(r, list):
                        for q in r:
                            q.x = q.y = 9.75
                        r.append("spoilt")
                    elif isinstance(r, Matrix):
                        r.elements = [[0.0] * 3] * 3
                ctx.step(3)
                ctx.trace()
    ctx.state()


def tri_items(tier):
    n = 4 if tier == "quick" else 6
    pts = [[x, y] for x in range(n) for y in range(n)]
    for p in pts:
        for q in pts:
            yield [n, p, q]


# far from the origin, with coordinates that are exact all the same
FAR = [Place((1, 0, 1, 1.0, 2.0 ** 30, -2.0 ** 31)), Place((0, 1, 1, 2.0 ** -9, 2.0 ** 24, 2.0 ** 23))]
TRI_PL = PL + FAR + [Place((1, 0, 1, 0.001, 0, 0)), Place((5, -12, 13, 0.05, 3, 3)), Place((1, 0, 1, 0.125, 4096, -512))]


def tri_check(p, q, r, pl, ctx):
    u, v = (q[0] - p[0], q[1] - p[1]), (r[0] - q[0], r[1] - q[1])
    cross = u[0] * v[1] - u[1] * v[0]
    P, Q, R = pl.pt(p), pl.pt(q), pl.pt(r)
    before = frozen(P, Q, R)
    got = is_clockwise(P, Q, R), is_flat(P, Q, R), is_counterclockwise(P, Q, R)
    expect(got == (cross < 0, cross == 0, cross > 0), "{0} {1} {2}: (clockwise, flat, counter-clockwise) is {3}, cross product {4}", P, Q, R, got, cross)
    d = distance_2p(P, Q)
    want = math.hypot(*u) * pl.f
    expect(abs(d - want) <= 1e-9 * (1 + want), "distance of {0} and {1} is {2}, expected {3}", P, Q, d, want)
    a = angle_3p(P, Q, R)
    if u == (0, 0) or v == (0, 0):
        expect(a is None, "angle {0} {1} {2}, whose vertex coincides with an end, is {3}", P, Q, R, a)
        expect(is_acute(P, Q, R) is False and is_obtuse(P, Q, R) is False, "degenerate angle {0} {1} {2} is acute {3}, obtuse {4}", P, Q, R, is_acute(P, Q, R), is_obtuse(P, Q, R))
        kind = "undefined"
    else:
        dot = -(u[0] * v[0] + u[1] * v[1])
        size = math.atan2(abs(cross), dot)
        expect(a is not None and abs(abs(a) - size) <= 1e-6 and (cross == 0 or (a > 0) == (cross < 0)), "angle {0} {1} {2} is {3}, expected {4}", P, Q, R, a, size if cross <= 0 else -size)
        got = is_acute(P, Q, R), is_obtuse(P, Q, R)
        if dot and abs(size - math.pi / 2) < 3e-5:
            kind = "closer to right than 3e-5: left open"
        else:
            expect(got == (dot > 0, dot < 0), "angle {0} {1} {2} of size {3}: (acute, obtuse) is {4}", P, Q, R, size, got)
            kind = "acute" if dot > 0 else "obtuse" if dot < 0 else "right"
    if p == q or q == r or p == r:
        # one object for coinciding points
        T = [P, P if p == q else Q, P if p == r else Q if q == r else R]
        expect((is_clockwise(*T), is_flat(*T), is_counterclockwise(*T)) == (cross < 0, cross == 0, cross > 0) and distance_2p(T[0], T[1]) == d
               and angle_3p(*T) == a and is_acute(*T) == is_acute(P, Q, R) and is_obtuse(*T) == is_obtuse(P, Q, R),
               "measures of {0} {1} {2} differ when coinciding points are one object", P, Q, R)
    expect(frozen(P, Q, R) == before, "measuring altered {0}", before)
    ctx.step(7)
    return ("clockwise " if cross < 0 else "counter-clockwise " if cross > 0 else "flat ") + kind


def tri_run(item, ctx):
    n, p, q = item
    for x in range(n):
        for y in range(n):
            for pl in TRI_PL:
                k = tri_check(p, q, (x, y), pl, ctx)
            ctx.out(k)
            ctx.state()
    ctx.trace()


def thin_items(tier):
    for k in range(-3, 10):
        for j in range(-2, 13):
            yield [k, j, (1, 3, 7) if tier == "quick" else (1, 1.5, 2, 3, 4.5, 6, 7, 9)]


def thin_run(item, ctx):
    """Thin and tiny triplets, down to and below the tolerance: what counts as flat is not judged there, that the measures agree is."""
    k, j, digits = item
    for d in digits:
        b, h = 10.0 ** k, d * 10.0 ** -j
        for at in (-0.5, 0, 0.5, 1, 2):
            for turn in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                pts = [(x * turn[0] - y * turn[1], x * turn[1] + y * turn[0]) for x, y in ((0, 0), (b, 0), (at * b, h))]
                seen = []
                for perm in itertools.permutations(range(3)):
                    t = [Vector(*pts[i]) for i in perm]
                    c, f, cc = is_clockwise(*t), is_flat(*t), is_counterclockwise(*t)
                    expect(bool(c) + bool(f) + bool(cc) == 1, "{0} is clockwise {1}, flat {2}, counter-clockwise {3}", t, c, f, cc)
                    sign = 1 if cc else -1 if c else 0
                    even = perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1))
                    seen.append(sign if even else -sign)
                    a = angle_3p(*t)
                    if a is not None and c:
                        expect(a >= 0, "{0} is clockwise, its angle {1}", t, a)
                    if a is not None and cc:
                        expect(a <= 0, "{0} is counter-clockwise, its angle {1}", t, a)
                    ctx.step()
                if not 5e-9 < b * h < 2e-8:
                    expect(len(set(seen)) == 1, "orientation of the triplet {0} changes with its order: {1}", pts, seen)
                if b * h > 2e-8:
                    expect(seen[0] == 1, "the triplet {0} is not counter-clockwise in this order: {1}", pts, seen)
                ctx.out(seen[0])
                ctx.state()
    ctx.trace()


FINE3 = [(0, 0), (1, 0), (0, 1), (2000, 0), (2000, 1), (1, 2000), (-1, 2000), (0, 2000), (1999, 2), (-2000, 1), (-2000, 0), (-1, -2000), (2001, 0), (2000, -1), (1000, 1)]


def fine3_items(tier):
    for p in FINE3:
        for q in FINE3:
            yield [p, q]


def fine3_run(item, ctx):
    p, q = item
    for r in FINE3:
        for pl in (PL[0], PL[2], FAR[0], TRI_PL[7]):
            ctx.out(tri_check(tuple(p), tuple(q), r, pl, ctx))
        ctx.state()
    ctx.trace()


def near_right_items(tier):
    for p in ((0, 0), (3, -2), (100, 50)):
        for k in range(24):
            yield [list(p), k]


def near_right_run(item, ctx):
    """Angles a little off a right and a straight angle; distances from tiny to huge."""
    p, k = item
    base = complex(*p)
    w = cmath.exp(1j * (0.2 + k * math.pi / 12))
    for l1, l2 in ((1, 1), (3, 0.5), (0.25, 8), (40, 40)):
        for eps in (3e-5, 5e-5, 1e-4, 2e-4, 1e-3, 0.1):
            for s in (1, -1):
                for turn in (1, -1):
                    a = base + w * l1
                    c = base + w * l2 * cmath.exp(1j * turn * (math.pi / 2 + s * eps))
                    P, Q, R = Vector(a.real, a.imag), Vector(base.real, base.imag), Vector(c.real, c.imag)
                    got = is_acute(P, Q, R), is_obtuse(P, Q, R), is_acute(R, Q, P), is_obtuse(R, Q, P)
                    expect(got == (s < 0, s > 0) * 2, "angle {0} {1} {2} of {3} more than a right one: (acute, obtuse) and back is {4}", P, Q, R, s * eps, got)
                    g = angle_3p(P, Q, R)
                    expect(abs(abs(g) - (math.pi / 2 + s * eps)) < 1e-9 and (g > 0) == (turn > 0), "angle {0} {1} {2} is {3}, expected {4}", P, Q, R, g, turn * (math.pi / 2 + s * eps))
                    ctx.step(5)
    # one end very near the vertex
    for arm in (1e-7, 3e-7, 1e-6, 1e-5, 1e-3):
        for far in (10.0, 100.0):
            for size in (0.4, 1.2, 1.9, 2.9):
                for turn in (1, -1):
                    a, c = base + w * arm, base + w * cmath.exp(1j * turn * size) * far
                    P, Q, R = Vector(a.real, a.imag), Vector(base.real, base.imag), Vector(c.real, c.imag)
                    for g, t in ((angle_3p(P, Q, R), turn), (angle_3p(R, Q, P), -turn)):
                        expect(g is not None and abs(g - t * size) < 1e-9 + 1e-13 / arm, "angle with arms of {0} and {1} is {2}, expected {3}", arm, far, g, t * size)
                    got = is_acute(P, Q, R), is_obtuse(P, Q, R), is_acute(R, Q, P), is_obtuse(R, Q, P)
                    expect(got == (size < 1.5, size > 1.6) * 2, "angle {0} with arms of {1} and {2}: (acute, obtuse) and back is {3}", size, arm, far, got)
                    ctx.step(4)
    for d in (1e-300, 1e-20, 1e-12, 1e-9, 1e-7, 1e-4, 0.1, 1.0, 12345.678, 1e7, 1e15, 1e100):
        z = w * d
        for q in (Vector(0, 0),) if d < 1 else (Vector(0, 0), Vector(0.5, -0.25)):
            P = Vector(z.real, z.imag)
            want = float(abs(complex(P.x - q.x, P.y - q.y)))
            for g in (distance_2p(P, q), distance_2p(q, P)):
                expect(abs(g - want) <= 1e-12 * want or d < 1e-150, "distance of {0!r} and {1!r} is {2!r}, expected {3!r}", P.elements, q.elements, g, want)
            ctx.step(2)
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C20

NUMS = [0, 1, -1, 0.5, -2.25, 3, 1e-3, 1e6, 7.125, -0.1]
VECS = [(x, y) for x in NUMS[:7] for y in NUMS[:5]] + [(1e6, -7.125), (-0.1, 1e-3), (0.1, 0.2), (-0.0, 2), (3, -0.0), (-0.0, -0.0), (3e9, -4e9), (1e-9, 1e-9), (1e12, 5e12), (-2e-7, 1e9)]


def near(a, b, rel=1e-12):
    return abs(a - b) <= rel * (abs(a) + abs(b)) + 1e-300


def vec_is(v, x, y, what, *args, rel=1e-12):
    expect(isinstance(v, Vector) and near(v.x, x, rel) and near(v.y, y, rel) and type(v.x) is float and type(v.y) is float,
           what + " is {0!r}, expected ({1}, {2})", v if not isinstance(v, Vector) else (v.x, v.y), x, y, *args)


OPS = {"+": (lambda a, b: a + b), "-": (lambda a, b: a - b), "*": (lambda a, b: a * b), "/": (lambda a, b: a / b)}


class OwnVector(Vector):
    pass


def vec_items(tier):
    for i in range(len(VECS)):
        yield i


def vec_run(i, ctx):
    x, y = VECS[i]
    for j, (p, q) in enumerate(VECS):
        a, b = Vector(x, y), Vector(p, q)
        for name, op in OPS.items():
            for other, (ox, oy) in ((b, (p, q)), (p, (p, p)), (q, (q, q)), (a, (x, y)), (OwnVector(p, q), (p, q))):
                if name == "/" and (ox == 0 or oy == 0):
                    e = raises(op, a, other)
                    expect(isinstance(e, ZeroDivisionError), "({0}, {1}) divided by {2!r} gives no division error but {3!r}", x, y, other, e)
                    continue
                r = op(a, other)
                vec_is(r, op(float(x), float(ox)), op(float(y), float(oy)), "({3}, {4}) {5} {6!r}", x, y, name, other)
                expect((a.x, a.y, b.x, b.y) == (x, y, p, q), "{0} altered an operand", name)
                r.x, r.y = 99, -98
                r.elements[0][0] += 1
                expect((a.x, a.y, b.x, b.y) == (x, y, p, q), "changing the result of {0} altered an operand", name)
                c = a
                if name == "+":
                    c += other
                elif name == "-":
                    c -= other
                elif name == "*":
                    c *= other
                else:
                    c /= other
                vec_is(c, op(float(x), float(ox)), op(float(y), float(oy)), "({3}, {4}) {5}= {6!r}", x, y, name, other)
                expect((a.x, a.y, b.x, b.y) == (x, y, p, q), "{0}= altered another name of the vector", name)
                ctx.step(2)
        expect(near(a.dot(b), float(x) * p + float(y) * q, 1e-9) or abs(a.dot(b) - (float(x) * p + float(y) * q)) < 1e-9, "dot product of {0} and {1} is {2}", (x, y), (p, q), a.dot(b))
        expect(near(a.dot(a), float(x) * x + float(y) * y), "dot product of {0} with itself is {1}", (x, y), a.dot(a))
        got = a == b, a != b, a < b, a > b, a <= b, a >= b
        want = x == p and y == q, x != p or y != q, x < p and y < q, x > p and y > q, x <= p and y <= q, x >= p and y >= q
        expect(got == want, "{0} compared with {1}: (==, !=, <, >, <=, >=) is {2}, expected {3}", (x, y), (p, q), got, want)
        expect((a.x, a.y, b.x, b.y) == (x, y, p, q), "comparing altered an operand")
        ctx.step(2)
    a = Vector(x, y)
    # the next numbers up and down
    for dx in (-math.inf, 0, math.inf):
        for dy in (-math.inf, 0, math.inf):
            p, q = (math.nextafter(x, dx) if dx else float(x)), (math.nextafter(y, dy) if dy else float(y))
            b = Vector(p, q)
            got = a == b, a != b, a < b, a > b, a <= b, a >= b
            want = x == p and y == q, x != p or y != q, x < p and y < q, x > p and y > q, x <= p and y <= q, x >= p and y >= q
            expect(got == want, "{0!r} compared with {1!r}: (==, !=, <, >, <=, >=) is {2}, expected {3}", (x, y), (p, q), got, want)
            ctx.step()
    vec_is(-a, -x, -y, "-({3}, {4})", x, y)
    n = -a
    n.x = 5
    expect((a.x, a.y) == (x, y), "changing the negation alters the vector")
    expect(near(a.length, math.hypot(x, y)), "length of {0} is {1}", (x, y), a.length)
    negzero = any(z == 0 and math.copysign(1, z) < 0 for z in (x, y))
    expect(negzero or near(a.azimuth, math.degrees(math.atan2(y, x))), "azimuth of {0} is {1}", (x, y), a.azimuth)
    expect(a.is_positive() == (x >= 0 and y >= 0), "is_positive of {0} is {1}", (x, y), a.is_positive())
    expect(a.is_negative() == (x < 0 and y < 0), "is_negative of {0} is {1}", (x, y), a.is_negative())
    expect(a[0] == x and a[1] == y and a[-1] == y and a[-2] == x and a[:] == [x, y] and a[:1] == [x] and a[1:] == [y] and a[::-1] == [y, x] and a[5:] == [], "indexing {0}: {1} {2} {3}", (x, y), a[0], a[1], a[:])
    expect(raises(lambda: a[2]) is not None, "index 2 of a vector does not raise")
    for deg in list(range(-720, 721, 15)) + [1, -1, 0.5, 37.25, 1000, True, -361, -450.5, 1234567, -99999, 359.995, -0.004, 720.003, 1e-5, 89.998, 180.002, -270.001]:
        r = a.rotate(deg)
        e = complex(x, y) * cmath.exp(1j * math.radians(deg))
        expect(isinstance(r, Vector) and abs(complex(r.x, r.y) - e) <= 1e-9 * (1 + abs(e)), "{0} rotated by {1} is {2!r}, expected {3}", (x, y), deg, r, e)
        r.y = 3
        expect((a.x, a.y) == (x, y), "rotating altered the vector")
        ctx.step()
    own = OwnVector(x, y)
    expect(own == a and a == own and not own != a and own <= a and a >= own, "a vector of a subclass is not equal to {0}", (x, y))
    for f, p, q in ((lambda: own + 1, float(x) + 1, float(y) + 1), (lambda: own - a, 0, 0), (lambda: -own, -x, -y), (lambda: own / 2, x / 2, y / 2), (lambda: own * 3, float(x) * 3, float(y) * 3)):
        vec_is(f(), p, q, "result with ({3}, {4}) of a subclass", x, y)
    expect(own.length == a.length and own.azimuth == a.azimuth and own.dot(a) == a.dot(own) == a.dot(a) and own.rotate(30) == a.rotate(30), "length, azimuth, dot product or rotation of {0} of a subclass", (x, y))
    for mk in (lambda: Vector(own), lambda: OwnVector(a), lambda: Vector(a), lambda: Vector(Matrix([[x], [y]])), lambda: Vector(Matrix(a.elements))):
        c = mk()
        vec_is(c, x, y, "copy of ({3}, {4})", x, y)
        c.x, c.y = 41, 42
        expect((a.x, a.y) == (x, y) and (c.x, c.y) == (41, 42), "changing a copy alters the original")
        d = mk()
        a.x = 17
        expect((d.x, d.y) == (x, y), "changing the original alters a copy")
        a.x = x
        ctx.step()
    t = a.transpose()
    expect(t.elements == [[x, y]] and t.transpose().elements == [[x], [y]], "transpose of {0} is {1}", (x, y), t.elements)
    t.elements[0][0] = 5
    expect((a.x, a.y) == (x, y), "changing the transpose alters the vector")
    o = Vector.origin()
    vec_is(o, 0, 0, "origin")
    o.x, o.y = 3, 4
    vec_is(Vector.origin(), 0, 0, "origin after an earlier one was changed")
    expect(a.num_rows == 2 and a.num_cols == 1 and a.num_elements == 2, "a vector has {0} rows and {1} columns", a.num_rows, a.num_cols)
    ctx.state(len(VECS))
    ctx.trace()


# the kinds of numbers a user may hold; every value is dyadic, so each kind holds it exactly
KINDS = [("int", int), ("bool", bool), ("float", float), ("numpy float64", np.float64), ("numpy float32", np.float32), ("numpy int64", np.int64), ("Fraction", Fraction)]
KVALS = [0, 1, -1, 3, 0.5, -2.25, 40]


def kinds_of(val):
    for name, k in KINDS:
        n = k(val)
        if n == val:
            yield name, n


def num_items(tier):
    for x in KVALS:
        for y in KVALS:
            yield [x, y]


def num_run(item, ctx):
    """Every kind of number gives the vector its float would give."""
    x, y = item
    ctx.state()
    for (kx, nx), (ky, ny) in itertools.product(list(kinds_of(x)), list(kinds_of(y))):
        v = Vector(nx, ny)
        what = "vector of {3} " + kx + " and {4} " + ky
        vec_is(v, x, y, what, x, y, rel=0)
        for f, p, q, w in ((lambda: Vector(Matrix([[nx], [ny]])), x, y, "copy of the column"), (lambda: Vector(v), x, y, "copy"), (lambda: -v, -x, -y, "negative of the"),
                           (lambda: v + v, 2 * x, 2 * y, "twice the"), (lambda: v * v, x * x, y * y, "square of the")):
            vec_is(f(), p, q, w + " " + what, x, y, rel=0)
        for zero in (0, 0.0, False, Fraction(0), Vector(0, 0), Vector(1, nx * 0), Vector(np.float64(0), 1)):
            e = raises(lambda: v / zero)
            expect(isinstance(e, ZeroDivisionError), what.replace("{3}", "{0}").replace("{4}", "{1}") + " divided by {2!r} gives no division error but {3!r}", x, y, zero, e)
        expect((v.length, v.azimuth, v.dot(v)) == (Vector(float(x), float(y)).length, Vector(float(x), float(y)).azimuth, float(x * x + y * y)), "length, azimuth or square of the vector of {0} {1} and {2} {3}", x, kx, y, ky)
        u = Vector(7, 7)
        u.x = nx
        vec_is(u, x, 7, "(7, 7) with x = {3} " + kx, x, rel=0)
        u.y = ny
        vec_is(u, x, y, "(7, 7) with " + what, x, y, rel=0)
        expect(u == v and v <= u and not u != v, "equal vectors differ: {0} {1}, {2} {3}", x, kx, y, ky)
        vec_is(u / 2, x / 2, y / 2, "half of the " + what, x, y, rel=0)
        ctx.step(16)
    a = Vector(x, y)
    for n in KVALS:
        for kind, k in kinds_of(n):
            for name, op in OPS.items():
                if name == "/" and n == 0:
                    continue    # numpy divides by its zero
                vec_is(op(a, k), op(float(x), float(n)), op(float(y), float(n)), "({3}, {4}) {5} {6} " + kind, x, y, name, n, rel=1e-7 if "32" in kind else 1e-12)
            r, e = a.rotate(k), a.rotate(float(n))
            expect(r == e, "({0}, {1}) rotated by {2} {3} is {4}, by the float {5}", x, y, n, kind, (r.x, r.y), (e.x, e.y))
            expect((a.x, a.y) == (x, y), "an operand changed")
            if n in (0, 1, -1) and kind in ("int", "bool", "numpy int64"):
                expect(a[k] == [x, y][n], "element {0} {1} of ({2}, {3}) is {4}", n, kind, x, y, a[k])
            ctx.step(5)
    ctx.trace()


def set_rows(v, rows):
    v.elements = rows


V_EDITS = [("x = 3", lambda v: setattr(v, "x", 3), lambda p: (3.0, p[1])), ("y = -4", lambda v: setattr(v, "y", -4), lambda p: (p[0], -4.0)),
           ("x = 0.5", lambda v: setattr(v, "x", 0.5), lambda p: (0.5, p[1])), ("y = 0", lambda v: setattr(v, "y", 0), lambda p: (p[0], 0.0)),
           ("y = 7", lambda v: setattr(v, "y", 7.0), lambda p: (p[0], 7.0)),
           ("elements = ...", lambda v: set_rows(v, [[-2.0], [5.5]]), lambda p: (-2.0, 5.5)),
           ("round(0)", lambda v: v.round(0), lambda p: (float(round(p[0], 0)), float(round(p[1], 0)))), ("nothing", lambda v: None, lambda p: p)]
M_EDITS = [("one element", lambda m: set_rows(m, [[m.elements[0][0], 4.0], m.elements[1]]), lambda e: [[e[0][0], 4.0], e[1]]),
           ("one row", lambda m: set_rows(m, [m.elements[0], [1.0, -8.0]]), lambda e: [e[0], [1.0, -8.0]]),
           ("all elements", lambda m: set_rows(m, [[2.0, 1.0], [1.0, 3.0]]), lambda e: [[2.0, 1.0], [1.0, 3.0]]),
           ("round(0)", lambda m: m.round(0), lambda e: [[round(v, 0) for v in r] for r in e]), ("nothing", lambda m: None, lambda e: e)]


def change_items(tier):
    k = 3 if tier == "quick" else 4
    for h in itertools.product(range(len(V_EDITS)), repeat=k):
        yield ["v", list(h)]
    for h in itertools.product(range(len(M_EDITS)), repeat=k):
        yield ["m", list(h)]


def vec_facts(v, w):
    n = -v
    return [v.x, v.y, v.length, v.azimuth, v.dot(w), w.dot(v), n.x, n.y, (v + w).elements, (w - v).elements, (v * w).elements, (v / 4).elements, v.rotate(30).elements,
            v == w, w == v, v < w, v > w, v <= w, v >= w, v[0], v[1], v[-1], v[:], v.is_positive(), v.is_negative(), v.transpose().elements, Vector(v).elements, v.tol_eq(w), str(v),
            (Matrix([[1.0, 2.0], [3.0, 4.0]]) * v).elements, Matrix([[1.0, 2.0], [3.0, 5.0]]).solve(v).elements, distance_2p(v, w), angle_3p(v, Vector(100, 200), w), is_clockwise(w, v, Vector(1, 1))]


def mat_facts(m, b):
    return [m.elements, m.inverse().elements, m.transpose().elements, (m * b).elements, (b * m).elements, m.solve(b).elements, b.solve(m).elements, m.num_rows, m.num_cols, m.num_dim, str(m)]


def change_run(item, ctx):
    """Objects that are asked everything, changed by their owner and asked again answer like new ones."""
    kind, h = item
    ctx.state()
    edits = V_EDITS if kind == "v" else M_EDITS
    state = (1.5, 2.0) if kind == "v" else [[1.0, 2.5], [3.0, -4.0]]
    obj = Vector(*state) if kind == "v" else Matrix([list(r) for r in state])
    for k in [None] + h:
        if k is not None:
            edits[k][1](obj)
            state = edits[k][2](state)
        if kind == "v":
            new = Vector(*state)
            for w in (Vector(3, -4), Vector(-2, 5.5), obj):
                got, want = vec_facts(obj, w), vec_facts(new, new if w is obj else w)
                expect(got == want, "vector {0}, asked, changed to {1}: answers {2}, a new one answers {3}", [edits[j][0] for j in h], state, got, want)
        else:
            new = Matrix([list(r) for r in state])
            other = Matrix([[1.0, 1.0], [0.0, 2.0]])
            got, want = mat_facts(obj, other), mat_facts(new, other)
            expect(got == want, "matrix {0}, asked, changed to {1}: answers {2}, a new one answers {3}", [edits[j][0] for j in h], state, got, want)
        ctx.step()
    ctx.trace()


def badv_items(tier):
    for r in range(1, 5):
        for c in range(1, 4):
            yield [r, c]


def badv_run(item, ctx):
    r, c = item
    e = raises(Vector, Matrix([[i + j for j in range(c)] for i in range(r)]))
    expect((e is None) == ((r, c) == (2, 1)), "Vector of a {0}x{1} matrix: {2!r}", r, c, e)
    for m in (lambda v: v.append_row([1]), lambda v: v.append_col([1])):
        expect(raises(m, Vector(1, 2)) is not None, "appending to a vector does not raise")
    ctx.step()
    ctx.state()
    ctx.trace()


def mat(vals, r, c):
    return [[vals[i * c + j] for j in range(c)] for i in range(r)]


def mul_items(tier):
    top = 3
    for m, k, n in itertools.product(range(1, top + 1), repeat=3):
        yield [m, k, n]


VALSETS = [[0, 1, -1, 2, 3, 5, -2, 4, 7], [1.5, -0.25, 2.0, 0.0, 3.5, -1.0, 0.125, 8.0, -3.0], [3, 1, 4, 1, 5, 9, 2, 6, 5], [0, 0, 0, 0, 1, 0, 0, 0, 0]]


def mul_run(item, ctx):
    """All shapes up to 3x3; every pair of filled matrices, every mismatch."""
    m, k, n = item
    for va in VALSETS:
        for vb in VALSETS:
            for shift in range(9):
                ea, eb = mat(va, m, k), mat(vb[shift:] + vb[:shift], k, n)
                for form in (list, tuple):
                    A, B = Matrix(form(form(r) for r in ea)), Matrix([list(r) for r in eb])
                    R = A * B
                    want = [[sum(ea[i][t] * eb[t][j] for t in range(k)) for j in range(n)] for i in range(m)]
                    expect(type(R) is Matrix and [list(r) for r in R.elements] == want, "{0} * {1} is {2}, expected {3}", ea, eb, R.elements, want)
                    T = B.transpose()
                    expect([list(r) for r in T.elements] == [[eb[i][j] for i in range(k)] for j in range(n)], "transpose of {0} is {1}", eb, T.elements)
                    for X in (R, T):
                        for row in X.elements:
                            for j in range(len(row)):
                                row[j] = -77
                    expect([list(r) for r in A.elements] == ea and [list(r) for r in B.elements] == eb, "multiplying or transposing altered an operand, or its result shares storage with it")
                    ctx.step(2)
    A = Matrix(mat(VALSETS[0], m, k))
    expect((A.num_rows, A.num_cols, A.num_elements, A.num_dim) == (m, k, m * k, 2 if m > 1 and k > 1 else 1), "a {0}x{1} matrix has {2} rows, {3} columns, {4} elements", m, k, A.num_rows, A.num_cols, A.num_elements)
    for k2 in range(1, 4):
        if k2 != k:
            expect(raises(lambda: A * Matrix(mat(VALSETS[0], k2, n))) is not None, "{0}x{1} times {2}x{3} does not raise", m, k, k2, n)
    if k == 2:
        v = Vector(3, -4)
        R = A * v
        expect([list(r) for r in R.elements] == [[sum(A.elements[i][t] * (3, -4)[t] for t in range(2))] for i in range(m)], "{0} times (3, -4) is {1}", A.elements, R.elements)
        expect((v.x, v.y) == (3, -4), "multiplying altered the vector")
    if k != m:
        expect(raises(A.inverse) is not None, "the inverse of a {0}x{1} matrix does not raise", m, k)
    ctx.state()
    ctx.trace()


def shape_items(tier):
    for r in range(1, 11):
        for c in range(1, 11):
            yield [r, c]


def shape_run(item, ctx):
    """Larger shapes: transposing, multiplying by and from both sides, sizes."""
    r, c = item
    e = [[(i * 7 + j * 3) % 11 - 4.0 for j in range(c)] for i in range(r)]
    A = Matrix([list(x) for x in e])
    T = A.transpose()
    expect(T.elements == [[e[i][j] for i in range(r)] for j in range(c)], "transpose of the {0}x{1} matrix {2} is {3}", r, c, e, T.elements)
    expect((A.num_rows, A.num_cols, A.num_elements, A.num_dim) == (r, c, r * c, 2 if r > 1 and c > 1 else 1), "a {0}x{1} matrix has {2} rows, {3} columns, {4} elements", r, c, A.num_rows, A.num_cols, A.num_elements)
    for k in (1, 2, 5, 9):
        f = [[(i * 5 + j * 2) % 7 - 2.0 for j in range(k)] for i in range(c)]
        P = A * Matrix([list(x) for x in f])
        expect([list(x) for x in P.elements] == [[sum(e[i][t] * f[t][j] for t in range(c)) for j in range(k)] for i in range(r)], "{0} * {1} is {2}", e, f, P.elements)
        ctx.step()
    for X in (Matrix.identity(r) * A, A * Matrix.identity(c)):
        expect([list(x) for x in X.elements] == e, "{0} times an identity is {1}", e, X.elements)
    G = (A * T).elements
    expect(all(G[i][j] == G[j][i] for i in range(r) for j in range(r)), "{0} times its transpose is not symmetric: {1}", e, G)
    expect(A.elements == e, "computing altered the matrix")
    ctx.step(3)
    ctx.state()
    ctx.trace()


def det(e):
    n = len(e)
    if n == 1:
        return e[0][0]
    return sum((-1) ** j * e[0][j] * det([r[:j] + r[j + 1:] for r in e[1:]]) for j in range(n))


def inv_items(tier):
    for v in itertools.product((-1, 0, 1, 2), repeat=4):
        yield [2, list(v)]
    for v in itertools.product((-1, 0, 1) if tier == "thorough" else (0, 1), repeat=9):
        yield [3, list(v)]
    for v in (-3, 0.5, 2, 1):
        yield [1, [v]]
    for n in (4, 5, 6):
        yield [n, [(i * j + i + 2 * j + (7 if i == j else 0)) % 11 for i in range(n) for j in range(n)]]


def inv_run(item, ctx):
    n, v = item
    e = mat(v, n, n)
    d = det(e)
    if d == 0:
        if n == 2:
            # there is no inverse; a solution is one or is refused
            A = Matrix([list(r) for r in e])
            expect(raises(A.inverse) is not None, "the singular matrix {0} has the inverse {1}", e, None)
            for b in ([[1], [2]], [[0], [0]], [[1, 0], [2, 1]]):
                B = Matrix([list(r) for r in b])
                X = []
                if raises(lambda: X.append(A.solve(B))) is None:
                    got = [list(r) for r in X[0].elements]
                    ok = all(abs(sum(e[i][t] * got[t][j] for t in range(2)) - b[i][j]) < 1e-8 for i in range(2) for j in range(len(b[0])))
                    expect(ok, "the solution of {0} X = {1}, which there is none of, is {2}", e, b, got)
                expect(A.elements == e and B.elements == b, "solving altered an operand")
                ctx.step()
        ctx.out("singular")
        return
    A = Matrix([list(r) for r in e])
    I = A.inverse()
    prod = [[sum(e[i][t] * I.elements[t][j] for t in range(n)) for j in range(n)] for i in range(n)]
    expect(all(abs(prod[i][j] - (i == j)) < 1e-9 for i in range(n) for j in range(n)) and I.num_rows == n and I.num_cols == n, "{0} times its inverse is {1}", e, prod)
    expect(A.elements == e, "inverting altered the matrix")
    I.elements[0][0] = 55
    expect(A.elements == e and abs(A.inverse().elements[0][0] - 55) > 1e-9 or n == 1, "changing an inverse alters the matrix or the next inverse")
    # solutions, for matrices, single columns and vectors as right hand sides
    for b in ([[1], [2], [-3], [4], [0], [5]][:n], [[1, 0, 2], [0, 3, 1], [2, 2, -1], [1, 1, 1], [0, 0, 1], [4, 0, 0]][:n]):
        B = Matrix([list(r) for r in b])
        X = A.solve(B)
        expect(X.num_rows == n and X.num_cols == len(b[0]), "the solution of {0} X = {1} is {2}", e, b, X.elements)
        p = [[sum(e[i][t] * X.elements[t][j] for t in range(n)) for j in range(len(b[0]))] for i in range(n)]
        expect(all(abs(p[i][j] - b[i][j]) < 1e-8 for i in range(n) for j in range(len(b[0]))), "the solution of {0} X = {1} is {2}", e, b, X.elements)
        expect(A.elements == e and B.elements == b, "solving altered an operand")
        X.elements[0][0] = 1e9
        expect(A.elements == e and B.elements == b, "changing a solution alters an operand")
        ctx.step(2)
    if n == 2:
        w = Vector(5, -2)
        X = A.solve(w)
        expect(all(abs(sum(e[i][t] * X.elements[t][0] for t in range(2)) - (5, -2)[i]) < 1e-8 for i in range(2)), "the solution of {0} x = (5, -2) is {1}", e, X.elements)
        expect((w.x, w.y) == (5, -2), "solving altered the vector")
    ctx.out("regular {0}x{0}".format(n))
    ctx.state()
    ctx.trace()


ROUNDED = [0, -0.0, 1, -3, 1234.5678, -1234.5678, 0.00005, 0.12345, -0.99996, 1e-9, 123456789.123456789, 2.5, -0.5, 1e15 + 0.3, 1e300]


def size_items(tier):
    for k in range(-6, 7):
        for v in ([2, 1, 1, 3], [0, 1, -1, 0], [3, -4, 4, 3], [1, 0, 5, 1], [2, 1, 0, 0, 1, 1, 1, 0, 4], [0, 0, 1, 1, 0, 0, 0, 1, 0], [7]):
            yield [10.0 ** k, v]


def size_run(item, ctx):
    """Products, inverses and solutions of matrices of large and small numbers, and exact products of large integers."""
    f, v = item
    n = math.isqrt(len(v))
    e = [[x * f for x in r] for r in mat(v, n, n)]
    A = Matrix([list(r) for r in e])
    I = A.inverse()
    for X in (A * I, I * A):
        expect(all(abs(X.elements[i][j] - (i == j)) < 1e-9 for i in range(n) for j in range(n)), "{0} times its inverse is {1}", e, X.elements)
    for g in (1.0, f, 1 / f):
        b = [[(2 * i + 1) * g, -g] for i in range(n)]
        X = A.solve(Matrix([list(r) for r in b])).elements
        expect(all(abs(sum(e[i][t] * X[t][j] for t in range(n)) - b[i][j]) < 1e-9 * g for i in range(n) for j in range(2)), "the solution of {0} X = {1} is {2}", e, b, X)
        P = [list(r) for r in (A * Matrix([list(r) for r in b])).elements]
        want = [[sum(Fraction(e[i][t]) * Fraction(b[t][j]) for t in range(n)) for j in range(2)] for i in range(n)]
        size = max(abs(x) for r in e for x in r) * 2 * n * g * 3
        expect(all(abs(Fraction(P[i][j]) - want[i][j]) <= 1e-12 * size for i in range(n) for j in range(2)), "{0} * {1} is {2}", e, b, P)
        ctx.step(2)
    for big in (2 ** 20, 2 ** 31 + 1, 2 ** 40 - 3, 10 ** 20):
        ei = [[x * big + 1 for x in r] for r in mat(v, n, n)]
        P = (Matrix([list(r) for r in ei]) * Matrix([list(r) for r in ei])).elements
        want = [[sum(ei[i][t] * ei[t][j] for t in range(n)) for j in range(n)] for i in range(n)]
        expect(all(abs(P[i][j] - want[i][j]) <= 1e-12 * n * 50 * big * big for i in range(n) for j in range(n)), "{0} * {0} is {1}, expected {2}", ei, P, want)
        ctx.step()
    ctx.state()
    ctx.trace()


def round_items(tier):
    for x in range(len(ROUNDED)):
        for y in range(len(ROUNDED)):
            yield [x, y]


def round_run(item, ctx):
    """Rounding changes every element of one object, in place, and nothing else."""
    x, y = [ROUNDED[i] for i in item]
    ctx.state()
    for digits in (None, 4, 0, 1, 2, 7, 15, -1, -3):
        by = () if digits is None else (digits,)
        for kw in (False, True):
            def do(m):
                r = m.round(precision=digits) if kw and by else m.round(*by)
                ctx.step()
            w = [round(float(v), 4 if digits is None else digits) for v in (x, y)]
            a = Vector(x, y)
            others = [Vector(a), -(-a), a.transpose(), a + 0, Matrix([[1.0, 0.0], [0.0, 1.0]]) * a]
            before = [repr(o.elements) for o in others]
            do(a)
            expect((a.x, a.y) == tuple(w), "{0} rounded to {1} is {2}, expected {3}", (x, y), digits, (a.x, a.y), w)
            expect([repr(o.elements) for o in others] == before, "rounding {0} altered what was derived from it", (x, y))
            do(a)
            expect((a.x, a.y) == tuple(round(v, 4 if digits is None else digits) for v in w), "rounding {0} to {1} again gives {2}", (x, y), digits, (a.x, a.y))
            for shape in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2)):
                vals = [[(x, y)[(i + 2 * j) % 2] + i + j for j in range(shape[1])] for i in range(shape[0])]
                m = Matrix([list(r) for r in vals])
                t = m.transpose()
                do(m)
                e = [[round(v, 4 if digits is None else digits) for v in r] for r in vals]
                expect(m.elements == e, "{0} rounded to {1} is {2}, expected {3}", vals, digits, m.elements, e)
                expect(t.elements == [list(c) for c in zip(*vals)], "rounding a matrix altered its transpose")
    ctx.trace()


def id_items(tier):
    for n in list(range(1, 12)) + [50, 255, 256, 257, 258, 300]:
        yield n


def id_run(n, ctx):
    for arg in (n, float(n)):
        for cls in (Matrix,):
            I = cls.identity(arg)
            expect(I.elements == [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)], "identity({0}) is {1}", arg, I.elements if n < 6 else "wrong")
            I.elements[0][-1] = 9
            if n > 1:
                I.elements[-1][0] = 8
            expect(cls.identity(arg).elements == [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)], "identity({0}) after an earlier one was changed", arg)
            J = cls.identity(arg)
            if n > 1:
                J.elements[0][0] = 2.0
                expect(J.elements[1][0] == 0.0 and J.elements[-1][0] == 0.0, "rows of an identity matrix share storage")
            ctx.step()
    L = Matrix([[1.0] * n])
    expect((L.num_rows, L.num_cols, L.num_elements, L.num_dim) == (1, n, n, 1), "a 1x{0} matrix has {1} elements, {2} dimensions", n, L.num_elements, L.num_dim)
    # sizes only: rows times columns
    R = Matrix([[1.0] * n]) * Matrix([[2.0] for _ in range(n)])
    expect(R.elements == [[2.0 * n]], "1x{0} times {0}x1 is {1}", n, R.elements)
    I = Matrix.identity(n).inverse()
    expect(all(abs(I.elements[i][j] - (i == j)) < 1e-12 for i in range(n) for j in range(n)), "inverse of identity({0})", n)
    expect(raises(lambda: Matrix([[1.0] * n]) * Matrix([[1.0]] * (n + 1))) is not None, "1x{0} times {1}x1 does not raise", n, n + 1)
    ctx.state()
    ctx.trace()


# --------------------------------------------------------------------------- C21

def cs_items(tier):
    n = 3 if tier == "quick" else 4
    pts = [(x, y) for x in range(n) for y in range(n)]
    for a in pts:
        for b in pts:
            yield [a, b, n]


def axis(a, b, scaled):
    w = complex(b[0] - a[0], b[1] - a[1])
    return w if scaled else w / abs(w)


def build(a, b, scaled, pl):
    A, B = pl.pt(a), pl.pt(b)
    r = make_hcs_scaled(A, B) if scaled == 2 else make_hcs(A, B, True) if scaled == 1 else make_hcs(A, B)
    expect(frozen(A, B) == frozen(pl.pt(a), pl.pt(b)), "make_hcs altered a point")
    return r


def check_cs(m, a, b, scaled, pl, what):
    o = pl.c(complex(*a))
    w = axis(a, b, scaled) * (pl.w if scaled else pl.w / abs(pl.w))
    want = [[w.real, -w.imag, o.real], [w.imag, w.real, o.imag], [0, 0, 1]]
    e = m.elements
    expect(len(e) == 3 and all(len(r) == 3 for r in e) and all(abs(e[i][j] - want[i][j]) <= 1e-9 * (1 + abs(want[i][j])) for i in range(3) for j in range(3)),
           "coordinate system from {0} to {1} ({2}) is {3}, expected {4}", a, b, what, e, want)
    return o, w


def apply_m(t, z):
    e = t.elements
    x, y, h = [e[i][0] * z.real + e[i][1] * z.imag + e[i][2] for i in range(3)]
    return complex(x / h, y / h)


PROBES = [0, 1, 1j, 3 - 2j, -4 + 0.5j]


def cs_run(item, ctx):
    """Every coordinate system against every other one; transforms forth, back and through a third."""
    a, b, n = item
    pts = [(x, y) for x in range(n) for y in range(n)]
    names = {0: "unit", 1: "scaled", 2: "scaled"}
    for pl in (PL[0], PL[1]):
        for s in (0, 1, 2):
            m = build(a, b, s, pl)
            if a == b:
                expect(m is None, "the coordinate system of coinciding points {0} is {1}", a, m)
                ctx.step()
                continue
            o1, w1 = check_cs(m, a, b, s, pl, names[s])
            for c in pts:
                for d in pts:
                    s2 = (c[0] + d[1] + s) % 2
                    if c == d:
                        continue
                    k = build(c, d, s2, PL[2])
                    o2, w2 = check_cs(k, c, d, s2, PL[2], names[s2])
                    e1, e2 = [list(r) for r in m.elements], [list(r) for r in k.elements]
                    t = cs_transform_matrix(m, k)
                    back = cs_transform_matrix(k, m)
                    expect([list(r) for r in m.elements] == e1 and [list(r) for r in k.elements] == e2, "cs_transform_matrix altered a coordinate system")
                    for z in PROBES:
                        p, q = o1 + w1 * z, o2 + w2 * z
                        got = apply_m(t, p)
                        expect(abs(got - q) <= 1e-7 * (1 + abs(q)), "transform from {0}->{1} ({2}) to {3}->{4} ({5}) maps {6} to {7}, expected {8}", a, b, names[s], c, d, names[s2], p, got, q)
                        expect(abs(apply_m(back, got) - p) <= 1e-7 * (1 + abs(p)), "transforming {0} back gives {1}", p, apply_m(back, got))
                    ctx.step(2)
                    if (c, d) in (((0, 0), (1, 2)), ((2, 1), (0, 0)), ((1, 1), (1, 0))):
                        third = make_hcs(Vector(-3, 2), Vector(4, 26))
                        t2, t3 = cs_transform_matrix(k, third), cs_transform_matrix(m, third)
                        for z in PROBES:
                            p = o1 + w1 * z
                            expect(abs(apply_m(t2, apply_m(t, p)) - apply_m(t3, p)) <= 1e-7 * (1 + abs(p)), "transforms do not compose at {0}", p)
                        c2 = (t2 * t).elements
                        expect(all(abs(c2[i][j] - t3.elements[i][j]) < 1e-7 * (1 + abs(t3.elements[i][j])) for i in range(3) for j in range(3)), "the product of transforms is not the transform")
                    if s == 0 and s2 == 0:
                        z1, z2, z3 = [apply_m(t, o1 + z) for z in (0, 1, 1j)]
                        expect(abs(abs(z2 - z1) - 1) < 1e-7 and abs((z3 - z1) - 1j * (z2 - z1)) < 1e-7, "a transform between unit systems changes distances or orientation")
        ctx.state()
    ctx.out("coinciding" if a == b else "distinct")
    ctx.trace()


def cs2_items(tier):
    for f in (1e-3, 0.5, 1.0, 1e4, 1e6):
        for off in (0, 1000):
            yield [f, off]
    for k in (1e-9, 1e-7, 1e-6, 9e-6, 3e-5, 1e-4, 1e-3):
        for f in (1 + k, 1 - k, 10 * (1 + k), k + 1e-6):
            yield [f, 0]


def cs2_run(item, ctx):
    """Extreme sizes, far origins, near points that are still distinct."""
    f, off = item
    for a, b in (((0, 0), (1, 0)), ((0, 0), (0, -1)), ((3, 4), (3.001, 4)), ((1, 1), (-3, -2)), ((5, -12), (5, 12))):
        A, B = Vector(a[0] * f + off, a[1] * f), Vector(b[0] * f + off, b[1] * f)
        w = complex(B.x - A.x, B.y - A.y)
        if abs(w) < 1e-7:
            continue
        for s in (0, 1, 2):
            m = make_hcs_scaled(A, B) if s == 2 else make_hcs(A, B, s == 1) if s else make_hcs(A, B, scale=False)
            u = w if s else w / abs(w)
            want = [[u.real, -u.imag, A.x], [u.imag, u.real, A.y], [0, 0, 1]]
            expect(all(abs(m.elements[i][j] - want[i][j]) <= 1e-11 * (1 + abs(want[i][j])) for i in range(3) for j in range(3)), "coordinate system from {0} to {1} is {2}, expected {3}", A, B, m.elements, want)
            r = make_hcs(B, A) if s == 0 else make_hcs_scaled(B, A)
            expect(abs(r.elements[0][0] + want[0][0]) <= 1e-9 * (1 + abs(want[0][0])) and r.elements[0][2] == B.x, "coordinate system from {0} to {1} is {2}", B, A, r.elements)
            ctx.step()
        expect(make_hcs(A, Vector(A)) is None and make_hcs_scaled(A, A) is None, "coinciding points have a coordinate system")
        expect(raises(make_hcs_scaled, A, B) is None, "make_hcs_scaled raises")
    ctx.state()
    ctx.trace()


def cs3_items(tier):
    for o in (0.0, 1.0, -300.0, 1e5, 1e6):
        for d in (1e-4, 0.01, 0.3, 1.0):
            yield [o, d]


def cs3_run(item, ctx):
    """Coordinate systems that differ little: shifted, turned or scaled by d, near and far from the origin."""
    o, d = item
    A, L = complex(o, -o / 2), complex(3, 4)
    variants = [(A, L), (A + d, L), (A - 1j * d, L), (A, L * cmath.exp(1j * d)), (A, L * (1 + d)), (A + d, L * cmath.exp(-1j * d)), (A, -L), (A, L * 1j)]
    for s in (0, 1):
        cs = []
        for a, u in variants:
            b = a + u
            m = make_hcs(Vector(a.real, a.imag), Vector(b.real, b.imag), bool(s))
            cs.append((m, a, (b - a) if s else (b - a) / abs(b - a)))
        for m1, a1, w1 in cs:
            for m2, a2, w2 in cs:
                t = cs_transform_matrix(m1, m2)
                for z in PROBES:
                    got, want = apply_m(t, a1 + w1 * z), a2 + w2 * z
                    expect(abs(got - want) <= 1e-12 * (1 + abs(o)) * 100, "transform from {0} to {1} maps {2} to {3}, expected {4}", m1.elements, m2.elements, a1 + w1 * z, got, want)
                ctx.step()
    ctx.state()
    ctx.trace()


def cs4_items(tier):
    for how in ("entries", "rows", "elements", "round"):
        for side in (0, 1):
            yield [how, side]


def cs4_run(item, ctx):
    """A coordinate system is a matrix and may be changed: the next transform is that of the changed one."""
    how, side = item
    frames = [(a, u) for a in (0, 3 - 2j) for u in (1, 1j, 3 + 4j, -0.6 + 0.8j)]

    def frame(a, u):
        return make_hcs(Vector(a.real, a.imag), Vector((a + u).real, (a + u).imag), True)

    for (a1, u1), (a2, u2), (a3, u3) in itertools.product(frames, repeat=3):
        a1, a2, a3, u1, u2, u3 = map(complex, (a1, a2, a3, u1, u2, u3))
        ms = [frame(a1, u1), frame(a2, u2)]
        fr = [(a1, u1), (a2, u2)]
        for turn in range(3):
            if turn == 1:
                m, new = ms[side], frame(a3, u3).elements
                fr[side] = (a3, u3)
                if how == "entries":
                    for i in range(3):
                        for j in range(3):
                            m.elements[i][j] = new[i][j]
                elif how == "rows":
                    m.elements[:] = new
                elif how == "elements":
                    m.elements = new
                else:
                    m.elements = [[x + 1e-7 for x in row] for row in new[:2]] + [list(new[2])]
                    m.round(5)
            t = cs_transform_matrix(*ms)
            for z in PROBES:
                p, q = fr[0][0] + fr[0][1] * z, fr[1][0] + fr[1][1] * z
                got = apply_m(t, p)
                expect(abs(got - q) <= 1e-9 * (1 + abs(q)), "transform between the systems {0}, {1} {2} maps {3} to {4}, expected {5}", fr, ms,
                       "after one was changed by " + how if turn else "at first", p, got, q)
            t.elements[0][0] = 77.0
            ctx.step()
        ctx.trace()
    ctx.state()


# --------------------------------------------------------------------------- C22

BASES = [0, 1, -1, 0.3, -7.5, 1e-3, 1e-7, -1e-7, 1e-8, 1e-9, 250, 1e5, -3e8, 12345.678, 1e-30, 2.0 ** 40]
TOLS = [{}, {"rel_tol": 0}, {"abs_tol": 0}, {"rel_tol": 0.25}, {"abs_tol": 0.5}, {"rel_tol": 1e-3, "abs_tol": 1e-3}, {"rel_tol": 0, "abs_tol": 0}, {"rel_tol": None, "abs_tol": None},
        {"rel_tol": 1e-12}, {"abs_tol": 1e-12}, {"abs_tol": 2}, {"rel_tol": 1e-7, "abs_tol": 0.0}, {"rel_tol": 2, "abs_tol": 1}, {"rel_tol": 0.25, "abs_tol": 0.5}, {"rel_tol": 0, "abs_tol": 0.5}, {"rel_tol": 0.5, "abs_tol": 0}]
KS = [0, 0.5, 0.9, 0.999, 1, 1.001, 1.1, 2, 10, 1000]
DEF = (1e-05, 1e-08)


def tol_items(tier):
    for b in BASES:
        for t in range(len(TOLS)):
            yield [b, t]


def exact_eq(a, b, t):
    """True, False or None (too close to the limit for floating point)."""
    rel = DEF[0] if t.get("rel_tol") is None else t["rel_tol"]
    ab = DEF[1] if t.get("abs_tol") is None else t["abs_tol"]
    lim = Fraction(ab) + Fraction(rel) * abs(Fraction(b))
    d = abs(Fraction(a) - Fraction(b))
    if all(abs(x) < 2 ** 20 and (Fraction(x) * 1024).denominator == 1 for x in (a, b, rel, ab)):
        # small multiples of a power of two: computed without rounding
        return d <= lim
    if lim and abs(d - lim) <= lim / 10 ** 6:
        return None
    # the difference is computed in floating point
    slack = (abs(Fraction(a)) + abs(Fraction(b))) / 2 ** 50
    if d and abs(d - lim) <= slack and lim:
        return None
    return d <= lim


def tol_check(a, b, t, ctx):
    eq = exact_eq(a, b, t)
    forms = [lambda f, *x: f(*x, **t)]
    if len(t) == 2 or "rel_tol" in t:
        pos = (t["rel_tol"],) + ((t["abs_tol"],) if "abs_tol" in t else ())
        forms.append(lambda f, *x: f(*x, *pos))
    for call in forms:
        S = Scalar
        e, g, l, ge, le = [call(f, a, b) for f in (S.tol_eq, S.tol_gt, S.tol_lt, S.tol_ge, S.tol_le)]
        expect((e, g, l).count(True) == 1 and (e, g, l).count(False) == 2, "{0!r} and {1!r} with {2}: (equal, greater, less) is {3}", a, b, t, (e, g, l))
        expect(ge == (not l) and le == (not g), "{0!r} and {1!r} with {2}: (greater, less, >=, <=) is {3}", a, b, t, (g, l, ge, le))
        if eq is not None:
            expect(e is eq, "{0!r} and {1!r} with {2}: equal is {3}, expected {4}", a, b, t, e, eq)
            expect((g, l) == (a > b and not eq, a < b and not eq), "{0!r} and {1!r} with {2}: (greater, less) is {3}", a, b, t, (g, l))
        if b == 0:
            expect(call(S.tol_zero, a) == e, "tol_zero({0!r}) with {1} differs from equality with 0", a, t)
        ctx.step(6)
    expect((Scalar.rel_tol, Scalar.abs_tol) == DEF, "the default tolerances are now {0}", (Scalar.rel_tol, Scalar.abs_tol))
    return eq


def tol_run(item, ctx):
    b, ti = item
    t = TOLS[ti]
    rel = DEF[0] if t.get("rel_tol") is None else t["rel_tol"]
    ab = DEF[1] if t.get("abs_tol") is None else t["abs_tol"]
    lims = {ab + rel * abs(b), ab, rel * abs(b), DEF[1] + DEF[0] * abs(b), DEF[1], max(ab, rel * abs(b))}
    for other in sorted({b + s * k * lim for lim in lims for k in KS for s in (1, -1)} | {0, 0.0, b, -b, b * 2, 1, -1}):
        r = tol_check(other, b, t, ctx)
        ctx.out("open" if r is None else "equal" if r else "different")
        r = tol_check(b, other, t, ctx)
        # the answer for the same numbers with the default tolerances, after the special ones were used
        tol_check(other, b, {}, ctx)
        ctx.state()
    # other number types
    if ti in (0, 4):
        for x in (int(b), True, Fraction(1, 3), 10 ** 20):
            e = exact_eq(x, b, t)
            if e is not None:
                expect(Scalar.tol_eq(x, b, **t) is e, "{0!r} and {1!r}: equal is {2}", x, b, not e)
    ctx.trace()


def default_items(tier):
    for rel in (1e-05, 0.0, 0.25, 1e-2, 1e-9):
        for ab in (1e-08, 0.0, 0.5, 1e-3, 1e-12):
            yield [rel, ab]


class Loose(Scalar):
    """A class of its own with other tolerances."""


def default_run(item, ctx):
    """The default tolerances are attributes of the class: they can be set, and a subclass can have its own."""
    rel, ab = item
    old = Scalar.rel_tol, Scalar.abs_tol
    nums = [0, 1, -1, 1.25, 0.75, 1.5, 100, 110, 1.005, 0.001, 0.0005, 1e-6, -1e-6, 1e-10, 2e-12, 1 + 1e-7, -3.0, 3.2]
    for how in ("class", "subclass", "again"):
        try:
            Loose.rel_tol, Loose.abs_tol = rel, ab
            if how == "class":
                Scalar.rel_tol, Scalar.abs_tol = rel, ab
            S = Loose if how == "subclass" else Scalar
            cur = (rel, ab) if how != "again" else old
            for a in nums:
                for b in nums:
                    eq = exact_eq(a, b, {"rel_tol": cur[0], "abs_tol": cur[1]})
                    if eq is None:
                        continue
                    got = S.tol_eq(a, b), S.tol_gt(a, b), S.tol_lt(a, b), S.tol_ge(a, b), S.tol_le(a, b)
                    want = eq, a > b and not eq, a < b and not eq, a > b or eq, a < b or eq
                    expect(got == want, "{0!r} and {1!r} with tolerances {2} set for the {3}: (==, >, <, >=, <=) is {4}, expected {5}", a, b, cur, how, got, want)
                    if b == 0:
                        expect(S.tol_zero(a) is eq, "tol_zero({0!r}) with tolerances {1} set for the {2} is {3}", a, cur, how, S.tol_zero(a))
                    if how != "subclass":
                        v, w = Vector(a, b), Vector(b, b)
                        expect(v.tol_eq(w) is eq, "{0} and {1} with tolerances {2}: tolerantly equal is {3}", v, w, cur, v.tol_eq(w))
                    ctx.step()
        finally:
            Scalar.rel_tol, Scalar.abs_tol = old
    for a in nums + [5e-324, -5e-324, 1e300, -1e300, 10 ** 20, -10 ** 20, True, Fraction(1, 3), -Fraction(1, 3)]:
        if a:
            expect(Scalar.sign(a) == (1 if a > 0 else -1), "the sign of {0!r} is {1!r}", a, Scalar.sign(a))
    ctx.state()
    ctx.trace()


VT = [0, 1, -1, 1.000001, 0.999999, 1.001, 1e-9, -1e-9, 5e-8, 100000, 100000.5, 100002]


def vtol_items(tier):
    for x in VT:
        for y in VT:
            yield [x, y]


def vtol_run(item, ctx):
    x, y = item
    for p in VT:
        for q in VT:
            for t in (TOLS[0], TOLS[5], TOLS[6], TOLS[4]):
                ex, ey = exact_eq(x, p, t), exact_eq(y, q, t)
                if ex is None or ey is None:
                    continue
                a, b = Vector(x, y), Vector(p, q)
                eq = ex and ey
                gt, lt = x > p and y > q, x < p and y < q
                calls = [lambda f: f(b, **t)]
                if len(t) == 2:
                    calls.append(lambda f: f(b, t["rel_tol"], t["abs_tol"]))
                for call in calls:
                    got = [call(f) for f in (a.tol_eq, a.tol_gt, a.tol_lt, a.tol_ge, a.tol_le)]
                    want = [eq, gt and not eq, lt and not eq, gt or eq, lt or eq]
                    expect(got == want, "{0} and {1} with {2}: tolerant (==, >, <, >=, <=) is {3}, expected {4}", (x, y), (p, q), t, got, want)
                    ctx.step()
                expect((a.x, a.y, b.x, b.y) == (x, y, p, q) and (Scalar.rel_tol, Scalar.abs_tol) == DEF, "comparing altered a vector or the tolerances")
            ctx.state()
    ctx.trace()


CHECKS = {
    "C18": {"rule": "all circles, lines and rays of a lattice under five placements, in both argument orders, against exact integer and rational arithmetic",
            "assumptions": ["figures touch exactly, or miss or cut by much more than the tolerances (abs 1e-8, rel 1e-5); scale 0.25 and more",
                            "circles that touch only up to rounding (irrational radii or inexact coordinates) may give one point or two that agree within 1e-6"],
            "harnesses": [
                fn_harness("circle-circle", "second centre in [-6,6]^2 ([-10,10]^2), radii 0..7 (11), five placements, both orders", cc_items, cc_run),
                fn_harness("circle-circle-large", "29 very unequal, far, touching or nearly touching pairs x 4 directions x placements", big_cc_items, big_cc_run),
                fn_harness("circle-circle-roots", "radii sqrt(1)..sqrt(26), centres up to 3 (5) apart", sq_items, sq_run),
                fn_harness("circle-line-ray", "line point in [-4,4]^2 ([-7,7]^2), directions in [-3,3]^2 ([-4,4]^2), radii 0..5 (8), placements", cl_items, cl_run),
                fn_harness("circle-line-fine", "28 hard cases x 8 symmetries x 3 placements", fine_cl_items, fine_cl_run),
                fn_harness("lines-rays", "both directions in [-2,2]^2 ([-3,3]^2), offset in [-3,3]^2 ([-4,4]^2), placements, both orders", ll_items, ll_run),
                fn_harness("sizes", "18 (72) directions x 7 (31) radii 1..1e12 (1e30) x 4 lengths of direction x 5 starts x 3 centres: lines that touch, cut and miss the circle; circles of 4 ratios likewise; circles of ratios 1e-3..1e-6 that cut", scale_items, scale_run),
                fn_harness("lines-fine", "12 x 12 directions (nearly parallel) x 12 offsets x 3 scales", fine_ll_items, fine_ll_run),
                fn_harness("unit-directions", "54 directions of unit length at angles down to 1.5e-7, all pairs x 6 offsets x 2 origins; circles cut by them", unit_items, unit_run),
                fn_harness("close", "16 directions x 2 places: centres 1e-7..1e-3 apart, misses by 8e-5..0.1 radii, chords and misses of depth 5e-8..1e-3, short directions", close_items, close_run),
                fn_harness("ray-starts", "12 places x 48 directions x 3 lengths: rays starting 1e-5 to 0.3 before and behind the place", start_items, start_run),
                fn_harness("moved", "all arguments on a small lattice: each call again after every single argument was moved in place (3 ways) and back", moved_items("C18"), moved_run),
                fn_harness("lines-tiny-angle", "12 x 12 long directions, some at angles of 2e-6 x 8 offsets", tiny_ll_items, tiny_ll_run),
            ]},
    "C19": {"rule": "all triplets of a lattice under eight placements against exact integer cross and dot products",
            "assumptions": ["points coincide exactly or differ by much more than the tolerance; angles closer to a right angle than 3e-5 but not right are left open"],
            "harnesses": [
                fn_harness("lattice", "all triplets of the 4x4 (6x6) lattice x 8 placements (rotations, scales 0.001..1024, far offsets)", tri_items, tri_run),
                fn_harness("moved", "all arguments on a small lattice: each call again after every single argument was moved in place (3 ways) and back", moved_items("C19"), moved_run),
                fn_harness("near-right", "angles 3e-5 to 0.1 off a right angle x 24 directions x 4 lengths x 3 places; distances from 1e-300 to 1e100", near_right_items, near_right_run),
                fn_harness("thin", "triplets with bases 1e-3..1e9 and heights 1e-12..1e2 x 5 apexes x quarter turns x all orders", thin_items, thin_run),
                fn_harness("fine", "all triplets of 15 points at angles down to 5e-4 x 3 placements", fine3_items, fine3_run),
            ]},
    "C20": {"rule": "all pairs of vectors of an alphabet, all matrix shapes up to 3x3, all small 2x2 and 3x3 matrices for inverse and solution; operands re-read after every operation and after changing the result",
            "assumptions": ["results are compared up to rounding (1e-12 relative); singular matrices larger than 2x2 and zero divisors are out of scope"],
            "harnesses": [
                fn_harness("vectors", "all pairs of 38 vectors, 114 angles", vec_items, vec_run),
                fn_harness("numbers", "7 kinds of number (int, bool, float, numpy, Fraction) x 7 x 7 values as coordinates, as operands, as angles and as indices", num_items, num_run),
                fn_harness("vector-of-matrix", "all shapes up to 4x3", badv_items, badv_run),
                fn_harness("products", "all shapes up to 3x3x3 x 144 fillings", mul_items, mul_run),
                fn_harness("shapes", "all shapes up to 10x10 x 4 second factors", shape_items, shape_run),
                fn_harness("inverses", "all 2x2 matrices over {-1,0,1,2}, all 3x3 over {0,1} (thorough {-1,0,1}), sizes 4..6", inv_items, inv_run),
                fn_harness("magnitudes", "7 matrices x 13 scales 1e-6..1e6: products, inverses, solutions; products of integers up to 1e20", size_items, size_run),
                fn_harness("changes", "all sequences of 3 (4) of 8 in-place changes of a vector and of 5 of a matrix, all queries before and after each", change_items, change_run),
                fn_harness("rounding", "all pairs of 15 numbers as vector and in 6 matrix shapes x 9 precisions, twice", round_items, round_run),
                fn_harness("identities", "sizes 1..11, 50, 255..258, 300", id_items, id_run),
            ]},
    "C21": {"rule": "all pairs of coordinate systems of lattice points, unit and scaled, against complex arithmetic; forth, back, composed",
            "assumptions": ["points coincide exactly or are at least 1e-6 apart"],
            "harnesses": [
                fn_harness("pairs", "all ordered pairs of point pairs of the 3x3 (4x4) lattice x unit/scaled x placements x 5 probes", cs_items, cs_run),
                fn_harness("similar", "8 coordinate systems that differ by 1e-4 to 1, all pairs, unit and scaled, up to 1e6 from the origin", cs3_items, cs3_run),
                fn_harness("extremes", "sizes 1e-3..1e6 and far origins", cs2_items, cs2_run),
                fn_harness("moved", "all arguments on a small lattice: each call again after every single argument was moved in place (3 ways) and back", moved_items("C21"), moved_run),
                fn_harness("changed", "all triples of 8 systems: transform, change one system to the third in 4 ways, transform again", cs4_items, cs4_run),
            ]},
    "C22": {"rule": "16 magnitudes x 16 tolerance settings x offsets around every limit, against exact fractions",
            "assumptions": ["finite numbers; differences within 1e-6 of the limit (relative) are left open because the limit is computed in floating point"],
            "harnesses": [
                fn_harness("scalars", "16 bases x 16 tolerance settings x about 100 neighbours, both argument orders, positional and keyword", tol_items, tol_run),
                fn_harness("defaults", "25 pairs of default tolerances set for the class, for a subclass and restored x all pairs of 18 numbers; signs", default_items, default_run),
                fn_harness("vectors", "all pairs of 144 vectors x 4 tolerance settings", vtol_items, vtol_run),
            ]},
}
