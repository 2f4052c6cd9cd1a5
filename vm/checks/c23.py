"""C23: geometric, graph, ranking and linear-algebra utilities against exact rational arithmetic and independent definitions."""
import contextlib
import io
import math
import os
import string
import tempfile
from fractions import Fraction as Q
import numpy as np
from vm.lazy import S, ph                                                          # noqa

META = dict(
    rule='one distinct case per (predicate or utility, drawn input)',
    assumptions=['inputs of predicates are exactly representable; points that are not meant to lie on a line are off it by at least 1e-2',
                 'polygons are simple'],
    note='Inputs are drawn on a binary grid so that every predicate has an exact answer in rational arithmetic; degenerate and boundary '
         'cases (end points, vertices, edges, touching and nested segments, collinear points, full turns, singular matrices) are drawn '
         'on purpose; rankings are driven through histories of hosts with a clock the harness advances.',
    must_observe=['point', 'segment', 'line', 'parallel', 'union', 'polygon', 'clip', 'interval', 'curve', 'space3', 'angle3', 'angle', 'triangle',
                  'switch', 'arc', 'transfinite', 'rref', 'rref float', 'graph', 'pipe', 'ranking', 'timer', 'wrapper', 'csv', 'on lines'])


def m2():
    from phyem.tools.miscellaneous.geometries import m2n2
    return m2n2


def m3():
    from phyem.tools.miscellaneous.geometries import m3n3
    return m3n3


def grid(rng, lo=-24, hi=24, den=8):
    return Q(int(rng.integers(lo, hi + 1)), den)


def P(p):
    return m2().Point2(float(p[0]), float(p[1]))


def pt(rng, **k):
    return (grid(rng, **k), grid(rng, **k))


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def dot(a, b, c):
    return (b[0] - a[0]) * (c[0] - a[0]) + (b[1] - a[1]) * (c[1] - a[1])


def on_line(p, a, b):
    return cross(a, b, p) == 0


def on_segment(p, a, b):
    return on_line(p, a, b) and dot(p, a, b) <= 0


def two(rng):
    while True:
        a, b = pt(rng), pt(rng)
        if a != b:
            return a, b


def lin(a, b, t):
    return tuple(x + t * (y - x) for x, y in zip(a, b))


def clear(p, a, b):
    """p is on the line through a, b or at a clear distance of it"""
    c = cross(a, b, p)
    return c == 0 or abs(float(c)) / math.hypot(float(b[0] - a[0]), float(b[1] - a[1])) > 1e-2


def plane(ctx, rounds):
    rng, m = ctx.rng, m2()
    for r in range(rounds):
        a, b = two(rng)
        L = m.StraightLine2(P(a), P(b))
        sg = m.StraightSegment2(P(a), P(b)) if rng.random() < .5 else m.StraightSegment2(tuple(map(float, a)), list(map(float, b)))
        ctx.case('plane', r, a, b)
        d = m.distance2(P(a), P(b))
        ctx.close(d, math.sqrt(float((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2)), 'point|distance', 1e-14)
        ctx.true(P(a) == P(a) and not (P(a) == P(b)), 'point|equality')
        ctx.true((P(a).signature == P(b).signature) == (a == b) and P(a).coo == (float(a[0]), float(a[1])), 'point|signature')
        ctx.true(P(a).whether_contain__input__as_a_part_of_same_type(P(a)) and not P(a).whether_contain__input__as_a_part_of_same_type(P(b)),
                 'point|contains')
        for G, nm in ((L, 'line'), (sg, 'segment')):
            if a[0] == b[0]:
                ctx.eq(abs(G.slope), np.inf, f'{nm}|slope', f'{a} {b}')
            else:
                ctx.close(G.slope, float((b[1] - a[1]) / (b[0] - a[0])), f'{nm}|slope', 1e-13, f'{a} {b}')
        # points at, between, beyond and beside
        for t in (Q(0), Q(1), Q(1, 2), Q(int(rng.integers(1, 16)), 16), Q(-int(rng.integers(1, 32)), 8), 1 + Q(int(rng.integers(1, 32)), 8), None):
            p = pt(rng, lo=-40, hi=40) if t is None else lin(a, b, t)
            if t is None and not clear(p, a, b):
                continue
            ctx.eq(bool(m.whether_point_on_straight_line(P(p), L)), on_line(p, a, b), 'line|point on line', f'{a} {b} {p}')
            ctx.eq(bool(m.whether_point_on_straight_segment(P(p), sg)), on_segment(p, a, b), 'segment|point on segment', f'{a} {b} {p}')
            ctx.eq(bool(m.whether_point_on_straight_segment((float(p[0]), float(p[1])), sg)), on_segment(p, a, b), 'segment|tuple on segment', f'{a} {b} {p}')
        # equality and direction
        rev = m.StraightSegment2(P(b), P(a))
        ctx.true(sg == rev and sg == sg, 'segment|equality reversed')
        ctx.eq(sg.___possible_subset_group_key___(), rev.___possible_subset_group_key___(), 'segment|group key reversed', f'{a} {b}')
        c, e = two(rng)
        other = m.StraightSegment2(P(c), P(e))
        ctx.eq(bool(sg == other), {a, b} == {c, e}, 'segment|equality')
        # parallel or not
        par = (b[0] - a[0]) * (e[1] - c[1]) == (b[1] - a[1]) * (e[0] - c[0])
        ctx.eq(bool(m.whether_two_lines_or_segments_parallel(sg, other)), par, 'parallel|random', f'{a} {b} {c} {e}')
        s = Q(int(rng.integers(1, 16)), 8) * (1 if rng.random() < .5 else -1)
        off = pt(rng)
        c2 = off
        e2 = (off[0] + s * (b[0] - a[0]), off[1] + s * (b[1] - a[1]))
        ctx.true(m.whether_two_lines_or_segments_parallel(sg, m.StraightSegment2(P(c2), P(e2))), 'parallel|shifted', f'{a} {b} {c2} {e2}')
        L2 = m.StraightLine2(P(c), P(e))
        from phyem.tools.functions.space._2d.line_intersection import find_line_intersection
        f = lambda *x: find_line_intersection(*[tuple(map(float, q)) for q in x])
        if par:
            ctx.raises(lambda: m.line2_line2_intersection(L, L2), 'line|intersection of parallel lines', exc=m.Parallel2dLinesError)
            ctx.true(f(a, b, c, e) is None, 'line|no intersection of parallel lines')
        else:
            t = cross(c, e, a) / ((b[0] - a[0]) * -(e[1] - c[1]) + (b[1] - a[1]) * (e[0] - c[0]))
            x = lin(a, b, -t) if not on_line(lin(a, b, t), c, e) else lin(a, b, t)
            assert on_line(x, c, e)
            I = m.line2_line2_intersection(L, L2)
            ctx.close(I.coo, (float(x[0]), float(x[1])), 'line|intersection', 1e-11, f'{a} {b} {c} {e}', scale=1 + abs(float(x[0])) + abs(float(x[1])))
            ctx.close(f(a, b, c, e), (float(x[0]), float(x[1])), 'line|find intersection', 1e-11, f'{a} {b} {c} {e}', scale=1 + abs(float(x[0])) + abs(float(x[1])))
            ctx.raises(lambda: m.find_intersection_of_two_parallel_straight_segments(sg, other), 'parallel|intersection of others',
                       exc=m.NotParallel2dLinesError)
        ctx.raises(lambda: m.line2_line2_intersection(L, m.StraightLine2(P(c2), P(e2))), 'line|intersection of shifted lines', exc=m.Parallel2dLinesError)
        # two segments on one line, all relative positions
        t0, t1 = sorted(Q(int(v), 8) for v in rng.choice(np.arange(-12, 24), 2, replace=False))
        q0, q1 = lin(a, b, t0), lin(a, b, t1)
        if rng.random() < .5:
            q0, q1 = q1, q0
        sg1 = m.StraightSegment2(P(q0), P(q1))
        lo, hi = max(t0, Q(0)), min(t1, Q(1))
        detail = f'{a} {b} parameters {t0} {t1}'
        ctx.eq(bool(sg.whether_contain__input__as_a_part_of_same_type(sg1)), t0 >= 0 and t1 <= 1, 'segment|contains', detail)
        ctx.true(not sg.whether_contain__input__as_a_part_of_same_type(P(a)), 'segment|contains no other kind')
        for x, y in ((sg, sg1), (sg1, sg)):
            I = m.find_intersection_of_two_parallel_straight_segments(x, y)
            if lo > hi:
                ctx.true(I is None, 'parallel|disjoint', detail)
            elif lo == hi:
                ctx.true(I.__class__ is m.Point2 and I == P(lin(a, b, lo)), 'parallel|touching', detail)
            else:
                ctx.true(I.__class__ is m.StraightSegment2 and I == m.StraightSegment2(P(lin(a, b, lo)), P(lin(a, b, hi))), 'parallel|overlap', f'{detail} {I}')
        if not on_line(off, a, b) and clear(off, a, b) and clear(e2, a, b):
            ctx.true(m.find_intersection_of_two_parallel_straight_segments(sg, m.StraightSegment2(P(c2), P(e2))) is None, 'parallel|apart', f'{a} {b} {c2} {e2}')
        # unions
        n = int(rng.integers(1, 6))
        cuts = [Q(0)] + sorted(Q(int(v), 16) for v in rng.choice(np.arange(1, 16), n - 1, replace=False)) + [Q(1)]
        parts = [m.StraightSegment2(P(lin(a, b, u)), P(lin(a, b, v))) if rng.random() < .5 else m.StraightSegment2(P(lin(a, b, v)), P(lin(a, b, u)))
                 for u, v in zip(cuts[:-1], cuts[1:])]
        more = [m.StraightSegment2(P(lin(a, b, Q(5, 4))), P(lin(a, b, Q(2))))] + ([other] if not par else [])
        ok = [parts[i] for i in rng.permutation(n)]
        eq = lambda gs: bool(sg.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(gs))
        ctx.true(eq(ok), 'union|parts', detail)
        ctx.true(eq(more + ok), 'union|parts and others', detail)
        drop = int(rng.integers(n))
        ctx.true(not eq([g for g in parts if g is not parts[drop]] + more), 'union|a part is missing', detail)
        ps = [pt(rng) for _ in range(4)]
        ps = list(dict.fromkeys(ps))
        ctx.eq(bool(P(a).is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type([P(p) for p in ps])), a in ps, 'union|points')
        ctx.true(P(ps[0]).is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type([P(p) for p in ps]), 'union|one of the points')


def exact_area2(v):
    return sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(v, v[1:] + v[:1]))


def inside(p, v):
    """exact: 1 inside, 0 on the boundary, -1 outside (even-odd rule)"""
    for a, b in zip(v, v[1:] + v[:1]):
        if on_segment(p, a, b):
            return 0
    c = False
    for a, b in zip(v, v[1:] + v[:1]):
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if x > p[0]:
                c = not c
    return 1 if c else -1


def simple(v):
    n = len(v)
    for i in range(n):
        a, b = v[i], v[(i + 1) % n]
        if on_segment(v[(i + 2) % n], a, b) or on_segment(a, b, v[(i + 2) % n]):
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            c, d = v[j], v[(j + 1) % n]
            s = [cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b)]
            if (s[0] > 0) != (s[1] > 0) and (s[2] > 0) != (s[3] > 0) and 0 not in s:
                return False
            if any(on_segment(p, a, b) for p in (c, d)) or any(on_segment(p, c, d) for p in (a, b)):
                return False
    return True


def polygon(rng, kind):
    while True:
        n = int(rng.integers(3, 8))
        o = pt(rng)
        if kind == 'star':
            th = np.sort(rng.uniform(0, 2 * np.pi, n))
            v = [(o[0] + Q(round(8 * r * math.cos(t)), 8), o[1] + Q(round(8 * r * math.sin(t)), 8)) for t, r in zip(th, rng.uniform(1, 4, n))]
        elif kind == 'rect':
            w, h = grid(rng, 2, 24), grid(rng, 2, 24)
            v = [o, (o[0] + w, o[1]), (o[0] + w, o[1] + h), (o[0], o[1] + h)]
        elif kind == 'L':
            w, h, x, y = [grid(rng, 4, 24) for _ in range(4)]
            v = [o, (o[0] + w + x, o[1]), (o[0] + w + x, o[1] + h), (o[0] + w, o[1] + h), (o[0] + w, o[1] + h + y), (o[0], o[1] + h + y)]
        else:
            v = [pt(rng) for _ in range(n)]
        if len(set(v)) == len(v) and abs(exact_area2(v)) > 1 and simple(v):
            k = int(rng.integers(len(v)))
            v = v[k:] + v[:k]
            return v[::-1] if rng.random() < .5 else v


def convex(v):
    s = {(cross(a, b, c) > 0) for a, b, c in zip(v, v[1:] + v[:1], v[2:] + v[:2])}
    return len(s) == 1


def clip(v, w):
    """exact intersection of a polygon with a convex polygon (Sutherland-Hodgman)"""
    if exact_area2(w) < 0:
        w = w[::-1]
    out = list(v)
    for a, b in zip(w, w[1:] + w[:1]):
        src, out = out, []
        for p, q in zip(src, src[1:] + src[:1]):
            sp, sq = cross(a, b, p), cross(a, b, q)
            if sp >= 0:
                out.append(p)
            if (sp > 0 > sq) or (sp < 0 < sq):
                out.append(lin(p, q, sp / (sp - sq)))
    return out


def polygons(ctx, rounds, pts):
    rng, m = ctx.rng, m2()
    for r in range(rounds):
        kind = ['star', 'rect', 'L', 'any'][r % 4]
        v = polygon(rng, kind)
        G = m.Polygon2(*[P(p) for p in v])
        ctx.case('polygon', kind, tuple(v))
        ctx.eq(len(G), len(v), 'polygon|vertices')
        ctx.true(all(G[i] == P(v[i]) for i in range(len(v))) and all(x == P(y) for x, y in zip(G, v)), 'polygon|vertices')
        ctx.true(all(G.edges(i) == m.StraightSegment2(P(v[i]), P(v[(i + 1) % len(v)])) for i in range(len(v))), 'polygon|edges')
        ctx.close(G.area, float(abs(exact_area2(v)) / 2), 'polygon|area', 1e-13)
        probe = [pt(rng, lo=-50, hi=50) for _ in range(pts)] + v[:]
        xs, ys = [p[0] for p in v], [p[1] for p in v]
        probe += [(Q(int(rng.integers(int(min(xs) * 8), int(max(xs) * 8) + 1)), 8), Q(int(rng.integers(int(min(ys) * 8), int(max(ys) * 8) + 1)), 8)) for _ in range(pts)]
        for i in range(len(v)):
            a, b = v[i], v[(i + 1) % len(v)]
            probe += [lin(a, b, Q(1, 2)), lin(a, b, Q(int(rng.integers(1, 8)), 8)), lin(a, b, Q(9, 8)), lin(a, b, -Q(1, 8))]
            probe += [(p[0], a[1]) for p in probe[:2]]                         # rays through a vertex
        for p in probe:
            if not all(clear(p, a, b) for a, b in zip(v, v[1:] + v[:1])):
                continue
            w = inside(p, v)
            f = (float(p[0]), float(p[1]))
            form = [P(p), f, list(f), np.array(f)][int(rng.integers(4))]
            ctx.eq(bool(m.whether_point_in_polygon(form, G)), w >= 0, f'polygon|point {"in" if w > 0 else "on" if w == 0 else "out"}', f'{v} {p}')
        # containment of polygons
        c = (sum(xs) / len(xs), sum(ys) / len(ys))
        small = m.Polygon2(*[P(lin(c, p, Q(1, 2))) for p in v])
        if convex(v):
            ctx.true(G.whether_contain__input__as_a_part_of_same_type(small) and not small.whether_contain__input__as_a_part_of_same_type(G), 'polygon|contains', f'{v}')
        ctx.true(G == m.Polygon2(*[P(p) for p in v]) and not (G == small) and G.whether_contain__input__as_a_part_of_same_type(G), 'polygon|equality')
        # intersection and union with a convex polygon
        while True:
            w = polygon(rng, 'rect' if rng.random() < .5 else 'star')
            if convex(w):
                break
        s = pt(rng, lo=-8, hi=8)
        w = [(p[0] - w[0][0] + v[0][0] + s[0], p[1] - w[0][1] + v[0][1] + s[1]) for p in w]
        H = m.Polygon2(*[P(p) for p in w])
        inner_area = abs(exact_area2(clip(v, w)) / 2) if len(clip(v, w)) > 2 else Q(0)
        if convex(v) and inner_area > Q(1, 50):
            for X, Y in ((G, H), (H, G)):
                Z = X.intersection(Y)
                ctx.true(Z.__class__ is m.Polygon2, 'clip|intersection of overlapping polygons', f'{v} {w}')
                if Z.__class__ is m.Polygon2:
                    ctx.close(Z.area, float(inner_area), 'clip|area of the intersection', 1e-11, f'{v} {w}')
                    usable(ctx, Z, 'intersection', lambda p: min(inside(p, v), inside(p, w)), v, w)
                U = X.union(Y)
                ctx.true(U.__class__ is m.Polygon2, 'clip|union of overlapping polygons', f'{v} {w}')
                if U.__class__ is m.Polygon2 and abs(exact_area2(v)) / 2 + abs(exact_area2(w)) / 2 - inner_area - Q(U.area).limit_denominator(10**9) < Q(1, 10 ** 6):
                    usable(ctx, U, 'union', lambda p: max(inside(p, v), inside(p, w)), v, w)
        # a partition of a rectangle
        x0, y0 = pt(rng)
        nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        X = [x0 + Q(int(i), 8) for i in np.cumsum([0, *rng.integers(1, 8, nx)])]
        Y = [y0 + Q(int(i), 8) for i in np.cumsum([0, *rng.integers(1, 8, ny)])]
        R = lambda a, b, c, d: m.Polygon2(*[P(p) for p in ((a, c), (b, c), (b, d), (a, d))])
        big = R(X[0], X[-1], Y[0], Y[-1])
        cells = [R(X[i], X[i + 1], Y[j], Y[j + 1]) for i in range(nx) for j in range(ny)]
        cells = [cells[i] for i in rng.permutation(len(cells))]
        beside = [R(X[-1], X[-1] + 1, Y[0], Y[-1]), R(X[-1] + 2, X[-1] + 3, Y[0], Y[-1])]
        eq = lambda gs: bool(big.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(gs))
        ctx.true(eq(cells), 'union|rectangle from cells', f'{X} {Y}')
        ctx.true(eq(cells + beside), 'union|rectangle from cells and others', f'{X} {Y}')
        ctx.true(not eq(cells[1:] + beside), 'union|a cell is missing', f'{X} {Y}')
        ctx.true(all(big.whether_contain__input__as_a_part_of_same_type(c) for c in cells) and
                 not any(big.whether_contain__input__as_a_part_of_same_type(c) for c in beside), 'polygon|contains cells', f'{X} {Y}')
    # a non-convex polygon does not contain what lies in its notch, even though it has the corners
    for k in range(4):
        w, h = Q(int(rng.integers(8, 24)), 8), Q(int(rng.integers(8, 24)), 8)
        v = [(Q(0), Q(0)), (3 * w, Q(0)), (3 * w, 2 * h), (2 * w, 2 * h), (2 * w, h), (w, h), (w, 2 * h), (Q(0), 2 * h)]
        U = m.Polygon2(*[P(p) for p in v])
        bar = m.Polygon2(*[P(p) for p in ((Q(0), h / 2), (3 * w, h / 2), (3 * w, 2 * h), (Q(0), 2 * h))])
        ctx.case('notch', w, h)
        ctx.true(not U.whether_contain__input__as_a_part_of_same_type(bar), 'polygon|contains across a notch', f'{w} {h}')
        ctx.true(bar.whether_contain__input__as_a_part_of_same_type(m.Polygon2(*[P(p) for p in ((w, h), (2 * w, h), (2 * w, 2 * h), (w, 2 * h))])),
                 'polygon|contains a cell')


def usable(ctx, Z, what, side, v, w):
    """the result of a set operation answers membership queries, too"""
    m, rng = m2(), ctx.rng
    for p in [pt(rng) for _ in range(3)] + [lin(v[0], w[0], Q(1, 2)), lin(v[1], w[1], Q(1, 4)), v[0], w[0]]:
        if all(clear(p, a, b) for z in (v, w) for a, b in zip(z, z[1:] + z[:1])):
            s = side(p)
            if s != 0:
                if not ctx.eq(bool(m.whether_point_in_polygon(P(p), Z)), s > 0, f'clip|point in the {what}', f'{v} {w} {p}'):
                    return


def curves(ctx, rounds):
    rng, m = ctx.rng, m2()
    from phyem.tools.miscellaneous.geometries.m1n1 import Interval
    for r in range(rounds):
        lo = float(grid(rng))
        hi = lo + float(grid(rng, 1, 24))
        op = bool(rng.random() < .5)
        I = Interval((lo, hi) if op else [lo, hi])
        ctx.case('interval', lo, hi, op)
        xs = [lo, hi, (lo + hi) / 2, lo - .125, hi + .125, float(rng.uniform(lo, hi)), math.nextafter(lo, -99), math.nextafter(hi, 99), math.nextafter(lo, 99)]
        want = [(lo < x < hi) if op else (lo <= x <= hi) for x in xs]
        for x, w in zip(xs, want):
            ctx.eq(bool(x in I), w, 'interval|number', f'{x!r} in {lo} {hi} {op}')
            ctx.eq(bool(np.array(x) in I), w, 'interval|0d array', f'{x!r} in {lo} {hi} {op}')
        k = rng.integers(0, len(xs), 3)
        ctx.eq(bool(np.array([xs[i] for i in k]) in I), all(want[i] for i in k), 'interval|array')
        ctx.close(I.linspace(5), [lo + (hi - lo) * i / 4 for i in range(5)], 'interval|linspace', 1e-14, scale=1 + abs(lo) + abs(hi))
        # curves: increasing and decreasing x(t), also ones that are monotone on the interval only
        kind = ['affine', 'down', 'cube', 'cos', 'square'][r % 5]
        a, b = float(rng.uniform(.3, 2)), float(rng.uniform(-1, 1))
        t0, t1 = {'affine': (lo, hi), 'down': (lo, hi), 'cube': (-1., 1.5), 'cos': (0., 3.), 'square': (.25, 2.)}[kind]
        X = {'affine': lambda t: a * t + b, 'down': lambda t: b - a * t, 'cube': lambda t: t + a * t ** 3, 'cos': lambda t: a * np.cos(t) + b, 'square': lambda t: b + a * t * t}[kind]
        c, e = rng.uniform(-1, 1, 2)
        Y = lambda t: c * np.sin(2 * t) + e * t
        try:
            C = m.Curve2(X, Y, [t0, t1] if not op else (t0, t1))
        except Exception as ex:
            ctx.fail('curve|made', f'{kind}: {ex!r}')
            continue
        ctx.case('curve', kind, a, b, t0, t1)
        t = float(rng.uniform(t0 + .05 * (t1 - t0), t1 - .05 * (t1 - t0)))
        try:
            ctx.close(C.x_from_t(t), X(t), 'curve|x', 1e-14)
            ctx.close(C.y_from_t(t), Y(t), 'curve|y', 1e-14)
            ctx.close(float(C.t_from_x(X(t))), t, 'curve|t from x', 1e-6, f'{kind} {a} {b} [{t0}, {t1}] t={t}')
            if not op:
                for q in (t0, t1):
                    ctx.close(float(C.t_from_x(X(q))), q, 'curve|t from x at an end', 1e-6, f'{kind} {a} {b} [{t0}, {t1}]', scale=1.)
                    ctx.true(m.whether_point_on_curve((float(X(q)), float(Y(q))), C), 'curve|end on curve', f'{kind} {a} {b} [{t0}, {t1}] {q}')
            for p, w in (((X(t), Y(t)), True), ((X(t), Y(t) + .01), False), ((X(t), Y(t) - .3), False), ((max(X(t0), X(t1)) + .1, Y(t1)), False),
                         ((min(X(t0), X(t1)) - .1, Y(t0)), False)):
                ctx.eq(bool(m.whether_point_on_curve((float(p[0]), float(p[1])), C)), w, 'curve|point on curve', f'{kind} {p}')
        except Exception as ex:
            ctx.fail('curve|query', f'{kind} {a} {b} [{t0}, {t1}] t={t}: {ex!r}')
        ctx.raises(lambda: C.x_from_t(t1 + 1.), 'curve|t outside', exc=AssertionError)
        ctx.raises(lambda: m.Curve2(lambda t: np.sin(3 * t), Y, [0., 3.]), 'curve|x(t) not monotone', exc=AssertionError)


def on_lines(ctx, rounds):
    """scalars and vectors that live on lines"""
    rng, m = ctx.rng, m2()
    from phyem.tools.functions.time_space._2d.wrappers.scalar_on_lines import scalar_on_lines
    from phyem.tools.functions.time_space._2d.wrappers.vector_on_lines import vector_on_lines
    for r in range(rounds):
        n = int(rng.integers(1, 4))
        lines = [two(rng) for _ in range(n)]
        k = rng.uniform(-2, 2, (n, 6))

        def fn(i, j):
            return lambda t, x, y: k[i, 3 * j] * t + k[i, 3 * j + 1] * x * y + k[i, 3 * j + 2]
        cst = rng.random(n) < .3
        ss = [(m.StraightSegment2(P(a), P(b)), (float(k[i, 0]) if cst[i] else ph.vc.scalar(fn(i, 0)) if rng.random() < .5 else fn(i, 0))) for i, (a, b) in enumerate(lines)]
        vs = [(m.StraightSegment2(P(a), P(b)), ((float(k[i, 0]), fn(i, 1)) if cst[i] else ph.vc.vector(fn(i, 0), fn(i, 1)) if rng.random() < .5 else (fn(i, 0), fn(i, 1))))
              for i, (a, b) in enumerate(lines)]
        Sc, Ve = scalar_on_lines(*ss), vector_on_lines(*vs)
        ctx.case('on lines', r, tuple(lines))
        p = [lin(*lines[i], Q(int(rng.integers(0, 9)), 8)) for i in range(n) for _ in range(3)] + [pt(rng) for _ in range(3)]
        p = [q for q in p if all(clear(q, a, b) for a, b in lines)]
        t = float(rng.uniform(-1, 1))
        x, y = (np.array([float(q[i]) for q in p]) for i in (0, 1))
        own = [next((i for i, (a, b) in enumerate(lines) if on_segment(q, a, b)), None) for q in p]
        ws = [0. if i is None else k[i, 0] if cst[i] else fn(i, 0)(t, X, Y) for i, X, Y in zip(own, x, y)]
        wy = [0. if i is None else fn(i, 1)(t, X, Y) for i, X, Y in zip(own, x, y)]
        for sh in ((len(p),), (1, len(p)), (len(p), 1)):
            X, Y = x.reshape(sh), y.reshape(sh)
            ctx.close(Sc(t, X, Y)[0], np.reshape(ws, sh), 'on lines|scalar', 1e-13, scale=1.)
            v = Ve(t, X, Y)
            ctx.close(v[0], np.reshape(ws, sh), 'on lines|vector x', 1e-13, scale=1.)
            ctx.close(v[1], np.reshape(wy, sh), 'on lines|vector y', 1e-13, scale=1.)
        ctx.close([Sc._s_(t, float(a), float(b)) for a, b in zip(x, y)], ws, 'on lines|numbers', 1e-13, scale=1.)


def P3(p):
    return m3().Point3(*[float(x) for x in p])


def space3(ctx, rounds):
    rng, m = ctx.rng, m3()
    for r in range(rounds):
        while True:
            a, b, c = (tuple(grid(rng) for _ in range(3)) for _ in range(3))
            if len({a, b, c}) == 3:
                break
        ctx.case('space3', a, b, c)
        nrm = lambda x, y: math.sqrt(float(sum((p - q) ** 2 for p, q in zip(x, y))))
        ctx.close(m.distance3(P3(a), P3(b)), nrm(a, b), 'space3|distance', 1e-14)
        ctx.true(P3(a) == P3(a) and not (P3(a) == P3(b)) and not (P3(a) == P3((a[0], a[1], a[2] + Q(1, 8)))), 'space3|equality')
        ctx.eq(bool(P3(a).is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type([P3(b), P3(c)])), False, 'space3|points')
        ctx.eq(bool(P3(a).is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type([P3(b), P3(a)])), True, 'space3|points')
        s = m.StraightSegment3(P3(a), P3(b))
        ctx.close(s.length, nrm(a, b), 'space3|length', 1e-14)
        for t in (Q(0), Q(1), Q(1, 2), Q(3, 8), Q(-1, 2), Q(5, 4)):
            ctx.eq(bool(m.whether_point_on_straight_segment(P3(lin(a, b, t)), s)), 0 <= t <= 1, 'space3|point on segment', f'{a} {b} {t}')
        t0, t1 = sorted(Q(int(v), 8) for v in rng.choice(np.arange(-6, 15), 2, replace=False))
        s1 = m.StraightSegment3(P3(lin(a, b, t1)), P3(lin(a, b, t0)))
        ctx.eq(bool(s.whether_contain__input__as_a_part_of_same_type(s1)), t0 >= 0 and t1 <= 1, 'space3|segment contains', f'{a} {b} {t0} {t1}')
        ctx.true(s == m.StraightSegment3(P3(b), P3(a)) and not (s == m.StraightSegment3(P3(a), P3(c))), 'space3|segment equality')
        # angles, also straight and zero ones
        ang = lambda x, o, y: math.acos(max(-1., min(1., float(sum((p - k) * (q - k) for p, q, k in zip(x, y, o))) / nrm(x, o) / nrm(y, o))))
        ctx.close(m.angle3(P3(a), P3(c), P3(b)), ang(a, c, b), 'angle3|random', 1e-7)
        from phyem.tools.functions.space._3d.angle import angle_between_two_vectors as abv
        for f, w in ((Q(3, 8), 0.), (Q(5, 2), 0.), (Q(-3, 4), np.pi)):
            q = lin(c, a, f)
            ctx.close(m.angle3(P3(a), P3(c), P3(q)), w, 'angle3|collinear', 1e-7, f'{a} {c} {q}', scale=1.)
            v = [float(x - y) for x, y in zip(a, c)]
            ctx.close(abv(v, [float(f) * x for x in v]), w, 'angle|3d collinear', 1e-7, scale=1.)
        ctx.close(abv([float(x - y) for x, y in zip(a, c)], [float(x - y) for x, y in zip(b, c)]), ang(a, c, b), 'angle|3d', 1e-7)
        # axis-aligned segments, rectangles, hexahedra: own intervals per axis
        for kind in ('seg', 'rect', 'hexa'):
            axis = int(rng.integers(3))
            free = [axis] if kind == 'seg' else [i for i in range(3) if i != axis] if kind == 'rect' else [0, 1, 2]

            def make(lo, hi, flip=None):
                """geometry over [lo, hi] in the free directions; flip: given from the other end"""
                o, dl = [float(x) for x in lo], [float(hi[i] - lo[i]) if i in free else 0 for i in range(3)]
                for i in free:
                    if flip is not None and flip[i]:
                        o[i], dl[i] = o[i] + dl[i], -dl[i]
                if kind == 'seg':
                    return m.OrthogonalSegment3('xyz'[axis], m.Point3(*o), dl[axis])
                if kind == 'rect':
                    return m.PerpRectangle('xyz'[axis], o, dl)
                return m.OrthogonalHexahedron(o, dl)
            flip = rng.random(3) < .4
            lo = [grid(rng) for _ in range(3)]
            hi = [x + grid(rng, 8, 24) for x in lo]
            G = make(lo, hi, flip)
            meas = math.prod(float(hi[i] - lo[i]) for i in free)
            ctx.close({'seg': lambda: G.length, 'rect': lambda: G.area, 'hexa': lambda: G.volume}[kind](), meas, f'space3|measure {kind}', 1e-13, f'{lo} {hi} {flip}')
            ctx.true(G == make(lo, hi), f'space3|equal {kind}', f'{axis} {lo} {hi} {flip}')
            tree = []

            def split(l, h, depth):
                if depth == 0 or rng.random() < .2:
                    tree.append((l, h))
                    return
                i = free[int(rng.integers(len(free)))]
                c_ = lin((l[i],), (h[i],), Q(int(rng.integers(1, 4)), 4))[0]
                h2, l2 = list(h), list(l)
                h2[i] = l2[i] = c_
                split(l, h2, depth - 1)
                split(l2, h, depth - 1)
            split(list(lo), list(hi), 2)
            parts = [make(l, h, rng.random(3) < .4) for l, h in tree]
            ctx.true(all(G.whether_contain__input__as_a_part_of_same_type(p) for p in parts), f'space3|contains {kind}', f'{lo} {hi}')
            ctx.true(not any(p.whether_contain__input__as_a_part_of_same_type(G) for p in parts if len(parts) > 1), f'space3|part contains whole {kind}', f'{lo} {hi}')
            i = free[int(rng.integers(len(free)))]
            for sh in ([0, 0, 0], [0, 0, 0]):
                j = int(rng.integers(3))
                sh = list(sh)
                sh[j] = Q(1, 4) * (1 if rng.random() < .5 else -1)
                moved = make([x + y for x, y in zip(lo, sh)], [x + y for x, y in zip(hi, sh)], rng.random(3) < .4)
                ctx.true(not (G == moved) and not G.whether_contain__input__as_a_part_of_same_type(moved), f'space3|moved {kind}', f'{axis} {lo} {hi} by {sh}')
            h2, l2 = list(hi), list(lo)
            l2[i], h2[i] = hi[i], hi[i] + 1
            beside = make(l2, h2)
            eq = lambda gs: bool(G.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(gs))
            order = [parts[q] for q in rng.permutation(len(parts))]
            ctx.true(eq(order), f'union|{kind}', f'{lo} {hi} {tree}')
            ctx.true(eq(order + [beside]), f'union|{kind} and others', f'{lo} {hi} {tree}')
            ctx.true(not eq(order[1:] + [beside]), f'union|{kind} misses a part', f'{lo} {hi} {tree}')


def functions(ctx, rounds):
    rng = ctx.rng
    from phyem.tools.functions.space._2d.angle import angle
    from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
    from phyem.tools.functions.space._2d.check_if_two_lines_parallel import if_two_lines_parallel
    from phyem.tools.functions.space._2d.distance import distance
    from phyem.tools.functions.space._2d.Cartesian_polar_coordinates_switcher import CartPolSwitcher as CP
    from phyem.tools.functions.space._3d.Cartesian_cylinder_coordinate_switcher import CartCylSwitcher as CC
    from phyem.tools.functions.space._3d.Cartesian_spherical_coordinate_switcher import CartSphSwitcher as CS
    from phyem.tools.functions.space._2d import scaling as s2, opposite as o2, constant as c2, _0_ as z2
    from phyem.tools.functions.space._3d import scaling as s3, opposite as o3, constant as c3
    from phyem.tools.functions.space._2d.geometrical_functions.parser import geo_func2_parser
    from phyem.tools.functions.space._2d.transfinite import TransfiniteMapping
    from phyem.tools.functions.region_wise_wrapper import RegionWiseFunctionWrapper as RW
    for r in range(rounds):
        a, b = two(rng)
        fl = lambda p: tuple(float(x) for x in p)
        ctx.case('functions', r, a, b)
        w = math.atan2(float(b[1] - a[1]), float(b[0] - a[0])) % (2 * math.pi)
        g = angle(fl(a), fl(b))
        ctx.true(0 <= g <= 2 * np.pi and abs(g - w) < 1e-7, 'angle|plane', f'{a} {b} {g} {w}')
        for k in range(8):
            q = (a[0] + [1, 1, 0, -1, -1, -1, 0, 1][k], a[1] + [0, 1, 1, 1, 0, -1, -1, -1][k])
            ctx.close(angle(fl(a), fl(q)), k * np.pi / 4, 'angle|multiples of pi/4', 1e-8, scale=1.)
        ctx.close(distance(fl(a), fl(b)), math.hypot(float(a[0] - b[0]), float(a[1] - b[1])), 'angle|distance', 1e-14)
        c = pt(rng)
        if abs(float(cross(a, b, c))) > .5:
            t = angles_of_triangle(fl(a), fl(b), fl(c))

            def corner(o, p, q):
                return math.degrees(math.atan2(abs(float(cross(o, p, q))), float(dot(o, p, q))))
            ctx.close(t, [corner(a, b, c), corner(b, c, a), corner(c, a, b)], 'triangle|angles', 1e-8, f'{a} {b} {c}')
        s = pt(rng)
        sh = lambda p: (p[0] + s[0], p[1] + s[1])
        ctx.true(if_two_lines_parallel(fl(a), fl(b), fl(sh(a)), fl(sh(b))) and not if_two_lines_parallel(fl(a), fl(b), fl(sh(b)), fl(sh(a))), 'parallel|direction', f'{a} {b} {s}')
        if cross(a, b, c) != 0:
            ctx.true(not if_two_lines_parallel(fl(a), fl(b), fl(a), fl(c)), 'parallel|not', f'{a} {b} {c}')
        # coordinates
        x, y, z = rng.normal(size=(3, 5))
        if r % 5 == 0:
            x[0] = y[1] = z[2] = 0.
            x[3] = y[3] = 0.
        rho, phi = CP.cart2pol(x, y)
        ctx.true(np.all(rho >= 0) and np.allclose(rho ** 2, x * x + y * y) and np.allclose(phi, np.arctan2(y, x)), 'switch|polar')
        ctx.close(CP.pol2cart(rho, phi), (x, y), 'switch|polar and back', 1e-13, scale=1.)
        ctx.close(CC.cyl2cart(*CC.cart2cyl(x, y, z)), (x, y, z), 'switch|cylinder and back', 1e-13, scale=1.)
        ctx.close(CC.cart2cyl(x, y, z)[2], z, 'switch|cylinder', 1e-13, scale=1.)
        ctx.close(CC.cart2cyl(x, y, z)[:2], (rho, phi), 'switch|cylinder', 1e-13, scale=1.)
        az, el, rr = CS.cart2sph(x, y, z)
        ctx.true(np.allclose(rr, np.sqrt(x * x + y * y + z * z)) and np.all(np.abs(el) <= np.pi / 2 + 1e-15) and np.allclose(np.sin(el) * rr, z), 'switch|spherical')
        ctx.close(CS.sph2cart(az, el, rr), (x, y, z), 'switch|spherical and back', 1e-13, scale=1.)
        # scaled, opposite, constant functions
        k = float(rng.normal())
        f2, f3 = (lambda x, y: x + 2 * y * y), (lambda x, y, z: x * z + 2 * y)
        ctx.close(s2.ScalingFunc(k)(f2)(x, y), k * f2(x, y), 'wrapper|scaling 2d', 1e-13, scale=1.)
        ctx.close(o2.Opposite(f2)()(x, y), -f2(x, y), 'wrapper|opposite 2d', 1e-13, scale=1.)
        ctx.close(s3.ScalingFunc(k)(f3)(x, y, z), k * f3(x, y, z), 'wrapper|scaling 3d', 1e-13, scale=1.)
        ctx.close(o3.Opposite(f3)()(x, y, z), -f3(x, y, z), 'wrapper|opposite 3d', 1e-13, scale=1.)
        ctx.true(np.all(c2.CFG(k)()(x, y) == k) and np.all(c3.CFG(k)()(x, y, z) == k) and np.all(z2._0_(x, y) == 0), 'wrapper|constant')
        # region-wise functions
        A = RW({i: S.pyfun(lambda x: 0, 1) if False else ph.vc.scalar(eval(f'lambda t, x, y: {i + 1}*x + t*y')) for i in range(3)})
        B = RW({i: ph.vc.scalar(eval(f'lambda t, x, y: x*y - {i}*t')) for i in range(3)})
        for i in range(3):
            va, vb = (i + 1) * x + k * y, x * y - i * k
            for nm, op, want in (('neg', -A, -va), ('sum', A + B, va + vb), ('difference', A - B, va - vb)):
                ctx.close(op[i](k, x, y)[0], want, f'wrapper|region-wise {nm}', 1e-12, scale=1.)
        # arcs
        cx, cy = fl(pt(rng))
        R = float(grid(rng, 2, 24))
        th0 = float(rng.uniform(-7, 7)) if r % 3 else int(rng.integers(8)) * np.pi / 4
        turn = float(rng.uniform(.05, 6.2)) if r % 3 else int(rng.integers(1, 7)) * np.pi / 4
        o = np.linspace(0, 1, 9)
        for nm, sg in (('clockwise arc', -1), ('anticlockwise arc', 1)):
            p0 = (cx + R * math.cos(th0), cy + R * math.sin(th0))
            p1 = (cx + R * math.cos(th0 + sg * turn), cy + R * math.sin(th0 + sg * turn))
            try:
                G = geo_func2_parser(nm, ((cx, cy), p0, p1))
            except AssertionError:
                continue          # end points are not equally far in the last bits
            X, Y = G.gamma(o)
            ctx.close(X, cx + R * np.cos(th0 + sg * turn * o), f'arc|{nm}', 3e-6, f'{cx, cy} {R} {th0} {turn}', scale=R)
            ctx.close(Y, cy + R * np.sin(th0 + sg * turn * o), f'arc|{nm}', 3e-6, f'{cx, cy} {R} {th0} {turn}', scale=R)
            dX, dY = G.dgamma(o)
            ctx.close(dX, -sg * turn * R * np.sin(th0 + sg * turn * o), f'arc|{nm} derivative', 3e-6, scale=R)
            ctx.close(dY, sg * turn * R * np.cos(th0 + sg * turn * o), f'arc|{nm} derivative', 3e-6, scale=R)
            ctx.raises(lambda: geo_func2_parser(nm, ((cx, cy), p0, (p1[0] + .3, p1[1] + .1 + R))), 'arc|wrong centre', exc=AssertionError)
        G = geo_func2_parser('straight line', (fl(a), fl(b)))
        ctx.close(G.gamma(o), [float(a[i]) + o * float(b[i] - a[i]) for i in (0, 1)], 'arc|straight line', 1e-13, scale=4.)
        ctx.close(G.dgamma(o), [float(b[i] - a[i]) + 0 * o for i in (0, 1)], 'arc|straight line derivative', 1e-13, scale=4.)
        # transfinite mapping with curved edges that meet at the corners
        q = [np.array([0., 0.]), np.array([1., 0.]), np.array([1., 1.]), np.array([0., 1.])]
        q = [v + rng.uniform(-.2, .2, 2) for v in q]
        amp = rng.uniform(-.2, .2, (4, 2))
        ends = [(q[0], q[1]), (q[1], q[2]), (q[3], q[2]), (q[0], q[3])]

        def edge(i):
            A, B_ = ends[i]
            return (lambda t: tuple(A[j] + t * (B_[j] - A[j]) + amp[i, j] * np.sin(np.pi * t) for j in (0, 1)),
                    lambda t: tuple((B_[j] - A[j]) + amp[i, j] * np.pi * np.cos(np.pi * t) for j in (0, 1)))
        E = [edge(i) for i in range(4)]
        T = TransfiniteMapping([e[0] for e in E], [e[1] for e in E])
        t, u = rng.uniform(0, 1, (2, 6))
        zero, one = np.zeros(6), np.ones(6)
        for nm, got, want in (('L', T.mapping(t, zero), E[0][0](t)), ('D', T.mapping(one, t), E[1][0](t)), ('R', T.mapping(t, one), E[2][0](t)), ('U', T.mapping(zero, t), E[3][0](t))):
            ctx.close(got, want, f'transfinite|edge {nm}', 1e-13, scale=1.)
        blend = lambda r_, s_: [(1 - s_) * E[0][0](r_)[j] + s_ * E[2][0](r_)[j] + (1 - r_) * E[3][0](s_)[j] + r_ * E[1][0](s_)[j]
                                - (1 - r_) * (1 - s_) * q[0][j] - r_ * (1 - s_) * q[1][j] - r_ * s_ * q[2][j] - (1 - r_) * s_ * q[3][j] for j in (0, 1)]
        ctx.close(T.mapping(t, u), blend(t, u), 'transfinite|inside', 1e-13, scale=1.)
        ctx.close([T.x(t, u), T.y(t, u)], blend(t, u), 'transfinite|components', 1e-13, scale=1.)
        h = 1e-5
        D = lambda fr, fs: [(p - m_) / (2 * h) for p, m_ in zip(blend(t + h * fr, u + h * fs), blend(t - h * fr, u - h * fs))]
        ctx.close([T.dx_dr(t, u), T.dy_dr(t, u)], D(1, 0), 'transfinite|derivative r', 1e-8, scale=1.)
        ctx.close([T.dx_ds(t, u), T.dy_ds(t, u)], D(0, 1), 'transfinite|derivative s', 1e-8, scale=1.)
        bad = [e[1] for e in E]
        j = int(rng.integers(4))
        bad[j] = lambda t: (E[j][1](t)[0] + .1, E[j][1](t)[1])
        ctx.raises(lambda: TransfiniteMapping([e[0] for e in E], bad), 'transfinite|wrong derivative', exc=AssertionError)


def exact_rref(A):
    A = [[Q(x) for x in row] for row in A]
    m, n = len(A), len(A[0])
    r = 0
    for c in range(n):
        p = next((i for i in range(r, m) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        A[r] = [x / A[r][c] for x in A[r]]
        for i in range(m):
            if i != r and A[i][c] != 0:
                A[i] = [x - A[i][c] * y for x, y in zip(A[i], A[r])]
        r += 1
        if r == m:
            break
    return A, r


def rref(ctx, rounds):
    rng = ctx.rng
    f = ph.rref if hasattr(ph, 'rref') else __import__('phyem.tools.miscellaneous.rref', fromlist=['rref']).rref
    for r in range(rounds):
        m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        k = int(rng.integers(0, min(m, n) + 1))
        A = rng.integers(-4, 5, (m, k)) @ rng.integers(-3, 4, (k, n)) if k else np.zeros((m, n), dtype=int)
        if rng.random() < .2:
            A[int(rng.integers(m))] = 0
        ctx.case('rref', A.tolist())
        E, rank = exact_rref(A.tolist())
        keep = A.copy()
        for rzr in (True, False):
            got = f(A, rzr=rzr)
            want = np.array([[float(x) for x in row] for row in (E[:rank] if rzr else E)], dtype=float).reshape(-1, n)
            ctx.true(got.shape == want.shape, f'rref|shape rzr={rzr}', f'{A.tolist()} {got}')
            if got.shape == want.shape:
                ctx.close(np.array(got, dtype=float), want, f'rref|values rzr={rzr}', 1e-12, f'{A.tolist()}', scale=1.)
        ctx.true(np.array_equal(A, keep), 'rref|input kept')
        # matrices of floats, scaled so that nothing is exact
        B = A * rng.uniform(.1, 1, (m, 1))
        B = B * .1
        got = f(B)
        want = np.array([[float(x) for x in row] for row in E[:rank]], dtype=float).reshape(-1, n)
        ctx.true(got.shape == want.shape and np.allclose(np.array(got, dtype=float), want, atol=1e-7), 'rref float|scaled rows', f'{B.tolist()} {got.tolist()}')


def graph(ctx, rounds):
    rng = ctx.rng
    from phyem.tools.miscellaneous.undirected_graph import CoordinatedUndirectedGraph as UG
    from shapely.geometry import Polygon, Point
    for r in range(rounds):
        g = UG()
        n = int(rng.integers(2, 9))
        names = [int(i) if rng.random() < .5 else f'n{i}' for i in range(n)]
        # a tree on a coarse lattice, edges along the axes and not crossing
        spots = {names[0]: (0, 0)}
        used, edges = {(0, 0)}, []
        for nm in names[1:]:
            for _ in range(100):
                o = list(spots)[int(rng.integers(len(spots)))]
                dx, dy = [(1, 0), (-1, 0), (0, 1), (0, -1)][int(rng.integers(4))]
                q = (spots[o][0] + dx, spots[o][1] + dy)
                if q not in used:
                    used.add(q)
                    spots[nm] = q
                    edges.append((o, nm))
                    break
        ctx.case('graph', tuple(edges))
        sc, sh = float(rng.uniform(.8, 2)), rng.uniform(-3, 3, 2)
        co = {k: (float(sh[0] + sc * v[0]), float(sh[1] + sc * v[1])) for k, v in spots.items()}
        for k in co:
            g.add_node(k, co[k])
        ctx.raises(lambda: g.add_node(names[0], (0., 0.)), 'graph|a node twice')
        ctx.raises(lambda: g.add_edge(names[0], 'nowhere'), 'graph|edge to no node', exc=AssertionError)
        nb = {k: set() for k in co}
        for a, b in edges + [edges[int(rng.integers(len(edges)))][::-1]]:
            if rng.random() < .5:
                a, b = b, a
            g.add_edge(a, b)
            nb[a].add(b)
            nb[b].add(a)
        ctx.true(g.coordinates == co, 'graph|coordinates')
        ctx.true({k: set(v) for k, v in g.edges.items()} == nb and all(len(v) == len(set(v)) for v in g.edges.values()), 'graph|edges', f'{g.edges} {edges}')
        ctx.eq(g._find_dimensions(), 2, 'graph|dimensions')
        leaves = [k for k in nb if len(nb[k]) == 1]
        if len(leaves) < 2:
            continue
        leaves = [leaves[i] for i in rng.permutation(len(leaves))]
        ni = int(rng.integers(1, len(leaves)))
        inl = leaves[:ni]
        out = leaves[ni:ni + int(rng.integers(1, 3))]
        dia = float(rng.uniform(.05, .2))
        pts, ie, oe, where = g.to_pipe(dia, inl if ni > 1 or rng.random() < .5 else inl[0], out)
        pipe = Polygon(pts)
        ctx.true(pipe.is_valid and len(ie) == len(inl) and len(oe) == len(out) and set(where) == set(inl + out), 'pipe|inlets and outlets', f'{edges}')
        for a, b in edges:
            for t in np.linspace(0, 1, 7):
                ctx.true(pipe.contains(Point((1 - t) * co[a][0] + t * co[b][0], (1 - t) * co[a][1] + t * co[b][1])), 'pipe|follows the edges', f'{edges}')
        wid = {}
        for k in inl + out:
            s = where[k]
            A, B = np.array(s.A.coo), np.array(s.B.coo)
            d = np.array(co[next(iter(nb[k]))]) - np.array(co[k])
            ctx.true(abs((B - A) @ d) < 1e-12, 'pipe|ends are perpendicular', f'{edges} {k}')
            mid = (A + B) / 2 - np.array(co[k])
            ctx.true(abs(mid[0] * d[1] - mid[1] * d[0]) < 1e-12 and mid @ d < 0, 'pipe|ends are centred', f'{edges} {k}')
            ctx.true(pipe.exterior.distance(Point((A + B) / 2)) < 1e-12, 'pipe|ends are on the outline')
            wid[k] = float(np.hypot(*(B - A)))
            ctx.true(any(s is x for x in (ie if k in inl else oe)), 'pipe|end of its kind')
        ctx.true(max(wid.values()) - min(wid.values()) < 1e-12, 'pipe|constant width')
        w1 = next(iter(wid.values()))
        p2 = g.to_pipe(dia / 2, inl, out)[1][0]
        ctx.close(float(np.hypot(p2.A.x - p2.B.x, p2.A.y - p2.B.y)), w1 / 2, 'pipe|width proportional to the diameter', 1e-9)
        inner = [k for k in nb if len(nb[k]) > 1]
        if inner:
            ctx.raises(lambda: g.to_pipe(dia, inner[0], out), 'pipe|inlet inside', exc=AssertionError)
        ctx.raises(lambda: g.to_pipe(dia, inl, inl), 'pipe|inlet and outlet', exc=AssertionError)


def rankings(ctx, rounds):
    rng = ctx.rng
    from phyem.tools.miscellaneous import ranking as R
    import socket
    keep = R.time, socket.gethostname
    try:
        for r in range(rounds):
            d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
            fn = d + '/rec.txt'
            open(fn, 'w').close()
            top = int(rng.integers(1, 6))
            model = []                                # (host, size, cost) sorted
            hosts = [f'h{i}' for i in range(int(rng.integers(1, 8)))]
            for step in range(int(rng.integers(2, 10))):
                h = hosts[int(rng.integers(len(hosts)))]
                size, cost = int(rng.integers(1, 99)), float(np.round(rng.uniform(1, 1e4), 6))
                clock = [1e6]
                R.time = lambda: clock[0]
                socket.gethostname = lambda: h
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    K = R.Ranking('test', fn, top_how_much=top, num_ranks=size)
                    K.start_ranking()
                    clock[0] += cost
                    K.report_ranking()
                cost = clock[0] - 1e6
                model = sorted([x for x in model if x[0] != h] + [(h, size, cost)], key=lambda x: x[2])
                pos = [x[0] for x in model].index(h)
                model = model[:top]
                ctx.case('ranking', r, step, tuple(model))
                rows = [x.split(' ') for x in open(fn).read().split('\n')]
                got = [(x[1], int(x[2]), float(x[3])) for x in rows]
                ctx.true([int(x[0]) for x in rows] == list(range(len(rows))) and got == model, 'ranking|table', f'{got} {model}')
                txt = out.getvalue()
                ctx.true((f'[rank #{pos + 1}] <{h}>' in txt) == (pos < top) and ('[rank*]' in txt) == (pos >= top), 'ranking|own rank', f'{pos} {top} {txt}')
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    K.print_ranking()
                from phyem.tools.miscellaneous.timer import MyTimer
                lines = [x for x in out.getvalue().split('\n') if ' ranks : ' in x]
                ctx.eq([(x.split()[0], x.split()[1], x.split()[2], x.split()[-1]) for x in lines],
                       [(str(i + 1), x[0], str(x[1]), MyTimer.seconds2hmsm(x[2])) for i, x in enumerate(model)], 'ranking|printed', out.getvalue())
    finally:
        R.time, socket.gethostname = keep


def small(ctx, rounds):
    rng = ctx.rng
    from phyem.tools.miscellaneous.timer import MyTimer as T
    from phyem.tools.miscellaneous.random_ import string_digits
    from phyem.tools.miscellaneous.latex_bmatrix_to_array import bmatrix_to_array
    from phyem.tools.miscellaneous.csv.main import CsvFiler
    for r in range(rounds):
        s = int(rng.integers(0, 10 ** int(rng.integers(1, 7))))
        ms = int(rng.integers(0, 1000))
        ctx.case('timer', s, ms)
        ctx.eq(T.hms2seconds(T.seconds2hms(s)), s, 'timer|hms')
        ctx.eq(T.seconds2hms(s), '[%02d:%02d:%02d]' % (s // 3600, s % 3600 // 60, s % 60), 'timer|hms text')
        ctx.eq(T.dhms2seconds(T.seconds2dhms(s)), s, 'timer|dhms')
        ctx.eq(T.seconds2dhms(s), '[%d:%02d:%02d:%02d]' % (s // 86400, s % 86400 // 3600, s % 3600 // 60, s % 60), 'timer|dhms text')
        x = s + ms / 1000
        ctx.true(-1e-6 < x - T.dhmsm2seconds(T.seconds2dhmsm(x)) < .001 + 1e-6, 'timer|dhmsm', f'{x} {T.seconds2dhmsm(x)}')
        h = T.seconds2hmsm(x)
        ctx.true(-1e-6 < x - (T.hms2seconds(h.split('.')[0] + ']') + int(h.split('.')[1][:-1]) / 1000) < .001 + 1e-6, 'timer|hmsm', f'{x} {h}')
        k = int(rng.integers(0, 30))
        w = string_digits(k)
        ctx.true(len(w) == k and set(w) <= set(string.ascii_letters + string.digits), 'wrapper|random string', w)
        col = int(rng.integers(1, 6))
        body = ' & '.join('x%d' % i for i in range(col))
        t = bmatrix_to_array(r'a\begin{bmatrix}' + body + r'\end{bmatrix}b', col)
        ctx.eq(t, r'a\left[\begin{array}{' + 'c' * col + '}' + body + r'\end{array}\right]b', 'wrapper|bmatrix')
        if r % 10 == 0:
            import pandas as pd
            d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
            D = pd.DataFrame(rng.normal(size=(6, 3)), columns=['t', 'a', 'b'])
            D.to_csv(d + '/x.csv')
            C = CsvFiler(d + '/x' + ('.csv' if rng.random() < .5 else ''))
            drop = int(rng.integers(6))
            C.drop(drop)
            ctx.true(list(C.columns) == ['t', 'a', 'b'] and np.allclose(C.df.to_numpy(), D.drop(drop).to_numpy(), rtol=1e-12) and list(C.df.index) == list(D.drop(drop).index),
                     'csv|rows')


def UNITS(tier):
    k = 1 if tier == 'quick' else 6
    return [('plane', plane, dict(rounds=120 * k)), ('polygons', polygons, dict(rounds=24 * k, pts=10)), ('curves', curves, dict(rounds=20 * k)),
            ('on lines', on_lines, dict(rounds=15 * k)), ('space3', space3, dict(rounds=60 * k)), ('functions', functions, dict(rounds=40 * k)),
            ('rref', rref, dict(rounds=40 * k)), ('graph', graph, dict(rounds=15 * k)), ('rankings', rankings, dict(rounds=15 * k)), ('small', small, dict(rounds=60 * k))]
