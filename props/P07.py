from vp.spec import *
from vp.terms import *
from vp import contracts as K
BUILD = dict(harness='P07.cpp', sources=['utils/linearAlg2D.cpp', 'geometry/Point2LL.cpp', 'geometry/PointMatrix.cpp'])
Fr = Fraction
M29 = 2 ** 29


def pt(n, m=M29):
    return [I(n + 'x', -m, m), I(n + 'y', -m, m)]


def near(x, y, e):
    return And(x - y <= e, y - x <= e)


def det(ax, ay, bx, by, px, py):
    return (bx - ax) * (py - ay) - (by - ay) * (px - ax)


def on_seg(c, strict=False):
    """p on the segment a-b, end points included"""
    return And(det(c.ax, c.ay, c.bx, c.by, c.px, c.py) == 0, c.px >= Min(c.ax, c.bx), c.px <= Max(c.ax, c.bx), c.py >= Min(c.ay, c.by), c.py <= Max(c.ay, c.by))


def right(c):
    d = det(c.ax, c.ay, c.bx, c.by, c.px, c.py)
    rising = And(c.ay <= c.py, c.py < c.by)
    falling = And(c.by <= c.py, c.py < c.ay)
    crosses = Or(And(rising, d > 0), And(falling, d < 0))
    upper_fall = And(c.px == c.ax, c.py == c.ay, c.by < c.ay)
    return [('1 iff the edge crosses the ray to the right, lower end included, upper end excluded', Iff(c.ret == 1, crosses)), ('0 only on the edge', Implies(c.ret == 0, on_seg(c))),
            ('0 on the edge, except at the upper end of a falling edge (reported by its neighbour)', Implies(And(on_seg(c), Not(upper_fall)), c.ret == 0)), ('otherwise -1', Or(c.ret == 0, c.ret == 1, c.ret == -1))]


def collide(c):
    lo, hi = Min(c.cy, c.dy), Max(c.cy, c.dy)
    spans = And(lo <= c.y, c.y <= hi)
    flat = c.cy == c.dy
    # x of the crossing times dy (dy != 0)
    dy = c.dy - c.cy
    s = If(dy > 0, 1, -1)
    X = (c.cx * dy + (c.dx - c.cx) * (c.y - c.cy)) * s
    D_ = dy * s
    return [('no collision when the heights do not meet', Implies(Not(spans), Not(c.ret))), ('both horizontal: iff the ranges overlap', Implies(And(flat, spans), Iff(c.ret, And(Min(c.cx, c.dx) <= c.bx, Max(c.cx, c.dx) >= c.ax)))),
            ('a crossing well inside is found', Implies(And(spans, Not(flat), X >= (c.ax + 1) * D_, X <= (c.bx - 1) * D_), c.ret)), ('a crossing well outside is not', Implies(And(spans, Not(flat), Or(X < (c.ax - 1) * D_, X > (c.bx + 1) * D_)), Not(c.ret))),
            ('end points on the line decide exactly', And(Implies(And(spans, Not(flat), c.cy == c.y), Iff(c.ret, And(c.cx >= c.ax, c.cx <= c.bx))), Implies(And(spans, Not(flat), c.dy == c.y), Iff(c.ret, And(c.dx >= c.ax, c.dx <= c.bx)))))]


def hline(seg, rounding=False):
    def f(c):
        inr = And(c.y >= Min(c.ay, c.by), c.y <= Max(c.ay, c.by))
        par = c.ay == c.by
        dy = c.by - c.ay
        r = c.o[0]
        e = (r - c.ax) * dy - (c.bx - c.ax) * (c.y - c.ay)
        if rounding:
            return [('nearest unit', Implies(And(c.ret, inr), Abs(e) * 100 <= Abs(dy) * 51))]
        return [('no answer iff parallel' + (' or out of reach' if seg else ''), Iff(Not(c.ret), Or(par, Not(inr)) if seg else par)),
               ('exact at the end points', And(Implies(And(c.ret, c.y == c.ay), r == c.ax), Implies(And(c.ret, c.y == c.by), r == c.bx))),
               ('vertical: exact', Implies(And(c.ret, c.ax == c.bx), r == c.ax))]
    return f


PI = Fr(3141592653589793, 10 ** 15)


def angle(c):
    bax, bay, bcx, bcy = c.ax - c.bx, c.ay - c.by, c.cx - c.bx, c.cy - c.by
    d = bax * bcy - bay * bcx
    dt = bax * bcx + bay * bcy
    e = Fr(1, 10 ** 9)
    r = c.ret
    return [('c to the right of a: at most half a turn', Implies(d < 0, And(r >= 0, r <= PI + e))), ('c to the left: at least half a turn', Implies(d > 0, And(r >= PI - e, r <= 2 * PI + e))),
            ('same direction: zero', Implies(And(d == 0, dt > 0), r == 0)), ('opposite: half a turn', Implies(And(d == 0, dt < 0), near(r, PI, e))),
            ('quarter turns', And(Implies(And(dt > 0, d < 0), r <= PI / 2 + e), Implies(And(dt < 0, d < 0), r >= PI / 2 - e), Implies(And(dt < 0, d > 0), r <= PI * Fr(3, 2) + e), Implies(And(dt > 0, d > 0), r >= PI * Fr(3, 2) - e)))]


M31 = 2 ** 19


def lineline(c):
    x12, y12, x34, y34, x13, y13 = c.ax - c.bx, c.ay - c.by, c.cx - c.dx, c.cy - c.dy, c.ax - c.cx, c.ay - c.cy
    div = x12 * y34 - y12 * x34
    t, u = c.o[0], c.o[1]
    tn = x13 * y34 - y13 * x34
    un = x13 * y12 - y13 * x12
    E = Fr(1, 2 ** 21)
    md = Abs(x12 * y34) + Abs(y12 * x34)
    return [('offsets stay far from overflow', Implies(c.ret, And(*[Abs(v) <= 2 ** 61 for v in (t * x12, t * y12, u * x34, u * y34)]))), ('no answer only when parallel up to rounding', Implies(Not(c.ret), Abs(div) <= E * md)), ('an answer unless exactly parallel up to rounding', Implies(Abs(div) > E * md, c.ret)),
            ('position along the first line', Implies(c.ret, Abs(t * div - tn) <= E * (Abs(x13 * y34) + Abs(y13 * x34) + Abs(t) * md))),
            ('position along the second line', Implies(c.ret, Abs(u * div - un) <= E * (Abs(x13 * y12) + Abs(y13 * x12) + Abs(u) * md)))]


def segseg(c):
    t, u, t2, u2 = c.o
    return [('iff the lines meet within both segments', Iff(c.ret, And(c.f[0], t2 >= 0, t2 <= 1, u2 >= 0, u2 <= 1))), ('same positions', And(t == t2, u == u2))]


def linepoint(c):
    x, y = c.o
    t = c.q[0]
    dx, dy = (c.bx - c.ax) * t, (c.by - c.ay) * t
    rx, ry = c.ax + dx, c.ay + dy
    B_ = 2 ** 31
    E = Fr(1, 2 ** 22)
    return [('only if the lines meet', Implies(c.ret, c.f[0])), ('the point at that position', Implies(c.ret, And(near(x, rx, 1 + E * Abs(dx)), near(y, ry, 1 + E * Abs(dy))))), ('never out of the coordinate range', Implies(c.ret, And(Abs(x) < B_, Abs(y) < B_))),
            ('found when in range', Implies(And(c.f[0], Abs(rx) <= B_ - 2 ** 12, Abs(ry) <= B_ - 2 ** 12), c.ret)), ('no answer leaves the output alone', Implies(Not(c.ret), And(x == -7, y == -7)))]


def corner(c):
    import math
    ba, bc, bq = (c.ax - c.bx, c.ay - c.by), (c.cx - c.bx, c.cy - c.by), (c.qx - c.bx, c.qy - c.by)
    la, lc, lq = math.hypot(*ba), math.hypot(*bc), math.hypot(*bq)
    if min(la, lc, lq) < 10:
        return []
    def ccw(u, v):
        return math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]) % (2 * math.pi)
    # interior is to the left when walking a -> b -> c: turning counterclockwise from bc to ba
    w, q = ccw(bc, ba), ccw(bc, bq)
    tol = 0.02 + 2 * (1 / min(la, lc, lq)) ** 0.5
    if min(q, 2 * math.pi - q, abs(q - w), w, 2 * math.pi - w) < tol:
        return []
    return [('inside iff between the legs, on the left', bool(c.ret) == (q < w))]


def sloped(c):
    import math
    if c.w == 0 or c.h == 0:
        return [('no slope', c.ret == 0)]
    f = 1.0 - float(c.z) / float(c.h)
    v = float(c.w) * math.pow(f, float(c.m))
    return [('width at that height', abs(c.ret - v) <= 0.5 + 1e-6 * abs(v)), ('full width at the bottom', c.z != 0 or c.ret == c.w), ('none at the top', c.z != c.h or c.m == 0 or c.ret == 0), ('never wider', 0 <= c.ret <= c.w)]


S20 = 2 ** 20
TARGETS = [
    Target('pointLiesOnTheRightOfLine', 'h_right', pt('p') + pt('a') + pt('b'), right, ret='i32', fn=['LinearAlg2D::pointLiesOnTheRightOfLine']),
    Target('pointIsLeftOfLine', 'h_left', pt('p') + pt('a') + pt('b'), lambda c: [('exact determinant', c.ret == det(c.ax, c.ay, c.bx, c.by, c.px, c.py))], ret='i64', fn=['LinearAlg2D::pointIsLeftOfLine']),
    Target('lineSegmentsCollide', 'h_collide', [I('ax', -M29, M29), I('y', -M29, M29), I('bx', -M29, M29)] + pt('c') + pt('d'), collide, lambda c: [c.ax <= c.bx], ret='bool', fn=['LinearAlg2D::lineSegmentsCollide']),
    Target('lineHorizontalLineIntersection', 'h_hline', pt('a', S20) + pt('b', S20) + [I('y', -S20, S20), Out('o', 'i64', 1)], hline(False), ret='bool', fn=['LinearAlg2D::lineHorizontalLineIntersection']),
    Target('segmentHorizontalLineIntersection', 'h_hseg', pt('a', S20) + pt('b', S20) + [I('y', -S20, S20), Out('o', 'i64', 1)], hline(True), ret='bool', fn=['LinearAlg2D::segmentHorizontalLineIntersection']),
    Target('lineHorizontalLineIntersection rounding', 'h_hline', pt('a', S20) + pt('b', S20) + [I('y', -S20, S20), Out('o', 'i64', 1)], hline(False, True), ret='bool', bounded='random and edge inputs', fn=['LinearAlg2D::lineHorizontalLineIntersection']),
    Target('segmentHorizontalLineIntersection rounding', 'h_hseg', pt('a', S20) + pt('b', S20) + [I('y', -S20, S20), Out('o', 'i64', 1)], hline(True, True), ret='bool', bounded='random and edge inputs', fn=['LinearAlg2D::segmentHorizontalLineIntersection']),
    Target('getAngleLeft', 'h_angle', pt('a') + pt('b') + pt('c'), angle, ret='f64', fn=['LinearAlg2D::getAngleLeft']),
    Target('lineLineIntersection', 'h_lineline', pt('a', M31) + pt('b', M31) + pt('c', M31) + pt('d', M31) + [Out('o', 'f32', 2)], lineline, ret='bool', bounded='random and edge inputs', fn=['LinearAlg2D::lineLineIntersection(float)']),
    Target('segmentSegmentIntersection', 'h_segseg', pt('a', M31) + pt('b', M31) + pt('c', M31) + pt('d', M31) + [Out('o', 'f32', 4), Out('f', 'bool', 1)], segseg, ret='bool', setup=K.use_lineline, fn=['LinearAlg2D::segmentSegmentIntersection']),
    Target('lineLineIntersection point', 'h_linelinep', pt('a', M31) + pt('b', M31) + pt('c', M31) + pt('d', M31) + [Out('o', 'i64', 2), Out('q', 'f32', 1), Out('f', 'bool', 1)], linepoint, ret='bool', setup=K.use_lineline, fn=['LinearAlg2D::lineLineIntersection(Point2LL)']),
    Target('getSlopedWidth', 'h_sloped', [I('w', 0, 10 ** 6), I('h', 0, 10 ** 6), D('m', 0, 5), I('z', 0, 10 ** 6)], sloped, lambda c: [c.z <= c.h], ret='i64', bounded='random heights', fn=['LinearAlg2D::getSlopedWidth']),
    Target('isInsideCorner', 'h_corner', pt('a', S20) + pt('b', S20) + pt('c', S20) + pt('q', S20), corner, ret='bool', bounded='random corners at least 0.01 rad away from degenerate', fn=['LinearAlg2D::isInsideCorner']),
]
