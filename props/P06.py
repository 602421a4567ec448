from vp.spec import *
from vp.terms import *
from vp import contracts as K
BUILD = dict(harness='P06.cpp', sources=['utils/linearAlg2D.cpp', 'geometry/PointMatrix.cpp'])
M = 400000


def pt(n, m=M):
    return [I(n + 'x', -m, m), I(n + 'y', -m, m)]


def dot(ax, ay, bx, by):
    return ax * bx + ay * by


def closest(c):
    fx, fy, ax, ay, bx, by = c.fx, c.fy, c.ax, c.ay, c.bx, c.by
    dx, dy = bx - ax, by - ay
    l2 = dx * dx + dy * dy
    pr = dot(fx - ax, fy - ay, dx, dy)
    rx, ry = c.o[0], c.o[1]
    return [('behind the start: the start', Implies(pr <= 0, And(rx == ax, ry == ay))),
            ('past the end: the end', Implies(pr >= l2, And(rx == bx, ry == by))),
            ('projection within 1 um in X', Implies(And(pr > 0, pr < l2), And((rx - ax) * l2 - pr * dx < l2, pr * dx - (rx - ax) * l2 < l2))),
            ('projection within 1 um in Y', Implies(And(pr > 0, pr < l2), And((ry - ay) * l2 - pr * dy < l2, pr * dy - (ry - ay) * l2 < l2))),
            ('inside bounding box of the segment', And(rx >= Min(ax, bx), rx <= Max(ax, bx), ry >= Min(ay, by), ry <= Max(ay, by)))]


def d2seg(c):
    ax, ay, bx, by, cx, cy = c.ax, c.ay, c.bx, c.by, c.cx, c.cy
    ux, uy = cx - ax, cy - ay
    vx, vy = bx - ax, by - ay
    l2 = ux * ux + uy * uy
    pr = dot(ux, uy, vx, vy)
    cr = ux * vy - uy * vx
    ab2 = vx * vx + vy * vy
    cb2 = (bx - cx) * (bx - cx) + (by - cy) * (by - cy)
    r, fl = c.ret, c.beyond[0]
    slack = Abs(ux) + Abs(uy)
    low = Max(0, Abs(cr) - slack)
    deg = And(ux == 0, uy == 0)
    out = [('point segment', Implies(deg, And(r == ab2, Implies(ab2 == 0, fl == 0)))),
            ('sides', Implies(Not(deg), Or(fl == -1, fl == 0, fl == 1))),
            ('before the start', Implies(And(Not(deg), fl == -1), And(pr < 0, r == ab2))),
            ('after the end', Implies(And(Not(deg), fl == 1), And(pr > 0, r == cb2))),
            ('never negative', r >= 0)]
    bd = 3 * slack + 3
    mid = And(Not(deg), fl == 0)
    out += [('the end is only reported past the end', Implies(And(Not(deg), fl == 1), pr >= l2))]
    lower = ('no shorter than the distance to the line (up to 1 um per axis)', Implies(mid, low * low <= l2 * r))
    upper = ('no longer than the distance to the line (up to a few um)', Implies(mid, r * l2 <= (Abs(cr) + slack) * (Abs(cr) + slack) + bd * bd))
    inside = ('inside is only reported up to rounding', Implies(mid, And(pr > -slack - 1, pr < l2 + 2 * slack + 2)))
    n = K.vsize_ghost(ux, uy)
    ex, ey = K.axis_exact(ax, ay, bx, by, cx, cy, r)
    if not c.symbolic or n.is_const():
        return out + [inside, lower, upper, ('exact for a horizontal segment', ex), ('exact for a vertical segment', ey)]
    axs = tdiv(pr, n)
    q1, q2 = tdiv(ux * axs, n), tdiv(uy * axs, n)
    r1, r2 = ux * axs - q1 * n, uy * axs - q2 * n
    rp = pr - axs * n
    X = ux * q2 - uy * q1
    crossB = cr - X
    dotB = pr - ux * q1 - uy * q2
    def le(p, q):
        return And(p <= q, -p <= q)
    m = lambda g: Implies(mid, g)
    out += [('lemma: legs', l2 <= slack * slack, [H_mul(Abs(ux), Abs(uy))], []),
            ('lemma: length below the sum of the legs', n <= slack + 1, [H_mul(n - slack - 2, n - 1), H_mul(n - slack - 2, slack + 1)], ['lemma: legs']),
            ('lemma: position between the ends', m(And(axs >= 0, axs <= n))),
            ('lemma: rounding of the foot', m(And(le(r1, n), le(r2, n), le(rp, n))), [], ['lemma: position between the ends']),
            ('lemma: foot on the line (scaled)', m(And(ux * r2 <= Abs(ux) * n, -ux * r2 <= Abs(ux) * n, uy * r1 <= Abs(uy) * n, -uy * r1 <= Abs(uy) * n)), [H_absmul(ux, r2, n), H_absmul(uy, r1, n)], ['lemma: rounding of the foot']),
            ('lemma: foot on the line', m(le(X, slack)), [H_cancel(X, slack, n), H_cancel(-X, slack, n)], ['lemma: foot on the line (scaled)']),
            ('lemma: n squared', And(le(n * n - l2, n)), [], []),
            ('lemma: position scaled', m(And(axs * (n * n - l2) <= n * n, -axs * (n * n - l2) <= n * n)), [H_absmul(axs, n * n - l2, n), H_mul(n - axs, n)], ['lemma: n squared', 'lemma: position between the ends']),
            ('lemma: remainders along the line', m(And(le(ux * r1, Abs(ux) * n), le(uy * r2, Abs(uy) * n), le(n * rp, n * n))), [H_absmul(ux, r1, n), H_absmul(uy, r2, n), H_absmul(n, rp, n)], ['lemma: rounding of the foot']),
            ('lemma: position along the line', m(le(dotB, 2 * n + slack)), [H_cancel(dotB, 2 * n + slack, n), H_cancel(-dotB, 2 * n + slack, n)], ['lemma: position scaled', 'lemma: remainders along the line']),
            ('lemma: position bound', m(le(dotB, bd)), [], ['lemma: position along the line', 'lemma: length below the sum of the legs']),
            ('lemma: cross bound', m(And(le(crossB, Abs(cr) + slack), low <= Abs(crossB))), [], ['lemma: foot on the line']),
            ('lemma: squares', m(And(dotB * dotB <= bd * bd, crossB * crossB <= (Abs(cr) + slack) * (Abs(cr) + slack), low * low <= crossB * crossB)),
             [H_sqle(dotB, bd), H_sqle(crossB, Abs(cr) + slack), H_sqle(low, Abs(crossB))], ['lemma: position bound', 'lemma: cross bound']),
            ('lemma: Lagrange', m(r * l2 == dotB * dotB + crossB * crossB)),
            inside + ([H_mul(axs, n), H_mul(n - axs, n)], ['lemma: position between the ends', 'lemma: n squared', 'lemma: length below the sum of the legs', 'lemma: rounding of the foot']),
            lower + ([H_sq(dotB)], ['lemma: Lagrange', 'lemma: squares']), upper + ([], ['lemma: Lagrange', 'lemma: squares'])]
    for k, u, v, w, g in (('horizontal', ux, vx, uy, ex), ('vertical', uy, vy, ux, ey)):
        z = And(w == 0, u != 0)
        out += [('lemma: length, ' + k, Implies(z, n == Abs(u)), [H_cancel(n, Abs(u), 1), H_mul(n - Abs(u) - 1, n + Abs(u)), H_mul(Abs(u) - n - 1, Abs(u) + n)], []),
                ('lemma: position, ' + k, Implies(z, axs == If(u > 0, v, -v)), [], ['lemma: length, ' + k]),
                ('lemma: foot, ' + k, m(Implies(z, If(u > 0, axs, -axs) == tdiv(u * axs, n))), [], ['lemma: length, ' + k]),
                ('exact for a %s segment' % k, g)]
    return out


def cross(ax, ay, bx, by):
    return ax * by - ay * bx


def strict_cross(c):
    def left(px, py, ax, ay, bx, by):
        return cross(bx - ax, by - ay, px - ax, py - ay)
    s1, s2 = left(c.cx, c.cy, c.ax, c.ay, c.bx, c.by), left(c.dx, c.dy, c.ax, c.ay, c.bx, c.by)
    s3, s4 = left(c.ax, c.ay, c.cx, c.cy, c.dx, c.dy), left(c.bx, c.by, c.cx, c.cy, c.dx, c.dy)
    return And(Or(And(s1 < 0, s2 > 0), And(s1 > 0, s2 < 0)), Or(And(s3 < 0, s4 > 0), And(s3 > 0, s4 < 0)))


def between(c):
    cr = strict_cross(c)
    m = Min(Min(c.o[0], c.o[1]), Min(c.o[2], c.o[3]))
    return [('crossing segments touch', Implies(cr, c.ret == 0)), ('otherwise the smallest end point distance', Implies(Not(cr), c.ret == m))]


def closer(c):
    cr = strict_cross(c)
    m = Min(Min(c.o[0], c.o[1]), Min(c.o[2], c.o[3]))
    return [('crossing segments touch', Implies(cr, c.ret)), ('otherwise iff the smallest end point distance is within the limit', Implies(Not(cr), Iff(c.ret, m <= c.dist * c.dist)))]


def connection(c):
    def d2(i, px, py):
        return (c.o[i] - px) * (c.o[i] - px) + (c.o[i + 1] - py) * (c.o[i + 1] - py)
    ends = [(4, c.cx, c.cy), (6, c.dx, c.dy), (8, c.ax, c.ay), (10, c.bx, c.by)]
    r2 = (c.o[0] - c.o[2]) * (c.o[0] - c.o[2]) + (c.o[1] - c.o[3]) * (c.o[1] - c.o[3])
    opts = []
    for i, x, y in ends:
        if i < 8:
            opts.append(And(c.o[0] == c.o[i], c.o[1] == c.o[i + 1], c.o[2] == x, c.o[3] == y))
        else:
            opts.append(And(c.o[2] == c.o[i], c.o[3] == c.o[i + 1], c.o[0] == x, c.o[1] == y))
    return [('one end point and its closest point on the other segment, first the one on the first segment', Or(*opts)),
            ('no end point is closer', And(*[r2 <= d2(i, x, y) for i, x, y in ends]))]


def closest_line(c):
    fx, fy, ax, ay, bx, by = c.fx, c.fy, c.ax, c.ay, c.bx, c.by
    ux, uy = bx - ax, by - ay
    slack = Abs(ux) + Abs(uy)
    rx, ry = c.o[0] - ax, c.o[1] - ay
    deg = And(ux == 0, uy == 0)
    pr = dot(fx - ax, fy - ay, ux, uy)
    X = ux * ry - uy * rx
    dotB = pr - ux * rx - uy * ry
    out = [('degenerate line: the point', Implies(deg, And(rx == 0, ry == 0)))]
    n = K.vsize_ghost(ux, uy)
    axs = tdiv(pr, Max(n, 1))
    if c.symbolic and not n.is_const():
        axs = tdiv(pr, n)
        l2 = ux * ux + uy * uy
        q1, q2 = tdiv(ux * axs, n), tdiv(uy * axs, n)
        r1, r2 = ux * axs - q1 * n, uy * axs - q2 * n
        rp = pr - axs * n
        out += [('lemma: offset', Implies(Not(deg), And(rx == q1, ry == q2)))]
        out += hint(H_absmul(ux, r2, n), H_absmul(uy, r1, n), H_cancel(X, slack, n), H_cancel(-X, slack, n))
    out += [('on the line up to rounding', Implies(Not(deg), And(X <= slack, -X <= slack)))]
    bd = Abs(axs) + n + slack
    if c.symbolic and not n.is_const():
        out += hint(H_absmul(ux, r1, n), H_absmul(uy, r2, n), H_absmul(axs, n * n - l2, n), H_absmul(n, rp, n), H_cancel(dotB, bd, n), H_cancel(-dotB, bd, n))
    out += [('foot of the perpendicular up to rounding', Implies(Not(deg), And(dotB <= bd, -dotB <= bd)))]
    return out


def distline(c):
    ux, uy, vx, vy = c.bx - c.ax, c.by - c.ay, c.px - c.ax, c.py - c.ay
    n = K.vsize_ghost(ux, uy)
    a = Abs(cross(ux, uy, vx, vy))
    deg = And(ux == 0, uy == 0)
    r = c.ret
    out = [('degenerate line: distance to the point', Implies(deg, r == K.vsize_ghost(vx, vy))), ('never negative', r >= 0),
           ('twice the triangle area over the base, rounded down: not more', Implies(Not(deg), r * n <= a + 1)),
           ('not less', Implies(Not(deg), a <= (r + 1) * n + 1))]
    return out


def ponline(c):
    """when a point is reported, it lies on the segment and at the requested distance (few um)"""
    ux, uy = c.bx - c.ax, c.by - c.ay
    rx, ry = c.o[0] - c.ax, c.o[1] - c.ay
    slack = Abs(ux) + Abs(uy)
    d2 = (c.o[0] - c.px) * (c.o[0] - c.px) + (c.o[1] - c.py) * (c.o[1] - c.py)
    import math
    if c.ret:
        l2 = ux * ux + uy * uy
        x = abs(cross(ux, uy, rx, ry))
        d = dot(ux, uy, rx, ry)
        dd = math.sqrt(d2)
        # positions along the line are rounded to whole um before every square root: the error is of the order of sqrt(length)
        tol = 14 + 2 * math.sqrt(c.dist) + 3 * math.sqrt(math.hypot(c.px - c.ax, c.py - c.ay)) + 0.02 * c.dist
        return [('on the line', x <= 3 * slack + 3), ('between the ends', d >= -3 * slack - 3 and d <= l2 + 3 * slack + 3), ('at the distance', abs(dd - c.dist) <= tol)]
    # nothing reported: no point of the segment can be well within reach on both sides of the distance
    da = math.hypot(c.px - c.ax, c.py - c.ay)
    db = math.hypot(c.px - c.bx, c.py - c.by)
    tol = 14 + 2 * math.sqrt(c.dist) + 3 * math.sqrt(max(da, db)) + 0.02 * c.dist
    lo, hi = min(da, db), max(da, db)
    return [('an end on either side of the circle means there is a crossing', not (lo + tol < c.dist < hi - tol))]


def bisector(c):
    L = c.len
    out = []
    for k, (i, a, b) in enumerate(((c.ix, c.ax, c.bx), (c.iy, c.ay, c.by))):
        def part(v, n):
            if not c.symbolic:
                return tdiv((v - i) * L, max(1, n))
            return If(n <= 0, 0, tdiv((v - i) * L, n))
        A, B_ = part(a, K.vsize_ghost(c.ax - c.ix, c.ay - c.iy)), part(b, K.vsize_ghost(c.bx - c.ix, c.by - c.iy))
        out += [('mean of the two directions scaled to the length, ' + 'XY'[k], And(2 * c.o[k] - A - B_ <= 1, A + B_ - 2 * c.o[k] <= 1))]
    return out


TARGETS = [
    Target('getClosestOnLineSegment', 'h_closest', pt('f') + pt('a') + pt('b') + [Out('o', 'i64', 2)], closest, fn=['LinearAlg2D::getClosestOnLineSegment']),
    Target('pointIsProjectedBeyondLine', 'h_beyond', pt('f', 2**29) + pt('a', 2**29) + pt('b', 2**29),
           lambda c: [('exact side', c.ret == If(dot(c.fx - c.ax, c.fy - c.ay, c.bx - c.ax, c.by - c.ay) < 0, -1, If(dot(c.fx - c.bx, c.fy - c.by, c.bx - c.ax, c.by - c.ay) > 0, 1, 0)))], ret='i32', fn=['LinearAlg2D::pointIsProjectedBeyondLine']),
    Target('getDist2FromLineSegment', 'h_d2seg', pt('a') + pt('b') + pt('c') + [Out('beyond', 'i16', 1)], d2seg, ret='i64', setup=K.use_vSize, fn=['LinearAlg2D::getDist2FromLineSegment']),
    Target('isAcuteCorner', 'h_acute', pt('a', 2**29) + pt('b', 2**29) + pt('c', 2**29),
           lambda c: [('dot product of the legs', c.ret == dot(c.ax - c.bx, c.ay - c.by, c.cx - c.bx, c.cy - c.by))], ret='i64', fn=['LinearAlg2D::isAcuteCorner']),
    Target('getDist2BetweenLineSegments', 'h_d2between', pt('a') + pt('b') + pt('c') + pt('d') + [Out('o', 'i64', 4)], between, ret='i64', setup=K.use_d2seg, fn=['LinearAlg2D::getDist2BetweenLineSegments']),
    Target('lineSegmentsAreCloserThan', 'h_closer', pt('a') + pt('b') + pt('c') + pt('d') + [I('dist', 0, 2 ** 30), Out('o', 'i64', 4)], closer, ret='bool', setup=K.use_d2seg, fn=['LinearAlg2D::lineSegmentsAreCloserThan']),
    Target('getClosestConnection', 'h_connection', pt('a') + pt('b') + pt('c') + pt('d') + [Out('o', 'i64', 12)], connection, setup=K.use_closest, fn=['LinearAlg2D::getClosestConnection']),
    Target('getClosestOnLine', 'h_closest_line', pt('f') + pt('a') + pt('b') + [Out('o', 'i64', 2)], closest_line, setup=K.use_vSize, fn=['LinearAlg2D::getClosestOnLine']),
    Target('getDistFromLine', 'h_distline', pt('p', 2 ** 23) + pt('a', 2 ** 23) + pt('b', 2 ** 23), distline, ret='i64', setup=K.use_vSize, fn=['LinearAlg2D::getDistFromLine']),
    Target('getDist2FromLine', 'h_d2line', pt('p', 2 ** 23) + pt('a', 2 ** 23) + pt('b', 2 ** 23) + [Out('o', 'i64', 1)], lambda c: [('square of the distance', c.ret == c.o[0] * c.o[0])], ret='i64', setup=K.use_distline, fn=['LinearAlg2D::getDist2FromLine']),
    Target('getBisectorVector', 'h_bisector', pt('i', 2 ** 23) + pt('a', 2 ** 23) + pt('b', 2 ** 23) + [I('len', 0, 10 ** 7), Out('o', 'i64', 2)], bisector, setup=K.use_vSize, fn=['LinearAlg2D::getBisectorVector']),
    Target('getPointOnLineWithDist', 'h_ponline', pt('p') + pt('a') + pt('b') + [I('dist', 0, 10 ** 6), Out('o', 'i64', 2)], ponline, ret='bool', bounded='random and edge inputs', fn=['LinearAlg2D::getPointOnLineWithDist']),
]
