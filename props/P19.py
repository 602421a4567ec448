import math
import re
from vp.spec import *
from vp.terms import *
from vp import contracts as K
BUILD = dict(harness='P19.cpp', sources=['utils/scoring/BestElementFinder.cpp', 'utils/scoring/CornerScoringCriterion.cpp', 'utils/scoring/DistanceScoringCriterion.cpp', 'utils/scoring/ExclusionAreaScoringCriterion.cpp', 'utils/scoring/PositionBasedScoringCriterion.cpp', 'utils/scoring/RandomScoringCriterion.cpp',
                                         'geometry/PointsSet.cpp', 'geometry/Polyline.cpp', 'geometry/ClosedPolyline.cpp', 'geometry/LinesSet.cpp', 'geometry/OpenLinesSet.cpp', 'geometry/Point2LL.cpp', 'geometry/Point3LL.cpp', 'geometry/Polygon.cpp', 'geometry/Shape.cpp', 'geometry/SingleShape.cpp', 'geometry/PointMatrix.cpp', 'utils/linearAlg2D.cpp', 'utils/ListPolyIt.cpp'], native_libs=['-lpolyclipping'])
EPS = Fraction(1, 2 ** 20)
M = 10 ** 7


def near(v, e, tol=EPS):
    return And(v - e <= tol, e - v <= tol)


def maxi(xs):
    r = xs[0]
    for x in xs[1:]:
        r = Max(r, x)
    return r


def one(n):
    def f(c):
        s, r = c.s, c.ret
        return [('one of the candidates', And(r >= 0, r < n)), *[('candidate %d only if it is the first best' % i, Implies(r == i, And(*[s[i] >= s[j] if j > i else s[i] > s[j] for j in range(n) if j != i]))) for i in range(n)]]
    return f


def two(n):
    def f(c):
        s, t, r = c.s, c.t, c.ret
        b = maxi(s)
        out = [('one of the candidates', And(r >= 0, r < n))]
        for i in range(n):
            out.append(('candidate %d is within the threshold of the best of the first pass' % i, Implies(r == i, b - s[i] <= c.thr + EPS)))
            for j in range(n):
                if j != i:
                    out.append(('candidate %d beats %d in the second pass' % (i, j), Implies(And(r == i, b - s[j] <= c.thr - EPS), t[i] >= t[j] if j > i else t[i] > t[j])))
        return out
    return f


def weights(c):
    sc = [c.s[i] * c.wa + c.t[i] * c.wb for i in range(3)]
    return [('one of the candidates', And(c.ret >= 0, c.ret < 3)), *[('candidate %d only if its weighted sum is the best' % i, Implies(c.ret == i, And(*[sc[i] >= sc[j] - EPS for j in range(3)]))) for i in range(3)]]


def many(c):
    n = c.s.n
    if n == 0:
        return [('nothing to choose from', c.ret == -1)]
    q = [Fraction(c.s('v', i)) + Fraction(c.t('v', i)) * Fraction(c.w) for i in range(n)]
    u, x = [[Fraction(v('v', i)) for i in range(n)] for v in (c.u, c.x)]
    e = Fraction(1, 10 ** 9)

    def ok(i, sure):
        return max(q) - q[i] <= c.thr + (-e if sure else e)
    keep = [i for i in range(n) if ok(i, True)]
    may = [i for i in range(n) if ok(i, False)]
    if keep != may:
        return []
    k2 = [i for i in keep if max(u[j] for j in keep) - u[i] <= c.thr2 - e]
    m2 = [i for i in keep if max(u[j] for j in keep) - u[i] <= c.thr2 + e]
    if k2 != m2 or not k2:
        return []
    best = max(x[i] for i in k2)
    return [('the best of the last pass among those within the thresholds of the earlier ones', int(c.ret) in k2 and (len(k2) == 1 or len(keep) == 1 or x[int(c.ret)] == best))]


def gen_many(rng):
    n = rng.randint(0, 10)
    g = lambda: [dict(v=Fraction(rng.randint(0, 16), 16)) for _ in range(n)]
    return dict(s=g(), t=g(), u=g(), x=g(), w=Fraction(rng.choice([0, 1, 2, 3]), 2), thr=Fraction(rng.randint(0, 16), 16) + Fraction(1, 64), thr2=Fraction(rng.randint(0, 16), 16) + Fraction(1, 64))


def dist(c):
    dx, dy = c.px - c.tx, c.py - c.ty
    r, d, mx, my = c.o
    T = Fraction(1, 2 ** 40)
    return [('reciprocal of the distance over the divider', near(r * (c.div + d), c.div, T * (c.div + d))), ('never above one', And(r > 0, r <= 1 + T)),
            ('millimetres', And(near(mx * 1000, dx, T * Abs(dx)), near(my * 1000, dy, T * Abs(dy)))), ('distance in the plane', Implies(c.type == 0, near(d * d, mx * mx + my * my, T * (mx * mx + my * my)))), ('distance along the axis', And(Implies(c.type == 1, near(d * 1000, Abs(dx), T * Abs(dx))), Implies(c.type == 2, near(d * 1000, Abs(dy), T * Abs(dy)))))]


def closer(c):
    def d2(x, y):
        dx, dy = x - c.tx, y - c.ty
        return If(c.type == 0, dx * dx + dy * dy, If(c.type == 1, dx * dx, dy * dy))
    a, b = d2(c.px, c.py), d2(c.qx, c.qy)
    return [('the closer point never scores lower', Implies(a < b, c.o[0] >= c.o[1] - Fraction(1, 2 ** 40))), ('in range', And(c.o[0] > 0, c.o[0] <= 1 + Fraction(1, 2 ** 40)))]


def scores(c):
    a = 2 * c.o[1] - 1
    return [('convex preference in range', And(c.o[1] >= -EPS, c.o[1] <= 1 + EPS)), ('concave preference is the opposite', near(c.o[0], 1 - c.o[1])), ('sharpness', near(c.o[2], Abs(a))), ('weighted: concave counts double', near(c.o[3], If(a < 0, -a, a / 2 if not isinstance(a, Poly) else a * Fraction(1, 2)), EPS * 4)), ('left to the plugin', c.o[4] == 0)]


def walk(pts, i, d, sg):
    """the point at distance d along the closed outline, with the library's segment lengths in whole units"""
    n = len(pts)
    at, k = 0.0, i
    while True:
        p, q = pts[k % n], pts[(k + sg) % n]
        l = math.hypot(q[0] - p[0], q[1] - p[1])
        if at + l >= d or k - i > 2 * n or i - k > 2 * n:
            t = (d - at) / l if l else 0
            t = min(max(t, 0.0), 1.0)
            return (p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t)
        at += l
        k += sg


def cornerb(c):
    r = [(l, bool(g)) for l, g in scores(c)]
    pts = [(int(c.v('X', i)), int(c.v('Y', i))) for i in range(c.v.n)]
    n = len(pts)
    i = int(c.i) % n
    tot = sum(int(math.hypot(pts[(k + 1) % n][0] - pts[k][0], pts[(k + 1) % n][1] - pts[k][1])) for k in range(n))
    d = min(1000, tot // 2)
    a, b = walk(pts, i, d, -1), walk(pts, i, d, 1)
    va, vb = (a[0] - pts[i][0], a[1] - pts[i][1]), (b[0] - pts[i][0], b[1] - pts[i][1])
    la, lb = math.hypot(*va), math.hypot(*vb)
    if min(la, lb) < 40:
        return r
    ang = (math.atan2(va[1], va[0]) - math.atan2(vb[1], vb[0])) % (2 * math.pi)      # on the left of previous -> here -> next
    exp = ang / (2 * math.pi)
    err = (8 + n) / min(la, lb)
    dd = abs(float(c.o[1]) - exp)
    return r + [('corner measured a millimetre to either side along the outline', min(dd, 1 - dd) < err)]


def gen_corner(rng):
    n = rng.randint(3, 8)
    m = rng.choice([300, 1000, 5000, 100000])
    if rng.random() < 0.5:
        v = [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]
    else:
        v = [(int(m * math.cos(6.2831853 * k / n)), int(m * math.sin(6.2831853 * k / n))) for k in range(n)]
    if rng.random() < 0.3:      # finely sampled
        v = [tuple(a[j] + (b[j] - a[j]) * s // 4 for j in (0, 1)) for a, b in zip(v, v[1:] + v[:1]) for s in range(4)]
    if rng.random() < 0.5:
        v.reverse()
    return dict(v=[dict(X=x, Y=y) for x, y in v], i=rng.randint(0, len(v) - 1))


def exclude(c):
    return [('nothing inside the area, borders included', c.o[0] == (1 if c.pip[0] == 0 else 0))]


def gen_exclude(rng):
    m = rng.choice([5, 100, 10000])
    v = [dict(X=rng.randint(-m, m), Y=rng.randint(-m, m)) for _ in range(rng.randint(3, 8))]
    p = rng.choice(v) if rng.random() < 0.3 else dict(X=rng.randint(-m, m), Y=rng.randint(-m, m))
    return dict(v=v, px=p['X'], py=p['Y'])


def angle_left(ex, c):
    """callee contract of LinearAlg2D::getAngleLeft: an angle of one turn (proved in P07 up to the quadrant)"""
    def f(e, st, ins, args):
        k = ('angleleft',) + tuple(P(x).key for p in args for x in K._load2(e, st, p))
        v = C.cache.get(k)
        if v is None:
            v = C.cache[k] = mark_fp(var('angle_left', False, 0, Fraction(math.pi) * 2), 53)
        return v
    ex.summaries.append((re.compile(r'getAngleLeft'), f))
    ex.unroll['findNeighbourPoint'] = 2
    K.use_vSize(ex, c, linear=True)


S = lambda n, k: Cells(n, 'f64', k, 'in', 0, 1)
VV = lambda n: Vec(n, [('v', 0, 'f64', 0, 1)], 8, nmax=10)
PV = lambda n: PointVec(n, M, nmin=3, nmax=40)
B_ = 'BestElementFinder::'
TARGETS = [
    Target('no candidates', 'h_none', [], lambda c: [('no answer', c.ret == -1)], ret='i64', fn=[B_ + 'findBestElement', B_ + 'appendSingleCriterionPass', B_ + 'appendCriteriaPass']),
    *[Target('one pass over %d' % n, 'h_one%d' % n, [S('s', n)], one(n), ret='i64', fn=[B_ + 'findBestElement']) for n in (1, 2, 4)],
    *[Target('two passes over %d' % n, 'h_two%d' % n, [S('s', n), S('t', n), D('thr', 0, 1)], two(n), ret='i64', fn=[B_ + 'findBestElement']) for n in (2, 3, 4)],
    Target('weighted criteria', 'h_weights', [S('s', 3), S('t', 3), D('wa', 0, 10), D('wb', 0, 10)], weights, ret='i64', fn=[B_ + 'findBestElement']),
    Target('three passes', 'h_many', [VV('s'), VV('t'), VV('u'), VV('x'), D('w', 0, 2), D('thr', 0, 2), D('thr2', 0, 2)], many, ret='i64', bounded='up to 10 candidates', gen=gen_many, fn=[B_ + 'findBestElement']),
    Target('distance score', 'h_dist', [I('px', -M, M), I('py', -M, M), I('tx', -M, M), I('ty', -M, M), I('type', 0, 2, ty='i32'), D('div', Fraction(1, 1000), 1000), Out('o', 'f64', 4)], dist, fn=['DistanceScoringCriterion::computeScore', 'PositionBasedScoringCriterion::computeScore']),
    Target('closer scores higher', 'h_closer', [I('px', -M, M), I('py', -M, M), I('qx', -M, M), I('qy', -M, M), I('tx', -M, M), I('ty', -M, M), I('type', 0, 2, ty='i32'), D('div', Fraction(1, 1000), 1000), Out('o', 'f64', 2)], closer, bounded='random and edge inputs', fn=['DistanceScoringCriterion::computeScore']),
    Target('corner score', 'h_corner', [PV('v'), I('i', 0, 40), Out('o', 'f64', 5)], cornerb, bounded='outlines of 3 to 32 points', gen=gen_corner, fn=['CornerScoringCriterion::computeScore', 'CornerScoringCriterion::cornerAngle', 'CornerScoringCriterion::findNeighbourPoint', 'CornerScoringCriterion::CornerScoringCriterion']),
    Target('corner score of a triangle', 'h_corner3', [I(x, -M, M) for x in ('ax', 'ay', 'bx', 'by', 'cx', 'cy')] + [Out('o', 'f64', 5)], scores, lambda c: [Or(Abs(c.ax - c.bx) >= 1000, Abs(c.ay - c.by) >= 1000), Or(Abs(c.cx - c.bx) >= 1000, Abs(c.cy - c.by) >= 1000), Or(Abs(c.cx - c.ax) >= 1000, Abs(c.cy - c.ay) >= 1000)], setup=angle_left, fn=['CornerScoringCriterion::computeScore', 'CornerScoringCriterion::cornerAngle', 'CornerScoringCriterion::findNeighbourPoint', 'CornerScoringCriterion::CornerScoringCriterion']),
    Target('exclusion areas', 'h_exclude', [PV('v'), I('px', -M, M), I('py', -M, M), Out('o', 'f64', 1), Out('pip', 'i32', 1)], exclude, bounded='areas of 3 to 8 points', gen=gen_exclude, fn=['ExclusionAreaScoringCriterion::computeScore']),
    Target('random scores', 'h_random', [I('i', 0, 100), Out('o', 'f64', 3)], lambda c: [('in range', And(*[And(c.o[k] >= 0, c.o[k] <= 1) for k in range(3)]))], bounded='sampled', fn=['RandomScoringCriterion::computeScore']),
    Target('inverse interpolation', 'h_invlerp', [D('a', -1000, 1000), D('b', -1000, 1000), D('v', -1000, 1000)], lambda c: [('position in the range', near(c.ret * (c.b - c.a), c.v - c.a, EPS))], lambda c: [Abs(c.b - c.a) >= Fraction(1, 1000)], ret='f64', fn=['inverse_lerp']),
    Target('inverse interpolation of nothing', 'h_invlerp', [D('a', -1000, 1000), D('b', -1000, 1000), D('v', -1000, 1000)], lambda c: [('zero', c.ret == 0)], lambda c: [c.a == c.b], ret='f64', gen=lambda rng: (lambda a: dict(a=a, b=a, v=Fraction(rng.randint(-100, 100))))(Fraction(rng.randint(-100, 100), 4)), bounded='random ranges', fn=['inverse_lerp']),
]
