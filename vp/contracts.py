"""Contracts of callees that are proved on their own and then used instead of the body at call sites."""
import re
from . import terms as tm
from .terms import P, And, Or, Not, Implies, If, Abs, var, C
from .sym import Ptr, mark_fp
from .ir import I64


def _load2(ex, st, p):
    return ex.load(st, Ptr(p.r, p.o), I64, check=True), ex.load(st, Ptr(p.r, p.o + 8), I64, check=True)


VS = 2 ** 25


def vsize_post(x, y, r):
    """contract of vSize(Point2LL): the length rounded to the nearest unit"""
    l2 = x * x + y * y
    return [('zero vector', Implies(l2 == 0, r == 0)), ('nearest integer to the length, below', Or(r == 0, r * r - r < l2)), ('nearest integer to the length, above', r * r + r >= l2), ('never negative', r >= 0)]


def use_lerp(ex, c=None):
    """contract of lerp(coord, coord, double) (proved as P01 lerp)"""
    from .terms import Min, Max
    def f(ex, st, ins, args):
        a, b, t = args
        ex.oblige(st, And(a <= 10 ** 9, a >= -10 ** 9, b <= 10 ** 9, b >= -10 ** 9, t >= 0, t <= 1), 'precondition of lerp')
        r = var('lerp', True, -10 ** 9, 10 ** 9)
        C.atoms[next(iter(r.atoms()))].facts = [x for x in (r >= Min(a, b), r <= Max(a, b), Implies(tm.eq0(t), tm.eq0(r - a)), Implies(tm.eq0(t - 1), tm.eq0(r - b)), r - (a + (b - a) * t) <= 1, (a + (b - a) * t) - r <= 1)]
        return r
    ex.summaries.append((re.compile(r'cura::lerp<?.*\((long long|long), (long long|long), double\)$'), f))


def vsize_linear(x, y, r):
    """consequence of the contract: no component is longer"""
    return [('at least %s%s' % (sg, n), r >= v) for n, q in (('x', x), ('y', y)) for sg, v in (('', q), ('-', -q))]


def use_vSize(ex, c=None, opaque=False, linear=False):
    def f(ex, st, ins, args):
        x, y = _load2(ex, st, args[0])
        ex.oblige(st, And(x <= VS, x >= -VS, y <= VS, y >= -VS), 'precondition of vSize')
        return vsize_call(x, y, opaque, linear)
    ex.summaries.append((re.compile(r'^cura::vSize\(ClipperLib::IntPoint const&\)$'), f))


def vsize_call(x, y, opaque=False, linear=False):
    """the value the callee contract gives for vSize((x,y))"""
    x, y = P(x), P(y)
    if opaque == 'uf':      # a function of the vector: equal vectors known only through path conditions have equal lengths
        r = tm.uf('vSizeOf', [x, y], True, 0, 2 * VS)
        if ('vSizeOf', x.key, y.key) not in C.cache:
            C.cache[('vSizeOf', x.key, y.key)] = r
            a = C.atoms[next(iter(r.atoms()))]
            a.facts = list(getattr(a, 'facts', None) or []) + [f for f in [Implies(And(tm.eq0(x), tm.eq0(y)), tm.eq0(r)), tm.eq0(r - tm.uf('vSizeOf', [-x, -y], True, 0, 2 * VS))] if f.k != 'const']
        return r
    ck = ('vSize', x.key, y.key)
    r = C.cache.get(ck)
    if r is None:
        r = var('vSize', True, 0, 2 * VS)
        C.cache[ck] = r
        a = C.atoms[next(iter(r.atoms()))]
        if opaque:
            a.facts = [f for f in [Implies(And(tm.eq0(x), tm.eq0(y)), tm.eq0(r))] if f.k != 'const']
            return r
        if linear:
            a.facts = [g for _, g in vsize_linear(x, y, r)] + [Implies(And(tm.eq0(x), tm.eq0(y)), tm.eq0(r))]
            return r
        # consequences of the (proved) contract: also the linear bounds max(|x|,|y|) <= r+... that follow from it
        a.facts = [g for _, g in vsize_post(x, y, r)] + [Implies(tm.eq0(r), And(tm.eq0(x), tm.eq0(y)))]
    return r


def vsize_ghost(x, y):
    """the value the callee contract gave for vSize((x,y)); ghost only"""
    if not hasattr(x, 'key') and not hasattr(y, 'key'):
        import math
        n = math.isqrt(int(4 * (x * x + y * y)))
        return (n + 1) // 2
    return C.cache.get(('vSize', P(x).key, P(y).key)) or P(0)


def axis_exact(ax, ay, bx, by, cx, cy, r):
    """squared distance from b to the axis-aligned segment a-c, exactly"""
    from .terms import Max, Min
    ex = Max(Max(Min(ax, cx) - bx, bx - Max(ax, cx)), 0)
    ey = Max(Max(Min(ay, cy) - by, by - Max(ay, cy)), 0)
    return Implies(ay == cy, r == ex * ex + (by - ay) * (by - ay)), Implies(ax == cx, r == ey * ey + (bx - ax) * (bx - ax))


def use_d2seg(ex, c=None, m=400000):
    """getDist2FromLineSegment(a, b, c, nullptr): squared distance (proved as P06 getDist2FromLineSegment)"""
    def f(ex, st, ins, args):
        xs = []
        for p in args[:3]:
            xs += list(_load2(ex, st, p))
        ex.oblige(st, And(*[And(x <= m, x >= -m) for x in xs]), 'precondition of getDist2FromLineSegment')
        ck = ('d2seg',) + tuple(P(x).key for x in xs)
        r = C.cache.get(ck)
        if r is None:
            r = C.cache[ck] = var('d2seg', True, 0, 64 * m * m)
            C.atoms[next(iter(r.atoms()))].facts = [g for g in axis_exact(*xs, r) if g.k != 'const']
        return r
    ex.summaries.append((re.compile(r'^cura::LinearAlg2D::getDist2FromLineSegment\('), f))


def use_closest(ex, c=None, m=400000):
    """getClosestOnLineSegment(from, a, b) (proved as P06 getClosestOnLineSegment): a point of the bounding box of the segment"""
    from .terms import Min, Max
    def f(ex, st, ins, args):
        xs = []
        for p in args[:3]:
            xs += list(_load2(ex, st, p))
        ex.oblige(st, And(*[And(x <= m, x >= -m) for x in xs]), 'precondition of getClosestOnLineSegment')
        ck = ('closest',) + tuple(P(x).key for x in xs)
        r = C.cache.get(ck)
        if r is None:
            o = []
            for k in (0, 1):
                v = var('closest', True, -m, m)
                C.atoms[next(iter(v.atoms()))].facts = [g for g in (v >= Min(xs[2 + k], xs[4 + k]), v <= Max(xs[2 + k], xs[4 + k])) if g.k != 'const']
                o.append(v)
            r = C.cache[ck] = tuple(o)
        return r
    ex.summaries.append((re.compile(r'^cura::LinearAlg2D::getClosestOnLineSegment\('), f))


def use_distline(ex, c=None, m=2 ** 23):
    """getDistFromLine(p, a, b) (proved as P06 getDistFromLine)"""
    def f(ex, st, ins, args):
        xs = []
        for p in args[:3]:
            xs += list(_load2(ex, st, p))
        ex.oblige(st, And(*[And(x <= m, x >= -m) for x in xs]), 'precondition of getDistFromLine')
        ck = ('distline',) + tuple(P(x).key for x in xs)
        r = C.cache.get(ck)
        if r is None:
            r = C.cache[ck] = var('distline', True, 0, 4 * m)
        return r
    ex.summaries.append((re.compile(r'^cura::LinearAlg2D::getDistFromLine\('), f))


def use_boxdist(ex, c=None, m=2 ** 17):
    """AABB::distanceSquared(Point2LL) (proved as P03 'distance to a point'): a function of the box and the point"""
    def f(ex, st, ins, args):
        xs = []
        for p in (args[0], Ptr(args[0].r, args[0].o + 16), args[1]):
            xs += list(_load2(ex, st, p))
        ex.oblige(st, And(xs[0] <= xs[2], xs[1] <= xs[3], *[And(x <= m, x >= -m) for x in xs]), 'precondition of AABB::distanceSquared')
        ck = ('boxdist',) + tuple(P(x).key for x in xs)
        if ck not in C.cache:
            C.cache[ck] = var('boxdist', True, -64 * m * m, 64 * m * m)
        return C.cache[ck]
    ex.summaries.append((re.compile(r'^cura::AABB::distanceSquared\(ClipperLib::IntPoint const&\)'), f))


def use_lineline(ex, c=None):
    """lineLineIntersection(p1, p2, p3, p4, float&, float&): a function of the four points; on success two finite floats (checked, bounded, as P07 lineLineIntersection)"""
    from .ir import F32
    def f(ex, st, ins, args):
        xs = []
        for p in args[:4]:
            xs += list(_load2(ex, st, p))
        ex.oblige(st, And(*[And(x <= 2 ** 19, x >= -2 ** 19) for x in xs]), 'precondition of lineLineIntersection')
        ck = ('lineline',) + tuple(P(x).key for x in xs)
        r = C.cache.get(ck)
        if r is None:
            ok = var('meet', True, 0, 1)
            r = C.cache[ck] = (ok, [mark_fp(var('pos', False, -2 ** 100, 2 ** 100), 24) for _ in (0, 1)])
            for k, v in enumerate(r[1]):      # offsets stay small for |coordinate| <= 2^19: the divisor is a nonzero integer, numerator and length are below 2^41 and 2^20
                C.atoms[next(iter(v.atoms()))].facts = [g for z in (0, 1) for g in (v * (xs[4 * k + 2 + z] - xs[4 * k + z]) <= 2 ** 61, v * (xs[4 * k + 2 + z] - xs[4 * k + z]) >= -2 ** 61) if g.k != 'const']
        for p, v in zip(args[4:6], r[1]):
            ex.store(st, p, F32, v)
        return tm.eq0(r[0] - 1)
    ex.summaries.append((re.compile(r'^cura::LinearAlg2D::lineLineIntersection\(.*float&, float&\)$'), f))
