import re
from vp.spec import *
from vp.terms import *
from vp import terms as tm
from vp.ir import I64
from vp.sym import Ptr
BUILD = dict(harness='P13.cpp', sources=['utils/Segment3LL.cpp', 'utils/PlanarPolygon3LL.cpp', 'geometry/Point3LL.cpp', 'geometry/Point2LL.cpp'])
M = 10 ** 6
AX = 'xyz'


def at(k):
    def f(c):
        a, b = [getattr(c, 'a' + x) for x in AX], [getattr(c, 'b' + x) for x in AX]
        d = b[k] - a[k]
        out = [('at the given coordinate', c.o[k] == c.v)]
        for j in range(3):
            if j != k:
                e = (c.o[j] - a[j]) * d - (c.v - a[k]) * (b[j] - a[j])
                lim = Abs(d) * Fraction(513, 1024) + Abs(d) * Fraction(1, 1024)
                out += [('on the line, %s, below' % AX[j], e <= lim), ('on the line, %s, above' % AX[j], -e <= lim)]
        out += [('within the ends', And(*[And(c.o[j] >= Min(a[j], b[j]), c.o[j] <= Max(a[j], b[j])) for j in range(3)])), ('the ends themselves', And(*[And(Implies(c.v == a[k], c.o[j] == a[j]), Implies(c.v == b[k], c.o[j] == b[j])) for j in range(3)]))]
        return out
    return f


def use_at(ex, c):
    """pointAtX/Y/Z of a segment that is not parallel to the layer: exactly at the coordinate, the others within the two ends if the coordinate is"""
    def mk(k):
        def f(ex, st, ins, args):
            sret = isinstance(args[0], Ptr) and len(args) == 3
            r, this, v = (args[0], args[1], args[2]) if sret else (None, args[0], args[1])
            assert sret
            a = [ex.load(st, Ptr(this.r, this.o + 8 + 8 * i), I64) for i in range(3)]
            b = [ex.load(st, Ptr(this.r, this.o + 40 + 8 * i), I64) for i in range(3)]
            ex.oblige(st, Not(eq0(b[k] - a[k])), 'the segment crosses the layer border')
            for j in range(3):
                if j == k:
                    w = P(v)
                else:
                    key = ('at', k, j) + tuple(P(x).key for x in a + b + [v])
                    w = C.cache.get(key)
                    if w is None:
                        w = C.cache[key] = var('at', True, -2 * M, 2 * M)
                        inside = And(v >= Min(a[k], b[k]), v <= Max(a[k], b[k]))
                        C.atoms[next(iter(w.atoms()))].facts = [g for g in (Implies(inside, And(w >= Min(a[j], b[j]), w <= Max(a[j], b[j]))), Implies(eq0(v - a[k]), eq0(w - a[j])), Implies(eq0(v - b[k]), eq0(w - b[j]))) if g.k != 'const']
                ex.store(st, Ptr(r.r, r.o + 8 + 8 * j), I64, w)
            return None
        return f
    for k, x in enumerate('XYZ'):
        ex.summaries.append((re.compile(r'^cura::Segment3LL::pointAt%s\(' % x), mk(k)))


def cut(k):
    def f(c):
        a, b = [getattr(c, 'a' + x) for x in AX], [getattr(c, 'b' + x) for x in AX]
        o, l, h = c.o, c.l, c.h
        ia, ib = And(a[k] >= l, a[k] <= h), And(b[k] >= l, b[k] <= h)
        same = Or(And(a[k] < l, b[k] < l), And(a[k] > h, b[k] > h))
        d2 = sum((o[3 + i] - o[i]) * (o[3 + i] - o[i]) for i in range(3))
        out = [('nothing if all of it is on one side', Implies(same, Not(c.ret))), ('all of it if within the layer', Implies(And(ia, ib), And(c.ret, *[And(o[i] == a[i], o[3 + i] == b[i]) for i in range(3)]))),
               ('within the layer', Implies(c.ret, And(o[k] >= l, o[k] <= h, o[3 + k] >= l, o[3 + k] <= h))),
               ('an end in the layer is kept', Implies(c.ret, And(Implies(ia, And(*[o[i] == a[i] for i in range(3)])), Implies(ib, And(*[o[3 + i] == b[i] for i in range(3)]))))),
               ('otherwise cut at the border it passes', Implies(c.ret, And(Implies(a[k] < l, o[k] == l), Implies(a[k] > h, o[k] == h), Implies(b[k] < l, o[3 + k] == l), Implies(b[k] > h, o[3 + k] == h)))),
               ('within the box of the segment', Implies(c.ret, And(*[And(o[i] >= Min(a[i % 3], b[i % 3]), o[i] <= Max(a[i % 3], b[i % 3])) for i in range(6)]))),
               ('something if more than a rounding error is left', Implies(And(Not(same), Min(Max(a[k], b[k]), h) - Max(Min(a[k], b[k]), l) >= 5), c.ret))]
        return out
    return f


def segs(v):
    return [tuple(v(n, i) for n in ('ax', 'ay', 'az', 'bx', 'by', 'bz')) for i in range(int(v.n))]


def d2(p, q):
    return sum((x - y) ** 2 for x, y in zip(p, q))


def poly(k):
    def f(c):
        if c.ret < 0:
            return [('nothing only with less than two pieces', sum(1 for s in segs(c.v) if min(max(s[k], s[3 + k]), c.h) - max(min(s[k], s[3 + k]), c.l) > 5) < 2)]
        s, src = segs(c.out), segs(c.v)
        ok = all(s[i][3:] == s[(i + 1) % len(s)][:3] for i in range(len(s)))
        inside = all(c.l <= x[k] <= c.h and c.l <= x[3 + k] <= c.h for x in s)
        # every end lies on a border of the layer or is an end of a source segment or on one
        box = [(min(min(x[i], x[3 + i]) for x in src), max(max(x[i], x[3 + i]) for x in src)) for i in range(3)]
        return [('joined end to start, all around', ok), ('within the layer', inside), ('within the box of the source', all(box[i % 3][0] <= x[i] <= box[i % 3][1] for x in s for i in range(6)))]
    return f


def minmax(c):
    s = segs(c.v)
    return [('smallest and largest', all(c.o[2 * k] == min(x[k] for x in s) and c.o[2 * k + 1] == max(x[k] for x in s) for k in range(3)))]


F6 = [(n, 8 * i + 8 + 8 * (i > 2), 'i64', -M, M) for i, n in enumerate(('ax', 'ay', 'az', 'bx', 'by', 'bz'))]
AB = [I(n + x, -M, M) for n in 'ab' for x in AX]


def gen_poly(rng, pool=None):
    n = rng.randint(2, 8)
    sc = rng.choice([20, 1000, 10 ** 5])
    pts = [tuple(rng.randint(-sc, sc) for _ in range(3)) for _ in range(n)]
    l = rng.randint(-sc, sc)
    return dict(v=[dict(zip(('ax', 'ay', 'az', 'bx', 'by', 'bz'), pts[i] + pts[(i + 1) % n])) for i in range(n)], l=l, h=l + rng.randint(0, sc), out=[])


def gen_at(k):
    def f(rng, pool=None):
        sc = rng.choice([5, 1000, M])
        a, b = ([rng.randint(-sc, sc) for _ in range(3)] for _ in 'ab')
        if a[k] == b[k]:
            b[k] += 1 if b[k] < M else -1
        lo, hi = min(a[k], b[k]), max(a[k], b[k])
        return dict(zip(('ax', 'ay', 'az', 'bx', 'by', 'bz'), a + b), v=rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)]), o=[0, 0, 0])
    return f


LH = [I('l', -M, M), I('h', -M, M)]
TARGETS = []
for k, X in enumerate('XYZ'):
    x = AX[k]
    TARGETS += [
        Target('point at %s' % X, 'h_at' + x, AB + [I('v', -M, M), Out('o', 'i64', 3)], at(k), lambda c, x=x: [Or(getattr(c, 'a' + x) < getattr(c, 'b' + x), getattr(c, 'a' + x) > getattr(c, 'b' + x)), c.v >= Min(getattr(c, 'a' + x), getattr(c, 'b' + x)), c.v <= Max(getattr(c, 'a' + x), getattr(c, 'b' + x))], fn=['Segment3LL::pointAt' + X], bounded='random and edge inputs', gen=gen_at(k)),
        Target('segment cut to a layer in %s' % X, 'h_cut' + x, AB + LH + [Out('o', 'i64', 6)], cut(k), lambda c: [c.l <= c.h], ret='bool', setup=use_at, fn=['Segment3LL::intersectionWith%sLayer' % X, 'Segment3LL::intersectionWithLayer', 'Segment3LL::pointIsInside', 'Segment3LL::croppedPoint', 'Segment3LL::croppedPoint' + X], timeout=200),
        Target('outline cut to a layer in %s' % X, 'h_poly' + x, [Vec('v', F6, 64, nmin=2, nmax=8), *LH, OutVec('out', F6, 64)], poly(k), lambda c: [c.l <= c.h], ret='i64', gen=gen_poly, bounded='random outlines of 2 to 8 segments', fn=['PlanarPolygon3LL::intersectionWith%sLayer' % X, 'PlanarPolygon3LL::intersectionWithLayer']),
    ]
TARGETS += [Target('extent of an outline', 'h_minmax', [Vec('v', F6, 64, nmin=1, nmax=12), Out('o', 'i64', 6)], minmax, bounded='random outlines of up to 12 segments', fn=['PlanarPolygon3LL::minmaxX', 'PlanarPolygon3LL::minmaxY', 'PlanarPolygon3LL::minmaxZ'])]
