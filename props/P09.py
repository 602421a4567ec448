from vp.spec import *
from vp.terms import *
from vp import contracts as K, ir
BUILD = dict(harness='P09.cpp', sources=['geometry/PointsSet.cpp', 'geometry/Polyline.cpp', 'geometry/OpenPolyline.cpp' if False else 'geometry/ClosedPolyline.cpp', 'geometry/LinesSet.cpp', 'geometry/OpenLinesSet.cpp', 'geometry/Point2LL.cpp', 'geometry/Polygon.cpp', 'geometry/Shape.cpp', 'geometry/SingleShape.cpp',
                                         'geometry/PointMatrix.cpp', 'utils/linearAlg2D.cpp', 'utils/ListPolyIt.cpp'], native_libs=['-lpolyclipping'])
S24 = 2 ** 24


def vs(c, v, i, j):
    x, y = v('X', j) - v('X', i), v('Y', j) - v('Y', i)
    if isinstance(x, Poly):
        return K.vsize_call(x, y, True)
    return K.vsize_ghost(x, y)


def lens(c, n, closed, init=0, short=False):
    v = getattr(c, n)
    def step(i, acc):
        if not closed:
            return acc + vs(c, v, i, i + 1)
        if not isinstance(i, Poly):
            return acc + vs(c, v, i, (i + 1) % v.n)
        return acc + If(eq0(P(i) + 1 - v.n), vs(c, v, i, P(0)), vs(c, v, i, i + 1))
    return rec('len_' + n, init, step, lo=0, **(dict(fuel=1, forward=4, top=v.n if closed else Max(v.n - 1, 0)) if short else {}))


def setup_len(closed, *names, short=False):
    def f(ex, c):
        K.use_vSize(ex, c, opaque=True)
        for n in names:
            ex.ghosts['len_' + n] = lens(c, n, closed, short=short)
        def tmpl(L):
            for n in names:
                G = ex.ghosts['len_' + n]
                for it in L.iters(L.args[n].data):
                    if it.idx is None:
                        continue
                    for l in L.ints:
                        if l.val is None:
                            continue
                        yield ('%s==len(%s,%s)' % (l.name, n, it.name), eq0(l.val - G(it.idx)))
                    if short:
                        for l in L.ints:
                            yield ('%s<limit' % l.name, None if l.val is None else l.val < c.l)
                    yield ('len bounded', And(G(it.idx) <= it.idx * 2 ** 26 + 2 ** 58, G(it.idx) >= 0))
        ex.inv_templates.append(tmpl)
    return f


def segs(c, n, kind):
    v = getattr(c, n)
    if kind == 'closed':
        return If(v.n >= 2, v.n, 0) if c.symbolic else (v.n if v.n >= 2 else 0)
    return Max(v.n - 1, 0)


def total(c, closed, *names):
    init = 0
    for n in names:
        G = c.ex.ghosts['len_' + n] if c.symbolic and hasattr(c, 'ex') else lens(c, n, closed)
        v = getattr(c, n)
        init = init + G(v.n if closed else Max(v.n - 1, 0))
    return init


def length(closed, *names):
    return lambda c: [('sum of the lengths of all segments', c.ret == total(c, closed, *names))]


def shorter(closed):
    return lambda c: ([('partial lengths grow', grows(c.ex.ghosts['len_v']))] if c.symbolic and hasattr(c, 'ex') else []) + [('iff the length is below the given one', Iff(c.ret, total(c, closed, 'v') < c.l))]



def setup_point(new, *names):
    """loops that rewrite every point: ghost index k (any element), old value until it is passed, new value afterwards"""
    def f(ex, c):
        def tmpl(L):
            for n, kn in names:
                v, k = getattr(c, n), getattr(c, kn)
                old = (v('X', k), v('Y', k))
                nw = new(c, n, k)
                for it in L.iters(L.args[n].data):
                    if it.idx is None:
                        continue
                    for j in (0, 1):
                        x = L.read(L.args[n].data, k * 16 + 8 * j)
                        if isinstance(x, Poly):
                            yield ('%s[%s].%d(%s)' % (n, kn, j, it.name), And(Implies(it.idx > k, eq0(x - nw[j])), Implies(it.idx <= k, eq0(x - old[j]))))
        ex.inv_templates.append(tmpl)
    return f


def moved(c, n, k):
    v = getattr(c, n)
    return v('X', k) + c.dx, v('Y', k) + c.dy


def use_clipper(ex, c=None):
    """ClipperLib (external library): PointInPolygon and Area are functions of the point and the points of the path, and nothing else is assumed but the range of PointInPolygon"""
    import re
    from vp.sym import Ptr, mark_fp
    def data(ex, st, p):
        b = ex.load(st, Ptr(p.r, p.o), ir.PTR)
        return b.r.id if isinstance(b, Ptr) else None
    def pip(ex, st, ins, args):
        x, y = K._load2(ex, st, args[0])
        ck = ('pip', P(x).key, P(y).key, data(ex, st, args[1]))
        if ck not in C.cache:
            C.cache[ck] = var('pip', True, -1, 1)
        return C.cache[ck]
    def area(ex, st, ins, args):
        ck = ('cliparea', data(ex, st, args[0]))
        if ck not in C.cache:
            C.cache[ck] = mark_fp(var('area', False, -2 ** 120, 2 ** 120), 53)
        return C.cache[ck]
    ex.summaries.append((re.compile(r'^ClipperLib::PointInPolygon\('), pip))
    ex.summaries.append((re.compile(r'^ClipperLib::Area\('), area))


def use_apply(ex, c=None):
    """PointMatrix::apply (const; proved in P17): a function of the point (the matrix does not change here)"""
    import re
    def f(ex, st, ins, args):
        x, y = K._load2(ex, st, args[1])
        return (uf('applyX', [x, y], True, -2 ** 62, 2 ** 62), uf('applyY', [x, y], True, -2 ** 62, 2 ** 62))
    ex.summaries.append((re.compile(r'^cura::PointMatrix::apply\('), f))


def setup_matrix(ex, c):
    use_apply(ex, c)
    setup_point(lambda c, n, k: (uf('applyX', [c.v('X', k), c.v('Y', k)], True, -2 ** 62, 2 ** 62), uf('applyY', [c.v('X', k), c.v('Y', k)], True, -2 ** 62, 2 ** 62)), ('v', 'k'))(ex, c)


# ---------------------------------------------------------------- bounded stand-ins (native)
def poly_pts(v):
    return [(int(v('X', i)), int(v('Y', i))) for i in range(v.n)]


def where(p, pts):
    """exact point in polygon: -1 on the border, else 0/1"""
    ins = 0
    n = len(pts)
    for i in range(n):
        (ax, ay), (bx, by) = pts[i], pts[(i + 1) % n]
        d = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        if d == 0 and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by):
            return -1
        if (ay > p[1]) != (by > p[1]):
            x = Fraction((bx - ax) * (p[1] - ay), by - ay) + ax
            if p[0] < x:
                ins ^= 1
    return ins


def findinside(c):
    p = (int(c.px), int(c.py))
    polys = [poly_pts(getattr(c, n)) for n in 'vwu']
    w = [where(p, q) for q in polys]
    r = int(c.ret)
    if -1 in w:
        return [('on a border that counts as inside: a polygon whose border it is on', r >= 0 and w[r] == -1)] if c.border else []
    odd = sum(w) % 2
    out = [('no answer iff outside', (r == -1) == (odd == 0))]
    if r >= 0 and odd:
        out.append(('the answer contains the point', w[r] == 1))
    return out


def gen_nested(rng):
    polys = []
    for r in rng.sample([(100, 90), (60, 50), (30, 20)], 3):
        n = rng.randint(3, 8)
        import math
        a0 = rng.random() * 7
        R = r[0] * rng.choice([1, 10, 1000])
        polys.append([dict(X=int(R * math.cos(a0 + 6.2831853 * i / n)), Y=int(R * math.sin(a0 + 6.2831853 * i / n))) for i in range(n)])
    if rng.random() < 0.3:
        d = rng.randint(-50, 200)
        polys[0] = [dict(X=q['X'] + d, Y=q['Y']) for q in polys[0]]
    m = rng.choice([20, 120, 1200, 100000])
    px, py = rng.randint(-m, m), rng.randint(-m, m)
    if rng.random() < 0.3:
        q = rng.choice(rng.choice(polys))
        px, py = (q['X'], q['Y']) if rng.random() < 0.5 else (px, q['Y'])
    return dict(v=polys[0], w=polys[1], u=polys[2], px=px, py=py, border=rng.random() < 0.5)


def center(c):
    pts = poly_pts(c.v)
    n = len(pts)
    if n == 1:
        return [('a single point', (int(c.o[0]), int(c.o[1])) == pts[0])]
    if n < 3:
        return []
    a = sx = sy = 0
    for i in range(n):
        (x0, y0), (x1, y1) = pts[i], pts[(i + 1) % n]
        k = x0 * y1 - x1 * y0
        a += k
        sx += (x0 + x1) * k
        sy += (y0 + y1) * k
    if a == 0:
        return []
    m = max(max(abs(x), abs(y)) for x, y in pts)
    tol = 2 + Fraction(m ** 3, abs(a)) * n / 10 ** 12
    return [('center of the area', abs(int(c.o[0]) - Fraction(sx, 3 * a)) <= tol and abs(int(c.o[1]) - Fraction(sy, 3 * a)) <= tol)]


def gen_ring(rng):
    import math
    n = rng.randint(3, 9)
    r = rng.choice([50, 5000, 200000])
    ox, oy = rng.choice([(0, 0), (rng.randint(-300000, 300000), rng.randint(-300000, 300000))])
    return dict(v=[dict(X=ox + int(r * rng.uniform(0.4, 1) * math.cos(6.2831853 * i / n)), Y=oy + int(r * rng.uniform(0.4, 1) * math.sin(6.2831853 * i / n))) for i in range(n)][::rng.choice([1, -1])], o=[0, 0])


def shift(c):
    pts, out = poly_pts(c.v), poly_pts(c.out)
    s, n = int(c.s), len(pts)
    valid = n >= (4 if c.ex_ else 3)
    if c.ex_ and n and pts[0] != pts[-1]:
        return []
    if not valid or s == 0 or s >= n - (1 if c.ex_ else 0):
        return [('unchanged', out == pts)] if not (c.ex_ and s == n - 1) else []
    q = pts[:-1] if c.ex_ else pts
    q = q[s:] + q[:s]
    return [('same outline, starting at that vertex', out == q + ([q[0]] if c.ex_ else []))]


def gen_shift(rng):
    n = rng.randint(0, 7)
    pts = [dict(X=rng.randint(-9, 9), Y=rng.randint(-9, 9)) for _ in range(n)]
    ex = rng.random() < 0.5
    if ex and n:
        pts[-1] = dict(pts[0])
    return dict(v=pts, ex_=ex, s=rng.randint(0, n + 1), out=[])


def split(c):
    pts, a, b = poly_pts(c.v), poly_pts(c.a), poly_pts(c.b)
    k = int(c.at)
    if len(pts) < 2 or k <= 0 or k >= len(pts) - 1:
        return [('not split', a == pts and b == [])]
    return [('both halves share the point, nothing lost', a == pts[:k + 1] and b == pts[k:])]


def segments(c):
    pts, out = poly_pts(c.v), poly_pts(c.out)
    k, n = int(c.kind), len(pts)
    if k == 0:
        exp = [(pts[i], pts[i + 1]) for i in range(n - 1)]
    elif k == 1:
        exp = [(pts[i], pts[(i + 1) % n]) for i in range(n)]
    else:
        exp = [(pts[i], pts[i + 1]) for i in range(n - 1)]
    if n < 2:
        return []
    return [('every segment once, in order', [x for p in exp for x in p] == out and c.ret == len(exp))]


def hull(c):
    pts = sorted(set(poly_pts(c.v) + poly_pts(c.w)))
    if len(pts) < 3:
        return []
    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    H = half(pts)[:-1] + half(pts[::-1])[:-1]
    if len(H) < 3:
        return []
    out = poly_pts(c.out)
    inside = all((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) >= 0 for a, b in zip(out, out[1:] + out[:1]) for p in pts)
    return [('counterclockwise convex outline around all points', inside), ('made of the corners', set(H) <= set(out) <= set(pts))]


def gen_two(rng):
    m = rng.choice([4, 30, 100000])
    return dict(v=[dict(X=rng.randint(-m, m), Y=rng.randint(-m, m)) for _ in range(rng.randint(1, 8))], w=[dict(X=rng.randint(-m, m), Y=rng.randint(-m, m)) for _ in range(rng.randint(0, 8))], out=[])


def inside(c):
    border = Or(*[x == -1 for x in c.pip])
    odd = tmod(c.pip[0] + c.pip[1] + c.pip[2], 2) == 1
    return [('on a border: the given answer', Implies(border, Iff(c.ret, c.border))), ('otherwise inside an odd number of outlines', Implies(Not(border), Iff(c.ret, odd)))]


def insidepart(c):
    b = c.border
    out = Or(c.pip[0] == 1, And(c.pip[0] == -1, b))
    holes = [Or(x == 1, And(x == -1, Not(b))) for x in c.pip[1:]]
    return [('inside the outline and in none of the holes, borders as given', Iff(c.ret, And(out, *[Not(h) for h in holes])))]


def pseudo(c):
    return [('the first point is repeated at the end exactly if it was implicit', c.o[0] == If(c.ex_, c.v.n, c.v.n + 1)), ('points kept', And(c.o[1] == c.v('X', c.k), c.o[2] == c.v('Y', c.k)))]


def gen_pseudo(rng):
    pts = [dict(X=rng.randint(-99, 99), Y=rng.randint(-99, 99)) for _ in range(rng.randint(2, 7))]
    ex = rng.random() < 0.5
    if ex:
        pts[-1] = dict(pts[0])
    return dict(v=pts, ex_=ex, k=rng.randint(0, len(pts) - 1), o=[0] * 3)


def removed(i):
    def f(c):
        a, b = [n for k, n in enumerate((c.v.n, c.w.n, c.u.n)) if k != i]
        return [('one line less', c.ret == 2), ('the others stay', Or(And(c.o[0] == a, c.o[1] == b), And(c.o[0] == b, c.o[1] == a)))]
    return f


PVn = lambda n, lo=0: PointVec(n, S24, nmin=lo)
TARGETS = [
    Target('length of an open line', 'h_len_open', [PVn('v')], length(False, 'v'), ret='i64', setup=setup_len(False, 'v'), fn=['Polyline::length', 'SegmentIterator']),
    Target('length of a closed line', 'h_len_closed', [PVn('v')], length(True, 'v'), ret='i64', setup=setup_len(True, 'v'), fn=['Polyline::length', 'SegmentIterator']),
    Target('length of an explicitly closed line', 'h_len_explicit', [PVn('v')], length(False, 'v'), ret='i64', setup=setup_len(False, 'v'), fn=['Polyline::length']),
    Target('length of a line set', 'h_len_lines', [PVn('v'), PVn('w')], length(False, 'v', 'w'), ret='i64', setup=setup_len(False, 'v', 'w'), fn=['LinesSet::length']),
    Target('length of a shape', 'h_len_shape', [PVn('v'), PVn('w')], length(True, 'v', 'w'), ret='i64', setup=setup_len(True, 'v', 'w'), fn=['LinesSet::length']),
    Target('shorterThan, open line', 'h_short_open', [PVn('v'), I('l', 1, 2 ** 58)], shorter(False), ret='bool', setup=setup_len(False, 'v', short=True), fn=['Polyline::shorterThan']),
    Target('shorterThan, closed line', 'h_short_closed', [PVn('v'), I('l', 1, 2 ** 58)], shorter(True), ret='bool', setup=setup_len(True, 'v', short=True), fn=['Polyline::shorterThan']),
    Target('shorterThan, explicitly closed line', 'h_short_explicit', [PVn('v'), I('l', 1, 2 ** 58)], shorter(False), ret='bool', setup=setup_len(False, 'v', short=True), fn=['Polyline::shorterThan']),
    Target('segment and point counts', 'h_counts', [PVn('v'), PVn('w'), Out('o', 'i64', 7)], lambda c: [
        ('closed lines have a segment per point', And(Implies(c.v.n >= 2, c.o[0] == c.v.n), Implies(c.v.n < 2, c.o[0] == 0), Iff(c.o[1] == 1, c.v.n >= 3))),
        ('explicitly closed lines repeat their first point', And(Implies(c.v.n >= 3, c.o[2] == c.v.n - 1), Implies(c.v.n < 3, c.o[2] == 0), Iff(c.o[3] == 1, c.v.n >= 4))),
        ('open lines have a segment less', And(Implies(c.v.n >= 1, c.o[4] == c.v.n - 1), Implies(c.v.n == 0, c.o[4] == 0), Iff(c.o[5] == 1, c.v.n >= 2))), ('points of a set', c.o[6] == c.v.n + c.w.n)], fn=['ClosedPolyline::segmentsCount', 'ClosedPolyline::isValid', 'OpenPolyline::segmentsCount', 'LinesSet::pointCount']),
    Target('translate', 'h_translate', [PVn('v', 1), I('dx', -2**40, 2**40), I('dy', -2**40, 2**40), I('k', 0, 2 ** 31), Out('o', 'i64', 3)], lambda c: [('every point moves', And(c.o[0] == c.v('X', c.k) + c.dx, c.o[1] == c.v('Y', c.k) + c.dy)), ('no point lost', c.o[2] == c.v.n)],
           lambda c: [c.k < c.v.n], setup=setup_point(moved, ('v', 'k')), fn=['PointsSet::translate']),
    Target('translate a shape', 'h_translate2', [PVn('v', 1), PVn('w', 1), I('dx', -2**40, 2**40), I('dy', -2**40, 2**40), I('k', 0, 2 ** 31), I('m', 0, 2 ** 31), Out('o', 'i64', 7)], lambda c: [('every point of every line moves', And(c.o[0] == c.v('X', c.k) + c.dx, c.o[1] == c.v('Y', c.k) + c.dy, c.o[2] == c.w('X', c.m) + c.dx, c.o[3] == c.w('Y', c.m) + c.dy)), ('nothing lost', And(c.o[4] == 2, c.o[5] == c.v.n, c.o[6] == c.w.n))],
           lambda c: [c.k < c.v.n, c.m < c.w.n], setup=setup_point(moved, ('v', 'k'), ('w', 'm')), fn=['LinesSet::translate', 'PointsSet::translate']),
    Target('inside a polygon', 'h_insidepoly', [PVn('v')] + [I('px', -S24, S24), I('py', -S24, S24), Bool('border'), Out('pip', 'i32', 1)], lambda c: [('as computed, borders as given', Iff(c.ret, Or(c.pip[0] == 1, And(c.pip[0] == -1, c.border))))], ret='bool', setup=use_clipper, fn=['ClosedPolyline::inside']),
    Target('inside a shape', 'h_inside', [PVn('v'), PVn('w'), PVn('u')] + [I('px', -S24, S24), I('py', -S24, S24), Bool('border'), Out('pip', 'i32', 3)], inside, ret='bool', setup=use_clipper, fn=['Shape::inside']),
    Target('inside a part', 'h_insidepart', [PVn('v'), PVn('w'), PVn('u')] + [I('px', -S24, S24), I('py', -S24, S24), Bool('border'), Out('pip', 'i32', 3)], insidepart, ret='bool', setup=use_clipper, fn=['SingleShape::inside']),
    Target('area', 'h_area', [PVn('v'), PVn('w'), Out('o', 'f64', 2)], lambda c: [('holes count negative: the sum of the signed areas', Abs(c.ret - c.o[0] - c.o[1]) * 2 ** 50 <= Abs(c.o[0]) + Abs(c.o[1]) + 1)], ret='f64', setup=use_clipper, fn=['Shape::area', 'Polygon::area']),
    Target('apply a matrix', 'h_matrix', [PVn('v', 1)] + [D(x, -1000, 1000) for x in 'abcd'] + [I('k', 0, 2 ** 31), Out('o', 'i64', 5)], lambda c: [('every point is mapped', And(c.o[0] == c.o[2], c.o[1] == c.o[3])), ('no point lost', c.o[4] == c.v.n)], lambda c: [c.k < c.v.n], setup=setup_matrix, fn=['PointsSet::applyMatrix']),
    Target('open line of a closed one', 'h_pseudo', [PVn('v', 1), Bool('ex_'), I('k', 0, 2 ** 31), Out('o', 'i64', 3)], pseudo, lambda c: [c.k < c.v.n], gen=gen_pseudo, fn=['ClosedPolyline::toPseudoOpenPolyline']),
    *[Target('removeAt %d' % i, 'h_removeat%d' % i, [PVn('v'), PVn('w'), PVn('u'), Out('o', 'i64', 2)], removed(i), ret='i64', fn=['LinesSet::removeAt']) for i in range(3)],
    Target('findInside', 'h_findinside', [PVn('v'), PVn('w'), PVn('u'), I('px', -S24, S24), I('py', -S24, S24), Bool('border')], findinside, ret='i64', bounded='three outlines of 3 to 8 points', gen=gen_nested, fn=['Shape::findInside']),
    Target('centerOfMass', 'h_com', [PVn('v', 1), Out('o', 'i64', 2)], center, bounded='random outlines of 3 to 9 points', gen=gen_ring, fn=['Polygon::centerOfMass']),
    Target('shiftVerticesToStartPoint', 'h_shift', [PVn('v'), Bool('ex_'), I('s', 0, 100), OutPoints('out')], shift, bounded='up to 7 points', gen=gen_shift, fn=['ClosedPolyline::shiftVerticesToStartPoint']),
    Target('split', 'h_split', [PVn('v'), I('at', 0, 9), OutPoints('a'), OutPoints('b')], split, bounded='up to 7 points', fn=['OpenLinesSet::split']),
    Target('splitIntoSegments', 'h_segments', [PVn('v'), I('kind', 0, 2, ty='i32'), OutPoints('out')], segments, ret='i64', bounded='up to 7 points', fn=['Polyline::splitIntoSegments']),
    Target('makeConvex', 'h_convex', [PVn('v', 1), PVn('w'), OutPoints('out')], hull, bounded='up to 16 points', gen=gen_two, fn=['Shape::makeConvex']),
]
