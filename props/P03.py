from vp.spec import *
from vp.terms import *
from vp import contracts as K
BUILD = dict(harness='P03.cpp', sources=['utils/AABB.cpp', 'utils/AABB3D.cpp', 'geometry/PointsSet.cpp', 'geometry/Polyline.cpp', 'geometry/ClosedPolyline.cpp', 'geometry/LinesSet.cpp', 'geometry/Point2LL.cpp', 'geometry/Point3LL.cpp', 'geometry/Polygon.cpp', 'geometry/Shape.cpp', 'utils/linearAlg2D.cpp'],
             native_libs=['-lpolyclipping'])
BIG, MID, SM = 2 ** 61, 2 ** 30, 2 ** 17
I32 = 2 ** 31 - 1


def pt(n, m):
    return [I(n + 'x', -m, m), I(n + 'y', -m, m)]


def box(n, m):
    return pt(n + 'l', m) + pt(n + 'h', m)


def pt3(n, m):
    return pt(n, m) + [I(n + 'z', -m, m)]


def box3(n, m):
    return pt3(n + 'l', m) + pt3(n + 'h', m)


def is_box(o, k, lx, ly, hx, hy):
    return And(o[k] == lx, o[k + 1] == ly, o[k + 2] == hx, o[k + 3] == hy)


def is_box3(o, k, l, h):
    return And(*[o[k + i] == v for i, v in enumerate(list(l) + list(h))])


def tdiv2(x):
    return tdiv(x, 2)


def dist2(c):
    ex = Max(Max(c.blx - c.px, c.px - c.bhx), 0)
    ey = Max(Max(c.bly - c.py, c.py - c.bhy), 0)
    inside = And(ex == 0, ey == 0)
    near = Min(Min(c.px - c.blx, c.bhx - c.px), Min(c.py - c.bly, c.bhy - c.py))
    e2 = ex * ex + ey * ey
    return [('outside: squared distance to the box', Implies(Not(inside), c.ret == e2)), ('inside: minus the squared distance to the nearest side', Implies(inside, c.ret == -(near * near)))]


def fold(c, names, init):
    """ghost bounds of the first k points of a vector"""
    out = []
    for f, op, v0 in (('X', Min, init[0]), ('Y', Min, init[1]), ('X', Max, init[2]), ('Y', Max, init[3])):
        out.append(rec('%s_%s_%s' % (names, f, op.__name__), v0, lambda i, acc, f=f, op=op: op(acc, getattr(c, names)(f, i))))
    return out


def setup_vec(init, *names):
    def f(ex, c):
        gs = []
        iv = init(c)
        cur = iv
        for n in names:
            g = fold(c, n, cur)
            gs += g
            cur = tuple(x(getattr(c, n).n) for x in g)
            ex.ghosts['b_' + n] = g
        def tmpl(L):
            for n in names:
                G = ex.ghosts['b_' + n]
                for it in L.iters(L.args[n].data):
                    for l in L.ints:
                        for k, g in enumerate(G):
                            if it.idx is None:
                                continue
                            yield ('%s==bound%d(%s,%s)' % (l.name, k, n, it.name), None if l.val is None else eq0(l.val - g(it.idx)))
        ex.inv_templates.append(tmpl)
    return f


EMPTY = lambda c: (2 ** 63 - 1, 2 ** 63 - 1, -2 ** 63, -2 ** 63)
BOXB = lambda c: (c.blx, c.bly, c.bhx, c.bhy)


def bounds(init, *names):
    def f(c):
        cur = init(c)
        for n in names:
            if c.symbolic and hasattr(c, 'ex'):
                G = c.ex.ghosts['b_' + n]
            else:
                G = fold(c, n, cur)
            cur = tuple(g(getattr(c, n).n) for g in G)
        return [('smallest box around all points', is_box(c.o, 0, *cur))]
    return f


def oriented(c):
    import math
    v = c.v
    pts = [(int(v('X', i)), int(v('Y', i))) for i in range(v.n)]
    if len(pts) < 2:
        return [('degenerate', all(x == 0 for x in c.o))]
    best = None
    def boxof(dx, dy):
        L = math.hypot(dx, dy)
        us = [(x * dx + y * dy) / L for x, y in pts]
        ws = [(-x * dy + y * dx) / L for x, y in pts]
        return min(us), min(ws), max(us), max(ws)
    for i in range(len(pts)):
        (x0, y0), (x1, y1) = pts[i], pts[(i + 1) % len(pts)]
        dx, dy = x1 - x0, y1 - y0
        if dx * dx + dy * dy < 10 ** 6:
            return []
        b = boxof(dx, dy)
        a = (b[2] - b[0]) * (b[3] - b[1])
        best = a if best is None else min(best, a)
    if best is None:
        return []
    a = float(c.angle[0])
    b = boxof(math.cos(a), math.sin(a))
    m = max(1, max(max(abs(x), abs(y)) for x, y in pts))
    tol = 4 + 0.001 * m
    area = (b[2] - b[0]) * (b[3] - b[1])
    return [('box contains the points in its own frame', all(abs(p - q) <= tol for p, q in zip(b, c.o))), ('no edge gives a clearly smaller box', area <= best * 1.005 + 20 * m + 1000)]


def gen_poly(rng):
    k = rng.random()
    n = rng.randint(3, 7)
    if k < 0.5:
        import math
        r = rng.choice([5000, 50000, 500000])
        a0 = rng.random()
        pts = [(int(r * math.cos(a0 + 6.2831853 * i / n) * rng.uniform(0.7, 1.0)), int(r * math.sin(a0 + 6.2831853 * i / n) * rng.uniform(0.3, 1))) for i in range(n)]
    else:
        m = rng.choice([4000, 100000])
        pts = [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]
    return dict(v=[dict(X=x, Y=y) for x, y in pts], o=[0] * 4, angle=[0])


def mid(c):
    return [('width and height', And(c.o[0] == c.bhx - c.blx, c.o[1] == c.bhy - c.bly)), ('middle', And(c.o[2] == tdiv2(c.blx + c.bhx), c.o[3] == tdiv2(c.bly + c.bhy)))]


def grow3(c):
    l, h = (c.blx, c.bly, c.blz), (c.bhx, c.bhy, c.bhz)
    E = 2 ** 31
    out = []
    for k, ax in ((0, (1, 1, 1)), (6, (1, 1, 0))):
        nl = [a - c.d * m for a, m in zip(l, ax)]
        nh = [a + c.d * m for a, m in zip(h, ax)]
        inv = Or(*[a > b for a, b, m in zip(nl, nh, ax) if m])
        out.append(('grown on every side' if k == 0 else 'grown in X and Y only', Implies(Not(inv), is_box3(c.o, k, nl, nh))))
        out.append(('overly shrunk box becomes empty', Implies(inv, is_box3(c.o, k, (E - 1,) * 3, (-E,) * 3))))
    return out


PV = lambda n, m=BIG: PointVec(n, m)
TARGETS = [
    Target('contains point', 'h_contains', box('b', BIG) + pt('p', BIG), lambda c: [('iff inside on both axes', Iff(c.ret, And(c.px >= c.blx, c.px <= c.bhx, c.py >= c.bly, c.py <= c.bhy)))], ret='bool', fn=['AABB::contains']),
    Target('contains box', 'h_containsb', box('b', MID) + box('c', MID), lambda c: [('empty contains nothing', Implies(Or(c.bhx < c.blx, c.bhy < c.bly), Not(c.ret))),
        ('iff inside on both axes or empty', Implies(Not(Or(c.bhx < c.blx, c.bhy < c.bly)), Iff(c.ret, Or(c.chx < c.clx, c.chy < c.cly, And(c.clx >= c.blx, c.chx <= c.bhx, c.cly >= c.bly, c.chy <= c.bhy)))))], ret='bool', fn=['AABB::contains(AABB)']),
    Target('hit', 'h_hit', box('b', BIG) + box('c', BIG), lambda c: [('iff the boxes share a point', Iff(c.ret, And(c.bhx >= c.clx, c.blx <= c.chx, c.bhy >= c.cly, c.bly <= c.chy)))], ret='bool', fn=['AABB::hit']),
    Target('area', 'h_area', box('b', MID), lambda c: [('product of the sides, -1 for an empty box', c.ret == If(Or(c.bhx < c.blx, c.bhy < c.bly), -1, (c.bhx - c.blx) * (c.bhy - c.bly)))], ret='i64', fn=['AABB::area']),
    Target('width, height, middle', 'h_measure', box('b', BIG) + [Out('o', 'i64', 4)], mid, fn=['AABB::width', 'AABB::height', 'AABB::getMiddle']),
    Target('include point', 'h_include', box('b', BIG) + pt('p', BIG) + [Out('o', 'i64', 4)], lambda c: [('grows just enough', is_box(c.o, 0, Min(c.blx, c.px), Min(c.bly, c.py), Max(c.bhx, c.px), Max(c.bhy, c.py)))], fn=['AABB::include']),
    Target('include box', 'h_includeb', box('b', BIG) + box('c', BIG) + [Out('o', 'i64', 4)], lambda c: [('union', is_box(c.o, 0, Min(c.blx, c.clx), Min(c.bly, c.cly), Max(c.bhx, c.chx), Max(c.bhy, c.chy)))], fn=['AABB::include(AABB)']),
    Target('empty box', 'h_empty', pt('p', BIG) + [Out('o', 'i64', 4), Out('f', 'bool', 3)], lambda c: [('contains nothing, even when expanded', And(Not(c.f[0]), c.f[1], Not(c.f[2]))), ('first point makes a point box', is_box(c.o, 0, c.px, c.py, c.px, c.py))], fn=['AABB::AABB', 'AABB::expand', 'AABB::include']),
    Target('expand', 'h_expand', box('b', BIG) + [I('d', ty='i32'), Out('o', 'i64', 4)], lambda c: [('every side moves out', is_box(c.o, 0, c.blx - c.d, c.bly - c.d, c.bhx + c.d, c.bhy + c.d))], fn=['AABB::expand']),
    Target('box of a point list', 'h_three', pt('p', BIG) + pt('q', BIG) + pt('r', BIG) + [Out('o', 'i64', 4)], lambda c: [('smallest box', is_box(c.o, 0, Min(c.px, Min(c.qx, c.rx)), Min(c.py, Min(c.qy, c.ry)), Max(c.px, Max(c.qx, c.rx)), Max(c.py, Max(c.qy, c.ry))))], fn=['AABB::AABB(initializer_list)']),
    Target('toPolygon', 'h_topoly', box('b', BIG) + [Out('o', 'i64', 9)], lambda c: [('four corners', And(c.o[8] == 4, is_box(c.o, 0, c.blx, c.bly, c.bhx, c.bly), is_box(c.o, 4, c.bhx, c.bhy, c.blx, c.bhy)))], fn=['AABB::toPolygon']),
    Target('distance to a point', 'h_dist2', box('b', SM) + pt('p', SM), dist2, lambda c: [c.blx <= c.bhx, c.bly <= c.bhy], ret='i64', setup=K.use_d2seg, fn=['AABB::distanceSquared']),
    Target('distance to a box', 'h_dist2b', box('b', SM) + box('c', SM) + [Out('o', 'i64', 8)], lambda c: [('smallest corner distance', And(*([c.ret <= x for x in c.o] + [Or(*[c.ret == x for x in c.o])])))], lambda c: [c.blx <= c.bhx, c.bly <= c.bhy, c.clx <= c.chx, c.cly <= c.chy], ret='i64', setup=K.use_boxdist, fn=['AABB::distanceSquared(AABB)']),
    Target('box of a point set', 'h_points', [PV('v'), Out('o', 'i64', 4)], bounds(EMPTY, 'v'), setup=setup_vec(EMPTY, 'v'), fn=['AABB::calculate(PointsSet)']),
    Target('include a point set', 'h_incpoints', box('b', BIG) + [PV('v'), Out('o', 'i64', 4)], bounds(BOXB, 'v'), setup=setup_vec(BOXB, 'v'), fn=['AABB::include(PointsSet)']),
    Target('box of a shape of two polygons', 'h_shape2', [PV('v'), PV('w'), Out('o', 'i64', 4)], bounds(EMPTY, 'v', 'w'), setup=setup_vec(EMPTY, 'v', 'w'), fn=['AABB::calculate(Shape)']),
    Target('box of two open lines', 'h_lines2', [PV('v'), PV('w'), Out('o', 'i64', 4)], bounds(EMPTY, 'v', 'w'), setup=setup_vec(EMPTY, 'v', 'w'), fn=['AABB::calculate(OpenLinesSet)']),
    Target('smallest rotated box', 'h_oriented', [PointVec('v', 2 ** 20), Out('o', 'i64', 4), Out('angle', 'f64', 1)], oriented, bounded='random polygons of 3 to 7 points with edges of 1 mm and more', gen=gen_poly, fn=['AABB::minimumAreaOrientedBoundingBox']),
    Target('hit 3D', 'h_hit3', box3('b', BIG) + box3('c', BIG), lambda c: [('iff the boxes share a point', Iff(c.ret, And(c.bhx >= c.clx, c.blx <= c.chx, c.bhy >= c.cly, c.bly <= c.chy, c.bhz >= c.clz, c.blz <= c.chz)))], ret='bool', fn=['AABB3D::hit']),
    Target('include point 3D', 'h_include3', box3('b', I32) + pt3('p', I32) + [Out('o', 'i64', 12)], lambda c: [('grows just enough', is_box3(c.o, 0, (Min(c.blx, c.px), Min(c.bly, c.py), Min(c.blz, c.pz)), (Max(c.bhx, c.px), Max(c.bhy, c.py), Max(c.bhz, c.pz)))),
        ('empty box becomes the point', is_box3(c.o, 6, (c.px, c.py, c.pz), (c.px, c.py, c.pz)))], fn=['AABB3D::include', 'AABB3D::AABB3D']),
    Target('include box 3D', 'h_includeb3', box3('b', I32) + box3('c', I32) + [Out('o', 'i64', 12)], lambda c: [('union', is_box3(c.o, 0, (Min(c.blx, c.clx), Min(c.bly, c.cly), Min(c.blz, c.clz)), (Max(c.bhx, c.chx), Max(c.bhy, c.chy), Max(c.bhz, c.chz)))),
        ('only the height range grows', is_box3(c.o, 6, (c.blx, c.bly, Min(c.blz, c.clz)), (c.bhx, c.bhy, Max(c.bhz, c.clz))))], fn=['AABB3D::include(AABB3D)', 'AABB3D::includeZ']),
    Target('translate 3D', 'h_move3', box3('b', I32) + pt3('p', I32) + [Out('o', 'i64', 12)], lambda c: [('moved', is_box3(c.o, 0, (c.blx + c.px, c.bly + c.py, c.blz + c.pz), (c.bhx + c.px, c.bhy + c.py, c.bhz + c.pz))),
        ('moved in the plane', is_box3(c.o, 6, (c.blx + c.px, c.bly + c.py, c.blz), (c.bhx + c.px, c.bhy + c.py, c.bhz)))], fn=['AABB3D::translate']),
    Target('expand 3D', 'h_grow3', box3('b', I32) + [I('d', -I32, I32), Out('o', 'i64', 12)], grow3, fn=['AABB3D::expand', 'AABB3D::expandXY']),
    Target('measures 3D', 'h_meas3', box3('b', BIG) + [Out('o', 'i64', 10)], lambda c: [('spans', And(c.o[0] == c.bhx - c.blx, c.o[1] == c.bhy - c.bly, c.o[2] == c.bhz - c.blz)), ('middle', And(c.o[3] == tdiv2(c.blx + c.bhx), c.o[4] == tdiv2(c.bly + c.bhy), c.o[5] == tdiv2(c.blz + c.bhz))),
        ('flattened', is_box(c.o, 6, c.blx, c.bly, c.bhx, c.bhy))], fn=['AABB3D::spanX', 'AABB3D::getMiddle', 'AABB3D::flatten']),
]
