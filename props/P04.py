from vp.spec import *
from vp.terms import *
BUILD = dict(harness='P04.cpp', sources=['utils/SquareGrid.cpp', 'utils/VoxelUtils.cpp', 'geometry/PointsSet.cpp', 'geometry/Polyline.cpp', 'geometry/ClosedPolyline.cpp', 'geometry/LinesSet.cpp', 'geometry/OpenLinesSet.cpp', 'geometry/Point2LL.cpp', 'geometry/Point3LL.cpp', 'geometry/Polygon.cpp', 'geometry/Shape.cpp', 'geometry/SingleShape.cpp',
                                         'geometry/PointMatrix.cpp', 'utils/linearAlg2D.cpp', 'utils/ListPolyIt.cpp'], native_libs=['-lpolyclipping'])
BIG = 2 ** 40
N = 4


def pt(n, m):
    return [I(n + 'x', -m, m), I(n + 'y', -m, m)]


def cell(c):
    p, o, s = (c.px, c.py), c.o, c.size
    return [('cell by truncating division', And(o[0] == tdiv(p[0], s), o[1] == tdiv(p[1], s))), ('lower corner', And(o[2] == o[0] * s, o[3] == o[1] * s)), ('cell size', o[4] == s),
            *[('the point lies within one cell of its corner (%s)' % 'xy'[i], And(Implies(p[i] >= 0, And(p[i] >= o[2 + i], p[i] < o[2 + i] + s)), Implies(p[i] <= 0, And(p[i] <= o[2 + i], p[i] > o[2 + i] - s)))) for i in (0, 1)]]


def find(c):
    s = getattr(c, 'size', 1000)
    g = (tdiv(c.px, s), tdiv(c.py, s))
    a = [tdiv(c.qx - c.r, s), tdiv(c.qy - c.r, s), tdiv(c.qx + c.r, s), tdiv(c.qy + c.r, s)]
    close = And(Abs(c.px - c.qx) <= c.r, Abs(c.py - c.qy) <= c.r)
    box = And(a[0] <= g[0], g[0] <= a[2], a[1] <= g[1], g[1] <= a[3])
    return [('truncating division keeps the order', Implies(close, box)), ('the cell of every point within the radius is visited', Implies(close, c.o[1] == 1)), ('exactly the cells of the box around the query', And(Iff(c.o[1] == 1, box), c.o[2] == 0)), ('stops and says so when told to', Iff(c.o[0] == 1, c.o[1] == 0))]


def gen_find(fixed):
    def f(rng):
        s = 1000 if fixed else rng.choice([1, 2, 7, 1000, 2 ** 20])
        m = rng.choice([5, 100, BIG // s // 2])
        q = [rng.choice([rng.randint(-m, m) * s, rng.randint(-m * s, m * s)]) for _ in range(2)]
        r = rng.choice([0, 1, s - 1, s, rng.randint(0, 8 * s)])
        d = dict(qx=q[0], qy=q[1], r=r, px=q[0] + rng.randint(-r - s, r + s), py=q[1] + rng.randint(-r - s, r + s))
        if not fixed:
            d['size'] = s
        return d
    return f


def rows(ex, c):
    """loop invariant of a scan over rows and cells, whatever the variables are called: the target has not been passed"""
    s = getattr(c, 'size', 1000)
    g = (tdiv(c.px, s), tdiv(c.py, s))
    off = Not(And(tdiv(c.qx - c.r, s) <= g[0], g[0] <= tdiv(c.qx + c.r, s), tdiv(c.qy - c.r, s) <= g[1], g[1] <= tdiv(c.qy + c.r, s)))

    def t(L):
        outer = [r for r in L.entry.top.regs.values() if isinstance(r, Poly) and len(r.t) == 1 and not r.is_const() and C.atoms[next(iter(r.atoms()))].name.startswith('h')] 
        for l in L.lvs:
            if l.kind != 'int':
                continue
            for i in (0, 1):
                yield '%s<=target %d' % (l.name, i), None if l.val is None else Or(off, l.val <= g[i])
                for k, r in enumerate(outer):
                    yield '%s<=target %d in its row %d' % (l.name, i, k), None if l.val is None else Or(off, r < g[1 - i], r > g[1 - i], l.val <= g[i])
    ex.inv_templates.append(t)


def unroll(ex, c):
    ex.unroll['processNearby'] = 5
    ex.unroll['processLineCells'] = 5


def hline(c):
    on = And(c.py == c.ay, c.px >= Min(c.ax, c.ax + c.d), c.px <= Max(c.ax, c.ax + c.d))
    return [('completes', c.o[2] == 1), ('the cell of every point of the line is visited once', Implies(on, c.o[0] == 1))]


def pts(v):
    return [(int(v('X', i)), int(v('Y', i))) for i in range(v.n)]


def cells(v):
    return [(int(v('x', i)), int(v('y', i)), int(v('z', i))) for i in range(v.n)]


def tq(a, b):
    return abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)


def sample(a, b, n=60):
    """points exactly on the segment, as fractions"""
    return [tuple(Fraction(x) + Fraction((y - x) * i, n) for x, y in zip(a, b)) for i in range(n + 1)]


def in2(g, p, s):
    """p in the closure of the cell g of a truncating grid"""
    return all((-s <= x <= s) if k == 0 else (k * s <= x <= k * s + s) if k > 0 else (k * s - s <= x <= k * s) for k, x in zip(g, p))


def line(c):
    out = pts(c.out)
    s = int(c.size)
    a, b = (int(c.ax), int(c.ay)), (int(c.bx), int(c.by))
    ca, cb = tuple(tq(x, s) for x in a), tuple(tq(x, s) for x in b)
    if int(c.stop) and int(c.stop) <= len(out):
        last = (cb if a[0] <= b[0] else ca) if int(c.stop) == len(out) else None
        return [('stops when told to', And(c.o[0] == 0, len(out) == int(c.stop)))]
    miss = [p for p in sample(a, b) if not any(in2(g, p, s) for g in out)]
    return [('completes', c.o[0] == 1), ('begins and ends in the cells of the end points', And(ca in out, cb in out)), ('every point of the line lies in a visited cell', not miss), ('each cell once', len(set(out)) == len(out)),
            ('stays in the box of the line', all(min(ca[i], cb[i]) <= g[i] <= max(ca[i], cb[i]) for g in out for i in (0, 1)))]


def gen_line(rng):
    s = rng.choice([1, 3, 10, 1000])
    m = s * rng.choice([1, 3, 6])
    q = lambda: rng.choice([rng.randint(-m, m), rng.randint(-m, m) // s * s])
    d = dict(size=s, ax=q(), ay=q(), bx=q(), by=q(), stop=rng.choice([0, 0, 0, 1, 2, 3]), out=[])
    if rng.random() < 0.15:
        d['by'] = d['ay']
    if rng.random() < 0.15:
        d['bx'] = d['ax']
    return d


def voxel(c):
    p, o, s = (c.px, c.py, c.pz), c.o, (c.sx, c.sy, c.sz)
    return [('the point lies in its cell (%s)' % 'xyz'[i], And(o[3 + i] <= p[i], p[i] <= o[3 + i] + s[i])) for i in range(3)] + [('corner of the cell (%s)' % 'xyz'[i], o[3 + i] == o[i] * s[i]) for i in range(3)]


def voxelpoly(c):
    x, y = c.px * c.sx, c.py * c.sy
    e = [(x, y), (x + c.sx, y), (x + c.sx, y + c.sy), (x, y + c.sy)]
    return [('four corners', c.o[8] == 4)] + [('corner %d' % i, And(c.o[2 * i] == e[i][0], c.o[2 * i + 1] == e[i][1])) for i in range(4)]


def vox(x, s):
    return tq(x, s) - (x < 0)


def in3(g, p, s):
    return all(k * w <= x <= k * w + w for k, x, w in zip(g, p, s))


def walk(c):
    out = cells(c.out)
    s = (int(c.sx), int(c.sy), int(c.sz))
    a, b = (int(c.ax), int(c.ay), int(c.az)), (int(c.bx), int(c.by), int(c.bz))
    r = [('starts in the cell of the first point', out[0] == tuple(vox(x, w) for x, w in zip(a, s))), ('steps to a neighbour through a face', all(sum(abs(u - v) for u, v in zip(g, h)) == 1 for g, h in zip(out, out[1:])))]
    if int(c.stop) and int(c.stop) <= len(out):
        return r + [('stops when told to', And(c.o[0] == 0, len(out) == int(c.stop)))]
    return r + [('completes', c.o[0] == 1), ('every point of the line lies in a visited cell', not [p for p in sample(a, b) if not any(in3(g, p, s) for g in out)]), ('only cells the line touches', all(touches(g, a, b, s) for g in out))]


def touches(g, a, b, s):
    lo, hi = Fraction(0), Fraction(1)
    eps = Fraction(1, 10 ** 9)
    for k, x, y, w in zip(g, a, b, s):
        if x == y:
            if not k * w <= x <= k * w + w:
                return False
            continue
        t = sorted([Fraction(k * w - x, y - x), Fraction(k * w + w - x, y - x)])
        lo, hi = max(lo, t[0]), min(hi, t[1])
    return lo <= hi + eps


def gen_walk(rng):
    s = [rng.choice([1, 2, 10, 1000]) for _ in range(3)]
    k = rng.choice([1, 2, 4])
    q = lambda i: rng.choice([rng.randint(-k * s[i], k * s[i]), rng.randint(-k, k) * s[i]])
    d = dict(sx=s[0], sy=s[1], sz=s[2], ax=q(0), ay=q(1), az=q(2), bx=q(0), by=q(1), bz=q(2), stop=rng.choice([0, 0, 0, 1, 2, 3]), out=[])
    for i in 'xyz':
        if rng.random() < 0.2:
            d['b' + i] = d['a' + i]
    return d


def walkpoly(c):
    out = cells(c.out)
    v = pts(c.v)
    s = (int(c.sx), int(c.sy), int(c.sz))
    z = int(c.z)
    ps = [p for a, b in zip(v, v[1:] + v[:1]) for p in sample(a + (z,), b + (z,), 15)]
    return [('every point of the outline lies in a visited cell', all(any(in3(g, p, s) for g in out) for p in ps)), ('at the given height', all(g[2] == vox(z, s[2]) for g in out))]


def gen_walkpoly(rng):
    s = [rng.choice([5, 10, 1000]) for _ in range(3)]
    return dict(sx=s[0], sy=s[1], sz=s[2], z=rng.randint(-3 * s[2], 3 * s[2]), v=[dict(X=rng.randint(-3 * s[0], 3 * s[0]), Y=rng.randint(-3 * s[1], 3 * s[1])) for _ in range(rng.randint(3, 6))], out=[])


def kernel(c):
    k = [int(c.kx), int(c.ky), int(c.kz)]
    out, dil = cells(c.out), cells(c.dil)
    mult = k[0] * k[1] * k[2]
    st = [-(x // 2) for x in k]
    en = [x - x // 2 for x in k]
    exp = []
    for x in range(st[0], en[0]):
        for y in range(st[1], en[1]):
            for z in range(st[2], en[2]):
                cur = (x, y, z)
                d = [tq(mult * cur[i], (st[i] if cur[i] < 0 else en[i] - 1) or 1) for i in range(3)]
                if (c.type == 1 and sum(d) > mult) or (c.type == 2 and d[0] + d[1] > mult):
                    continue
                exp.append(cur)
    p = (int(c.px), int(c.py), int(c.pz))
    stop = int(c.stop)
    e = [tuple(a + b for a, b in zip(p, q)) for q in out]
    stopped = 0 < stop <= len(e)
    return [('the cells of the kernel', sorted(out) == sorted(exp)), ('around each cell exactly the kernel', dil == (e[:stop] if stopped else e)), ('says whether to go on', (c.o[0] == 0) if stopped else (c.o[0] == 1))]


def dist2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def sparse(c):
    v = pts(c.v)
    out = pts(c.out)
    q, r = (int(c.qx), int(c.qy)), int(c.r)
    ids = [o[0] for o in out]
    near = [i for i, p in enumerate(v) if dist2(p, q) <= r * r]
    s = int(c.size)
    far = [i for i in ids if max(abs(v[i][0] - q[0]), abs(v[i][1] - q[1])) > r + 2 * s]
    cand = [i for i in range(len(v)) if i != int(c.skip) and dist2(v[i], q) < r * r]
    best = min((dist2(v[i], q) for i in cand), default=None)
    got = int(c.o[1])
    return [('every element within the radius', all(i in ids for i in near)), ('each once', len(set(ids)) == len(ids)), ('with its own value', all(o[1] == 1 for o in out)), ('nothing beyond the neighbouring cells', not far), ('values agree', int(c.o[2]) == len(out)),
            ('nearest found iff there is one', Iff(c.o[0] == 1, best is not None)), ('it is the nearest', best is None or (got in cand and dist2(v[got], q) == best))]


def gen_sparse(rng):
    s = rng.choice([1, 5, 50, 1000])
    m = s * rng.choice([2, 5])
    v = [dict(X=rng.randint(-m, m), Y=rng.randint(-m, m)) for _ in range(rng.randint(0, 20))]
    return dict(size=s, v=v, qx=rng.randint(-m, m), qy=rng.randint(-m, m), r=rng.choice([0, 1, s // 2, s, rng.randint(0, 2 * s)]), skip=rng.randint(-1, 20), out=[])


def seg2(q, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    l2 = d[0] ** 2 + d[1] ** 2
    if l2 == 0:
        return Fraction(dist2(q, a))
    t = max(Fraction(0), min(Fraction(1), Fraction((q[0] - a[0]) * d[0] + (q[1] - a[1]) * d[1], l2)))
    return (a[0] + t * d[0] - q[0]) ** 2 + (a[1] + t * d[1] - q[1]) ** 2


def lines(c):
    v = pts(c.v)
    out = pts(c.out)
    got = set(zip(out[::2], out[1::2]))
    q, r = (int(c.qx), int(c.qy)), int(c.r)
    segs = list(zip(v[::2], v[1::2]))
    return [('every line within the radius', all(g in got for g in segs if seg2(q, *g) <= r * r)), ('only inserted lines', got <= set(segs))]


def gen_lines(rng):
    d = gen_sparse(rng)
    d.pop('skip')
    return d


PV = lambda n, k=0, mx=24: PointVec(n, 10 ** 6, nmin=k, nmax=mx)
GP = lambda n: OutVec(n, [('x', 0, 'i64', None, None), ('y', 8, 'i64', None, None), ('z', 16, 'i64', None, None)], 24)
SZ_ = [I('sx', 1, 2 ** 20), I('sy', 1, 2 ** 20), I('sz', 1, 2 ** 20)]
G = 'SquareGrid::'
TARGETS = [
    Target('cell of a point', 'h_cell', [I('size', 1, 2 ** 30)] + pt('p', BIG) + [Out('o', 'i64', 5)], cell, fn=[G + 'SquareGrid', G + 'toGridPoint', G + 'toGridCoord', G + 'toLowerCorner', G + 'toLowerCoord', G + 'getCellSize']),
    Target('cells near a point, 1 mm', 'h_find_1000', pt('q', BIG) + pt('p', BIG) + [I('r', 0, BIG), Out('o', 'i64', 3)], find, setup=rows, gen=gen_find(True), fn=[G + 'processNearby']),
    Target('cells near a point', 'h_find_any', [I('size', 1, 2 ** 30)] + pt('q', BIG) + pt('p', BIG) + [I('r', 0, BIG), Out('o', 'i64', 3)], find, setup=rows, gen=gen_find(False), fn=[G + 'processNearby']),
    Target('cells of a short horizontal line', 'h_hline', pt('a', BIG) + pt('p', BIG) + [I('d', -2000, 2000), Out('o', 'i64', 3)], hline, setup=unroll, fn=[G + 'processLineCells']),
    Target('cells of a line', 'h_line', [I('size', 1, 1000)] + pt('a', 10 ** 4) + pt('b', 10 ** 4) + [I('stop', 0, 5), OutPoints('out'), Out('o', 'i64', 1)], line, bounded='lines across up to 12 cells, 60 points of each', gen=gen_line, fn=[G + 'processLineCells']),
    Target('voxel of a point', 'h_voxel', SZ_ + pt('p', BIG) + [I('pz', -BIG, BIG), Out('o', 'i64', 6)], voxel, fn=['VoxelUtils::toGridPoint', 'VoxelUtils::toLowerCorner']),
    Target('cross section of a voxel', 'h_voxelpoly', SZ_ + pt('p', 2 ** 20) + [I('pz', -BIG, BIG), Out('o', 'i64', 9)], voxelpoly, fn=['VoxelUtils::toPolygon']),
    Target('voxels of a line', 'h_walk', SZ_ + pt('a', 10 ** 4) + [I('az', -10 ** 4, 10 ** 4)] + pt('b', 10 ** 4) + [I('bz', -10 ** 4, 10 ** 4), I('stop', 0, 5), GP('out'), Out('o', 'i64', 1)], walk, bounded='lines across up to 8 voxels in each dimension, 60 points of each', gen=gen_walk, fn=['VoxelUtils::walkLine']),
    Target('voxels of an outline', 'h_walkpoly', SZ_ + [PV('v', 3, 6), I('z', -10 ** 4, 10 ** 4), GP('out')], walkpoly, bounded='outlines of 3 to 6 points', gen=gen_walkpoly, fn=['VoxelUtils::walkPolygons']),
    Target('dilation', 'h_kernel', [I('kx', 1, 6), I('ky', 1, 6), I('kz', 1, 6), I('type', 0, 2, ty='i32'), GP('out'), GP('dil')] + pt('p', 100) + [I('pz', -100, 100), I('stop', 0, 30), Out('o', 'i64', 1)], kernel, bounded='kernels of up to 6 cells in each dimension', fn=['DilationKernel::DilationKernel', 'VoxelUtils::dilate']),
    Target('points near a point', 'h_sparse', [I('size', 1, 1000), PV('v')] + pt('q', 10 ** 4) + [I('r', 0, 2000), I('skip', -1, 20), OutPoints('out'), Out('o', 'i64', 3)], sparse, bounded='up to 20 points', gen=gen_sparse, fn=['SparseGrid::processNearby', 'SparseGrid::getNearby', 'SparseGrid::getNearest', 'SparsePointGridInclusive::insert', 'SparsePointGridInclusive::getNearbyVals', 'SparsePointGrid::insert']),
    Target('lines near a point', 'h_lines', [I('size', 1, 1000), PV('v')] + pt('q', 10 ** 4) + [I('r', 0, 2000), OutPoints('out')], lines, bounded='up to 10 lines', gen=gen_lines, fn=['SparseLineGrid::insert', 'SparseGrid::getNearby']),
]
