import math
from vp.spec import *
from vp.terms import *
from vp import contracts as K
BUILD = dict(harness='P15.cpp', sources=['utils/ExtrusionLine.cpp', 'utils/ExtrusionJunction.cpp', 'GCodePathConfig.cpp', 'utils/Simplify.cpp', 'PathAdapter.cpp', 'geometry/PointsSet.cpp', 'geometry/Polyline.cpp', 'geometry/ClosedPolyline.cpp', 'geometry/LinesSet.cpp', 'geometry/OpenLinesSet.cpp', 'geometry/Point2LL.cpp', 'geometry/Point3LL.cpp', 'geometry/Polygon.cpp',
                                         'geometry/Shape.cpp', 'geometry/SingleShape.cpp', 'geometry/PointMatrix.cpp', 'utils/linearAlg2D.cpp', 'utils/ListPolyIt.cpp'], native_libs=['-lpolyclipping'])
S24 = 2 ** 24
EPS = Fraction(1, 2 ** 20)


def near(v, e, tol=EPS):
    return And(v - e <= tol, e - v <= tol)


def vs(c, i, j):
    x, y = c.v('X', j) - c.v('X', i), c.v('Y', j) - c.v('Y', i)
    return K.vsize_call(x, y, 'uf') if isinstance(x, Poly) else K.vsize_ghost(x, y)


def lens(c, short=False):
    return rec('len_v', 0, lambda i, acc: acc + vs(c, i, i + 1), lo=0, **(dict(fuel=1, forward=4, top=Max(c.v.n - 1, 0)) if short else {}))


def setup_len(short=False):
    def f(ex, c):
        K.use_vSize(ex, c, opaque='uf')
        G = ex.ghosts['len_v'] = lens(c, short)
        n = c.v.n
        close = vs(c, n - 1, P(0)) if short else P(0)
        def tmpl(L):
            its = [(it.name, it.idx) for it in L.iters(L.args['v'].data) if it.idx is not None]
            for l in L.ints:        # loops by index
                its.append((l.name, l.val))
                ok = l.val is not None
                yield ('%s counts' % l.name, And(l.val >= 0, l.val <= n) if ok else None)
                yield ('%s counts from one' % l.name, And(l.val >= 1, l.val <= n) if ok else None)
            for iname, i in its:
                known = i is not None
                i = i if known else P(0)
                z = eq0(i)
                for l in L.ints:
                    if l.name == iname:
                        continue
                    ok = known and l.val is not None
                    for nm in ('X', 'Y', 'w', 'pi'):
                        yield ('%s==previous %s(%s)' % (l.name, nm, iname), And(Or(z, eq0(l.val - c.v(nm, i - 1))), Implies(z, eq0(l.val - c.v(nm, P(0))))) if ok else None)
                    yield ('%s==len(%s)' % (l.name, iname), And(Implies(z, eq0(l.val)), Or(z, eq0(l.val - G(i - 1) - close))) if ok else None)
                    if short:
                        yield ('%s<limit(%s)' % (l.name, iname), Or(z, l.val < c.len) if ok else None)
                if short:
                    for o in L.iters(L.args['v'].data):
                        if o.idx is not None and o.name != iname:
                            yield ('%s before %s' % (o.name, iname), And(Implies(z, eq0(o.idx + 1 - n)), Or(z, eq0(o.idx + 1 - i))) if known else None)
                yield ('len bounded(%s)' % iname, Or(z, And(G(i - 1) <= i * 2 ** 26, G(i - 1) >= 0)) if known else None)
        ex.inv_templates.append(tmpl)
    return f


def total(c, closed, short=False):
    G = c.ex.ghosts['len_v'] if c.symbolic and hasattr(c, 'ex') else lens(c)
    n = c.v.n
    return G(Max(n - 1, 0)) + closed


def length(c):
    n = c.v.n
    cl = If(And(c.closed, n >= 1), vs(c, n - 1, P(0)), 0) if c.symbolic else (vs(c, n - 1, 0) if c.closed and n else 0)
    return [('sum of the lengths of all segments, closing one included for closed lines', c.ret == total(c, cl))]


def shorter(c):
    n = c.v.n
    cl = vs(c, n - 1, P(0) if c.symbolic else 0)
    return ([('partial lengths grow', grows(c.ex.ghosts['len_v']))] if c.symbolic and hasattr(c, 'ex') else []) + [('iff the way around, back to the start, is below the given length', Iff(c.ret, total(c, cl) < c.len))]


def setup_min(ex, c):
    M = ex.ghosts['minw'] = minw(c)
    def tmpl(L):
        its = [it for it in L.iters(L.args['v'].data) if it.idx is not None]
        for a in its:
            yield ('%s in range' % a.name, And(a.idx >= 0, a.idx <= c.v.n))
            for b in its:
                if a is not b:
                    yield ('width at %s is the least before %s' % (a.name, b.name), And(a.idx < c.v.n, eq0(c.v('w', a.idx) - M(b.idx))))
                    yield ('width at %s is the least up to %s' % (a.name, b.name), And(a.idx < c.v.n, eq0(c.v('w', a.idx) - M(b.idx + 1))))
            for l in L.ints:
                yield ('%s is the least before %s' % (l.name, a.name), None if l.val is None else eq0(l.val - M(a.idx)))
    ex.inv_templates.append(tmpl)


def minw(c):
    first = c.v('w', P(0) if c.symbolic else 0)
    return rec('minw', first, lambda i, acc: Min(acc, c.v('w', i)), lo=0)


def minwidth(c):
    M = c.ex.ghosts['minw'] if c.symbolic and hasattr(c, 'ex') else minw(c)
    return [('the least width of all junctions', c.ret == M(c.v.n))]


def rev(m):
    def f(c):
        g = lambda nm, i: c.v(nm, P(i) if c.symbolic else i)
        return [('junction %d was the one counted from the end' % i, And(*[c.o[4 * i + j] == g(nm, m - 1 - i) for j, nm in enumerate(('X', 'Y', 'w', 'pi'))])) for i in range(m)]
    return f


def polygon(c):
    n = c.v.n
    return [('same points', c.ret == n and c.out.n == n and all(c.out('X', i) == c.v('X', i) and c.out('Y', i) == c.v('Y', i) for i in range(n)))]


def same(c):
    return [('iff all parts agree', Iff(c.ret, And(c.px == c.qx, c.py == c.qy, c.w == c.u, c.a == c.b)))]


def junction(c):
    o = c.o
    return [('position', And(o[0] == c.px, o[1] == c.py, o[6] == c.px, o[7] == c.py)), ('width and wall', And(o[2] == c.w, o[3] == c.a)), ('difference', And(o[4] == c.px - c.qx, o[5] == c.py - c.qy))]


def extrusion(c):
    o = c.o
    return [('cross section times flow', near(c.ret * 10 ** 6, c.w * c.t * c.f, c.w * c.t * c.f * Fraction(1, 2 ** 40) + EPS)), ('as given', And(o[0] == c.f, o[1] == c.w, o[2] == c.t)), ('travel iff no width', o[3] == If(c.w == 0, 1, 0)), ('no fan speed of its own', o[4] == -1)]


def config(c):
    o = c.o
    return [('as given', And(o[0] == c.sp, o[1] == c.ac, o[2] == c.je, o[3] == If(c.br, 1, 0), o[4] == c.fan, o[5] == c.type)), ('travel iff no width', o[6] == If(c.w == 0, 1, 0))]


def use_v(ex, c):
    K.use_vSize(ex, c, opaque=True)


def lab(c):
    q = [(c.ax, c.ay), (c.bx, c.by), (c.cx, c.cy)]
    f = (lambda x, y: K.vsize_call(x, y, True)) if c.symbolic else K.vsize_ghost
    g = lambda i, j: f(q[j][0] - q[i][0], q[j][1] - q[i][1])
    return g(0, 1), g(1, 2), g(0, 2)


def area(c):
    ab, bc, ac = lab(c)
    wd = Max(Abs(c.bw - c.aw), Abs(c.cw - c.bw))
    none = Or(ab == 0, bc == 0, ac == 0)
    out = [('nothing printed, no deviation', Implies(none, c.ret == 0)), ('never negative', c.ret >= 0), ('nearly equal widths: difference over the shorter segment', Implies(And(Not(none), wd <= 1), c.ret == wd * Min(ab, bc)))]
    if not c.symbolic and wd > 1 and not none:
        x, y = int(c.aw + c.bw) // 2, int(c.bw + c.cw) // 2
        m = int(ab * x + bc * y) // int(ac)
        out.append(('area by which one line of the average width deviates', c.ret == abs(x - m) * ab + abs(y - m) * bc))
    return out


F4 = [('X', 0, 'i64', -S24, S24), ('Y', 8, 'i64', -S24, S24), ('w', 16, 'i64', 0, 10 ** 7), ('pi', 24, 'i64', 0, 1000)]
JV = lambda k=0, m=2 ** 31: Vec('v', F4, 32, nmin=k, nmax=m)
P2_ = lambda *ns: [I(n + x, -S24, S24) for n in ns for x in 'xy']
W = lambda n: I(n, 0, 10 ** 5)
E_ = 'ExtrusionLine::'
Q2 = lambda n: [I(n + x, -10 ** 6, 10 ** 6) for x in 'xy'] + [I(n + 'w', 0, 10 ** 4)]
AB = lambda: [*Q2('a'), *Q2('b'), *Q2('c')]
TARGETS = [
    Target('length of a line', 'h_length', [I('k', 0, 0), JV(), Bool('closed')], length, ret='i64', setup=setup_len(), fn=[E_ + 'length']),
    Target('shorter than', 'h_shorter', [I('k', 0, 0), JV(1), Bool('closed'), I('len', 0, 2 ** 50)], shorter, ret='bool', setup=setup_len(True), fn=[E_ + 'shorterThan']),
    Target('least width', 'h_minwidth', [I('k', 0, 0), JV(1)], minwidth, ret='i64', setup=setup_min, fn=[E_ + 'getMinimalWidth']),
    *[Target('reversed line of %d' % m, 'h_reverse', [JV(m, m), Out('o', 'i64', 4 * m)], rev(m), fn=[E_ + 'reverse']) for m in (1, 2, 3, 4)],
    Target('outline of a line', 'h_polygon', [JV(0, 40), OutPoints('out')], polygon, ret='i64', bounded='random lines', fn=[E_ + 'toPolygon']),
    Target('equality of junctions', 'h_same', [*P2_('p'), W('w'), I('a', 0, 100), *P2_('q'), W('u'), I('b', 0, 100)], same, ret='bool', fn=['ExtrusionJunction::operator==']),
    Target('parts of a junction', 'h_junction', [*P2_('p'), *P2_('q'), W('w'), I('a', 0, 100), Out('o', 'i64', 8)], junction, fn=['ExtrusionJunction::ExtrusionJunction', 'operator-(ExtrusionJunction)']),
    Target('material per length', 'h_extrusion', [W('w'), I('t', 0, 10 ** 4), D('f', 0, 10), Out('o', 'f64', 5)], extrusion, ret='f64', fn=['GCodePathConfig::calculateExtrusion', 'GCodePathConfig::getExtrusionMM3perMM']),
    Target('parts of a path configuration', 'h_config', [W('w'), I('t', 0, 10 ** 4), D('f', 0, 10), D('sp', 0, 1000), D('ac', 0, 10 ** 5), D('je', 0, 1000), Bool('br'), D('fan', -1, 100), I('type', 0, 10, ty='i32'), Out('o', 'f64', 7)], config, fn=['GCodePathConfig::getSpeed', 'GCodePathConfig::getAcceleration', 'GCodePathConfig::getJerk', 'GCodePathConfig::isTravelPath', 'GCodePathConfig::isBridgePath', 'GCodePathConfig::getFanSpeed', 'GCodePathConfig::getPrintFeatureType']),
    Target('deviation by removing a junction', 'h_area', AB(), area, ret='i64', bounded='random and edge inputs', fn=['Simplify::getAreaDeviation']),
    Target('deviation, nearly equal widths', 'h_area', AB(), area, lambda c: [Abs(c.bw - c.aw) <= 1, Abs(c.cw - c.bw) <= 1], ret='i64', setup=use_v, fn=['Simplify::getAreaDeviation']),
    Target('deviation of a point', 'h_areapoint', P2_('a', 'b', 'c'), lambda c: [('none', c.ret == 0)], ret='i64', fn=['Simplify::getAreaDeviation']),
    Target('points of a variable line', 'h_adapter', [JV(1, 2 ** 20), I('k', 0, 2 ** 20), Out('o', 'i64', 3)], lambda c: [('position and width at the index', And(c.o[0] == c.v('X', c.k), c.o[1] == c.v('Y', c.k), c.o[2] == c.v('w', c.k)))], lambda c: [c.k < c.v.n], fn=['PathAdapter::pointAt', 'PathAdapter::lineWidthAt']),
]
