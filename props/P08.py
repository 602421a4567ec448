from vp.spec import *
from vp.terms import *
from vp import contracts as K
BUILD = dict(harness='P08.cpp', sources=['geometry/Point2LL.cpp', 'geometry/Point3LL.cpp', 'geometry/PointMatrix.cpp', 'utils/Matrix4x3D.cpp', 'utils/linearAlg2D.cpp'])
Fr = Fraction
BIG = 2 ** 62
MID = 2 ** 30


def pt(n, m):
    return [I(n + 'x', -m, m), I(n + 'y', -m, m)]


def pt3(n, m):
    return pt(n, m) + [I(n + 'z', -m, m)]


def eqs(o, k, *vals):
    return And(*[o[k + i] == v for i, v in enumerate(vals)])


def ops(c):
    return [('sum', eqs(c.o, 0, c.ax + c.bx, c.ay + c.by)), ('difference', eqs(c.o, 2, c.ax - c.bx, c.ay - c.by)), ('negation', eqs(c.o, 4, -c.ax, -c.ay)),
            ('integer multiple', eqs(c.o, 6, c.ax * c.k, c.ay * c.k)), ('in-place sum', eqs(c.o, 8, c.ax + c.bx, c.ay + c.by)), ('in-place difference', eqs(c.o, 10, c.bx, c.by))]


def ops3(c):
    a, b = (c.ax, c.ay, c.az), (c.bx, c.by, c.bz)
    add = [x + y for x, y in zip(a, b)]
    sub = [x - y for x, y in zip(a, b)]
    return [('sum', eqs(c.o, 0, *add)), ('difference', eqs(c.o, 3, *sub)), ('negation', eqs(c.o, 6, *[-x for x in a])), ('in-place sum', eqs(c.o, 9, *add)), ('in-place difference', eqs(c.o, 12, *b)),
            ('elementwise product', eqs(c.o, 15, *[x * y for x, y in zip(a, b)])), ('3D+2D keeps z', eqs(c.o, 18, add[0], add[1], a[2])), ('3D-2D keeps z', eqs(c.o, 21, sub[0], sub[1], a[2])),
            ('2D+3D', eqs(c.o, 24, add[0], add[1])), ('2D-3D', eqs(c.o, 26, -sub[0], -sub[1])), ('projection to 2D', eqs(c.o, 28, a[0], a[1])), ('lift to 3D', eqs(c.o, 30, *a))]


def near(x, exact, tol):
    return And(x - exact <= tol, exact - x <= tol)


def normal_post(c):
    l2 = c.ax * c.ax + c.ay * c.ay
    ox, oy, L = c.o[0], c.o[1], c.len
    n = K.vsize_ghost(c.ax, c.ay)
    S = (Abs(ox) + 1) * (Abs(ox) + 1) + (Abs(oy) + 1) * (Abs(oy) + 1)
    return [('zero vector: along X', Implies(l2 == 0, And(ox == L, oy == 0))),
            ('same direction', Implies(l2 > 0, And(ox * c.ax >= 0, oy * c.ay >= 0))),
            ('parallel up to rounding', Implies(l2 > 0, Abs(ox * c.ay - oy * c.ax) <= Abs(c.ax) + Abs(c.ay))),
            ('not longer than asked (length rounded to 0.5 um)', Implies(l2 > 0, (ox * ox + oy * oy) * l2 * 2 <= L * L * l2 * 6)),
            ('length for vectors of 0.1 mm and more: at most 1% long', Implies(l2 >= 10000, (ox * ox + oy * oy) * 100 <= L * L * 102)),
            ('hint', H_sqle(Abs(c.ax) * L, (Abs(ox) + 1) * n)), ('hint', H_sqle(Abs(c.ay) * L, (Abs(oy) + 1) * n)),
            ('hint', H_mul(n - 100, n)), ('hint', H_mul(S, l2 * Fr(100, 99) - n * n)), ('hint', H_cancel(L * L, S * Fr(100, 99), l2)),
            ('length for vectors of 0.1 mm and more: at most 1% and 2 um short', Implies(l2 >= 10000, (ox * ox + oy * oy + 4 * Abs(ox) + 4 * Abs(oy) + 4) * 100 >= L * L * 98)),
            ]


def lerp_post(a, b, t, r):
    return And(near(r, a + (b - a) * t, 1), Implies(t == 0, r == a), Implies(t == 1, r == b), r >= Min(a, b), r <= Max(a, b))


VS = K.VS
TARGETS = [
    Target('vSize', 'h_vSize', pt('a', VS), lambda c: K.vsize_post(c.ax, c.ay, c.ret) + K.vsize_linear(c.ax, c.ay, c.ret), ret='i64', fn=['vSize']),
    Target('vSize2', 'h_vSize2', pt('a', MID), lambda c: [('sum of squares', c.ret == c.ax * c.ax + c.ay * c.ay)], ret='i64', fn=['vSize2']),
    Target('vSizef', 'h_vSizef', pt('a', VS), lambda c: [('floor of the length', And(c.ret >= 0, c.ret * c.ret <= c.ax * c.ax + c.ay * c.ay, (c.ret + 1) * (c.ret + 1) > c.ax * c.ax + c.ay * c.ay))], ret='i64', opts=dict(budget=2.0), fn=['vSizef']),
    Target('vSize2f', 'h_vSize2f', pt('a', VS), lambda c: [('sum of squares', c.ret == c.ax * c.ax + c.ay * c.ay)], ret='f64', fn=['vSize2f']),
    Target('shorterThan', 'h_shorterThan', pt('a', BIG) + [I('len', 0, MID)], lambda c: [('iff length <= len', Iff(c.ret, c.ax * c.ax + c.ay * c.ay <= c.len * c.len))], ret='bool', fn=['shorterThan', 'shorterThen']),
    Target('normal', 'h_normal', pt('a', VS) + [I('len', 0, 2 ** 31)], normal_post, setup=K.use_vSize, fn=['normal']),
    Target('turn90CCW', 'h_turn90', pt('a', BIG), lambda c: [('quarter turn', eqs(c.o, 0, -c.ay, c.ax))] , fn=['turn90CCW']),
    Target('dot', 'h_dot', pt('a', MID) + pt('b', MID), lambda c: [('dot', c.ret == c.ax * c.bx + c.ay * c.by)], ret='i64', fn=['dot']),
    Target('cross', 'h_cross', pt('a', MID) + pt('b', MID), lambda c: [('cross', c.ret == c.ax * c.by - c.ay * c.bx)], ret='i64', fn=['cross']),
    Target('operators2', 'h_ops', pt('a', MID) + pt('b', MID) + [I('k', -MID, MID)], ops, fn=['operator+', 'operator-', 'operator*', 'operator+=', 'operator-=']),
    Target('scaling', 'h_scale', pt('a', 2 ** 40) + [D('k', -1000, 1000)], lambda c: [('nearest to the exact product', And(near(c.o[0], c.ax * c.k, 1), near(c.o[1], c.ay * c.k, 1), near(c.o[2], c.ax * c.k, 1), near(c.o[3], c.ay * c.k, 1)))], fn=['operator*(Point2LL, double)']),
    Target('division', 'h_div', pt('a', BIG) + [I('k', -BIG, BIG)], lambda c: [('quotient and remainder', And(*[And(c.o[i] * c.k + c.o[2 + i] == v, Abs(c.o[2 + i]) < Abs(c.k), Implies(v >= 0, c.o[2 + i] >= 0), Implies(v <= 0, c.o[2 + i] <= 0)) for i, v in ((0, c.ax), (1, c.ay))]))],
           lambda c: [c.k != 0], fn=['operator/', 'operator%']),
    Target('lerp2', 'h_lerp', pt('a', 10 ** 9) + pt('b', 10 ** 9) + [D('t', 0, 1)], lambda c: [('X', lerp_post(c.ax, c.bx, c.t, c.o[0])), ('Y', lerp_post(c.ay, c.by, c.t, c.o[1]))], setup=K.use_lerp, fn=['lerp(Point2LL)']),
    Target('operators3', 'h_ops3', pt3('a', MID) + pt3('b', MID), ops3, fn=['Point3LL operators']),
    Target('vSize2_3D', 'h_vSize23', pt3('a', MID), lambda c: [('sum of squares', c.ret == c.ax * c.ax + c.ay * c.ay + c.az * c.az)], ret='i64', fn=['Point3LL::vSize2']),
    Target('vSize_3D', 'h_vSize3', pt3('a', VS // 2), lambda c: [('nearest, below', c.ret * c.ret - c.ret <= c.ax * c.ax + c.ay * c.ay + c.az * c.az), ('nearest, above', c.ret * c.ret + c.ret >= c.ax * c.ax + c.ay * c.ay + c.az * c.az), ('nonneg', c.ret >= 0)], ret='i64', fn=['Point3LL::vSize']),
    Target('dot_3D', 'h_dot3', pt3('a', MID) + pt3('b', MID), lambda c: [('dot', c.ret == c.ax * c.bx + c.ay * c.by + c.az * c.bz)], ret='i64', fn=['Point3LL::dot']),
    Target('max_3D', 'h_max3', pt3('a', BIG), lambda c: [('largest coordinate', And(c.ret >= c.ax, c.ret >= c.ay, c.ret >= c.az, Or(c.ret == c.ax, c.ret == c.ay, c.ret == c.az)))], ret='i64', fn=['Point3LL::max']),
    Target('testLength_3D', 'h_testLength3', pt3('a', BIG) + [I('len', 0, MID)], lambda c: [('iff length <= len', Iff(c.ret, c.ax * c.ax + c.ay * c.ay + c.az * c.az <= c.len * c.len))], ret='bool', fn=['Point3LL::testLength']),
    Target('lerp3', 'h_lerp3', pt3('a', 10 ** 9) + pt3('b', 10 ** 9) + [D('t', 0, 1)], lambda c: [('X', lerp_post(c.ax, c.bx, c.t, c.o[0])), ('Y', lerp_post(c.ay, c.by, c.t, c.o[1])), ('Z', lerp_post(c.az, c.bz, c.t, c.o[2]))], setup=K.use_lerp, fn=['lerp(Point3LL)']),
]
for _t in TARGETS:
    outs = {'h_normal': 2, 'h_turn90': 2, 'h_ops': 12, 'h_div': 4, 'h_scale': 4, 'h_lerp': 2, 'h_ops3': 33, 'h_lerp3': 3}.get(_t.entry)
    if outs:
        _t.params.append(Out('o', 'i64', outs))
