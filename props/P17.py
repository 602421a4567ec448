from vp.spec import *
from vp.terms import *
BUILD = dict(harness='P17.cpp', sources=['geometry/PointMatrix.cpp', 'utils/Matrix4x3D.cpp', 'utils/linearAlg2D.cpp', 'geometry/Point2LL.cpp', 'geometry/Point3LL.cpp'])
H = Fraction(1, 2)
M = 2 ** 27
E50 = Fraction(1, 2 ** 49)
U = 2          # matrix entries of rotations and moderate scalings


def pt(n, m=M):
    return [I(n + 'x', -m, m), I(n + 'y', -m, m)]


def pt3(n, m=M):
    return pt(n, m) + [I(n + 'z', -m, m)]


def near(v, e, tol):
    return And(v - e <= tol, e - v <= tol)


def mat(names, k=1000):
    return [D(x, -k, k) for x in names]


TOL = H + Fraction(1, 1000)


def apply2(c):
    a, b, d, e = c.a, c.b, c.c, c.d
    return [('each row times the point, nearest unit', And(near(c.o[0], c.px * a + c.py * b, TOL), near(c.o[1], c.px * d + c.py * e, TOL))),
            ('unapply uses the transposed matrix', And(near(c.o[2], c.px * a + c.py * d, TOL), near(c.o[3], c.px * b + c.py * e, TOL)))]


def rot(c):
    o = c.o
    return [('counterclockwise rotation matrix', And(o[0] == o[4], o[1] == -o[5], o[2] == o[5], o[3] == o[4])), ('keeps lengths', near(o[0] * o[0] + o[1] * o[1], 1, E50))]


def vecmat(c):
    o = c.o
    return [('rotation matrix', And(o[2] == -o[1], o[3] == o[0])), ('along the vector', near(o[0] * c.py, o[1] * c.px, (Abs(c.px) + Abs(c.py)) * E50)), ('same direction', And(Implies(c.px > 0, o[0] > 0), Implies(c.px < 0, o[0] < 0), Implies(c.py > 0, o[1] > 0), Implies(c.py < 0, o[1] < 0), Implies(c.px == 0, o[0] == 0), Implies(c.py == 0, o[1] == 0))),
            ]


def inv(c):
    a, b, d, e = c.a, c.b, c.c, c.d
    o = c.o
    det = a * e - b * d
    T = Fraction(1, 2 ** 40)
    return [('entries of the adjoint over the determinant', And(near(o[0], rdiv(e, det), T), near(o[1], rdiv(-b, det), T), near(o[2], rdiv(-d, det), T), near(o[3], rdiv(a, det), T)))]


def apply3(c):
    p = (c.px, c.py, c.pz)
    return [('row %d' % i, near(c.o[i], sum((c.m[3 * i + j] * p[j] for j in range(3)), 0), TOL)) for i in range(3)]


def compose(c):
    return [('entry %d' % (3 * i + j), near(c.o[3 * i + j], sum((c.a[3 * i + k] * c.b[3 * k + j] for k in range(3)), 0), Fraction(1, 2 ** 30))) for i in range(3) for j in range(3)]


def around(c):
    x, y, s, k = c.px - c.mx, c.py - c.my, c.s[1], c.s[0]
    return [('rotated about the middle', And(near(c.o[0], c.mx + x * k - y * s, TOL), near(c.o[1], c.my + x * s + y * k, TOL)))]


def apply4(c):
    p = (c.px, c.py, c.pz)
    return [('column %d, within a unit' % j, near(c.o[j], sum((c.m[3 * i + j] * p[i] for i in range(3)), 0) + c.m[9 + j], 1 + Fraction(1, 1000))) for j in range(3)]


def apply4d(c):
    p = (c.px, c.py, c.pz)
    return [('column %d, nearest micron' % j, near(c.o[j], (sum((c.m[3 * i + j] * p[i] for i in range(3)), 0) + c.m[9 + j]) * 1000, TOL)) for j in range(3)]


def scale4(names):
    def f(c):
        p, q = (c.px, c.py, c.pz), (c.cx, c.cy, c.cz)
        return [('scaled away from the centre, axis %d' % j, near(c.o[j], q[j] + (p[j] - q[j]) * getattr(c, n), 1 + Fraction(1, 1000))) for j, n in enumerate(names)]
    return f


def rotate(c):
    k, s = c.s[0], c.s[1]
    return [('counterclockwise, nearest unit', And(near(c.o[0], k * c.px - s * c.py, TOL), near(c.o[1], s * c.px + k * c.py, TOL)))]


def vec3(c):
    a, b, f, o = (c.ax, c.ay, c.az), (c.bx, c.by, c.bz), c.f, c.o
    T = Fraction(1, 2 ** 30)
    cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dt = sum((x * y for x, y in zip(a, b)), 0)
    return [('sum', And(*[And(near(o[i], a[i] + b[i], T), o[20 + i] == o[i]) for i in range(3)])), ('difference', And(*[And(near(o[3 + i], a[i] - b[i], T), o[23 + i] == o[3 + i]) for i in range(3)])),
            ('scaled', And(*[And(near(o[6 + i], a[i] * f, T), o[26 + i] == o[6 + i]) for i in range(3)])), ('divided', And(*[near(o[9 + i], rdiv(a[i], f), T) for i in range(3)])),
            ('cross product', And(*[near(o[12 + i], cr[i], T) for i in range(3)])), ('dot product', And(near(o[15], dt, T), near(o[16], dt, T))), ('squared length', near(o[17], sum((x * x for x in a), 0), T)), 
            ('largest coordinate', And(*[o[19] >= x for x in a], Or(*[o[19] == x for x in a])))]


K3 = 1024
TARGETS = [
    Target('apply and unapply a 2D matrix', 'h_apply', mat('abcd') + pt('p') + [Out('o', 'i64', 4)], apply2, fn=['PointMatrix::apply', 'PointMatrix::unapply']),
    Target('rotation matrix of degrees', 'h_rotmat', [D('deg', -10000, 10000), Out('o', 'f64', 6)], rot, fn=['PointMatrix::PointMatrix(double)']),
    Target('rotation matrix of an angle', 'h_rotdeg', [D('deg', 0, 360), Out('o', 'f64', 6)], rot, fn=['PointMatrix::PointMatrix(AngleDegrees)']),
    Target('matrix turned along a vector', 'h_vecmat', pt('p', 2 ** 25) + [Out('o', 'f64', 4)], vecmat, lambda c: [Or(c.px != 0, c.py != 0)], fn=['PointMatrix::PointMatrix(Point2LL)']),
    Target('scaling matrix', 'h_scalemat', [D('s', -1000, 1000), Out('o', 'f64', 4)], lambda c: [('diagonal', And(c.o[0] == c.s, c.o[1] == 0, c.o[2] == 0, c.o[3] == c.s))], fn=['PointMatrix::scale']),
    Target('identity matrices', 'h_identity', pt('p') + pt3('q') + [Out('o', 'i64', 12)], lambda c: [('points stay', And(*[c.o[i] == v for i, v in enumerate([c.px, c.py, c.px, c.py, c.qx, c.qy, c.qz, c.qx, c.qy, c.qz, c.px, c.py])]))], fn=['PointMatrix::PointMatrix', 'Point3Matrix::Point3Matrix', 'Matrix4x3D::Matrix4x3D']),
    Target('inverse', 'h_inverse', mat('abcd', U) + [Out('o', 'f64', 4)], inv, lambda c: [Abs(c.a * c.d - c.b * c.c) >= Fraction(1, 16)], fn=['PointMatrix::inverse']),
    Target('apply a 3D matrix', 'h_apply3', [Cells('m', 'f64', 9, 'in', -K3, K3)] + pt3('p') + [Out('o', 'i64', 3)], apply3, fn=['Point3Matrix::apply']),
    Target('2D matrix in homogeneous form', 'h_homog', mat('abcd') + pt('p') + [Out('o', 'i64', 4)], lambda c: [('same result', And(c.o[0] == c.o[2], c.o[1] == c.o[3]))], fn=['Point3Matrix::Point3Matrix(PointMatrix)']),
    Target('translation matrix', 'h_translate', pt('d') + pt('p') + [Out('o', 'i64', 2)], lambda c: [('moved exactly', And(c.o[0] == c.px + c.dx, c.o[1] == c.py + c.dy))], fn=['Point3Matrix::translate']),
    Target('composition', 'h_compose', [Cells('a', 'f64', 9, 'in', -K3, K3), Cells('b', 'f64', 9, 'in', -K3, K3), Out('o', 'f64', 9)], compose, fn=['Point3Matrix::compose']),
    Target('rotateAround', 'h_around', pt('m', 2 ** 24) + [D('deg', -10000, 10000)] + pt('p', 2 ** 24) + [Out('s', 'f64', 2), Out('o', 'i64', 2)], around, fn=['LinearAlg2D::rotateAround']),
    Target('apply a model transformation', 'h_apply4', [Cells('m', 'f64', 12, 'in', -K3, K3)] + pt3('p') + [Out('o', 'i64', 3)], apply4, fn=['Matrix4x3D::apply(Point3LL)']),
    Target('apply a model transformation to millimetres', 'h_apply4d', [Cells('m', 'f64', 12, 'in', -K3, K3), D('px', -K3, K3), D('py', -K3, K3), D('pz', -K3, K3), Out('o', 'i64', 3)], apply4d, fn=['Matrix4x3D::apply(Point3D)']),
    Target('scale about a point per axis', 'h_scale4', [D(x, -100, 100) for x in ('sx', 'sy', 'sz')] + pt3('c') + pt3('p') + [Out('o', 'i64', 3)], scale4(('sx', 'sy', 'sz')), fn=['Matrix4x3D::scale']),
    Target('scale about a point', 'h_scale1', [D('s', -100, 100)] + pt3('c') + pt3('p') + [Out('o', 'i64', 3)], scale4(('s', 's', 's')), fn=['Matrix4x3D::scale']),
    Target('rotate a point', 'h_rotate', pt('p') + [D('a', -10000, 10000), Out('s', 'f64', 2), Out('o', 'i64', 2)], rotate, fn=['rotate']),
    Target('quarter turn', 'h_turn', pt('p', 2 ** 62) + [Out('o', 'i64', 2)], lambda c: [('counterclockwise', And(c.o[0] == -c.py, c.o[1] == c.px))], fn=['turn90CCW']),
    Target('floating point vectors', 'h_vec3', [D(x + y, -K3, K3) for x in 'ab' for y in 'xyz'] + [D('f', -K3, K3), Out('o', 'f64', 29)], vec3, lambda c: [Abs(c.f) >= Fraction(1, 16)], fn=['Point3D operators', 'Point3D::cross', 'Point3D::dot', 'Point3D::vSize']),
    Target('floating point length', 'h_len3', [D('a' + y, -K3, K3) for y in 'xyz'] + [Out('o', 'f64', 2)], lambda c: [('length', And(c.o[0] >= 0, near(c.o[0] * c.o[0], c.o[1], Fraction(1, 2 ** 20))))], fn=['Point3D::vSize']),
    Target('microns to millimetres and back', 'h_conv3', pt3('p', 2 ** 40) + [Out('o', 'f64', 3), Out('q', 'i64', 3)], lambda c: [('in millimetres', And(*[near(c.o[i] * 1000, v, Fraction(1, 1000)) for i, v in enumerate((c.px, c.py, c.pz))])), ('back', And(c.q[0] == c.px, c.q[1] == c.py, c.q[2] == c.pz))], fn=['Point3D::Point3D(Point3LL)', 'Point3D::toPoint3']),
    Target('testLength', 'h_test3', [D('a' + y, -K3, K3) for y in 'xyz'] + [D('l', 0, K3), Out('o', 'f64', 1)], lambda c: [('not longer', And(Implies(c.o[0] > c.l * c.l + Fraction(1, 2 ** 30), Not(c.ret)), Implies(c.o[0] < c.l * c.l - Fraction(1, 2 ** 30), c.ret)))], ret='bool', fn=['Point3D::testLength']),
]
