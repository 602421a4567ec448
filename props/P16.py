import math
from vp.spec import *
from vp.terms import *
BUILD = dict(harness='P16.cpp', sources=[])
TAU = Fraction(2 * math.pi)
T = Fraction(1, 2 ** 20)


def near(v, e, tol=T):
    return And(v - e <= tol, e - v <= tol)


def turn(v, e, full, tol=T):
    """v lies in one turn and differs from e by whole turns, up to rounding"""
    k = rint_((e - v) / P(full) if isinstance(v, Poly) or isinstance(e, Poly) else Fraction(e - v) / full)
    return And(v >= 0, v < full, near(v + k * full, e, tol))


def same(v, e, full):
    """v in one turn, and e - v a small number of whole turns, up to rounding"""
    return And(v >= 0, v < full, Or(*[near(v + k * full, e) for k in range(-2, 3)]))


def one(full):
    """fmod (C library) gives the exact remainder towards zero"""
    return lambda c: [('in one turn, and the same angle', same(c.ret, c.r[0], full))]


def mixed(c):
    return [('sum', same(c.o[0], c.a + c.o[2], 360)), ('difference', same(c.o[1], c.a - c.o[2], 360))]


def two(full, n=4):
    def f(c):
        es = [c.a + c.b, c.a - c.b] * 2
        return [('operation %d in one turn, and the exact angle' % i, turn(c.o[i], es[i], full)) for i in range(n)]
    return f


def layer(c):
    a, b, n = c.a, c.b, c.n
    exp = [a + b, a - b, a * b, -a, a + b, a - b, a * b, a + 1, a + 1, a + 2, a + 1, a + 1, a, b - a, a + n, a - n, a * n, a + n, a - n, n, n, b]
    return [('value %d' % i, c.o[i] == e) for i, e in enumerate(exp)]


def cmp(a, b, o):
    return [('comparison %d' % i, Iff(o[i], e)) for i, e in enumerate([a < b, a <= b, a > b, a >= b, a == b, a != b])]


def num(c):
    a, b = c.a, c.b
    exp = [a + b, a - b, a * b, -a, a + b, a - b, a * b, a + b, a - b, a * b, a + b, a - b, a * b, b, a, 0]
    return [('value %d' % i, near(c.o[i], e)) for i, e in enumerate(exp)] + cmp(a, b, c.c) + [('comparison with a number', And(Iff(c.c[6], a < b), Iff(c.c[7], a == b))), ('kept exactly', And(c.o[13] == b, c.o[14] == a, c.o[15] == 0))]


def div(n):
    return lambda c: [('quotient %d' % i, near(c.o[i], rdiv(c.a, c.b))) for i in range(n)]


def dur2(c):
    a, b = Max(c.a, 0), Max(c.b, 0)
    return [('sum', near(c.o[0], a + b)), ('difference never negative', And(c.o[1] >= 0, near(c.o[1], Max(a - b, 0)))), ('added in place', near(c.o[2], a + b)), ('scaled', near(c.o[3], Max(c.f * a, 0))), ('nothing left', And(c.o[4] == 0, c.o[5] == 0)), ('never negative', And(*[x >= 0 for x in c.o]))]


def temp(c):
    return [('sum and difference', And(near(c.o[0], c.a + c.b), near(c.o[1], c.a - c.b), near(c.o[2], c.a + c.b), near(c.o[3], c.a - c.b))), ('kept exactly', And(c.o[4] == c.a, c.o[5] == 0))]


def ltan(c):
    return [('finite and increasing up to the bound', And(c.ret <= 1001, c.ret >= -10 ** 17))]


PREV = lambda full: Fraction(math.nextafter(float(full), 0))
K = 10 ** 4
AB = [D('a', -K, K), D('b', -K, K)]
NUM = AB + [Out('o', 'f64', 16), Out('c', 'bool', 8)]
DIVB = lambda c: [Abs(c.b) >= Fraction(1, 1024)]
TARGETS = [
    Target('angle in degrees', 'h_deg', [D('v', -10 ** 6, 10 ** 6), Out('r', 'f64', 1)], one(360), ret='f64', fn=['AngleDegrees::AngleDegrees']),
    Target('angle in radians', 'h_rad', [D('v', -10 ** 5, 10 ** 5), Out('r', 'f64', 1)], one(TAU), ret='f64', fn=['AngleRadians::AngleRadians']),
    Target('adding and subtracting degrees', 'h_deg2', [D('a', 0, PREV(360)), D('b', 0, PREV(360)), Out('o', 'f64', 4)], two(360), fn=['AngleDegrees::operator+', 'AngleDegrees::operator-', 'AngleDegrees::operator+=', 'AngleDegrees::operator-=']),
    Target('adding and subtracting a number of degrees', 'h_degmix', [D('a', 0, PREV(360)), D('b', -10 ** 6, 10 ** 6), Out('o', 'f64', 3)], mixed, fn=['AngleDegrees::operator+', 'AngleDegrees::operator-']),
    Target('adding and subtracting radians', 'h_rad2', [D('a', 0, PREV(TAU)), D('b', 0, PREV(TAU)), Out('o', 'f64', 4)], two(TAU), fn=['AngleRadians::operator+', 'AngleRadians::operator-', 'AngleRadians::operator+=', 'AngleRadians::operator-=']),
    Target('radians to degrees', 'h_todeg', [D('a', 0, PREV(TAU))], lambda c: [('scaled', near(c.ret, c.a * 360 / TAU)), ('not negative', c.ret >= 0)], ret='f64', fn=['AngleDegrees::AngleDegrees(AngleRadians)']),
    Target('degrees to radians', 'h_torad', [D('a', 0, PREV(360))], lambda c: [('scaled', near(c.ret, c.a * TAU / 360)), ('not negative', c.ret >= 0)], ret='f64', fn=['AngleRadians::AngleRadians(AngleDegrees)']),
    Target('layer numbers', 'h_layer', [I('a', -2 ** 30, 2 ** 30), I('b', -2 ** 30, 2 ** 30), I('n', -2 ** 30, 2 ** 30, ty='i32'), Out('o', 'i64', 22)], layer, fn=['LayerIndex operators']),
    Target('layer number division', 'h_layerdiv', [I('a', -2 ** 62, 2 ** 62), I('b', -2 ** 62, 2 ** 62), Out('o', 'i64', 4)], lambda c: [('truncated quotient', And(*[x == tdiv(c.a, c.b) for x in c.o]))], lambda c: [c.b != 0], fn=['LayerIndex::operator/']),
    Target('layer number comparisons', 'h_layercmp', [I('a'), I('b'), Out('o', 'bool', 9)], lambda c: cmp(c.a, c.b, c.o) + [('comparison with a number', And(Iff(c.o[6], c.a < c.b), Iff(c.o[7], c.a == c.b), Iff(c.o[8], c.a >= c.b)))], fn=['LayerIndex comparisons']),
    Target('layer number of a float', 'h_layerf', [D('v', -2 ** 60, 2 ** 60)], lambda c: [('towards zero', c.ret == trunc_(c.v))], ret='i64', fn=['LayerIndex::LayerIndex']),
    Target('duration', 'h_dur', [D('v', -10 ** 9, 10 ** 9)], lambda c: [('never negative', c.ret == Max(c.v, 0))], ret='f64', fn=['Duration::Duration']),
    Target('duration arithmetic', 'h_dur2', AB + [D('f', -K, K), Out('o', 'f64', 6)], dur2, fn=['Duration operators']),
    Target('temperatures', 'h_temp', AB + [Out('o', 'f64', 6)], temp, fn=['Temperature operators']),
    Target('ratios', 'h_ratio', NUM, num, fn=['NumericFacade operators']),
    Target('velocities', 'h_velocity', NUM, num, fn=['NumericFacade operators']),
    Target('accelerations', 'h_accel', NUM, num, fn=['NumericFacade operators']),
    Target('ratio division', 'h_ratiodiv', AB + [Out('o', 'f64', 5)], div(5), DIVB, fn=['NumericFacade::operator/', 'Ratio::Ratio']),
    Target('velocity division', 'h_velocitydiv', AB + [Out('o', 'f64', 4)], div(4), DIVB, fn=['NumericFacade::operator/']),
    Target('acceleration division', 'h_acceldiv', AB + [Out('o', 'f64', 4)], div(4), DIVB, fn=['NumericFacade::operator/']),
    Target('ratio of whole numbers', 'h_ratioint', [I('a', -2 ** 20, 2 ** 20, ty='i32'), I('b', 1, 2 ** 20, ty='i32'), Out('o', 'f64', 2)], div(2), fn=['Ratio::Ratio']),
]
