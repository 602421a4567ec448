from vp.spec import *
from vp.terms import *
BUILD = dict(harness='P01.cpp', sources=[])
M = 2**62
Fr = Fraction

def nearest(c):
    # 2|a - q b| <= |b|
    a, b, q = c.a, c.b, c.ret
    return [('quotient is nearest', And(2 * (a - q * b) <= Abs(b), 2 * (q * b - a) <= Abs(b))),
            ('halves away from zero', Implies(2 * Abs(a - q * b) == Abs(b), Abs(q * b) >= Abs(a)))]

TARGETS = [
    Target('round_divide_signed', 'h_round_divide_signed', [I('a', -M, M), I('b', -M, M)], nearest, lambda c: [c.b != 0], 'i64'),
    Target('ceil_divide_signed', 'h_ceil_divide_signed', [I('a', -M, M), I('b', -M, M)],
           lambda c: [('b>0', Implies(c.b > 0, And(c.ret * c.b >= c.a, (c.ret - 1) * c.b < c.a))), ('b<0', Implies(c.b < 0, And(c.ret * c.b <= c.a, (c.ret - 1) * c.b > c.a)))],
           lambda c: [c.b != 0], 'i64'),
    Target('floor_divide_signed', 'h_floor_divide_signed', [I('a', -M, M), I('b', -M, M)],
           lambda c: [('b>0', Implies(c.b > 0, And(c.ret * c.b <= c.a, (c.ret + 1) * c.b > c.a))), ('b<0', Implies(c.b < 0, And(c.ret * c.b >= c.a, (c.ret + 1) * c.b < c.a)))],
           lambda c: [c.b != 0], 'i64'),
    Target('round_divide', 'h_round_divide', [I('a', 0, M, ty='u64'), I('b', 1, M, ty='u64')],
           lambda c: [('nearest', And(2 * (c.a - c.ret * c.b) < c.b + 1, 2 * (c.ret * c.b - c.a) <= c.b))], None, 'u64'),
    Target('round_up_divide', 'h_round_up_divide', [I('a', 0, M, ty='u64'), I('b', 1, M, ty='u64')],
           lambda c: [('ceil', And(c.ret * c.b >= c.a, (c.ret - 1) * c.b < c.a))], None, 'u64'),
    Target('mm2int', 'h_mm2int', [D('mm', -10**9, 10**9)],
           lambda c: [('nearest micron', And(c.ret - c.mm * 1000 <= Fr(1, 2) + Fr(1, 1000), c.mm * 1000 - c.ret <= Fr(1, 2) + Fr(1, 1000)))], None, 'i64'),
    Target('roundtrip', 'h_roundtrip', [I('n', -10**12, 10**12)], lambda c: [('round trip', c.ret == c.n)], None, 'i64'),
    Target('lerp', 'h_lerp', [I('a', -10**9, 10**9), I('b', -10**9, 10**9), D('t', 0, 1)],
           lambda c: [('between', And(c.ret >= Min(c.a, c.b), c.ret <= Max(c.a, c.b))),
                      ('t=0', Implies(c.t == 0, c.ret == c.a)), ('t=1', Implies(c.t == 1, c.ret == c.b)),
                      ('linear', And(c.ret - (c.a + (c.b - c.a) * c.t) <= 1, (c.a + (c.b - c.a) * c.t) - c.ret <= 1))], None, 'i64'),
]
