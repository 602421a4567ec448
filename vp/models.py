"""Models (assumed contracts) of functions whose bodies are outside /repo: libc, libm, libstdc++ runtime, LLVM intrinsics."""
import math
import struct
import re
from fractions import Fraction
from . import terms as tm
from .terms import P, B, Poly, And, Or, Not, Implies, If, Min, Max, Abs, TRUE, FALSE, b2i, as_bool, var, C
from .ir import I64


def lookup(ex, name, dn):
    f = TABLE.get(name)
    if f is None and name.startswith('llvm.'):
        base = name
        while base and base not in INTR:
            base = base.rpartition('.')[0]
        f = INTR.get(base)
        if f is None:
            from .sym import Unsupported
            raise Unsupported('intrinsic ' + name)
    if f is None:
        for rx, g in PATTERNS:
            if rx.match(name):
                f = g
                break
    if f is not None and f not in QUIET:
        ex.used_models.add(name)
    return f


def prec_of(ins):
    return 53 if ins.ty.n == 64 else 24 if ins.ty.n == 32 else 64


def fin(x):
    from .sym import Special, Unsupported
    if isinstance(x, Special):
        raise Unsupported('math function of a non-finite value')
    return P(x)


def m_sqrt(ex, st, ins, a):
    from .sym import rnd
    x = fin(a[0])
    ex.oblige(st, x >= 0, 'sqrt of a non-negative number')
    if x.is_const():
        v = math.sqrt(float(x.const()))
        if prec_of(ins) == 24:
            v = struct.unpack('f', struct.pack('f', v))[0]     # rounding a double square root once more is harmless
        return P(Fraction(v))
    return rnd(ex, tm.rsqrt(x), prec_of(ins))


def cv(ex, st, t, n):
    half = 1 << (n - 1)
    ex.oblige(st, And(t >= -half, t < half), 'float-to-integer conversion in range')
    return t


def m_lrint(ex, st, ins, a):
    return cv(ex, st, tm.rint_(fin(a[0])), ins.ty.n)


def m_rint(ex, st, ins, a):
    return tm.rint_(fin(a[0]))


def round_away(x):
    h = Fraction(1, 2)
    if x.is_const():
        c = Fraction(x.const())
        return P(math.floor(c + h) if c >= 0 else -math.floor(-c + h))
    return If(x >= 0, tm.floor_(x + h), -tm.floor_(-x + h))


def m_lround(ex, st, ins, a):
    return cv(ex, st, round_away(fin(a[0])), ins.ty.n)


def m_round(ex, st, ins, a):
    return round_away(fin(a[0]))


def m_floor(ex, st, ins, a):
    return tm.floor_(fin(a[0])) if not fin(a[0]).is_const() else P(math.floor(Fraction(a[0].const())))


def m_ceil(ex, st, ins, a):
    x = -fin(a[0])
    return -(tm.floor_(x) if not x.is_const() else P(math.floor(Fraction(x.const()))))


def m_trunc(ex, st, ins, a):
    x = fin(a[0])
    return tm.trunc_(x) if not x.is_const() else P(int(Fraction(x.const())))


def m_fabs(ex, st, ins, a):
    from .sym import Special
    if isinstance(a[0], Special):
        return Special('nan' if a[0].k == 'nan' else '+inf')
    r = Abs(fin(a[0]))
    C.cache.setdefault('fprep', {}).setdefault(r.key, prec_of(ins))
    return r


def m_fmin(ex, st, ins, a):
    r = Min(fin(a[0]), fin(a[1]))
    C.cache.setdefault('fprep', {}).setdefault(r.key, prec_of(ins))
    return r


def m_fmax(ex, st, ins, a):
    r = Max(fin(a[0]), fin(a[1]))
    C.cache.setdefault('fprep', {}).setdefault(r.key, prec_of(ins))
    return r


def m_fmod(ex, st, ins, a):
    return ex.fmod(st, fin(a[0]), fin(a[1]))


def trig(which):
    def f(ex, st, ins, a):
        from .sym import mark_fp
        x = fin(a[0])
        if x.is_const():
            return P(Fraction(getattr(math, which)(float(x.const()))))
        ck = ('trig', x.key)
        r = C.cache.get(ck)
        if r is None:
            s = C.fresh('sin', False, -1, 1)
            c = C.fresh('cos', False, -1, 1)
            sp, cp = mark_fp(P(s)), mark_fp(P(c))
            eps = Fraction(1, 2 ** 51)
            facts = [sp * sp + cp * cp <= 1 + eps, sp * sp + cp * cp >= 1 - eps]
            s.facts = facts
            c.facts = facts
            C.cache[ck] = r = (sp, cp)
            ex.assume_note('libm: sin/cos results lie within 2^-51 of the unit circle (faithful rounding)')
        return r[0] if which == 'sin' else r[1]
    return f


def opaque(name, lo=None, hi=None, conc=None, facts=None):
    def f(ex, st, ins, a):
        from .sym import mark_fp
        xs = [fin(x) for x in a]
        if conc and all(x.is_const() for x in xs):
            return P(Fraction(conc(*[float(x.const()) for x in xs])))
        ex.assume_note('libm: %s is an uninterpreted function with its range facts only' % name)
        ck = ('libm', name, tuple(x.key for x in xs))
        r = C.cache.get(ck)
        if r is None:
            at = C.fresh(name, False, lo, hi)
            r = mark_fp(P(at))
            if facts:
                at.facts = [x for x in facts(r, *xs) if x.k != 'const']
            C.cache[ck] = r
        return r
    return f


PI_UP = Fraction(math.pi) 
SLACK = Fraction(1, 10 ** 14)
HALF_PI = PI_UP / 2 + SLACK
m_atan2 = opaque('atan2', -PI_UP, PI_UP, math.atan2,
                 lambda r, y, x: [Implies(y > 0, r >= 0), Implies(y < 0, r <= 0), Implies(And(tm.eq0(y), x > 0), tm.eq0(r)),
                                  Implies(And(y > 0), r > 0), Implies(y < 0, r < 0),
                                  Implies(x >= 0, And(r <= HALF_PI, r >= -HALF_PI)), Implies(And(x <= 0, y > 0), r >= HALF_PI - SLACK), Implies(And(x <= 0, y < 0), r <= SLACK - HALF_PI),
                                  Implies(And(tm.eq0(y), x < 0), r >= PI_UP - SLACK)])
m_acos = opaque('acos', 0, PI_UP, math.acos)
m_pow = opaque('pow', None, None, math.pow, lambda r, x, y: [Implies(x >= 0, r >= 0), Implies(And(x >= 0, x <= 1, y >= 0), r <= 1), Implies(And(x >= 1, y >= 0), r >= 1), Implies(tm.eq0(y), tm.eq0(r - 1)), Implies(tm.eq0(y - 1), tm.eq0(r - x)), Implies(And(tm.eq0(x), y > 0), tm.eq0(r))])
m_exp = opaque('exp', 0, None, math.exp, lambda r, x: [Implies(x <= 0, r <= 1), Implies(x >= 0, r >= 1)])
m_log = opaque('log', None, None, math.log, lambda r, x: [Implies(x <= 1, r <= 0), Implies(x >= 1, r >= 0)])
m_tan = opaque('tan', None, None, math.tan)
m_atan = opaque('atan', -PI_UP / 2, PI_UP / 2, math.atan)
m_asin = opaque('asin', -PI_UP / 2, PI_UP / 2, math.asin)


def m_hypot(ex, st, ins, a):
    from .sym import rnd
    x, y = fin(a[0]), fin(a[1])
    ex.assume_note('libm: hypot is within one rounding of sqrt(x*x+y*y)')
    return rnd(ex, tm.rsqrt(x * x + y * y), prec_of(ins))


def nop(ex, st, ins, a):
    return None


def first(ex, st, ins, a):
    return a[0]


def m_memcpy(ex, st, ins, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


def m_memset(ex, st, ins, a):
    from .sym import Unsupported
    d, v, n = a[0], a[1], a[2]
    if not (v.is_const() and v.const() == 0):
        raise Unsupported('memset of a non-zero value')
    c = ex.wcontent(st, d.r)
    if not n.is_const():
        # array zero fill
        if d.o.t or c.fields or c.cells:
            raise Unsupported('symbolic memset of used memory')
        if d.r.size is not None:
            ex.oblige(st, n <= d.r.size, 'memset in bounds')
        c.zero.append((0, 1 << 62))
        return a[0]
    n = int(n.const())
    if d.r.size is not None:
        ex.oblige(st, And(d.o >= 0, d.o + n <= d.r.size), 'memset in bounds')
    if n == 0:
        return a[0]
    if c.stride is None and d.o.is_const() and not d.r.stride:
        o = int(d.o.const())
        for k in list(c.cells):
            s = c.cells[k][0]
            if o <= k and k + s <= o + n:
                del c.cells[k]
            elif k < o + n and o < k + s:
                raise Unsupported('memset splits a cell')
        c.zero.append((o, o + n))
        return a[0]
    from .sym import Ptr
    if c.stride and n % 1 == 0:
        for f, (sz, arr) in list(c.fields.items()):
            if f + sz <= n:
                ex.store_raw(st, Ptr(d.r, d.o + f), sz, P(0))
        return a[0]
    raise Unsupported('memset on array memory')


def m_new(ex, st, ins, a):
    from .sym import Ptr, Unsupported
    n = a[0]
    r = ex.new_region(st, 'heap%d' % len(ex._regions), n)
    return Ptr(r, 0)


def m_throw(ex, st, ins, a):
    return ('throw',)


def m_abort(ex, st, ins, a):
    ex.oblige(st, FALSE, 'program does not abort', assume=False)
    return ('end', 'abort')


def minmax(kind):
    def f(ex, st, ins, a):
        x, y = a[0], a[1]
        if kind[0] == 'u':
            ux, uy = ex.tou(x, ins.ty.n), ex.tou(y, ins.ty.n)
            c = ux <= uy
        else:
            c = x <= y
        return If(c, x, y) if kind.endswith('min') else If(c, y, x)
    return f


def m_abs(ex, st, ins, a):
    x = a[0]
    half = 1 << (ins.ty.n - 1)
    lo, hi = x.iv()
    if not (lo is not None and lo > -half):
        ex.oblige(st, x > -half, 'no overflow in abs')
    return Abs(x)


def with_ovf(op, signed):
    def f(ex, st, ins, a):
        x, y = a
        n = ins.ty.e[0].n
        if not signed:
            x, y = ex.tou(x, n), ex.tou(y, n)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        o = Not(And(r >= lo, r <= hi))
        if o.k == 'const' and not o.v:
            return (r if signed else ex.tos(r, n), o)
        w = var('ovf', True, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        k = var('ovk', True)
        C.atoms[next(iter(w.atoms()))].facts = [tm.eq0(w + k * (1 << n) - r)] + ([Or(o, tm.eq0(w - r))] if signed else [])
        return (w, o)
    return f


def m_objsize(ex, st, ins, a):
    return P(-1)


def m_fcopysign(ex, st, ins, a):
    m = Abs(fin(a[0]))
    return If(fin(a[1]) >= 0, m, -m)


def m_strlen(ex, st, ins, a):
    """length of a constant / fully concrete C string"""
    from .sym import Ptr, Unsupported, UNDEF
    from .ir import I8
    p = a[0]
    i = 0
    while i < 4096:
        v = ex.load(st, Ptr(p.r, p.o + i), I8)
        if v is UNDEF or not isinstance(v, Poly) or not v.is_const():
            raise Unsupported('strlen of symbolic memory')
        if v.const() == 0:
            return P(i)
        i += 1
    raise Unsupported('strlen')


def m_memcmp(ex, st, ins, a):
    from .sym import Ptr, Unsupported, UNDEF
    from .ir import I8
    n = a[2]
    if not n.is_const() or n.const() > 64:
        raise Unsupported('memcmp of symbolic length')
    r = P(0)
    for i in range(int(n.const()) - 1, -1, -1):
        x = ex.tou(ex.load(st, Ptr(a[0].r, a[0].o + i), I8), 8)
        y = ex.tou(ex.load(st, Ptr(a[1].r, a[1].o + i), I8), 8)
        r = If(tm.eq0(x - y), r, If(x < y, P(-1), P(1)))
    return r


TABLE = {
    'sqrt': m_sqrt, 'sqrtf': m_sqrt, 'llrint': m_lrint, 'lrint': m_lrint, 'llrintf': m_lrint, 'lrintf': m_lrint, 'llround': m_lround, 'lround': m_lround,
    'llroundf': m_lround, 'lroundf': m_lround, 'round': m_round, 'roundf': m_round, 'rint': m_rint, 'nearbyint': m_rint, 'floor': m_floor, 'floorf': m_floor,
    'ceil': m_ceil, 'ceilf': m_ceil, 'trunc': m_trunc, 'truncf': m_trunc, 'fabs': m_fabs, 'fabsf': m_fabs, 'fmin': m_fmin, 'fmax': m_fmax, 'fminf': m_fmin, 'fmaxf': m_fmax,
    'fmod': m_fmod, 'fmodf': m_fmod, 'sin': trig('sin'), 'cos': trig('cos'), 'atan2': m_atan2, 'acos': m_acos, 'pow': m_pow, 'powf': m_pow, 'exp': m_exp, 'log': m_log, 'tan': m_tan, 'atan': m_atan, 'asin': m_asin,
    'hypot': m_hypot, 'hypotf': m_hypot, 'abs': m_abs, 'labs': m_abs, 'llabs': m_abs,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen, 'memcmp': m_memcmp, 'bcmp': m_memcmp,
    '_Znwm': m_new, '_Znam': m_new, '_ZdlPv': nop, '_ZdlPvm': nop, '_ZdaPv': nop, 'free': nop, '_ZdaPvm': nop,
    'abort': m_abort, '_ZSt9terminatev': m_abort, '__assert_fail': m_abort, 'exit': m_abort, '__cxa_throw': m_throw, '__cxa_rethrow': m_throw, '__cxa_pure_virtual': m_abort,
    '__cxa_begin_catch': nop, '__cxa_end_catch': nop, '__cxa_atexit': nop, '__cxa_guard_acquire': lambda ex, st, ins, a: P(1), '__cxa_guard_release': nop,
    '__cxa_allocate_exception': m_new,
}
INTR = {
    'llvm.lifetime.start': nop, 'llvm.lifetime.end': nop, 'llvm.dbg': nop, 'llvm.assume': lambda ex, st, ins, a: st.assume(a[0]) if isinstance(a[0], B) else None,
    'llvm.expect': first, 'llvm.memcpy': m_memcpy, 'llvm.memmove': m_memcpy, 'llvm.memset': m_memset, 'llvm.sqrt': m_sqrt, 'llvm.fabs': m_fabs, 'llvm.floor': m_floor,
    'llvm.ceil': m_ceil, 'llvm.trunc': m_trunc, 'llvm.rint': m_rint, 'llvm.nearbyint': m_rint, 'llvm.round': m_round, 'llvm.lrint': m_lrint, 'llvm.llrint': m_lrint,
    'llvm.lround': m_lround, 'llvm.llround': m_lround, 'llvm.minnum': m_fmin, 'llvm.maxnum': m_fmax, 'llvm.smin': minmax('smin'), 'llvm.smax': minmax('smax'), 'llvm.umin': minmax('umin'),
    'llvm.umax': minmax('umax'), 'llvm.abs': m_abs, 'llvm.trap': m_abort, 'llvm.objectsize': m_objsize, 'llvm.copysign': m_fcopysign, 'llvm.pow': m_pow, 'llvm.sin': trig('sin'), 'llvm.cos': trig('cos'),
    'llvm.sadd.with.overflow': with_ovf('add', True), 'llvm.ssub.with.overflow': with_ovf('sub', True), 'llvm.smul.with.overflow': with_ovf('mul', True),
    'llvm.uadd.with.overflow': with_ovf('add', False), 'llvm.usub.with.overflow': with_ovf('sub', False), 'llvm.umul.with.overflow': with_ovf('mul', False),
    'llvm.is.constant': lambda ex, st, ins, a: FALSE, 'llvm.stacksave': nop, 'llvm.stackrestore': nop, 'llvm.eh.typeid.for': lambda ex, st, ins, a: P(0), 'llvm.experimental.noalias.scope.decl': nop,
}
PATTERNS = [
    (re.compile(r'_ZSt\d+__throw_'), m_throw),
    (re.compile(r'_ZSt\d+__glibcxx_assert_fail'), m_abort),
]
QUIET = {nop, first, m_memcpy, m_memset, INTR['llvm.assume']}
