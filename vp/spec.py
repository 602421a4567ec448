"""Contract language: parameters, targets, ghost recursion.  Every contract is evaluated both symbolically (by the prover)
and on concrete runs of the natively compiled real code (replay, differential validation)."""
import ctypes
import math
from fractions import Fraction
from . import terms as tm
from .terms import P, B, Poly, And, Or, Not, Implies, Iff, If, Min, Max, Abs, TRUE, FALSE, var, C, b2i
from .sym import Ptr, Region, Content, Arr, mark_fp, mval, Special, UNDEF
from . import ir

CT = {'i64': ctypes.c_int64, 'i32': ctypes.c_int32, 'i16': ctypes.c_int16, 'i8': ctypes.c_int8, 'u64': ctypes.c_uint64, 'u32': ctypes.c_uint32, 'u8': ctypes.c_uint8,
      'f64': ctypes.c_double, 'f32': ctypes.c_float, 'bool': ctypes.c_bool}
IRT = {'i64': ir.I64, 'i32': ir.I32, 'i16': ir.T('int', 16), 'i8': ir.I8, 'u64': ir.I64, 'u32': ir.I32, 'u8': ir.I8, 'f64': ir.F64, 'f32': ir.F32, 'bool': ir.I8}
SZ = {'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'u64': 8, 'u32': 4, 'u8': 1, 'f64': 8, 'f32': 4, 'bool': 1}
RNG = {'i64': (-2**63, 2**63 - 1), 'i32': (-2**31, 2**31 - 1), 'i16': (-2**15, 2**15 - 1), 'i8': (-128, 127), 'u64': (0, 2**64 - 1), 'u32': (0, 2**32 - 1), 'u8': (0, 255), 'bool': (0, 1)}


def isf(ty):
    return ty[0] == 'f'


def to_conc(ty, v):
    """native value -> exact Python number / bool"""
    if ty == 'bool':
        return bool(v)
    if isf(ty):
        if v != v or v in (math.inf, -math.inf):
            return Special('nan' if v != v else '+inf' if v > 0 else '-inf')
        return tm.norm(Fraction(v))
    return int(v)


def fround(v, ty):
    import struct
    if ty == 'f64':
        return float(v)
    return struct.unpack('f', struct.pack('f', float(v)))[0]


def gen_scalar(rng, ty, lo, hi, pool, edges=()):
    """edge-heavy random value in [lo, hi]"""
    if ty == 'bool':
        return rng.random() < 0.5
    k = rng.random()
    if edges and k < 0.1:
        return rng.choice(edges)
    if isf(ty):
        if k < 0.25:
            v = rng.randint(-4, 4)
        elif k < 0.4 and pool:
            v = rng.choice(pool)
            if rng.random() < 0.4:
                v = v + rng.choice([-1, 1, 0.5, -0.5])
        elif k < 0.5:
            v = rng.choice([lo, hi, 0])
        elif k < 0.75:
            v = rng.uniform(float(lo), float(hi))
        else:
            v = math.copysign(10 ** rng.uniform(-3, math.log10(max(abs(float(lo)), abs(float(hi)), 1e-2))), rng.random() - 0.5)
            if rng.random() < 0.3:
                v = round(v, 1)
        v = fround(v, ty)
        v = min(max(v, float(lo)), float(hi))
        return Fraction(fround(v, ty))
    if k < 0.3:
        v = rng.randint(-5, 5)
    elif k < 0.45 and pool:
        v = int(rng.choice(pool)) + rng.randint(-2, 2) * (rng.random() < 0.5)
        if rng.random() < 0.2:
            v = -v
    elif k < 0.55:
        v = rng.choice([lo, hi, lo + 1, hi - 1, 0])
    elif k < 0.7:
        v = rng.randint(-100, 100)
    elif k < 0.8:
        v = rng.randint(lo, hi)
    else:
        m = max(abs(lo), abs(hi), 2)
        v = int(math.copysign(2 ** rng.uniform(0, math.log2(m)), rng.random() - 0.5))
        if rng.random() < 0.2:
            v = v // 100 * 100
    if not (lo <= v <= hi):
        v = abs(v) if lo <= abs(v) <= hi else lo + (v - lo) % (hi - lo + 1)
    return v


class Param:
    post = None

    def concretize(self, model):
        raise NotImplementedError


class Num(Param):
    """scalar passed by value"""
    def __init__(self, name, ty, lo=None, hi=None, edges=(), gen=None):
        self.name, self.ty = name, ty
        r = RNG.get(ty, (None, None))
        self.lo = r[0] if lo is None else lo
        self.hi = r[1] if hi is None else hi
        self.edges = edges
        self._gen = gen

    def sym(self, ex, st):
        if self.ty == 'bool':
            v = var(self.name, True, 0, 1)
            b = B('le', P(1) - v)
            C.atoms[next(iter(v.atoms()))].boolval = b
            self.view = b
            self.v = v
            return [b]
        if self.lo is not None and self.lo == self.hi:
            v = P(self.lo)
        else:
            v = var(self.name, not isf(self.ty), self.lo, self.hi)
        if isf(self.ty) and not v.is_const():
            mark_fp(v, 53 if self.ty == 'f64' else 24)
        self.v = self.view = v
        if self.ty[0] == 'u' and self.hi > RNG['i' + self.ty[1:]][1]:
            return [ex.tos(v, SZ[self.ty] * 8)]
        return [v]

    def concretize(self, model):
        x = mval(model, self.v)
        if self.ty == 'bool':
            return bool(x)
        if isf(self.ty):
            return Fraction(fround(x, self.ty))
        return int(x)

    def const(self, ex, st, val):
        if self.ty == 'bool':
            return [tm.bc(val)]
        if self.ty[0] == 'u':
            return [ex.tos(P(int(val)), SZ[self.ty] * 8)]
        return [P(val)]

    def cview(self, val):
        return val if isinstance(val, bool) else tm.norm(Fraction(val))

    def gen(self, rng, pool):
        if self._gen:
            v = self._gen(rng)
        else:
            v = gen_scalar(rng, self.ty, self.lo, self.hi, pool, self.edges)
        if not isinstance(v, bool):
            pool.append(v)
        return v

    def native(self, val, keep):
        return [CT[self.ty](float(val) if isf(self.ty) else val)]

    def argtypes(self):
        return [CT[self.ty]]


def I(name, lo=None, hi=None, ty='i64', **k):
    return Num(name, ty, lo, hi, **k)


def D(name, lo, hi, **k):
    return Num(name, 'f64', lo, hi, **k)


def F(name, lo, hi, **k):
    return Num(name, 'f32', lo, hi, **k)


def Bool(name):
    return Num(name, 'bool')


class Cells(Param):
    """pointer to a fixed number of scalar cells; rw: 'in' (symbolic contents), 'out' (undefined on entry), 'io'"""
    def __init__(self, name, ty, count, rw='out', lo=None, hi=None):
        self.name, self.ty, self.count, self.rw = name, ty, count, rw
        r = RNG.get(ty, (None, None))
        self.lo = r[0] if lo is None else lo
        self.hi = r[1] if hi is None else hi

    def sym(self, ex, st, vals=None):
        s = SZ[self.ty]
        r = ex.new_region(st, self.name, s * self.count)
        self.region = r
        c = ex.wcontent(st, r)
        self.vs = []
        if self.rw != 'out':
            for i in range(self.count):
                if vals is not None:
                    v = P(vals[i]) if not isinstance(vals[i], bool) else P(int(vals[i]))
                else:
                    v = var('%s%d' % (self.name, i), not isf(self.ty), self.lo, self.hi)
                    if isf(self.ty):
                        mark_fp(v, 53 if self.ty == 'f64' else 24)
                self.vs.append(v)
                c.cells[i * s] = (s, v if self.ty[0] != 'u' else ex.tos(v, s * 8))
        self.view = list(self.vs)
        return [Ptr(r, 0)]

    def const(self, ex, st, val):
        return self.sym(ex, st, vals=val)

    def after(self, ex, st):
        s = SZ[self.ty]
        out = []
        for i in range(self.count):
            v = ex.load(st, Ptr(self.region, i * s), IRT[self.ty], check=False)
            if self.ty == 'bool' and v is not UNDEF:
                v = tm.as_bool(v)
            out.append(v)
        return out

    def concretize(self, model):
        if self.rw == 'out':
            return [0] * self.count
        return [Fraction(fround(mval(model, v), self.ty)) if isf(self.ty) else int(mval(model, v)) for v in self.vs]

    def gen(self, rng, pool):
        if self.rw == 'out':
            return [0] * self.count
        r = []
        for _ in range(self.count):
            v = gen_scalar(rng, self.ty, self.lo, self.hi, pool)
            pool.append(v)
            r.append(v)
        return r

    def cview(self, val):
        return [tm.norm(Fraction(v)) for v in val]

    def native(self, val, keep):
        a = (CT[self.ty] * self.count)()
        for i, v in enumerate(val):
            a[i] = float(v) if isf(self.ty) else (bool(v) if self.ty == 'bool' else int(v))
        keep.append(a)
        self._a = a
        return [ctypes.cast(a, ctypes.c_void_p)]

    def native_after(self):
        return [to_conc(self.ty, x) for x in self._a]

    def argtypes(self):
        return [ctypes.c_void_p]


def Out(name, ty, count):
    return Cells(name, ty, count, 'out')


class VecView:
    def __init__(self, n, get):
        self.n = n
        self.get = get

    def __call__(self, f, i):
        return self.get(f, i)


libc = ctypes.CDLL(None)
libc.malloc.restype = ctypes.c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]
libc.free.argtypes = [ctypes.c_void_p]


class Vec(Param):
    """pointer to a std::vector<S> (libstdc++ header of three pointers) whose elements are structs of scalar fields"""
    def __init__(self, name, fields, stride, nmin=0, nmax=2 ** 31, gen_n=7, gen=None, elem=None):
        # fields: [(fname, offset, ty, lo, hi)]
        self.name, self.fields, self.stride, self.nmin, self.nmax, self.gen_n, self._gen, self.elem = name, fields, stride, nmin, nmax, gen_n, gen, elem

    def sym(self, ex, st, vals=None):
        self.hdr = ex.new_region(st, self.name + '.header', 24)
        if vals is None:
            self.n = var(self.name + '.n', True, self.nmin, self.nmax)
        else:
            self.n = P(len(vals))
        self.data = ex.new_region(st, self.name + '.data', self.n * self.stride)
        self.data.stride = self.stride
        c = ex.wcontent(st, self.data)
        c.stride = self.stride
        self.read = {}
        for fn, off, ty, lo, hi in self.fields:
            r = RNG.get(ty, (None, None))
            lo = r[0] if lo is None else lo
            hi = r[1] if hi is None else hi
            if vals is None:
                def rd(idx, fn=fn, ty=ty, lo=lo, hi=hi):
                    v = tm.uf('%s_%s' % (self.name, fn), [idx], not isf(ty), lo, hi)
                    if isf(ty):
                        mark_fp(v, 53 if ty == 'f64' else 24)
                    return v
            else:
                col = [P(v[fn]) for v in vals]
                def rd(idx, col=col):
                    if P(idx).is_const() and 0 <= P(idx).const() < len(col):
                        return col[int(P(idx).const())]
                    raise IndexError('concrete vector read')
            self.read[fn] = rd
            c.fields[off] = (SZ[ty], Arr('base', rd))
            if isf(ty):
                c.fields[off] = (SZ[ty], Arr('base', rd))
        h = ex.wcontent(st, self.hdr)
        h.cells[0] = (8, Ptr(self.data, 0))
        h.cells[8] = (8, Ptr(self.data, self.n * self.stride))
        h.cells[16] = (8, Ptr(self.data, self.n * self.stride))
        self.view = VecView(self.n, lambda f, i: self.read[f](P(i)))
        return [Ptr(self.hdr, 0)]

    def const(self, ex, st, val):
        return self.sym(ex, st, vals=val)

    def concretize(self, model):
        n = int(mval(model, self.n))
        if n > 64:
            raise ValueError('counterexample vector too long')
        out = []
        for i in range(n):
            d = {}
            for fn, off, ty, lo, hi in self.fields:
                r = RNG.get(ty, (None, None))
                lo = r[0] if lo is None else lo
                hi = r[1] if hi is None else hi
                v = mval(model, self.read[fn](P(i)))
                v = max(lo, min(hi, v)) if lo is not None else v
                d[fn] = Fraction(fround(v, ty)) if isf(ty) else int(v)
            out.append(d)
        return out

    def gen(self, rng, pool):
        if self._gen:
            return self._gen(rng)
        n = rng.randint(self.nmin, max(self.nmin, min(self.gen_n, self.nmax)))
        out = []
        big = rng.random() < 0.5
        for i in range(n):
            d = {}
            for fn, off, ty, lo, hi in self.fields:
                r = RNG.get(ty, (None, None))
                lo_ = r[0] if lo is None else lo
                hi_ = r[1] if hi is None else hi
                if not big and not isf(ty):
                    v = rng.randint(max(lo_, -6), min(hi_, 6)) if lo_ <= 6 and hi_ >= -6 else gen_scalar(rng, ty, lo_, hi_, pool)
                else:
                    v = gen_scalar(rng, ty, lo_, hi_, pool)
                d[fn] = v
                if len(pool) < 12:
                    pool.append(v)
            out.append(d)
        return out

    def cview(self, val):
        return VecView(len(val), lambda f, i: tm.norm(Fraction(val[int(i)][f])))

    def native(self, val, keep):
        n = len(val)
        buf = libc.malloc(max(n, 1) * self.stride)
        ctypes.memset(buf, 0, max(n, 1) * self.stride)
        for i, d in enumerate(val):
            for fn, off, ty, lo, hi in self.fields:
                CT[ty].from_address(buf + i * self.stride + off).value = float(d[fn]) if isf(ty) else int(d[fn])
        h = (ctypes.c_uint64 * 3)(buf, buf + n * self.stride, buf + n * self.stride)
        keep.append(h)
        self._h = h
        return [ctypes.cast(h, ctypes.c_void_p)]

    def native_release(self):
        if self._h[0]:
            libc.free(self._h[0])

    def argtypes(self):
        return [ctypes.c_void_p]


def PointVec(name, m, **k):
    return Vec(name, [('X', 0, 'i64', -m, m), ('Y', 8, 'i64', -m, m)], 16, **k)


class OutVec(Vec):
    """empty std::vector<S> the entry fills in; native runs (bounded stand-ins) only"""
    def gen(self, rng, pool):
        return []

    def native(self, val, keep):
        h = (ctypes.c_uint64 * 3)(0, 0, 0)
        keep.append(h)
        self._h = h
        return [ctypes.cast(h, ctypes.c_void_p)]

    def native_after(self):
        b, e = self._h[0], self._h[1]
        n = (e - b) // self.stride
        out = [{fn: to_conc(ty, CT[ty].from_address(b + i * self.stride + off).value) for fn, off, ty, lo, hi in self.fields} for i in range(n)]
        return VecView(n, lambda f, i: out[int(i)][f])


def OutPoints(name):
    return OutVec(name, [('X', 0, 'i64', None, None), ('Y', 8, 'i64', None, None)], 16)


class Ns:
    pass


def rec(name, init, step, deps=(), isint=True, fuel=1, lo=None, hi=None, top=None, forward=0):
    """ghost function G with G(0)=init, G(k+1)=step(k, G(k)); works symbolically and concretely"""
    memo = {}
    # top: index for which the partial values are known not to exceed G(top) (the contract proves 'step >= 0' as an obligation of its own: grows(G))

    def G(k, depth=0, fw=0):
        if not isinstance(k, Poly):
            k = int(k)
            if k <= 0:
                return init
            acc = init
            for i in range(k):
                acc = step(i, acc)
            return acc
        if k.is_const() and k.const() <= 0:
            return P(init)
        if k.is_const() and k.const() <= 40:
            r = P(init)
            for i in range(int(k.const())):
                r = step(P(i), r)
            return r
        g = tm.uf(name, [k], isint, lo, hi)
        if depth < fuel and k.key not in memo:
            memo[k.key] = True
            a = C.atoms[next(iter(g.t))[0]]
            def facts():
                prev = G(k - 1, depth + 1)
                more = []
                if top is not None and k.key != P(top).key:
                    t = G(P(top))
                    more = [Implies(k <= top, g <= t)]
                if fw < forward and (top is None or k.key != P(top).key):
                    nx = G(k + 1, depth, fw + 1)
                    more.append(Implies(k >= 0, tm.eq0(nx - step(k, g))))
                return more + [Implies(k <= 0, tm.eq0(g - init)), Implies(k > 0, tm.eq0(g - step(k - 1, prev)))]
            a.lazy = facts
        return g
    G.step = step
    return G


def grows(G):
    k, a = var('anyindex', True, 0, 2 ** 31), var('anyvalue', True)
    return G.step(k, a) >= a


def exists_rec(name, pred):
    """ghost E(k) == exists i<k: pred(i), as 0/1"""
    return rec(name, 0, lambda i, acc: If(pred(i), 1, acc), lo=0, hi=1)


class Target:
    def __init__(self, name, entry, params, ensures, requires=None, ret='void', setup=None, throws=False, gen=None, bounded=None, timeout=200, samples=None, opts=None, note=None, fn=None, allow_nan=False, thorough_only=False):
        self.name, self.entry, self.params, self.ensures, self.requires, self.ret, self.setup, self.throws = name, entry, params, ensures, requires, ret, setup, throws
        self.gen = gen
        self.bounded = bounded      # None, or text stating the bound: native bounded stand-in, never counted as proved
        self.timeout = timeout
        self.samples = samples
        self.opts = opts or {}
        self.note = note
        self.fn = fn or []          # real functions this contract is about
        self.allow_nan = allow_nan
        self.thorough_only = thorough_only
