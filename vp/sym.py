"""Symbolic executor / verification-condition generator over LLVM IR of the real code."""
import math
import os
import re
import struct
import sys
import time
from fractions import Fraction
from . import terms as tm
from .terms import P, B, Poly, And, Or, Not, Implies, Iff, If, Min, Max, Abs, TRUE, FALSE, bc, b2i, as_bool, var, C
from .ir import T, I1, I8, I64, PTR, F64

sys.setrecursionlimit(20000)


TRACE = os.environ.get('VP_TRACE')


class Unsupported(Exception):
    pass


class Special:
    """non-finite floating-point constant"""
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'fp(%s)' % self.k


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Region:
    _n = 0

    def __init__(self, name, kind='mem', size=None):
        Region._n += 1
        self.id = Region._n
        self.name = name
        self.kind = kind        # mem / fn / extern
        self.size = size        # bytes: Poly / int / None (unknown)
        self.stride = None      # forced element stride
        self.const = False

    def __repr__(self):
        return 'R%d(%s)' % (self.id, self.name)


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r
        self.o = P(o)

    def __repr__(self):
        return '&%r+%r' % (self.r, self.o)


NULL = Ptr(None, 0)


class Arr:
    """array contents: kind base(read: idx->value) | zero | store(prev,idx,val) | copy(src,shift,lo,hi,prev)"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k = k
        self.a = a


def arr_get(a, idx, depth=0):
    if depth > 400:
        raise Unsupported('long store chain')
    k = a.k
    if k == 'base':
        return a.a[0](idx)
    if k == 'zero':
        return P(0)
    if k == 'undef':
        return UNDEF
    if k == 'store':
        prev, i, v = a.a
        d = idx - i
        if not d.t:
            return v
        c = tm.eq0(d)
        if c.k == 'const' and not c.v:
            return arr_get(prev, idx, depth + 1)
        rest = arr_get(prev, idx, depth + 1)
        if rest is UNDEF:
            return v
        return vite(c, v, rest)
    if k == 'copy':
        src, shift, lo, hi, prev = a.a
        inside = And(idx >= lo, idx < hi)
        if inside.k == 'const':
            return arr_get(src, idx - shift, depth + 1) if inside.v else arr_get(prev, idx, depth + 1)
        return vite(inside, arr_get(src, idx - shift, depth + 1), arr_get(prev, idx, depth + 1))
    raise Unsupported('arr ' + k)


class CPtr:
    """a pointer to one of two objects, depending on a condition that is not decided yet (target option 'merge')"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def leaves(self):
        for x in (self.a, self.b):
            if isinstance(x, CPtr):
                yield from x.leaves()
            else:
                yield x

    def map(self, f):
        return CPtr(self.c, *[x.map(f) if isinstance(x, CPtr) else f(x) for x in (self.a, self.b)])


def implied(c, v):
    """(condition, truth) pairs that follow from condition c being v"""
    if isinstance(c, B) and c.k == 'not':
        c, v = c.v, not v
    out = [(c, v)]
    if c.k in ('lt', 'eq', 'le'):
        e = c.v
        lt, gt, eq = tm.lt0(e), tm.lt0(-e), tm.eq0(e)
        if c.key == lt.key:
            out += [(gt, False), (eq, False)] if v else []
        elif c.key == gt.key:
            out += [(lt, False), (eq, False)] if v else []
        elif c.key == eq.key:
            out += [(lt, False), (gt, False)] if v else []
    out += [(Not(x), not t) for x, t in out]
    return {x.key: t for x, t in out if x.k != 'const'}


def evalb(b, known):
    """truth of a formula under known truths of its comparisons: True, False or an undecided comparison"""
    if b.k == 'const':
        return bool(b.v)
    t = known.get(b.key)
    if t is not None:
        return t
    if b.k == 'not':
        t = evalb(b.v, known)
        return t if isinstance(t, B) else not t
    if b.k in ('and', 'or'):
        first = None
        for x in b.v:
            t = evalb(x, known)
            if isinstance(t, B):
                first = t if first is None else first
            elif t == (b.k == 'or'):
                return t
        return first if first is not None else b.k == 'and'
    return b


def learn(known, c, v):
    k = {**known, **implied(c, v)}
    if c.k in ('lt', 'eq', 'le'):
        # one of less, equal and greater holds
        e = c.v
        three = [tm.lt0(e), tm.eq0(e), tm.lt0(-e)]
        und = [x for x in three if k.get(x.key) is not False]
        if len(und) == 1:
            k.update(implied(und[0], True))
    return k


def cases(x, f, depth=8, known={}):
    """f of a number that is one of a few constants, as a decision on the comparisons it depends on; None if it is not of that form"""
    if x.is_const():
        return f(x.const())
    m = next((m for m in x.t if m), None)
    if depth == 0 or len(m) != 1 or len(x.t) - 1 != (() in x.t):
        return None
    at, k, c = C.atoms[m[0]], x.t.get((), 0), x.t[m]
    if at.boolval is not None:
        a, b, cond = P(k + c), P(k), at.boolval
    elif at.info and at.info[0] == 'ite':
        cond = at.info[1]
        a, b = at.info[2] * c + k, at.info[3] * c + k
        if not all(z.is_const() or (len(z.t) - (() in z.t) == 1) for z in (a, b)):
            return None
    else:
        return None
    t = evalb(cond, known)
    if not isinstance(t, B):
        return cases(a if t else b, f, depth, known)
    a, b = cases(x, f, depth - 1, learn(known, t, True)), cases(x, f, depth - 1, learn(known, t, False))
    if a is None or b is None:
        return None
    return a if a.key == b.key else And(Or(Not(t), a), Or(t, b))


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


def vite(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return If(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return If(c, a, b)
    if isinstance(a, B) and isinstance(b, Poly):
        return If(c, b2i(a), b)
    if isinstance(b, B) and isinstance(a, Poly):
        return If(c, a, b2i(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        g = 0
        for o in (a.o, b.o):
            for k in P(o).t.values():
                g = tm._gcd(g, int(k))
        return Ptr(a.r, If(c, P(a.o) / g, P(b.o) / g) * g if g > 1 else If(c, a.o, b.o))
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    c = tm.tob(c)
    if c.k == 'const':
        return a if c.v else b
    raise Unsupported('merge of %r and %r' % (a, b))


class Content:
    __slots__ = ('cells', 'zero', 'stride', 'fields', 'lazy')

    def __init__(self):
        self.cells = {}
        self.zero = []
        self.stride = None
        self.fields = {}     # field offset -> (size, Arr)
        self.lazy = None     # (off,size,ty)->value : initial contents on demand

    def copy(self):
        c = Content()
        c.cells = dict(self.cells)
        c.zero = list(self.zero)
        c.stride = self.stride
        c.fields = dict(self.fields)
        c.lazy = self.lazy
        return c


class Frame:
    __slots__ = ('func', 'regs', 'block', 'prev', 'ip', 'call', 'allocas')

    def __init__(self, func):
        self.func = func
        self.regs = {}
        self.block = func.entry
        self.prev = None
        self.ip = 0
        self.call = None
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.func, f.block, f.prev, f.ip, f.call = self.func, self.block, self.prev, self.ip, self.call
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ('frames', 'mem', 'path', 'pk', 'status', 'ret', 'trace', 'ghost')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.path = []
        self.pk = set()
        self.status = None
        self.ret = None
        self.trace = ()
        self.ghost = {}

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.path = list(self.path)
        s.pk = set(self.pk)
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s

    def assume(self, b):
        b = tm.tob(b)
        if b.k == 'const':
            if not b.v and 'const-false' not in self.pk:
                self.pk.add('const-false')
                self.path.append(b)
            return
        if b.k == 'and':
            for x in b.v:
                self.assume(x)
            return
        if b.key not in self.pk:
            self.pk.add(b.key)
            self.path.append(b)

    @property
    def top(self):
        return self.frames[-1]


class LV:
    """loop-varying quantity"""
    def __init__(self, name, kind, val, entry, bits=None, region=None, stride=None, ptr=None):
        self.name, self.kind, self.val, self.entry, self.bits, self.region, self.stride, self.ptr = name, kind, val, entry, bits, region, stride, ptr

    @property
    def idx(self):
        """element index of an iterator"""
        return self.ptr.o / self.region.stride if self.region is not None and self.region.stride else None


class LoopView:
    def __init__(self, ex, st, fn, header, lvs, entry):
        self.ex, self.st, self.fn, self.header, self.lvs, self.entry = ex, st, fn, header, lvs, entry
        self.args = ex.args
        self.ghosts = ex.ghosts

    @property
    def ints(self):
        return [l for l in self.lvs if l.kind == 'int']

    @property
    def reals(self):
        return [l for l in self.lvs if l.kind == 'real']

    @property
    def bools(self):
        return [l for l in self.lvs if l.kind == 'bool']

    def iters(self, region=None):
        return [l for l in self.lvs if l.kind == 'ptr' and (region is None or l.region is region)]

    def read(self, region, off, ty=I64):
        return self.ex.load(self.st, Ptr(region, off), ty, check=False)


def rnd(ex, e, prec):
    """round-to-nearest of the exact real e; sound relaxed model with explicit error atom"""
    e = P(e)
    if e.is_const():
        f = Fraction(e.const())
        if prec == 53:
            return P(Fraction(float(f)))
        # double rounding is harmless for single operations on floats (Figueroa); conversions use exact
        return P(Fraction(struct.unpack('f', struct.pack('f', float(f)))[0]))
    fr = C.cache.setdefault('fprep', {})
    ek = e.key
    if fr.get(ek, 999) <= prec:
        return e
    lo, hi = e.iv()
    lim = 2 ** prec
    if e.intatoms:
        den = 1
        for c in e.t.values():
            if not isinstance(c, int):
                den = max(den, c.denominator)
        if (den & (den - 1)) == 0 and den <= 2 ** 60 and lo is not None and hi is not None and max(abs(lo), abs(hi)) * den <= lim and (den == 1 or all((Fraction(c) * den).denominator == 1 for c in e.t.values())):
            return e
    # power-of-two multiple of a representable value
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if m:
            cc = abs(Fraction(c))
            if (cc.numerator & (cc.numerator - 1)) == 0 and (cc.denominator & (cc.denominator - 1)) == 0:
                if fr.get(((m, 1),), 999) <= prec:
                    return e
    ck = ('rnd', ek, prec)
    r = C.cache.get(ck)
    if r is not None:
        return r
    u = Fraction(1, 2 ** prec)
    tiny = Fraction(1, 2 ** 100)     # covers the subnormal range (2^-1074 / 2^-149) generously; small numerals keep the solvers fast
    rl = rh = None
    if lo is not None:
        rl = rdown(lo, prec)
    if hi is not None:
        rh = rup(hi, prec)
    if lo is None or hi is None:
        ex.assume_note('fp-range: a floating-point result without a known magnitude bound is assumed not to overflow')
    a = C.fresh('fp', False, rl, rh)
    v = P(a)
    d = v - e
    f = [Implies(e >= 0, And(d <= e * u + tiny, -d <= e * u + tiny, v >= 0)),
         Implies(e <= 0, And(d <= -e * u + tiny, -d <= -e * u + tiny, v <= 0))]
    if lo is not None and hi is not None:
        m = max(abs(Fraction(lo)), abs(Fraction(hi)))
        bd = half_ulp(m, prec)
        f += [d <= bd, -d <= bd]
    f += [Implies(e <= 1, v <= 1), Implies(e >= 1, v >= 1), Implies(e <= -1, v <= -1), Implies(e >= -1, v >= -1)]
    # an integer result of moderate size is exact; correct rounding is monotone over integers
    a.facts = [x for x in f if x.k != 'const']
    a.info = ('rnd', e, prec)
    fr[v.key] = prec
    C.cache[ck] = v
    return v


def half_ulp(m, prec):
    if m == 0:
        return Fraction(1, 2 ** 1075)
    k = 0
    n, d = m.numerator, m.denominator
    k = n.bit_length() - d.bit_length()
    p2 = Fraction(2) ** k
    if p2 > m:
        k -= 1
    elif p2 * 2 <= m:
        k += 1
    # 2^k <= m < 2^(k+1): ulp = 2^(k-prec+1)
    return Fraction(2) ** (k - prec)


def rdown(x, prec):
    return Fraction(x) - (half_ulp(abs(Fraction(x)), prec) * 2 if x else 0)


def rup(x, prec):
    return Fraction(x) + (half_ulp(abs(Fraction(x)), prec) * 2 if x else 0)


def mark_fp(p, prec=53):
    C.cache.setdefault('fprep', {})[p.key] = prec
    return p


class Ob:
    __slots__ = ('name', 'fn', 'status', 'backend', 'model', 'detail', 'time', 'path', 'goal')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Executor:
    def __init__(self, mod, demangle, opts=None):
        self.mod = mod
        self.dem = demangle
        self.opts = opts or {}
        self.obs = []
        self.infer = 0
        self.globals = {}
        self.fnregions = {}
        self.args = {}
        self.ghosts = {}
        self.notes = set()
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.summaries = []       # (regex, fn(ex, st, ins, args) -> value)
        self.inv_templates = []   # functions(LoopView) -> [(name, B)]
        self.unroll = {}
        self.guards = None
        self.loop_info = {}
        self.path_limit = self.opts.get('path_limit', 4000)
        self.npaths = 0
        self.budget = self.opts.get('budget', 1.0)
        self.deadline = None
        self.globmem = {}
        self.prec = {}
        self.tags = {}            # region id -> {cell key: set of 'f'/'i'} : type with which memory was accessed
        self.loop_report = {}
        self.feas_timeout = 300
        self.allow_throw = False

    # ------------------------------------------------------------ misc
    def assume_note(self, s):
        self.notes.add(s)

    def pretty(self, fn):
        return self.dem(fn)

    def here(self, st):
        return self.pretty(st.top.func.name) if st.frames else '?'

    def oblige(self, st, goal, name, assume=True):
        goal = tm.tob(goal)
        if self.infer == 0:
            t0 = time.time()
            status, be, model = tm.prove(st.path, goal, self.budget)
            ob = Ob(name=name, fn=self.here(st), status=status, backend=be, time=time.time() - t0)
            if TRACE and ob.time > 1:
                print('SLOW', round(ob.time, 1), status, be, name, repr(goal)[:300], file=sys.stderr)
            if status != 'proved':
                ob.model = self.model_inputs(model) if model is not None else None
                ob.path = list(st.path)
                ob.goal = goal
                ob.detail = repr(goal)[:600]
            self.obs.append(ob)
        if assume:
            st.assume(goal)

    def model_inputs(self, model):
        out = {}
        try:
            for k, f in self.args.items():
                out[k] = f.concretize(model) if hasattr(f, 'concretize') else mval(model, f)
        except Exception as e:
            return None
        return out

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    # ------------------------------------------------------------ memory
    def new_region(self, st, name, size=None):
        r = Region(name, 'mem', size if size is None or isinstance(size, Poly) else P(size))
        st.mem[r.id] = Content()
        return r

    def fn_ptr(self, name):
        name = self.mod.resolve(name)
        r = self.fnregions.get(name)
        if r is None:
            r = self.fnregions[name] = Region(name, 'fn')
        return Ptr(r, 0)

    def global_ptr(self, name):
        name = self.mod.resolve(name)
        if name in self.mod.funcs_src or name in self.mod.decls:
            return self.fn_ptr(name)
        r = self.globals.get(name)
        if r is None:
            r = Region('@' + name, 'mem')
            self.globals[name] = r
            c = Content()
            src = self.mod.globals_src.get(name)
            if src is not None:
                from .ir import Lex
                L = Lex(src.split(', comdat')[0].split(', align')[0].split(', section')[0])
                while L.peek() in ('dso_local', 'linkonce_odr', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'external', 'weak_odr', 'weak', 'available_externally', 'hidden', 'thread_local', 'common', 'appending'):
                    L.next()
                    if L.peek() == '(':
                        L.skip_parens()
                kind = L.next()
                r.const = kind == 'constant'
                ty = self.mod.ptype(L)
                r.size = P(ty.size())
                if L.peek() is not None and L.peek() != ',':
                    v = self.mod.pval(L, ty)
                    self.init_global(c, 0, ty, v)
            self.globmem[r.id] = c
        return Ptr(r, 0)

    def init_global(self, c, off, ty, v):
        k = v[0]
        if k == 'zero':
            c.zero.append((off, off + ty.size()))
        elif k == 'undef':
            pass
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                c.cells[off + i] = (1, P(b if b < 128 else b - 256))
        elif k == 'agg':
            if ty.k == 'struct':
                offs = ty.offsets()
            else:
                es = ty.e.size()
                offs = [i * es for i in range(ty.n)]
            for o, (et, ev) in zip(offs, v[1]):
                self.init_global(c, off + o, et, ev)
        elif ty.k == 'ptr':
            c.cells[off] = (8, ('lazyconst', ty, v))
        else:
            c.cells[off] = (ty.size(), self.constant(None, ty, v))

    def content(self, st, r):
        c = st.mem.get(r.id)
        if c is None:
            c = self.globmem.get(r.id)
            if c is None:
                raise Unsupported('access to unknown memory %r' % r)
        return c

    def wcontent(self, st, r):
        c = self.content(st, r).copy()
        st.mem[r.id] = c
        return c

    def to_stride(self, c, r, stride):
        """convert a content to array form with the given stride"""
        if c.stride is None:
            c.stride = stride
            cells = c.cells
            c.cells = {}
            for (lo, hi) in c.zero:
                pass
            for off in sorted(cells):
                size, v = cells[off]
                f, i = off % stride, off // stride
                base = c.fields.get(f)
                if base is None:
                    init = Arr('zero') if any(lo <= off and off + size <= hi for lo, hi in c.zero) else Arr('undef')
                    if c.zero:
                        init = Arr('zero')
                    base = (size, init)
                if base[0] != size:
                    raise Unsupported('mixed field sizes in %r' % r)
                c.fields[f] = (size, Arr('store', base[1], P(i), v))
            r.stride = stride
        elif c.stride != stride:
            raise Unsupported('stride mismatch in %r: %d vs %d' % (r, c.stride, stride))

    def tagkey(self, r, off):
        if r.stride:
            if isinstance(off, tuple):
                return off[1]
            k = P(off).t.get((), 0)
            return int(k) % r.stride
        if isinstance(off, tuple):
            return off[1]
        k = P(off)
        if not k.is_const():
            g = 0
            for m, q in k.t.items():
                if m:
                    g = tm._gcd(g, int(q))
            return int(k.t.get((), 0)) % g if g else None
        return int(k.const())

    def gettag(self, r, off):
        d = self.tags.get(r.id)
        if not d:
            return ()
        if r.stride and not d.get('strided'):
            n = {'strided': True}
            for k, v in d.items():
                n.setdefault(k % r.stride, set()).update(v)
            d = self.tags[r.id] = n
        return d.get(self.tagkey(r, off), ())

    def settag(self, r, off, tag):
        if not tag:
            return
        self.gettag(r, off)
        d = self.tags.setdefault(r.id, {'strided': True} if r.stride else {})
        d.setdefault(self.tagkey(r, off), set()).update(tag)

    def locate(self, st, c, r, off, size, write):
        """returns ('cell', off) or ('arr', field, idx)"""
        if c.stride is None and r.stride:
            c2 = self.wcontent(st, r)
            self.to_stride(c2, r, r.stride)
            c = c2
        if c.stride is None:
            if off.is_const():
                return c, ('cell', int(off.const()))
            g = 0
            for m, k in off.t.items():
                if m:
                    g = tm._gcd(g, int(k))
            if g < size:
                raise Unsupported('symbolic address with stride %d < access size %d in %r' % (g, size, r))
            c2 = self.wcontent(st, r)
            # a finer stride may be needed if existing cells are wider/narrower; g is what this access shows
            self.to_stride(c2, r, g)
            c = c2
        s = c.stride
        q = {}
        f = 0
        for m, k in off.t.items():
            if not m:
                f = int(k) % s
                q[m] = (int(k) - f) // s
                if q[m] == 0:
                    del q[m]
            else:
                if k % s:
                    raise Unsupported('address %r not a multiple of stride %d in %r' % (off, s, r))
                q[m] = int(k) // s
        return c, ('arr', f, Poly(q))

    def load_raw(self, st, p, size, ty, check=True):
        r = p.r
        if r is None:
            if check:
                self.oblige(st, FALSE, 'no null dereference')
            raise Unsupported('null load')
        if r.kind != 'mem':
            raise Unsupported('load from %r' % r)
        if check and r.size is not None:
            self.oblige(st, And(p.o >= 0, p.o + size <= r.size), 'load in bounds of %s' % r.name)
        c = self.content(st, r)
        c, loc = self.locate(st, c, r, p.o, size, False)
        if loc[0] == 'cell':
            off = loc[1]
            cell = c.cells.get(off)
            if cell is not None and cell[0] == size:
                v = cell[1]
                if isinstance(v, tuple) and v and v[0] == 'lazyconst':
                    v = self.constant(st, v[1], v[2])
                return v
            for o, (s, _) in c.cells.items():
                if o < off + size and off < o + s:
                    # recombine constants bytes
                    return self.recombine(st, c, off, size)
            for lo, hi in c.zero:
                if lo <= off and off + size <= hi:
                    return P(0)
            if c.lazy:
                v = c.lazy(off, size, ty)
                if v is not None:
                    c2 = self.wcontent(st, r)
                    c2.cells[off] = (size, v)
                    return v
            return UNDEF
        _, f, i = loc
        fld = c.fields.get(f)
        if fld is None:
            for lo, hi in c.zero:
                return P(0)
            return UNDEF
        if fld[0] != size:
            raise Unsupported('array field size mismatch in %r: %d vs %d' % (r, fld[0], size))
        return arr_get(fld[1], i)

    def recombine(self, st, c, off, size):
        # little-endian recombination of adjacent integer cells / extraction from a wider constant cell
        bits = []
        o = off
        val = P(0)
        sh = 0
        while o < off + size:
            cell = c.cells.get(o)
            if cell is None:
                if any(lo <= o and o + 1 <= hi for lo, hi in c.zero):
                    o += 1
                    sh += 8
                    continue
                # inside a wider cell?
                for oo, (s, v) in c.cells.items():
                    if oo <= off and off + size <= oo + s and isinstance(v, Poly) and v.isint:
                        u = self.tou(v, s * 8)
                        d = (off - oo) * 8
                        x = tm.floordiv(u, 1 << d) if d else u
                        x = tm.floormod(x, 1 << (8 * size))
                        return self.tos(x, size * 8)
                return UNDEF
            s, v = cell
            if o + s > off + size:
                if isinstance(v, Poly) and v.isint:
                    u = tm.floormod(self.tou(v, s * 8), 1 << (8 * (off + size - o)))
                    val = val + u * (1 << sh)
                    o = off + size
                    continue
                raise Unsupported('partial load of a non-integer')
            if not isinstance(v, Poly) or not v.isint:
                if isinstance(v, B):
                    v = b2i(v)
                elif v is UNDEF:
                    return UNDEF
                else:
                    raise Unsupported('recombining non-integers')
            val = val + self.tou(v, s * 8) * (1 << sh)
            o += s
            sh += 8 * s
        return self.tos(val, size * 8)

    def tou(self, v, n):
        lo, hi = v.iv()
        if lo is not None and lo >= 0:
            return v
        if hi is not None and hi < 0:
            return v + (1 << n)
        return If(v >= 0, v, v + (1 << n))

    def tos(self, u, n):
        lo, hi = u.iv()
        if hi is not None and hi < (1 << (n - 1)):
            return u
        return If(u < (1 << (n - 1)), u, u - (1 << n))

    def load(self, st, p, ty, check=True):
        if ty.k == 'struct':
            return tuple(self.load(st, Ptr(p.r, p.o + o), e, check) for o, e in zip(ty.offsets(), ty.e))
        if ty.k == 'array':
            es = ty.e.size()
            return tuple(self.load(st, Ptr(p.r, p.o + i * es), ty.e, check) for i in range(ty.n))
        if not isinstance(p, Ptr):
            raise Unsupported('load through non-pointer %r' % (p,))
        if p.r is not None and p.r.kind == 'mem' and not p.r.stride and not p.o.is_const() and ty.k in ('int', 'float', 'ptr'):
            cc = self.content(st, p.r)
            if cc is not None and cc.stride is None:
                for m, k in p.o.t.items():
                    if len(m) == 1:
                        at = C.atoms[m[0]]
                        ap = Poly({m: 1})
                        if getattr(at, 'info', None) and at.info and at.info[0] == 'ite':
                            _, c, a, b = at.info
                        elif at.boolval is not None:
                            c, a, b = at.boolval, P(1), P(0)
                        else:
                            continue
                        s1, s2 = st.fork(), st.fork()
                        s1.assume(c)
                        s2.assume(Not(c))
                        return vite(c, self.load(s1, Ptr(p.r, p.o + (a - ap) * k), ty, check), self.load(s2, Ptr(p.r, p.o + (b - ap) * k), ty, check))
        v = self.load_raw(st, p, ty.size(), ty, check)
        if p.r is not None and ty.k in ('float', 'int') and ty.size() >= 4:
            if ty.k == 'float' and isinstance(v, Poly) and v.isint and not v.is_const() and 'i' in self.gettag(p.r, p.o):
                raise Unsupported('floating-point view of an integer cell')
            if v is not UNDEF:
                self.settag(p.r, p.o, 'f' if ty.k == 'float' else '')
        return self.retype(st, v, ty)

    def retype(self, st, v, ty):
        if v is UNDEF:
            return UNDEF
        if ty.k == 'int':
            if ty.n == 1:
                return as_bool(v) if isinstance(v, Poly) else v
            if isinstance(v, B):
                return b2i(v)
            if isinstance(v, Poly) and not v.isint:
                raise Unsupported('integer view of a floating-point cell')
            if isinstance(v, Special):
                raise Unsupported('integer view of a floating-point cell')
            return v
        if ty.k == 'ptr':
            if isinstance(v, Poly):
                if v.is_const():
                    return NULL if v.const() == 0 else Ptr(None, v)
                raise Unsupported('pointer from integer')
            return v
        if ty.k == 'float':
            if isinstance(v, Poly) and v.isint and not v.is_const():
                # could be an integral double: track by representation is lost, only allowed if flagged
                return v
            return v
        return v

    def store(self, st, p, ty, v, check=True):
        if ty.k == 'struct':
            for o, e, x in zip(ty.offsets(), ty.e, v):
                self.store(st, Ptr(p.r, p.o + o), e, x, check)
            return
        if ty.k == 'array':
            es = ty.e.size()
            for i in range(ty.n):
                self.store(st, Ptr(p.r, p.o + i * es), ty.e, v[i], check)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through non-pointer')
        r = p.r
        size = ty.size()
        if r is None:
            self.oblige(st, FALSE, 'no null dereference')
            raise Unsupported('null store')
        if r.kind != 'mem':
            raise Unsupported('store to %r' % r)
        if check and r.size is not None:
            self.oblige(st, And(p.o >= 0, p.o + size <= r.size), 'store in bounds of %s' % r.name)
        if isinstance(v, B):
            v = b2i(v)
        if isinstance(v, Poly) and ty.k in ('float', 'int') and not (v.is_const() and v.const() == 0):
            self.settag(r, p.o, 'f' if ty.k == 'float' else 'i')
        elif ty.k == 'float':
            self.settag(r, p.o, 'f')
        self.store_raw(st, p, size, v)

    def store_raw(self, st, p, size, v, tag=()):
        r = p.r
        if tag:
            self.settag(r, p.o, tag)
        self.content(st, r)
        c = self.wcontent(st, r)
        c, loc = self.locate(st, c, r, p.o, size, True)
        c = self.wcontent(st, r)
        if loc[0] == 'cell':
            off = loc[1]
            old = c.cells.get(off)
            if old is None or old[0] != size:
                for o, (s, ov) in list(c.cells.items()):
                    if o < off + size and off < o + s:
                        if off <= o and o + s <= off + size:
                            del c.cells[o]
                        elif isinstance(ov, Poly) and ov.isint:
                            # split the wider integer cell into bytes
                            del c.cells[o]
                            u = self.tou(ov, s * 8)
                            for b in range(s):
                                if not (off <= o + b < off + size):
                                    x = tm.floormod(tm.floordiv(u, 1 << (8 * b)) if b else u, 256)
                                    c.cells[o + b] = (1, self.tos(x, 8))
                        elif ov is UNDEF:
                            del c.cells[o]
                        else:
                            raise Unsupported('partial overwrite')
            c.cells[off] = (size, v)
            return
        _, f, i = loc
        fld = c.fields.get(f)
        if fld is None:
            fld = (size, Arr('zero') if c.zero else Arr('undef'))
        if fld[0] != size:
            raise Unsupported('array field size mismatch (store) in %r' % r)
        prev = fld[1]
        # drop a shadowed store to the same index
        if prev.k == 'store' and not (prev.a[1] - i).t:
            prev = prev.a[0]
        c.fields[f] = (size, Arr('store', prev, i, v))

    def memcpy(self, st, d, s, n):
        if not n.is_const():
            return self.memcpy_sym(st, d, s, n)
        n = int(n.const())
        if n == 0:
            return
        sc = self.content(st, s.r)
        if sc.stride is None and s.o.is_const():
            so = int(s.o.const())
            if s.r.size is not None:
                self.oblige(st, s.o + n <= s.r.size, 'memcpy source in bounds')
            if d.r.size is not None:
                self.oblige(st, And(d.o >= 0, d.o + n <= d.r.size), 'memcpy destination in bounds')
            items = []
            for o, (sz, v) in sorted(sc.cells.items()):
                if so <= o and o + sz <= so + n:
                    if isinstance(v, tuple) and v and v[0] == 'lazyconst':
                        v = self.constant(st, v[1], v[2])
                    items.append((o - so, sz, v))
                elif o < so + n and so < o + sz:
                    raise Unsupported('memcpy splits a cell')
            zero = []
            for lo, hi in sc.zero:
                l, h = max(lo, so), min(hi, so + n)
                if l < h:
                    zero.append((l - so, h - so))
            covered = sum(i[1] for i in items)
            dc = self.content(st, d.r)
            if zero and dc.stride is None and d.o.is_const():
                do = int(d.o.const())
                c2 = self.wcontent(st, d.r)
                for o, (sz, v) in list(c2.cells.items()):
                    if do <= o and o + sz <= do + n:
                        del c2.cells[o]
                for l, h in zero:
                    c2.zero.append((do + l, do + h))
            elif zero:
                # array destination: write explicit zeros with 8-byte cells
                for l, h in zero:
                    o = l
                    while o < h:
                        if not any(i[0] <= o < i[0] + i[1] for i in items):
                            items.append((o, 8, P(0)))
                        o += 8
            elif dc.stride is None and d.o.is_const():
                do = int(d.o.const())
                c2 = self.wcontent(st, d.r)
                for o, (sz, v) in list(c2.cells.items()):
                    if do <= o and o + sz <= do + n:
                        del c2.cells[o]
            if sc.lazy:
                raise Unsupported('memcpy of lazy region')
            for o, sz, v in items:
                self.store_raw(st, Ptr(d.r, d.o + o), sz, v, self.gettag(s.r, s.o + o))
            return
        # element copy out of an array
        stride = sc.stride
        if stride is None:
            sc2, _ = self.locate(st, sc, s.r, s.o, 1, False)
            sc = self.content(st, s.r)
            stride = sc.stride
        if s.r.size is not None:
            self.oblige(st, And(s.o >= 0, s.o + n <= s.r.size), 'memcpy source in bounds')
        if d.r.size is not None:
            self.oblige(st, And(d.o >= 0, d.o + n <= d.r.size), 'memcpy destination in bounds')
        vals = []
        cnt = 0
        for base in range(0, n, stride):
            for f, (sz, a) in sorted(sc.fields.items()):
                off = s.o + base
                # offset within the element
                _, loc = self.locate(st, sc, s.r, off, 1, False)
                if loc[1] != 0:
                    # copying part of an element
                    ff = f - loc[1]
                    if ff < 0 or ff + sz > n:
                        continue
                    vals.append((ff, sz, arr_get(a, loc[2])))
                else:
                    if base + f + sz <= n:
                        vals.append((base + f, sz, arr_get(a, loc[2])))
        for o, sz, v in vals:
            self.store_raw(st, Ptr(d.r, d.o + o), sz, v, self.gettag(s.r, s.o + o))

    def memcpy_sym(self, st, d, s, n):
        sc = self.content(st, s.r)
        if sc.stride is None and s.r.stride:
            sc = self.wcontent(st, s.r)
            self.to_stride(sc, s.r, s.r.stride)
        if sc.stride is None:
            raise Unsupported('symbolic memcpy of unstructured memory')
        S = sc.stride
        if any(k % S for m, k in n.t.items()):
            raise Unsupported('symbolic memcpy length')
        if s.r.size is not None:
            self.oblige(st, Or(n <= 0, And(s.o >= 0, s.o + n <= s.r.size)), 'memcpy source in bounds')
        if d.r.size is not None:
            self.oblige(st, Or(n <= 0, And(d.o >= 0, d.o + n <= d.r.size)), 'memcpy destination in bounds')
        _, sl = self.locate(st, sc, s.r, s.o, 1, False)
        dc = self.wcontent(st, d.r)
        if dc.stride is None:
            self.to_stride(dc, d.r, S)
        _, dl = self.locate(st, dc, d.r, d.o, 1, True)
        if sl[1] or dl[1]:
            raise Unsupported('misaligned symbolic memcpy')
        cnt = Poly({m: k // S for m, k in n.t.items()})
        for f, (sz, a) in sc.fields.items():
            self.settag(d.r, ('f', f), self.gettag(s.r, ('f', f)))
            prev = dc.fields.get(f, (sz, Arr('undef')))[1]
            dc.fields[f] = (sz, Arr('copy', a, dl[2] - sl[2], dl[2], dl[2] + cnt, prev))

    # ------------------------------------------------------------ values
    def constant(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty.n == 1:
                return bc(v[1] != 0)
            return P(v[1])
        if k == 'flt':
            return P(v[1])
        if k == 'fspecial':
            return Special(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if ty.k == 'struct':
                return tuple(self.constant(st, e, ('undef',)) for e in ty.e)
            if ty.k == 'array':
                return tuple(self.constant(st, ty.e, ('undef',)) for _ in range(ty.n))
            return UNDEF
        if k == 'zero':
            if ty.k == 'struct':
                return tuple(self.constant(st, e, ('zero',)) for e in ty.e)
            if ty.k == 'array':
                return tuple(self.constant(st, ty.e, ('zero',)) for _ in range(ty.n))
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'int' and ty.n == 1:
                return FALSE
            return P(0)
        if k == 'glob':
            return self.global_ptr(v[1])
        if k == 'agg':
            return tuple(self.constant(st, et, ev) for et, ev in v[1])
        if k == 'gep':
            base = self.constant(st, v[2][0][0], v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.constant(st, t, x)) for t, x in v[2][1:]])
        if k == 'cast':
            x = self.constant(st, v[2], v[3])
            if v[1] == 'inttoptr':
                if isinstance(x, Poly):
                    return NULL if not x.t else Ptr(None, x)
            return x
        if k == 'cbin':
            a, b = self.constant(st, v[2], v[3]), self.constant(st, v[2], v[4])
            if v[1] == 'sub' and isinstance(a, Ptr):
                return self.ptrdiff(a, b)
            return a + b if v[1] == 'add' else a - b if v[1] == 'sub' else a * b
        raise Unsupported('constant %r' % (v,))

    def val(self, st, ty, v, cp=False):
        if v[0] == 'reg':
            try:
                x = st.top.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %%%s in %s' % (v[1], st.top.func.name))
            while isinstance(x, CPtr):
                if x.c.key in st.pk:
                    x = x.a
                elif Not(x.c).key in st.pk:
                    x = x.b
                elif cp:
                    break
                else:
                    raise NeedSplit(x.c)
            return x
        return self.constant(st, ty, v)

    def num(self, st, ty, v):
        x = self.val(st, ty, v)
        return self.asnum(x, ty)

    def asnum(self, x, ty):
        if x is UNDEF:
            if ty.k == 'int':
                if ty.n == 1:
                    return as_bool(var('undef', True, 0, 1))
                return var('undef', True, -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1)
            if ty.k == 'float':
                return mark_fp(var('undef', False), 53 if ty.n == 64 else 24)
        return x

    def gep(self, st, et, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        o = base.o
        ty = et
        first = True
        for it, i in idx:
            if i is UNDEF:
                raise Unsupported('undef index')
            i = b2i(i) if isinstance(i, B) else i
            if first:
                o = o + i * ty.size()
                first = False
            elif ty.k == 'struct':
                k = int(i.const())
                o = o + ty.offsets()[k]
                ty = ty.e[k]
            elif ty.k in ('array', 'vector'):
                o = o + i * ty.e.size()
                ty = ty.e
            else:
                raise Unsupported('gep type')
        return Ptr(base.r, o)

    def ptrdiff(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a - b
        if isinstance(a, Poly) and not a.t:
            a = NULL
        if isinstance(b, Poly) and not b.t:
            b = NULL
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            return a.o - b.o
        if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.r is None or b.r is None):
            raise Unsupported('difference with null pointer')
        raise Unsupported('pointer difference across objects')

    def arith(self, st, op, ty, a, b, flags):
        n = ty.n
        if n == 1:
            a, b = tm.tob(a) if not isinstance(a, Poly) else as_bool(a), tm.tob(b) if not isinstance(b, Poly) else as_bool(b)
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub':
                if isinstance(a, Ptr) and isinstance(b, Poly) and b.t:
                    return Ptr(a.r, a.o - b)
                return self.ptrdiff(a, b)
            if op == 'add':
                return Ptr(a.r, a.o + b) if isinstance(a, Ptr) else Ptr(b.r, b.o + a)
            if op == 'and' and isinstance(a, Ptr) and a.r is not None and a.r.kind == 'fn' and isinstance(b, Poly) and b.is_const() and b.const() == 1:
                return P(0)     # code addresses are even (pointer to a member function that is not virtual)
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, B):
            a = b2i(a)
        if isinstance(b, B):
            b = b2i(b)
        half, full = 1 << (n - 1), 1 << n
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if op == 'mul' and r.degree() > 1:
                fl = C.cache.setdefault(('factors', r.key), [])
                if not any(x.key == a.key and y.key == b.key for x, y in fl):
                    fl.append((a, b))
                lo, hi = r.iv()
                if lo is None or hi is None or lo < -half or hi >= half:
                    self.bound_product(st, r, a, b)
            return self.fit(st, r, n, 'nsw' in flags, 'nuw' in flags, op)
        if op == 'shl':
            if b.is_const():
                k = int(b.const())
                if k >= n:
                    raise Unsupported('shift amount')
                return self.fit(st, a * (1 << k), n, 'nsw' in flags, False, op)
            if a.is_const():
                # 2^b with bounded b
                lo, hi = b.iv()
                if lo is not None and lo >= 0 and hi is not None and hi < n:
                    r = P(1 << hi)
                    for k in range(hi - 1, lo - 1, -1):
                        r = If(b <= k, P(1 << k), r)
                    return self.fit(st, r * a.const(), n, False, False, op)
            raise Unsupported('symbolic shift')
        if op == 'ashr':
            if not b.is_const():
                raise Unsupported('symbolic shift')
            k = 1 << int(b.const())
            if all(c % k == 0 for c in a.t.values()):
                return Poly({m: c // k for m, c in a.t.items()})
            return tm.floordiv(a, P(k))
        if op == 'lshr':
            if not b.is_const():
                raise Unsupported('symbolic shift')
            u = self.tou(a, n)
            k = int(b.const())
            if k == 0:
                return a
            return tm.floordiv(u, P(1 << k))
        if op in ('sdiv', 'srem'):
            if not (b.is_const() and b.const() != 0):
                self.oblige(st, Not(tm.eq0(b)), 'no division by zero')
            if not (b.is_const() and b.const() != -1):
                lo, hi = a.iv()
                bl, bh = b.iv()
                if not (lo is not None and lo > -half) and not (bl is not None and bl >= 0):
                    self.oblige(st, Or(a > -half, Not(tm.eq0(b + 1))), 'no division overflow')
            return tm.tdiv(a, b) if op == 'sdiv' else tm.tmod(a, b)
        if op in ('udiv', 'urem'):
            if not (b.is_const() and b.const() != 0):
                self.oblige(st, Not(tm.eq0(b)), 'no division by zero')
            ua, ub = self.tou(a, n), self.tou(b, n)
            r = tm.tdiv(ua, ub) if op == 'udiv' else tm.tmod(ua, ub)
            return self.tos(r, n)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if y.is_const():
                    c = int(y.const())
                    if c == -1:
                        return x
                    if c == 0:
                        return P(0)
                    if c > 0 and (c & (c + 1)) == 0:
                        return tm.floormod(x, P(c + 1))
                    if c < 0 and ((-c) & (-c - 1)) == 0:
                        return x - tm.floormod(x, P(-c))
                    if c > 0 and (c & (c - 1)) == 0:   # single bit
                        return tm.floormod(tm.floordiv(x, P(c)), P(2)) * c
            (al, ah), (bl, bh) = a.iv(), b.iv()
            if (al, ah) == (0, 1) and (bl, bh) == (0, 1):
                return b2i(And(as_bool(a), as_bool(b)))
            if a.same(b):
                return a
        if op == 'or':
            (al, ah), (bl, bh) = a.iv(), b.iv()
            if b.is_const() and b.const() == 0:
                return a
            if a.is_const() and a.const() == 0:
                return b
            if al is not None and al >= 0 and ah is not None and ah <= 1 and bl is not None and bl >= 0 and bh is not None and bh <= 1:
                return b2i(Or(as_bool(a), as_bool(b)))
            if 'disjoint' in flags:
                return self.fit(st, a + b, n, False, False, op)
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if y.is_const():
                    c = int(y.const())
                    if c == -1:
                        return -x - 1
                    lo, hi = x.iv()
                    if c == 1 and lo is not None and lo >= 0 and hi is not None and hi <= 1:
                        return 1 - x
                    if c == 0:
                        return x
            (al, ah), (bl, bh) = a.iv(), b.iv()
            if None not in (al, ah, bl, bh) and min(al, bl) >= 0 and max(ah, bh) <= 1:
                return b2i(Not(Iff(as_bool(a), as_bool(b))))
            if a.same(b):
                return P(0)
        if a.is_const() and b.is_const():
            x, y = int(a.const()), int(b.const())
            return P({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if op in ('and', 'or', 'xor'):
            return self.bitop(op, a, b, n)
        raise Unsupported('%s on %r, %r' % (op, a, b))

    def bitop(self, op, a, b, n):
        import z3
        key = ('bit', op, a.key, b.key, n)
        r = C.cache.get(key)
        if r is None:
            za, zb = z3.Int2BV(a.z(), n), z3.Int2BV(b.z(), n)
            e = {'and': za & zb, 'or': za | zb, 'xor': za ^ zb}[op]
            (al, ah), (bl, bh) = a.iv(), b.iv()
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            nonneg = al is not None and al >= 0 and bl is not None and bl >= 0
            if nonneg:
                lo = 0
                if op == 'and':
                    hi = min(ah if ah is not None else hi, bh if bh is not None else hi)
            at = C.fresh('bit', True, lo, hi)
            at.deps = frozenset(a.atoms() | b.atoms())
            p = P(at)
            at.facts = [B('raw', at.z == z3.BV2Int(e, True), frozenset(a.atoms() | b.atoms() | {at.id}))]
            if op == 'and' and nonneg:
                at.facts += [p <= a, p <= b]
            if op in ('or', 'xor') and nonneg:
                at.facts += [p <= a + b]
                if op == 'or':
                    at.facts += [p >= a, p >= b]
            C.cache[key] = r = p
        return r

    def tight(self, st, p, limit=64):
        """smallest power of two bounding |p| on this path (by solver queries on the linear abstraction), or None"""
        lo, hi = p.iv()
        if lo is not None and hi is not None and max(abs(lo), abs(hi)) < 2 ** 31:
            return max(abs(lo), abs(hi))
        tm.closure([tm.le0(p)] + list(st.path))
        sl = tm.slice_path(st.path, p.atoms())
        def ok(k):
            m = 1 << k
            return tm.check_sat(list(sl) + [Or(p > m, p < -m)], 300, lin=True)[0] == 'unsat'
        a, b = 8, limit
        if not ok(b):
            return None
        while a < b:
            m = (a + b) // 2
            if ok(m):
                b = m
            else:
                a = m + 1
        return 1 << b

    def bound_product(self, st, r, a, b):
        ck = ('bp', r.key)
        if ck in st.pk:
            return
        st.pk.add(ck)
        x = self.tight(st, a)
        if x is None:
            return
        y = x if a.key == b.key else self.tight(st, b)
        if y is None:
            return
        st.assume(r <= x * y)
        st.assume(r >= (0 if a.key == b.key else -x * y))

    def fit(self, st, r, n, nsw, nuw, what):
        half, full = 1 << (n - 1), 1 << n
        lo, hi = r.iv()
        if lo is not None and hi is not None and lo >= -half and hi < half:
            return r
        inr = And(r >= -half, r < half)
        if nsw:
            self.oblige(st, inr, 'no signed overflow in %s' % what)
            return self.narrow(st, r, -half, half - 1)
        # wrapping arithmetic
        if all(b.key in st.pk for b in (inr.v if inr.k == 'and' else (inr,))):
            return r
        status, _, _ = tm.prove(st.path, inr, 0.2, False, False)
        if status == 'proved':
            st.assume(inr)
            return self.narrow(st, r, -half, half - 1)
        if lo is not None and hi is not None and hi - lo < 4 * full:
            k = var('wrap', True, (lo + half) // full, (hi + half) // full)
        else:
            k = var('wrap', True)
        w = var('wrapped', True, -half, half - 1)
        wa = C.atoms[next(iter(w.atoms()))]
        ck = ('wrapof', r.key, n)
        old = C.cache.get(ck)
        if old is not None:
            return old
        wa.facts = [tm.eq0(w + k * full - r)]
        C.cache[ck] = w
        return w

    def narrow(self, st, r, lo, hi):
        """an alias of r with a known machine range (helps interval reasoning on non-linear terms)"""
        if self.opts.get('narrow', False) and r.degree() > 1:
            ck = ('narrow', r.key, lo, hi)
            a = C.cache.get(ck)
            if a is None:
                at = C.fresh('n', True, lo, hi)
                a = P(at)
                at.facts = [tm.eq0(a - r)]
                C.cache[ck] = a
            return a
        return r

    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Poly):
                a = Ptr(None, a)
            if isinstance(b, Poly):
                b = Ptr(None, b)
            if a is UNDEF or b is UNDEF:
                raise Unsupported('undef pointer compare')
            if a.r is not b.r:
                if a.r is None or b.r is None:
                    if pred == 'eq':
                        return FALSE
                    if pred == 'ne':
                        return TRUE
                    # null is below every object
                    if pred in ('ult', 'ule'):
                        return bc(a.r is None)
                    if pred in ('ugt', 'uge'):
                        return bc(b.r is None)
                if pred in ('eq', 'ne'):
                    return bc(pred == 'ne')
                # which of two live objects has the lower address is not known, but it is always the same one
                x, y = (a, b) if a.r.id < b.r.id else (b, a)
                low = as_bool(C.cache.setdefault(('addr', x.r.id, y.r.id), var('lower_address', True, 0, 1)))
                return low if (pred in ('ult', 'ule', 'slt', 'sle')) == (x is a) else Not(low)
            a, b = a.o, b.o
            d = a - b
            return self.cmp(pred.replace('u', 's') if pred not in ('eq', 'ne') else pred, a, b)
        if ty.k == 'int' and ty.n == 1:
            x, y = tm.tob(a) if not isinstance(a, Poly) else as_bool(a), tm.tob(b) if not isinstance(b, Poly) else as_bool(b)
            if pred == 'eq':
                return Iff(x, y)
            if pred == 'ne':
                return Not(Iff(x, y))
            if pred == 'ult':
                return And(Not(x), y)
            if pred == 'ugt':
                return And(x, Not(y))
            raise Unsupported('i1 compare ' + pred)
        if isinstance(a, B):
            a = b2i(a)
        if isinstance(b, B):
            b = b2i(b)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if y.is_const() and not x.is_const() and pred[0] != 'u':
                r = cases(x, lambda v: self.cmp(pred, *((y, P(v)) if sw else (P(v), y))))
                if r is not None:
                    return r
        if pred in ('eq', 'ne'):
            # recognise comparisons of a 0/1 atom with constants
            for x, y in ((a, b), (b, a)):
                if y.is_const() and len(x.t) == 1:
                    (m, c), = x.t.items()
                    if len(m) == 1 and c == 1 and C.atoms[m[0]].boolval is not None and y.const() in (0, 1):
                        bv = C.atoms[m[0]].boolval
                        if (y.const() == 0) == (pred == 'eq'):
                            bv = Not(bv)
                        return bv
        if pred[0] == 'u':
            (al, ah), (bl, bh) = a.iv(), b.iv()
            an = al is not None and al >= 0
            bn = bl is not None and bl >= 0
            if not (an and bn):
                a, b = self.tou(a, ty.n), self.tou(b, ty.n)
        return self.cmp(pred, a, b)

    def cmp(self, pred, a, b):
        p = pred[-2:] if pred not in ('eq', 'ne') else pred
        if p == 'eq':
            return tm.eq0(a - b)
        if p == 'ne':
            return Not(tm.eq0(a - b))
        if p == 'lt':
            return a < b
        if p == 'le':
            return a <= b
        if p == 'gt':
            return a > b
        if p == 'ge':
            return a >= b
        raise Unsupported('cmp ' + pred)

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        sa, sb = isinstance(a, Special), isinstance(b, Special)
        if sa or sb:
            if (sa and a.k == 'nan') or (sb and b.k == 'nan'):
                return bc(pred[0] == 'u')
            o = {'-inf': -1, '+inf': 1}
            x = o[a.k] * 2 if sa else 0
            y = o[b.k] * 2 if sb else 0
            if pred == 'ord':
                return TRUE
            if pred == 'uno':
                return FALSE
            return bc({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]])
        if pred == 'ord':
            return TRUE
        if pred == 'uno':
            return FALSE
        return self.cmp(pred[1:], a, b)

    def farith(self, st, op, ty, a, b):
        prec = 53 if ty.n == 64 else 24 if ty.n == 32 else 64
        if isinstance(a, Special) or isinstance(b, Special):
            return self.fspecial(op, a, b)
        a, b = P(a), P(b)
        if op == 'fadd':
            return rnd(self, a + b, prec)
        if op == 'fsub':
            return rnd(self, a - b, prec)
        if op == 'fmul':
            return rnd(self, a * b, prec)
        if op == 'fdiv':
            if b.is_const():
                if b.const() == 0:
                    self.oblige(st, FALSE, 'no floating-point division by zero')
                    raise Unsupported('division by constant zero')
                return rnd(self, a / b, prec)
            self.oblige(st, Not(tm.eq0(b)), 'no floating-point division by zero')
            return rnd(self, tm.rdiv(a, b), prec)
        if op == 'frem':
            return self.fmod(st, a, b)
        raise Unsupported(op)

    def fspecial(self, op, a, b):
        raise Unsupported('arithmetic on a non-finite value')

    def fmod(self, st, x, y):
        self.oblige(st, Not(tm.eq0(P(y))), 'fmod by zero')
        x, y = P(x), P(y)
        if x.is_const() and y.is_const():
            return P(Fraction(math.fmod(float(x.const()), float(y.const()))))
        q = tm.trunc_(tm.rdiv(x, y) if not y.is_const() else x / y)
        r = x - q * y
        ck = ('fmod', r.key)
        v = C.cache.get(ck)
        if v is None:
            lo, hi = y.iv()
            bd = None if lo is None or hi is None else max(abs(lo), abs(hi))
            at = C.fresh('fmod', False, None if bd is None else -bd, bd)
            v = mark_fp(P(at))
            at.facts = [tm.eq0(v - r), Implies(x >= 0, v >= 0), Implies(x <= 0, v <= 0), Implies(y > 0, And(v < y, v > -y)), Implies(y < 0, And(v < -y, v > y))]
            C.cache[ck] = v
        return v

    # ------------------------------------------------------------ execution
    def feasible(self, st, b):
        if b.k == 'const':
            return b.v
        if b.key in st.pk:
            return True
        if Not(b).key in st.pk:
            return False
        return tm.feasible(tm.slice_path(st.path, b.atoms()) + [b], self.feas_timeout)

    def branch(self, st, cond):
        """list of (state, truth) for the feasible outcomes"""
        cond = tm.tob(cond)
        if cond.k == 'const':
            return [(st, cond.v)]
        if cond.key in st.pk:
            return [(st, True)]
        nc = Not(cond)
        if nc.key in st.pk:
            return [(st, False)]
        if self.guards is not None:
            self.note_guard(cond)
        self.check_time()
        ft = self.feasible(st, cond)
        if not ft:
            st.assume(nc)
            return [(st, False)]
        ff = self.feasible(st, nc)
        if not ff:
            st.assume(cond)
            return [(st, True)]
        self.npaths += 1
        if TRACE:
            print('SPLIT', self.npaths, self.dem(st.top.func.name)[:60], st.top.block if hasattr(st.top, 'block') else '', repr(cond)[:160], file=sys.stderr)
            if TRACE == '2':
                for at in list(cond.atoms()) + [int(x) for x in os.environ.get('VP_AT', '').split(',') if x and int(x) < len(tm.C.atoms)]:
                    A = tm.C.atoms[at]; print('   ', A.name, A.lo, A.hi, [repr(f)[:200] for f in (A.facts or [])][:3], file=sys.stderr)
        if self.npaths > self.path_limit:
            raise Unsupported('more than %d path splits' % self.path_limit)
        s2 = st.fork()
        st.assume(cond)
        s2.assume(nc)
        return [(st, True), (s2, False)]

    def note_guard(self, b):
        if b.k in ('le', 'lt', 'eq'):
            self.guards.setdefault(b.v.key, b.v)
        elif b.k in ('and', 'or'):
            for x in b.v:
                self.note_guard(x)
        elif b.k == 'not':
            self.note_guard(b.v)

    def call_function(self, fname, args, st=None):
        """run fname(args) to completion: list of finished states"""
        st = st or State()
        f = self.mod.func(fname)
        fr = Frame(f)
        for (ty, nm, info), a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        self.base_depth = len(st.frames)
        self.entry_fn = fname
        done = []
        work = [st]
        if f.entry in f.loops():
            raise Unsupported('entry block is a loop header')
        self.execute(work, None, done)
        return [d[1] for d in done]

    def execute(self, work, stop, done):
        """runs states until they finish (stop None) or leave / re-enter the loop `stop`=(depth, header, body).
        done receives (kind, state, extra)"""
        while work:
            st = work.pop()
            self.check_time()
            while True:
                fr = st.top
                ins = fr.func.blocks[fr.block][fr.ip]
                try:
                    res = self.step(st, ins, work, stop, done)
                except NeedSplit as e:
                    outs = self.branch(st, e.c)
                    work += [s for s, t in outs if s is not st]
                    res = True
                if res is False:
                    break

    def goto(self, st, target, work, stop, done):
        """take the CFG edge to target in the top frame; returns True if execution of st continues"""
        fr = st.top
        f = fr.func
        src = fr.block
        if stop is not None and len(st.frames) == stop[0]:
            if target not in stop[2]:
                done.append(('exit', st, (src, target)))
                return False
            if target == stop[1]:
                self.enter_block(st, src, target)
                done.append(('back', st, None))
                return False
        loops = f.loops()
        self.enter_block(st, src, target)
        if target in loops and src not in loops[target]:
            outs = self.handle_loop(st, f, target, loops[target])
            for kind, s, extra in outs:
                if kind == 'exit':
                    s.top.block = extra[0]
                    if self.goto(s, extra[1], work, stop, done):
                        work.append(s)
                else:
                    done.append((kind, s, extra))
            return False
        return True

    def enter_block(self, st, src, target):
        fr = st.top
        new = {}
        n = 0
        for ins in fr.func.blocks[target]:
            if ins.op != 'phi':
                break
            n += 1
            if src not in ins.a:
                raise Unsupported('phi without edge')
            new[ins.dst] = self.val(st, ins.ty, ins.a[src], True)
        fr.regs.update(new)
        fr.prev = src
        fr.block = target
        fr.ip = n

    def finish(self, st, kind, done, extra=None):
        st.status = kind
        done.append((kind, st, extra))

    def step(self, st, ins, work, stop, done):
        fr = st.top
        op = ins.op
        regs = fr.regs
        if op == 'br':
            c = self.val(st, I1, ins.a[0])
            if c is UNDEF:
                raise Unsupported('branch on undef')
            if isinstance(c, Poly):
                c = as_bool(c)
            outs = self.branch(st, c)
            cont = False
            for s, t in outs:
                if s is st:
                    continue
                if self.goto(s, ins.a[1] if t else ins.a[2], work, stop, done):
                    work.append(s)
            for s, t in outs:
                if s is st:
                    return self.goto(s, ins.a[1] if t else ins.a[2], work, stop, done)
            return False
        if op == 'jmp':
            return self.goto(st, ins.a, work, stop, done)
        if op == 'switch':
            v = self.num(st, ins.ty, ins.a[0])
            states = [st]
            cur = st
            for cv, tgt in ins.a[2]:
                outs = self.branch(cur, self.icmp(cur, 'eq', ins.ty, v, P(cv)))
                nxt = None
                for s, t in outs:
                    if t:
                        if self.goto(s, tgt, work, stop, done):
                            work.append(s)
                    else:
                        nxt = s
                if nxt is None:
                    return False
                cur = nxt
            if self.goto(cur, ins.a[1], work, stop, done):
                work.append(cur)
            return False
        if op == 'ret':
            v = None if ins.a is None else self.val(st, ins.ty, ins.a, True)
            st.frames.pop()
            for r in fr.allocas:
                st.mem.pop(r, None)
            if len(st.frames) < self.base_depth:
                st.ret = v
                self.finish(st, 'ret', done)
                return False
            call = fr.call
            if call.dst is not None:
                st.top.regs[call.dst] = v
            if call.op == 'invoke':
                return self.goto(st, call.a['to'], work, stop, done)
            st.top.ip += 1
            return True
        if op in ('call', 'invoke'):
            return self.do_call(st, ins, work, stop, done)
        if op == 'unreachable':
            self.oblige(st, FALSE, 'unreachable code is not reached', assume=False)
            self.finish(st, 'unreachable', done)
            return False
        if op == 'select':
            c = self.val(st, I1, ins.a[0])
            a, b = self.val(st, ins.ty, ins.a[1], True), self.val(st, ins.ty, ins.a[2], True)
            if c is UNDEF:
                raise Unsupported('select on undef')
            if isinstance(c, Poly):
                c = as_bool(c)
            if c.k == 'const':
                regs[ins.dst] = a if c.v else b
            else:
                try:
                    regs[ins.dst] = CPtr(c, a, b) if self.opts.get('merge') and isinstance(a, (Ptr, CPtr)) and isinstance(b, (Ptr, CPtr)) and a is not b else vite(c, a, b)
                except Unsupported:
                    outs = self.branch(st, c)
                    for s, t in outs:
                        s.top.regs[ins.dst] = a if t else b
                        s.top.ip += 1
                        if s is not st:
                            work.append(s)
                    return True
            fr.ip += 1
            return True
        regs_set = self.simple(st, ins, fr, regs)
        fr.ip += 1
        return True

    def decided(self, args):
        for a in args:
            if isinstance(a, CPtr):
                raise NeedSplit(a.c)

    def load_either(self, st, p, ty):
        """the value at one of two places, where reading either is certainly allowed"""
        for q in p.leaves():
            ok = isinstance(q, Ptr) and q.r is not None and q.r.kind == 'mem' and not q.r.stride and isinstance(q.o, Poly) and q.o.is_const() and ty.k in ('int', 'float')
            ok = ok and isinstance(q.r.size, Poly) and q.r.size.is_const() and 0 <= q.o.const() and q.o.const() + ty.size() <= q.r.size.const() and (q.r.id in st.mem or q.r.id in self.globmem)
            if not ok:
                raise NeedSplit(p.c)

        def get(q):
            if isinstance(q, CPtr):
                a, b = get(q.a), get(q.b)
                try:
                    if a is UNDEF or b is UNDEF:
                        raise NeedSplit(q.c)
                    return vite(q.c, a, b)
                except Unsupported:
                    raise NeedSplit(q.c)
            return self.load(st, q, ty)
        return get(p)

    def simple(self, st, ins, fr, regs):
        op, ty = ins.op, ins.ty
        if op == 'alloca':
            aty, n = ins.a
            cnt = self.val(st, I64, n)
            if not isinstance(cnt, Poly) or not cnt.is_const():
                raise Unsupported('variable-size alloca')
            r = self.new_region(st, 'local %s.%s' % (fr.func.name[:40], ins.dst), aty.size() * int(cnt.const()))
            fr.allocas.append(r.id)
            v = Ptr(r, 0)
        elif op == 'load':
            p = self.val(st, PTR, ins.a[0], True)
            if isinstance(p, CPtr):
                v = self.load_either(st, p, ty)
            elif not isinstance(p, Ptr):
                raise Unsupported('load via %r' % (p,))
            else:
                v = self.load(st, p, ty)
        elif op == 'store':
            x, p = self.val(st, ty, ins.a[0]), self.val(st, PTR, ins.a[1])
            if not isinstance(p, Ptr):
                raise Unsupported('store via %r' % (p,))
            self.store(st, p, ty, x)
            return
        elif op == 'getelementptr':
            et, args = ins.a
            base = self.val(st, PTR, args[0][1], True)
            ix = [(t, self.val(st, t, x)) for t, x in args[1:]]
            v = base.map(lambda p: self.gep(st, et, p, ix)) if isinstance(base, CPtr) else self.gep(st, et, base, ix)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
            a, b = self.num(st, ty, ins.a[0]), self.num(st, ty, ins.a[1])
            v = self.arith(st, op, ty, a, b, ins.flags)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.num(st, ty, ins.a[0]), self.num(st, ty, ins.a[1])
            v = self.farith(st, op, ty, a, b)
        elif op == 'fneg':
            a = self.num(st, ty, ins.a[0])
            if isinstance(a, Special):
                v = Special({'+inf': '-inf', '-inf': '+inf', 'nan': 'nan'}[a.k])
            else:
                v = -a
                fp = C.cache.setdefault('fprep', {})
                if a.key in fp:
                    fp[v.key] = fp[a.key]
        elif op == 'icmp':
            pred, t, a, b = ins.a
            v = self.icmp(st, pred, t, self.num(st, t, a), self.num(st, t, b))
        elif op == 'fcmp':
            pred, t, a, b = ins.a
            v = self.fcmp(st, pred, self.num(st, t, a), self.num(st, t, b))
        elif op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.cast(st, op, ins.a[0], ty, self.num(st, ins.a[0], ins.a[1]))
        elif op == 'extractvalue':
            a, ix = ins.a
            v = self.val(st, ty, a)
            for i in ix:
                v = v[i]
        elif op == 'insertvalue':
            a, et, e, ix = ins.a
            v = self.insert(self.val(st, ty, a), ix, self.val(st, et, e))
        elif op == 'freeze':
            v = self.num(st, ty, ins.a[0])
        elif op == 'fence':
            return
        elif op == 'cmpxchg':
            # a static 'done already' flag may have any value when the entry is called
            p, a, n = self.val(st, PTR, ins.a[0]), self.num(st, ty, ins.a[1]), self.num(st, ty, ins.a[2])
            if not isinstance(p, Ptr) or ty.k != 'int':
                raise Unsupported('cmpxchg')
            old = var('atomic', True, -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1) if p.r is not None and p.r.name.startswith('@') else self.load(st, p, ty)
            ok = (old == a)
            self.store(st, p, ty, If(ok, n, old))
            v = (old, ok)
        else:
            raise Unsupported('instruction %s' % ins.text[:80])
        regs[ins.dst] = v

    def insert(self, agg, ix, v):
        agg = list(agg)
        if len(ix) == 1:
            agg[ix[0]] = v
        else:
            agg[ix[0]] = self.insert(agg[ix[0]], ix[1:], v)
        return tuple(agg)

    def cast(self, st, op, ft, tt, v):
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, Poly):
                if not v.t:
                    return NULL
                raise Unsupported('inttoptr')
            if op == 'bitcast' and ft.k != tt.k:
                raise Unsupported('bit-level view of a floating-point value')
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.r is None:
                return v.o
            return v
        if isinstance(v, Ptr):
            raise Unsupported('cast of pointer')
        if op in ('zext', 'sext'):
            if ft.n == 1:
                b = v if isinstance(v, B) else as_bool(v)
                r = b2i(b)
                return r if op == 'zext' else -r
            if isinstance(v, B):
                v = b2i(v)
            return self.tou(v, ft.n) if op == 'zext' else v
        if op == 'trunc':
            if tt.n == 1:
                if isinstance(v, B):
                    return v
                lo, hi = v.iv()
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    return as_bool(v)
                return Not(tm.eq0(tm.floormod(v, P(2))))
            if isinstance(v, B):
                return b2i(v)
            return self.fit(st, v, tt.n, False, False, 'trunc')
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, B):
                v = b2i(v) if op == 'uitofp' else -b2i(v)
            if op == 'uitofp':
                v = self.tou(v, ft.n)
            return rnd(self, v, 53 if tt.n == 64 else 24 if tt.n == 32 else 64)
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            if isinstance(v, Special):
                return v
            return rnd(self, v, 24)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Special):
                raise Unsupported('conversion of a non-finite value to integer')
            t = tm.trunc_(P(v))
            if op == 'fptosi':
                lo, hi = -(1 << (tt.n - 1)), (1 << (tt.n - 1)) - 1
                if tt.n == 1:
                    raise Unsupported('fptosi i1')
                self.oblige(st, And(t >= lo, t <= hi), 'float-to-integer conversion in range')
                return t
            # fptoui: result must be in [0, 2^n)
            self.oblige(st, And(t >= 0, t < (1 << tt.n)), 'float-to-unsigned conversion in range')
            return self.tos(t, tt.n)
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def do_call(self, st, ins, work, stop, done):
        fr = st.top
        cal = ins.a['callee']
        if cal[0] == 'glob':
            name = self.mod.resolve(cal[1])
        else:
            p = self.val(st, PTR, cal)
            if not isinstance(p, Ptr) or p.r is None or p.r.kind != 'fn':
                raise Unsupported('indirect call through %r' % (p,))
            name = p.r.name
        args = [self.val(st, t, v, True) for t, v, i in ins.a['args']]
        # contract of a callee
        dn = None
        for rx, fn in self.summaries:
            if dn is None:
                dn = re.sub(r' \(\.\d+\)$', '', self.dem(name))
            if rx.search(dn) or rx.search(name):
                if re.sub(r' \(\.\d+\)$', '', self.dem(self.entry_fn)) == dn:
                    continue
                self.used_contracts.add(dn)
                self.decided(args)
                out = fn(self, st, ins, args)
                return self.after_call(st, ins, out, work, stop, done)
        from . import models
        m = models.lookup(self, name, dn)
        if m is not None:
            self.decided(args)
            out = m(self, st, ins, args)
            return self.after_call(st, ins, out, work, stop, done)
        if not self.mod.has(name):
            raise Unsupported('call to external function %s' % self.dem(name))
        if len(st.frames) > 60:
            raise Unsupported('recursion too deep in %s' % self.dem(name))
        f = self.mod.func(name)
        if f.vararg:
            raise Unsupported('variadic function %s' % self.dem(name))
        self.inlined.add(name)
        nf = Frame(f)
        nf.call = ins
        for (ty, nm, info), a, (at, av, ai) in zip(f.params, args, ins.a['args']):
            if 'byval' in info:
                self.decided([a])
                r = self.new_region(st, 'byval ' + nm, info['byval'].size())
                self.memcpy(st, Ptr(r, 0), a, P(info['byval'].size()))
                nf.allocas.append(r.id)
                a = Ptr(r, 0)
            nf.regs[nm] = a
        st.frames.append(nf)
        if f.entry in f.loops():
            raise Unsupported('entry block is a loop header')
        return True

    def after_call(self, st, ins, out, work, stop, done):
        """out: value, or ('states', [(state, value)]), or ('throw',)"""
        if isinstance(out, tuple) and out and isinstance(out[0], str) and out[0] == 'throw':
            self.finish(st, 'throw', done, out[1] if len(out) > 1 else None)
            return False
        if isinstance(out, tuple) and out and isinstance(out[0], str) and out[0] == 'end':
            self.finish(st, out[1], done)
            return False
        if isinstance(out, tuple) and out and isinstance(out[0], str) and out[0] == 'states':
            for s, v in out[1]:
                if s is st:
                    continue
                if self._finish_call(s, ins, v, work, stop, done):
                    work.append(s)
            for s, v in out[1]:
                if s is st:
                    return self._finish_call(s, ins, v, work, stop, done)
            return False
        return self._finish_call(st, ins, out, work, stop, done)

    def _finish_call(self, st, ins, v, work, stop, done):
        if ins.dst is not None:
            if v is None and ins.ty.k != 'void':
                v = UNDEF
            st.top.regs[ins.dst] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.a['to'], work, stop, done)
        st.top.ip += 1
        return True

    # ------------------------------------------------------------ loops
    def run_body(self, st, depth, header, body):
        """one pass from the header: (backs, exits, others)"""
        s = st.fork()
        done = []
        self.execute([s], (depth, header, body), done)
        backs = [d for d in done if d[0] == 'back']
        exits = [d for d in done if d[0] == 'exit']
        others = [d for d in done if d[0] not in ('back', 'exit')]
        return backs, exits, others

    def handle_loop(self, st, f, header, body):
        depth = len(st.frames)
        lim = 0
        for rx, k in self.unroll.items():
            if re.search(rx, self.dem(f.name)):
                lim = k
        # 1. loops whose trip count is decided by constants are executed as they are
        mark = len(self.obs)
        np = self.npaths
        cur, exits, n = [st], [], 0
        ok = True
        maxit = max(lim, self.opts.get('const_unroll', 5000))
        aborted = False
        while cur:
            n += 1
            nxt = []
            for s in cur:
                b, e, o = self.run_body(s, depth, header, body)
                if b and not lim and (any(x[2] and x[2][0] == header for x in e) or ((e or o) and n > 8)):
                    aborted = True      # the loop's own condition is undecided (early exits by data are followed for a few rounds)
                    break
                if len(b) > 1 and not lim and n > 6:
                    aborted = True
                    break
                nxt += [x[1] for x in b]
                exits += e + o
            if aborted:
                break
            cur = nxt
            if len(cur) > 256:
                aborted = True
                break
            if lim and n >= lim:
                for s in cur:
                    self.oblige(s, FALSE, 'loop in %s ends within %d iterations' % (self.dem(f.name), lim))
                cur = []
            if n > maxit:
                aborted = True
                break
        if not aborted:
            return exits
        del self.obs[mark:]
        self.npaths = np
        return self.abstract_loop(st, f, header, body, depth)

    def abstract_loop(self, st0, f, header, body, depth):
        fnname = self.dem(f.name)
        phis = [i for i in f.blocks[header] if i.op == 'phi']
        entry_regs = {i.dst: st0.top.regs[i.dst] for i in phis}
        st0.path = list(st0.path)
        havoc_phi = {}      # name -> info
        havoc_cell = {}     # (region, off|('arr',field)) -> info
        steps = {}
        guards = {}
        dead = set()
        dead_frames = set()
        rounds = 0
        self.infer += 1
        try:
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported('invariant inference does not converge in ' + fnname)
                H, lvs, amap = self.make_header(st0, f, phis, entry_regs, havoc_phi, havoc_cell, dead_frames)
                entry_view = self.view(st0, f, header, lvs, None, st0, True)
                hview = LoopView(self, H, f, header, lvs, st0)
                cands = self.candidates(hview, steps, guards)
                ents = self.candidates(entry_view, steps, {}, subst=amap_entry(lvs), guard_polys=guards)
                cn = [c[0] for c in cands]
                alive = []
                for i, (nm, b) in enumerate(cands):
                    if nm in dead:
                        continue
                    eb = ents[i][1]
                    if eb is None or b is None:
                        dead.add(nm)
                        continue
                    if tm.prove(st0.path, eb, 0.3, False, False)[0] != 'proved':
                        dead.add(nm)
                        continue
                    alive.append(i)
                for i in alive:
                    H.assume(cands[i][1])
                sg = self.guards
                self.guards = {}
                first_atom = len(C.atoms)
                backs, exits, others = self.run_body(H, depth, header, body)
                newg = self.guards
                self.guards = sg
                if sg is not None:
                    sg.update(newg)
                # newly modified?
                grew = False
                for _, b, _ in backs:
                    grew |= self.diff(H, b, phis, entry_regs, st0, havoc_phi, havoc_cell, f)
                if grew:
                    continue
                # steps
                chg = False
                for lv in lvs:
                    if lv.kind in ('int', 'ptr'):
                        ds = set()
                        for _, b, _ in backs:
                            nv = self.lvval(b, lv)
                            d = nv - lv.val if nv is not None else None
                            ds.add(d.const() if d is not None and d.is_const() else None)
                        d = ds.pop() if len(ds) == 1 else None
                        if steps.get(lv.name, 'unset') != d:
                            steps[lv.name] = d
                            chg = True
                for k, g in newg.items():
                    if k not in guards and len(guards) < 60:
                        hatoms = set()
                        for lv in lvs:
                            hatoms |= lv.atomset
                        if (g.atoms() & hatoms) and all(a in hatoms or a < self.first_header_atom for a in g.atoms()):
                            gk = self.canon_guard(g, lvs)
                            if gk not in guards:
                                guards[gk] = self.guard_fn(g, lvs)
                                chg = True
                if chg and rounds < 30:
                    continue
                # consecution
                dropped = False
                for _, b, _ in backs:
                    bview = self.view(b, f, header, lvs, None, st0, False)
                    bc_ = self.candidates(bview, steps, {}, guard_polys=guards)
                    for i in alive:
                        nm = cands[i][0]
                        if nm in dead:
                            continue
                        g = bc_[i][1]
                        user = nm.startswith('user:')
                        if g is None or tm.prove(b.path, g, 1.0 if user else 0.3, False, user)[0] != 'proved':
                            dead.add(nm)
                            dropped = True
                for nm, bs, g in self.frame_steps(lvs, backs, st0):
                    if nm not in dead_frames and (g is None or tm.prove(bs.path, g, 0.5, False, False)[0] != 'proved'):
                        dead_frames.add(nm)
                        dropped = True
                if dropped:
                    continue
                break
        finally:
            self.infer -= 1
        kept = [cands[i][0] for i in alive]
        self.loop_report[(fnname, header)] = dict(invariants=kept, havoc=[lv.name for lv in lvs], guards=len(guards))
        if self.infer == 0:
            # final pass with obligations discharged; consecution recorded as obligations
            backs, exits, others = self.run_body(H, depth, header, body)
            ent = [ents[i] for i in alive]
            for (nm, b) in ent:
                self.obs.append(Ob(name='loop invariant holds on entry: ' + nm, fn=fnname, status='proved', backend='z3', time=0))
            for _, b, _ in backs:
                bview = self.view(b, f, header, lvs, None, st0, False)
                bc_ = self.candidates(bview, steps, {}, guard_polys=guards)
                for i in alive:
                    self.oblige(b, bc_[i][1], 'loop invariant preserved: ' + cands[i][0], assume=False)
            for nm, bs, g in self.frame_steps(lvs, backs, st0):
                self.oblige(bs, g, 'loop invariant preserved: ' + nm, assume=False)
        return exits + others

    def frame_steps(self, lvs, backs, st0):
        for a in lvs:
            if a.kind != 'array' or not a.frames:
                continue
            j = var('anyelement', True)
            C.atoms[next(iter(j.atoms()))].facts = [j >= 0]
            names = {f[0] for f in a.frames}
            for nm, it, side, src in self.frame_cands(a, lvs, st0):
                if nm not in names:
                    continue
                old = arr_get(src, j)
                ent = it.entry
                if src is not a.arr_entry:      # copied: nothing is copied yet on entry
                    yield nm, st0, Implies(self.frame_cond(j, ent, it, side, a.region), FALSE) if ent is not None else None
                for _, b, _ in backs:
                    nv = self.lvval(b, it)
                    cc = self.content(b, a.region)
                    new = arr_get(cc.fields[a.where[2]][1], j) if a.where[2] in cc.fields else None
                    if nv is None or not isinstance(new, Poly) or not isinstance(old, Poly):
                        yield nm, b, None
                    else:
                        yield nm, b, Implies(self.frame_cond(j, nv, it, side, a.region), tm.eq0(new - old))

    def canon_guard(self, g, lvs):
        amap = {}
        for lv in lvs:
            for a in lv.atomset:
                amap[a] = lv.name
        return tuple(sorted((tuple(sorted(str(amap.get(a, a)) for a in m)), c) for m, c in g.t.items()))

    def guard_fn(self, g, lvs):
        """function of a list of lv values -> poly"""
        am = {}
        for i, lv in enumerate(lvs):
            for a in lv.atomset:
                am[a] = (lv.name)
        def fn(vals):
            r = P(0)
            for m, c in g.t.items():
                t = P(c)
                for a in m:
                    if a in am:
                        v = vals.get(am[a])
                        if v is None:
                            return None
                        t = t * v
                    else:
                        t = t * Poly({(a,): 1})
                r = r + t
            return r
        return fn

    def make_header(self, st0, f, phis, entry_regs, havoc_phi, havoc_cell, dead_frames=()):
        H = st0.fork()
        lvs = []
        amap = {}
        self.first_header_atom = len(C.atoms)
        for i in phis:
            if i.dst in havoc_phi:
                info = havoc_phi[i.dst]
                if info['kind'] == 'undef':
                    H.top.regs[i.dst] = UNDEF
                    continue
                lv = self.havoc_value('%' + i.dst, entry_regs[i.dst], i.ty, info)
                H.top.regs[i.dst] = lv.cur
                lv.where = ('phi', i.dst)
                lvs.append(lv)
        for key in sorted(havoc_cell, key=lambda k: (k[0].id, str(k[1]))):
            r, off = key
            info = havoc_cell[key]
            c = self.wcontent(H, r)
            if not isinstance(off, tuple) and off not in c.cells and c.stride:
                havoc_cell.pop(key)      # became part of an array
                continue
            if isinstance(off, tuple):
                _, fld = off
                size, old = c.fields[fld]
                isint = info['isint']
                base = 'arr%d_%d_%d' % (r.id, fld, len(C.atoms))
                lohi = info.get('range')
                if isint:
                    lohi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
                frames = []
                def rd(idx, base=base, isint=isint, lohi=lohi, size=size, frames=frames, frames_done=set()):
                    v = tm.uf(base, [idx], isint, *(lohi or (None, None)))
                    if not isint:
                        mark_fp(v, 53 if size == 8 else 24)
                    ats = list(v.atoms())
                    if len(ats) == 1 and idx.key not in frames_done:
                        frames_done.add(idx.key)
                        def facts(idx=idx, v=v):
                            out = []
                            for nm, cond, src in frames:
                                o = arr_get(src, idx)
                                if isinstance(o, Poly):
                                    out.append(Implies(And(idx >= 0, cond(idx)), tm.eq0(v - o)))
                            return out
                        C.atoms[ats[0]].lazy = facts
                    return v
                c.fields[fld] = (size, Arr('base', rd))
                lv = LV('%s[].%d' % (r.name, fld), 'array', None, None, region=r)
                lv.atomset = set()
                lv.frames = frames
                lv.arr_entry = old
                lv.where = ('arr', r, fld)
                lv.cur = None
                lvs.append(lv)
            elif info['kind'] == 'undef':
                c.cells[off] = (c.cells[off][0], UNDEF)
            else:
                size, old = c.cells[off]
                lv = self.havoc_value('%s+%d' % (r.name, off), old, T('int', size * 8), info)
                c.cells[off] = (size, lv.cur)
                lv.where = ('cell', r, off)
                lvs.append(lv)
        # frame conditions of arrays: elements on one side of an iterator or counter still have their value from before the loop, or were copied from another array
        for a in lvs:
            if a.kind != 'array':
                continue
            for nm, it, side, src in self.frame_cands(a, lvs, st0):
                if nm not in dead_frames:
                    a.frames.append((nm, lambda j, it=it, side=side, r=a.region: self.frame_cond(j, it.ptr.o if it.kind == 'ptr' else it.val, it, side, r), src))
        return H, lvs, amap

    def frame_cands(self, a, lvs, st0):
        its = [it for it in lvs if (it.kind == 'ptr' and it.region is a.region and a.region.stride) or (it.kind == 'int' and it.bits == 64)]
        fld = a.where[2]
        for it in its:
            for side in ('from', 'before'):
                yield 'frame: %s unchanged %s %s' % (a.name, side, it.name), it, side, a.arr_entry
            for o in lvs:
                # another array walked by a pointer of the same loop: copied element by element
                if o.kind == 'ptr' and o.region is not a.region and o.region.stride == a.region.stride and o.region.stride:
                    co = self.content(st0, o.region)
                    ca = self.content(st0, a.region)
                    if fld in co.fields and fld in ca.fields and co.fields[fld][0] == ca.fields[fld][0] and co.fields[fld][1].k == 'base' and not any(l.kind == 'array' and l.region is o.region for l in lvs):
                        yield 'frame: %s copied from %s before %s' % (a.name, o.region.name, it.name), it, 'before', co.fields[fld][1]

    def frame_cond(self, j, pos, it, side, r):
        i = pos / r.stride if it.kind == 'ptr' else pos
        return j >= i if side == 'from' else j < i

    def havoc_value(self, name, entry, ty, info):
        k = info['kind']
        if k == 'int':
            n = ty.n
            v = var('h' + name, True, -(1 << (n - 1)), (1 << (n - 1)) - 1)
            if isinstance(entry, B):
                entry = b2i(entry)
            lv = LV(name, 'int', v, entry if isinstance(entry, Poly) else None, bits=n)
            lv.cur = v
        elif k == 'bool':
            v = var('h' + name, True, 0, 1)
            at = C.atoms[next(iter(v.atoms()))]
            b = B('le', P(1) - v)
            at.boolval = b
            lv = LV(name, 'bool', v, b2i(entry) if isinstance(entry, B) else None)
            lv.cur = b
        elif k == 'real':
            v = mark_fp(var('h' + name, False, *(info.get('range') or (None, None))), 53)
            lv = LV(name, 'real', v, entry if isinstance(entry, Poly) else None)
            lv.cur = v
        elif k == 'ptr':
            S = info['stride']
            kk = var('h' + name, True)
            off = entry.o + kk * S
            lv = LV(name, 'ptr', off, entry.o, region=entry.r, stride=S)
            lv.cur = Ptr(entry.r, off)
            lv.ptr = lv.cur
            lv.karg = kk
            lv.atomset = set(kk.atoms())
            lv.S = S
            return lv
        else:
            raise Unsupported('havoc of ' + k)
        lv.atomset = set(v.atoms())
        return lv

    def lvval(self, st, lv):
        w = lv.where
        if w[0] == 'phi':
            v = st.top.regs[w[1]]
        elif w[0] == 'cell':
            c = self.content(st, w[1])
            v = c.cells[w[2]][1]
        else:
            return None
        if v is UNDEF:
            return None
        if lv.kind == 'bool':
            return b2i(v) if isinstance(v, B) else v
        if lv.kind == 'ptr':
            return v.o if isinstance(v, Ptr) else None
        if isinstance(v, B):
            return b2i(v)
        return v if isinstance(v, Poly) else None

    def view(self, st, f, header, lvs, _, st0, entry):
        out = []
        for lv in lvs:
            n = LV(lv.name, lv.kind, self.lvval(st, lv), lv.entry, lv.bits, lv.region, lv.stride)
            n.where = lv.where
            n.atomset = lv.atomset
            if lv.kind == 'ptr':
                n.ptr = Ptr(lv.region, n.val)
            out.append(n)
        return LoopView(self, st, f, header, out, st0)

    def candidates(self, L, steps, guards, subst=None, guard_polys=None):
        cs = []
        g = guard_polys if guard_polys is not None else guards
        num = [l for l in L.lvs if l.kind in ('int', 'ptr', 'bool', 'real')]
        ints = [l for l in L.lvs if l.kind in ('int', 'ptr')]

        def add(nm, fn, *ls):
            if any(l.val is None for l in ls):
                cs.append((nm, None))
                return
            try:
                cs.append((nm, tm.tob(fn())))
            except TypeError:
                cs.append((nm, None))
        for l in ints:
            if l.entry is not None:
                add('%s>=entry' % l.name, lambda: l.val >= l.entry, l)
                add('%s<=entry' % l.name, lambda: l.val <= l.entry, l)
            if l.kind == 'int':
                add('%s>=0' % l.name, lambda: l.val >= 0, l)
                if l.bits == 8:
                    add('%s<=1' % l.name, lambda: l.val <= 1, l)
        for l in num:
            if l.kind == 'real':
                add('%s>=0' % l.name, lambda: l.val >= 0, l)
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                sa, sb = steps.get(a.name), steps.get(b.name)
                if sa and sb and a.entry is not None and b.entry is not None:
                    add('lin(%s,%s)' % (a.name, b.name), lambda: tm.eq0((a.val - a.entry) * sb - (b.val - b.entry) * sa), a, b)
                if len(ints) <= 8 and a.kind == b.kind == 'int' or (a.kind == b.kind == 'ptr' and a.region is b.region):
                    add('%s<=%s' % (a.name, b.name), lambda: a.val <= b.val, a, b)
                    add('%s>=%s' % (a.name, b.name), lambda: a.val >= b.val, a, b)
        vals = {l.name: l.val for l in L.lvs if l.kind in ('int', 'ptr', 'bool', 'real')}
        kv = {}
        for l in L.lvs:
            if l.kind == 'ptr' and l.val is not None:
                d = l.val - l.entry
                kv[l.name] = Poly({m: tm.norm(Fraction(c, l.stride)) for m, c in d.t.items()})
            elif l.val is not None and l.kind in ('int', 'bool', 'real'):
                kv[l.name] = l.val
        for gk, fn in g.items():
            for d in (0, 1):
                for sg in (1, -1):
                    nm = 'guard%s%d:%s' % ('+' if sg > 0 else '-', d, gk)
                    p = fn(kv)
                    cs.append((nm, None if p is None else tm.le0(p * sg - d)))
        for t in self.inv_templates:
            for nm, b in t(L):
                cs.append(('user:' + nm, None if b is None else tm.tob(b)))
        return cs

    def diff(self, H, b, phis, entry_regs, st0, havoc_phi, havoc_cell, f):
        grew = False
        for i in phis:
            nv = b.top.regs[i.dst]
            cur = H.top.regs[i.dst]
            if i.dst in havoc_phi:
                info = havoc_phi[i.dst]
                if info['kind'] == 'ptr':
                    grew |= self.check_ptr(info, entry_regs[i.dst], nv)
                continue
            if not same_value(cur, nv):
                havoc_phi[i.dst] = self.kind_of(entry_regs[i.dst], nv, i.ty)
                grew = True
        for rid, c in b.mem.items():
            h = H.mem.get(rid)
            if h is None:
                h = self.globmem.get(rid)
            if h is None or h is c:
                continue   # new region or unchanged
            r = self.region_by_id(rid, b)
            if c.stride != h.stride:
                # the body turned this memory into an array: do it before the loop as well
                c0 = self.wcontent(st0, r)
                self.to_stride(c0, r, c.stride)
                for f_, (sz, a) in c.fields.items():
                    if f_ not in c0.fields:
                        c0.fields[f_] = (sz, Arr('zero') if c0.zero else Arr('undef'))
                grew = True
                continue
            for off in set(c.cells) | set(h.cells):
                x, y = c.cells.get(off), h.cells.get(off)
                if x is None or y is None:
                    if y is None:
                        # newly written cell; value at header undefined
                        z = any(lo <= off and off + x[0] <= hi for lo, hi in h.zero)
                        c0 = self.wcontent(st0, r)
                        c0.cells[off] = (x[0], P(0) if z else UNDEF)
                        havoc_cell[(r, off)] = self.kind_of(P(0) if z else UNDEF, x[1], self.cellty(r, off, x[0]))
                        grew = True
                    else:
                        raise Unsupported('memory shape changes in loop')
                    continue
                if (r, off) in havoc_cell:
                    if havoc_cell[(r, off)]['kind'] == 'undef':
                        continue
                    if havoc_cell[(r, off)]['kind'] == 'ptr':
                        grew |= self.check_ptr(havoc_cell[(r, off)], self.content(st0, r).cells[off][1], x[1])
                    elif havoc_cell[(r, off)]['kind'] == 'int' and isinstance(x[1], Poly) and (not x[1].isint or 'f' in self.gettag(r, off)):
                        havoc_cell[(r, off)] = dict(kind='real')
                        grew = True
                    elif isinstance(x[1], (Ptr, Special)):
                        raise Unsupported('loop-carried cell changes type')
                    continue
                if not same_value(x[1], y[1]):
                    e = self.content(st0, r).cells[off]
                    havoc_cell[(r, off)] = self.kind_of(e[1], x[1], self.cellty(r, off, x[0]))
                    grew = True
            for fld in c.fields:
                if fld not in h.fields:
                    c0 = self.wcontent(st0, r)
                    c0.fields[fld] = (c.fields[fld][0], Arr('zero') if c0.zero else Arr('undef'))
                    grew = True
                    continue
                if c.fields[fld][1] is not h.fields[fld][1]:
                    v = c.fields[fld][1]
                    tag = self.gettag(r, ('f', fld))
                    isint = 'f' not in tag
                    while v.k in ('store', 'copy'):
                        if v.k == 'store':
                            sv = v.a[2]
                            if isinstance(sv, Ptr):
                                raise Unsupported('pointer array written in loop')
                            if isinstance(sv, Poly) and not sv.isint:
                                isint = False
                            v = v.a[0]
                        else:
                            v = v.a[4]
                    old = havoc_cell.get((r, ('arr', fld)))
                    if not isint and 'i' in tag:
                        raise Unsupported('memory of mixed type in loop')
                    if isint:
                        self.settag(r, ('f', fld), 'i')
                    if old is None or (old['isint'] and not isint):
                        havoc_cell[(r, ('arr', fld))] = dict(kind='arr', isint=isint)
                        grew = True
        return grew

    def cellty(self, r, off, size):
        t = self.gettag(r, off)
        if 'f' in t:
            if 'i' in t:
                raise Unsupported('memory of mixed type in loop')
            return T('float', 8 * size)
        self.settag(r, off, 'i')
        return T('int', 8 * size)

    def region_by_id(self, rid, st):
        r = self._regions.get(rid) if hasattr(self, '_regions') else None
        if r is None:
            for g in self.globals.values():
                if g.id == rid:
                    return g
            raise Unsupported('region lookup')
        return r

    def check_ptr(self, info, entry, nv):
        if not isinstance(nv, Ptr) or nv.r is not entry.r:
            raise Unsupported('pointer changes object in loop (%r -> %r)' % (entry, nv))
        d = nv.o - entry.o
        g = info['stride']
        for m, c in d.t.items():
            g = tm._gcd(g, int(c))
        if g != info['stride']:
            info['stride'] = g
            return True
        return False

    def kind_of(self, entry, nv, ty):
        if entry is UNDEF and (isinstance(nv, Ptr) or nv is UNDEF):
            return dict(kind='undef')     # scratch memory of one iteration: unreadable until written again
        if isinstance(nv, Ptr) or isinstance(entry, Ptr):
            if not isinstance(entry, Ptr) or not isinstance(nv, Ptr) or entry.r is not nv.r:
                raise Unsupported('pointer changes object in loop (%r -> %r)' % (entry, nv))
            d = nv.o - entry.o
            g = 0
            for m, c in d.t.items():
                g = tm._gcd(g, int(c))
            return dict(kind='ptr', stride=g or 1)
        if isinstance(nv, B) and (isinstance(entry, B) or entry is UNDEF):
            return dict(kind='bool')
        if isinstance(nv, Special) or isinstance(entry, Special):
            raise Unsupported('non-finite value in loop')
        x = nv if isinstance(nv, (Poly, B)) else entry
        if isinstance(x, B):
            x = b2i(x)
        if ty.k == 'float':
            return dict(kind='real')
        if not isinstance(x, Poly):
            raise Unsupported('loop-carried value %r' % (x,))
        if not x.isint or (isinstance(entry, Poly) and not entry.isint):
            return dict(kind='real')
        return dict(kind='int')


def amap_entry(lvs):
    return None


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and a.o.key == b.o.key
    if isinstance(a, B) and isinstance(b, Poly):
        a = b2i(a)
    if isinstance(b, B) and isinstance(a, Poly):
        b = b2i(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a.key == b.key
    if isinstance(a, B) and isinstance(b, B):
        return a.key == b.key
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Special) and isinstance(b, Special):
        return a.k == b.k
    return False


def mval(model, p):
    """value of a Poly / B in a z3 model"""
    import z3
    if isinstance(p, B):
        return z3.is_true(model.eval(p.zz(False), model_completion=True))
    if not isinstance(p, Poly):
        return p
    v = model.eval(p.z(), model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise ValueError(str(v))


# regions registry (ids are unique in a process)
_old_init = Region.__init__


def _reg_init(self, *a, **k):
    _old_init(self, *a, **k)
    Executor._regions[self.id] = self


Executor._regions = {}
Region.__init__ = _reg_init
