"""Term layer of the verifier: polynomials over atoms, formulas, intervals, and the
translation to SMT.  Integers are mathematical integers (machine wrap-around and
overflow are made explicit by the executor); floating-point numbers are exact reals
with explicit rounding error atoms.

The same operators also work on plain Python numbers, so that a contract written once
can be proved symbolically and evaluated on a concrete run of the native code."""
from fractions import Fraction
import itertools, time
import z3

INF = None


class Atom:
    __slots__ = ('id', 'name', 'isint', 'z', 'lo', 'hi', 'facts', 'boolval', 'deps', 'info', 'lazy')

    def __init__(self, id, name, isint, z, lo=None, hi=None):
        self.id = id
        self.name = name
        self.isint = isint
        self.z = z
        self.lo = lo
        self.hi = hi
        self.facts = []
        self.boolval = None
        self.deps = frozenset()
        self.info = None
        self.lazy = None    # callable giving more facts the first time the atom is used in a query

    def __repr__(self):
        return self.name


class Ctx:
    def __init__(self):
        self.atoms = []
        self.cache = {}
        self.counter = itertools.count()
        self.stats = dict(syntactic=0, z3=0, cvc5=0, z3_time=0.0, cvc5_time=0.0, queries=0)
        self.mono_lin = {}
        self.notes = set()

    def fresh(self, name, isint=True, lo=None, hi=None, z=None):
        i = len(self.atoms)
        nm = '%s!%d' % (name, i)
        if z is None:
            z = z3.Int(nm) if isint else z3.Real(nm)
        a = Atom(i, nm, isint, z, lo, hi)
        self.atoms.append(a)
        return a


C = Ctx()


def reset():
    global C
    C.__init__()


# ------------------------------------------------------------------ polynomials
def _isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


class Poly:
    __slots__ = ('t', '_key', '_iv', '_z', '_zl', '_int')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._iv = False
        self._z = None
        self._zl = None
        self._int = None

    # -- structure
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def same(self, o):
        return self.key == P(o).key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    @property
    def isint(self):
        """every coefficient and every atom is an integer"""
        if self._int is None:
            self._int = all((isinstance(c, int) or c.denominator == 1) for c in self.t.values()) and all(
                C.atoms[a].isint for m in self.t for a in m)
        return self._int

    @property
    def intatoms(self):
        return all(C.atoms[a].isint for m in self.t for a in m)

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if o.is_const():
            k = o.const()
            if k == 0:
                return Poly({})
            if k == 1:
                return self
            return Poly({m: c * k for m, c in self.t.items()})
        if self.is_const():
            return o * self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else m1 + m2
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return Poly(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        """exact division by a non-zero constant"""
        o = P(o)
        if o.is_const():
            k = Fraction(o.const())
            return Poly({m: norm(Fraction(c) / k) for m, c in self.t.items()})
        return rdiv(self, o)

    def __rtruediv__(self, o):
        return P(o) / self

    def __pow__(self, n):
        r = P(1)
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items()):
            out.append((str(c) + '*' if c != 1 or not m else '') + '*'.join(C.atoms[a].name for a in m) if m else str(c))
        return ' + '.join(out)

    # -- comparisons produce formulas
    def __le__(self, o):
        return le0(self - o)

    def __lt__(self, o):
        return lt0(self - o)

    def __ge__(self, o):
        return le0(P(o) - self)

    def __gt__(self, o):
        return lt0(P(o) - self)

    def __eq__(self, o):
        if o is None:
            return False
        return eq0(self - o)

    def __ne__(self, o):
        if o is None:
            return True
        return Not(eq0(self - o))

    # -- intervals
    def iv(self):
        if self._iv is False:
            lo = hi = 0
            for m, c in self.t.items():
                l, h = mono_iv(m)
                if c < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
                if lo is None and hi is None:
                    break
            self._iv = (lo, hi)
        return self._iv

    def z(self):
        if self._z is None:
            self._z = poly_z(self, False)
        return self._z

    def zl(self):
        if self._zl is None:
            self._zl = poly_z(self, True)
        return self._zl


def norm(f):
    if isinstance(f, Fraction) and f.denominator == 1:
        return int(f)
    return f


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly({(): int(x)}) if x else Poly({})
    if isinstance(x, int):
        return Poly({(): x}) if x else Poly({})
    if isinstance(x, Fraction):
        return Poly({(): norm(x)}) if x else Poly({})
    if isinstance(x, float):
        return P(norm(Fraction(x)))
    if isinstance(x, Atom):
        return Poly({(x.id,): 1})
    if isinstance(x, B):
        return b2i(x)
    raise TypeError('not a number term: %r' % (x,))


def var(name, isint=True, lo=None, hi=None):
    return P(C.fresh(name, isint, lo, hi))


def mono_iv(m):
    if not m:
        return (1, 1)
    lo, hi = 1, 1
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        n = j - i
        a = C.atoms[m[i]]
        l, h = a.lo, a.hi
        if n % 2 == 0:
            if l is not None and l >= 0:
                pl, ph = l ** n, (None if h is None else h ** n)
            elif h is not None and h <= 0:
                pl, ph = h ** n, (None if l is None else l ** n)
            else:
                pl = 0
                ph = None if l is None or h is None else max(l ** n, h ** n)
        else:
            pl = None if l is None else l ** n
            ph = None if h is None else h ** n
        lo, hi = imul((lo, hi), (pl, ph))
        i = j
    return (lo, hi)


def imul(a, b):
    (al, ah), (bl, bh) = a, b
    if None not in (al, ah, bl, bh):
        v = (al * bl, al * bh, ah * bl, ah * bh)
        return min(v), max(v)
    # partial: both known non-negative
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return al * bl, None if ah is None or bh is None else ah * bh
    if (al, ah) == (0, 0) or (bl, bh) == (0, 0):
        return 0, 0
    return None, None


def _zc(c, real):
    if real:
        c = Fraction(c)
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
    return z3.IntVal(int(c))


def mono_z(m, real, lin):
    if lin and len(m) > 1:
        isint = all(C.atoms[a].isint for a in m)
        k = C.mono_lin.get(m)
        if k is None:
            nm = 'mono_' + '_'.join(map(str, m))
            k = (z3.Int(nm) if isint else z3.Real(nm), isint)
            C.mono_lin[m] = k
        v, isint = k
        return z3.ToReal(v) if real and isint else v
    r = None
    for a in m:
        at = C.atoms[a]
        v = at.z
        if real and at.isint:
            v = z3.ToReal(v)
        r = v if r is None else r * v
    return r


def poly_z(p, lin, real=None):
    if real is None:
        real = not p.isint
    if not p.t:
        return _zc(0, real)
    ts = []
    for m, c in p.key:
        if not m:
            ts.append(_zc(c, real))
        elif c == 1:
            ts.append(mono_z(m, real, lin))
        else:
            ts.append(_zc(c, real) * mono_z(m, real, lin))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


# ------------------------------------------------------------------ formulas
class B:
    """k: 'const' v | 'le'/'lt'/'eq' poly (vs 0) | 'and'/'or' tuple | 'not' b | 'raw' z3expr"""
    __slots__ = ('k', 'v', '_atoms', '_z', '_zl', '_key', 'extra')

    def __init__(self, k, v, extra=frozenset()):
        self.k = k
        self.v = v
        self.extra = extra
        self._atoms = self._z = self._zl = self._key = None

    @property
    def key(self):
        if self._key is None:
            if self.k in ('le', 'lt', 'eq'):
                self._key = (self.k, self.v.key)
            elif self.k in ('and', 'or'):
                self._key = (self.k, tuple(x.key for x in self.v))
            elif self.k == 'not':
                self._key = ('not', self.v.key)
            elif self.k == 'const':
                self._key = ('const', self.v)
            else:
                self._key = ('raw', self.v.get_id())
        return self._key

    def atoms(self):
        if self._atoms is None:
            if self.k in ('le', 'lt', 'eq'):
                s = self.v.atoms()
            elif self.k in ('and', 'or'):
                s = set()
                for x in self.v:
                    s |= x.atoms()
            elif self.k == 'not':
                s = self.v.atoms()
            else:
                s = set(self.extra)
            self._atoms = frozenset(s)
        return self._atoms

    def zz(self, lin):
        r = self._zl if lin else self._z
        if r is None:
            k, v = self.k, self.v
            if k == 'const':
                r = z3.BoolVal(v)
            elif k in ('le', 'lt', 'eq'):
                p = v
                if p.intatoms:
                    # clear denominators
                    d = 1
                    for c in p.t.values():
                        if not isinstance(c, int):
                            d = d * c.denominator // _gcd(d, c.denominator)
                    if d != 1:
                        p = p * d
                    e = poly_z(p, lin, False)
                    zero = z3.IntVal(0)
                else:
                    e = poly_z(p, lin, True)
                    zero = z3.RealVal(0)
                r = e <= zero if k == 'le' else e < zero if k == 'lt' else e == zero
            elif k == 'and':
                r = z3.And(*[x.zz(lin) for x in v])
            elif k == 'or':
                r = z3.Or(*[x.zz(lin) for x in v])
            elif k == 'not':
                r = z3.Not(v.zz(lin))
            else:
                r = v
            if lin:
                self._zl = r
            else:
                self._z = r
        return r

    def __repr__(self):
        if self.k in ('le', 'lt', 'eq'):
            return '(%r %s 0)' % (self.v, {'le': '<=', 'lt': '<', 'eq': '=='}[self.k])
        if self.k in ('and', 'or'):
            return '(' + (' %s ' % self.k).join(map(repr, self.v)) + ')'
        if self.k == 'not':
            return 'not %r' % (self.v,)
        return str(self.v)

    def __bool__(self):
        if self.k == 'const':
            return self.v
        raise TypeError('symbolic formula used as a Python bool: %r' % self)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


TRUE = B('const', True)
FALSE = B('const', False)


def bc(v):
    return TRUE if v else FALSE


def _reduce(p, eq):
    """divide by the content (keeps sign)"""
    if not p.t:
        return p
    if not p.intatoms:
        return p
    d = 1
    for c in p.t.values():
        if not isinstance(c, int):
            d = d * c.denominator // _gcd(d, c.denominator)
    g = 0
    for m, c in p.t.items():
        g = _gcd(g, int(c * d))
    if g == d == 1:
        return p
    return Poly({m: norm(Fraction(c) * d / g) for m, c in p.t.items()})


def le0(p):
    p = P(p)
    lo, hi = p.iv()
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    return B('le', _reduce(p, False))


def lt0(p):
    p = P(p)
    lo, hi = p.iv()
    if hi is not None and hi < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    p = _reduce(p, False)
    if p.isint:
        return B('le', p + 1)
    return B('lt', p)


def eq0(p):
    p = P(p)
    if not p.t:
        return TRUE
    lo, hi = p.iv()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if len(p.t) == 1:
        # c*m == 0  ->  keep
        pass
    if len(p.t) <= 2:
        m = next((m for m in p.t if m), None)
        if m is not None and len(m) == 1 and C.atoms[m[0]].boolval is not None and len(p.t) - 1 == (() in p.t):
            # a truth value compared with a constant: the formula it stands for
            v = -Fraction(p.t.get((), 0)) / p.t[m]
            return Not(C.atoms[m[0]].boolval) if v == 0 else C.atoms[m[0]].boolval if v == 1 else FALSE
    p = _reduce(p, True)
    # canonical sign
    k = p.key
    if k[-1][1] < 0:
        p = -p
    return B('eq', p)


def tob(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return bc(x)
    raise TypeError('not a formula %r' % (x,))


def Not(b):
    if isinstance(b, bool):
        return not b
    if b.k == 'const':
        return bc(not b.v)
    if b.k == 'not':
        return b.v
    if b.k == 'le':
        return lt0(-b.v)
    if b.k == 'lt':
        return le0(-b.v)
    return B('not', b)


def And(*bs):
    bs = _flat(bs)
    if all(isinstance(b, bool) for b in bs):
        return all(bs)
    out, seen = [], set()
    for b in bs:
        b = tob(b)
        if b.k == 'const':
            if not b.v:
                return FALSE
            continue
        for x in (b.v if b.k == 'and' else (b,)):
            if x.key not in seen:
                seen.add(x.key)
                out.append(x)
    if len(out) == 2:
        # x != 0 and x <= 0, as three-way comparisons state x < 0
        for x, y in (out, out[::-1]):
            if x.k == 'or' and len(x.v) == 2 and x.v[0].k == x.v[1].k == 'lt' and y.k == 'le' and (x.v[0].v + x.v[1].v).key == P(0).key:
                for z in x.v:
                    if z.v.key == y.v.key:
                        return z
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B('and', tuple(out))


def Or(*bs):
    bs = _flat(bs)
    if all(isinstance(b, bool) for b in bs):
        return any(bs)
    out, seen = [], set()
    for b in bs:
        b = tob(b)
        if b.k == 'const':
            if b.v:
                return TRUE
            continue
        for x in (b.v if b.k == 'or' else (b,)):
            if x.key not in seen:
                seen.add(x.key)
                out.append(x)
    if not out:
        return FALSE
    for x in out:
        if Not(x).key in seen:
            return TRUE
    if len(out) == 1:
        return out[0]
    return B('or', tuple(out))


def _flat(bs):
    if len(bs) == 1 and isinstance(bs[0], (list, tuple)):
        return list(bs[0])
    if len(bs) == 1 and hasattr(bs[0], '__next__'):
        return list(bs[0])
    return list(bs)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    a, b = tob(a), tob(b)
    if a.k == 'const':
        return b if a.v else Not(b)
    if b.k == 'const':
        return a if b.v else Not(a)
    if a.key == b.key:
        return TRUE
    return And(Or(Not(a), b), Or(a, Not(b)))


def b2i(b):
    """0/1 integer of a formula"""
    if isinstance(b, bool):
        return int(b)
    if b.k == 'const':
        return P(1 if b.v else 0)
    ck = ('b2i', b.key)
    r = C.cache.get(ck)
    if r is None:
        a = C.fresh('b2i', True, 0, 1)
        a.boolval = b
        p = P(a)
        a.facts = [Iff(B('le', P(1) - p), b)]
        C.cache[ck] = r = p
    return r


def as_bool(p):
    """formula p != 0"""
    if isinstance(p, B):
        return p
    if isinstance(p, (int, Fraction)):
        return p != 0
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and C.atoms[m[0]].boolval is not None:
            return C.atoms[m[0]].boolval
    return Not(eq0(p))


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = tob(c)
    if c.k == 'const':
        return a if c.v else b
    if isinstance(a, B) or isinstance(b, B) or isinstance(a, bool):
        return And(Or(Not(c), a), Or(c, b))
    a, b = P(a), P(b)
    if a.key == b.key:
        return a
    ck = ('ite', c.key, a.key, b.key)
    r = C.cache.get(ck)
    if r is None:
        r = C.cache.get(('ite', Not(c).key, b.key, a.key))
    if r is None:
        if a.is_const() and b.is_const() and a.intatoms:
            # affine in the 0/1 atom
            r = b + (a - b) * b2i(c)
            C.cache[ck] = r
            return r
        (al, ah), (bl, bh) = a.iv(), b.iv()
        lo = None if al is None or bl is None else min(al, bl)
        hi = None if ah is None or bh is None else max(ah, bh)
        at = C.fresh('ite', a.isint and b.isint, lo, hi)
        p = P(at)
        at.facts = [Or(Not(c), eq0(p - a)), Or(c, eq0(p - b))]
        at.info = ('ite', c, a, b)
        C.cache[ck] = r = p
    return r


def Min(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return min(a, b)
    return If(P(a) <= b, a, b)


def Max(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return max(a, b)
    return If(P(a) >= b, a, b)


def Abs(a):
    if not isinstance(a, Poly):
        return abs(a)
    return If(a >= 0, a, -a)


# ------------------------------------------------------------------ division & friends
def tdiv(a, b):
    """C truncating integer division; total only for b != 0 (the executor emits the obligation)"""
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    return _divmod(P(a), P(b))[0]


def tmod(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a - b * tdiv(a, b)
    return _divmod(P(a), P(b))[1]


def _divmod(a, b):
    if a.is_const() and b.is_const() and b.const() != 0:
        q = tdiv(int(a.const()), int(b.const()))
        return P(q), a - b * q
    if b.is_const() and b.const() != 0:
        k = b.const()
        if all(c % k == 0 for c in a.t.values()):
            return Poly({m: c // k for m, c in a.t.items()}), P(0)
    (al0, ah0), (bl0, bh0) = a.iv(), b.iv()
    if al0 is not None and al0 >= 0 and bl0 is not None and bl0 > 0 and ah0 is not None and ah0 < bl0:
        return P(0), a
    ck = ('div', a.key, b.key)
    r = C.cache.get(ck)
    if r is not None:
        return r
    al, ah = a.iv()
    bl, bh = b.iv()
    # |q| <= |a|
    lo = hi = None
    if al is not None and ah is not None:
        m = max(abs(al), abs(ah))
        bm = 1
        if bl is not None and bl > 0:
            bm = bl
        elif bh is not None and bh < 0:
            bm = -bh
        hi = m // bm
        lo = -hi
        if bl is not None and bl > 0:
            lo = tdiv(al, bl) if al < 0 else (0 if bh is None else al // bh)
            hi = tdiv(ah, bl) if ah >= 0 else 0
    q = C.fresh('quo', True, lo, hi)
    rlo = rhi = None
    bm = None
    if bl is not None and bh is not None:
        bm = max(abs(bl), abs(bh)) - 1
        rlo, rhi = -bm, bm
    if al is not None and al >= 0:
        rlo = 0
    if ah is not None and ah <= 0:
        rhi = 0
    rem = C.fresh('rem', True, rlo, rhi)
    qp, rp = P(q), P(rem)
    f = [Implies(b != 0, eq0(qp * b + rp - a)),
         Implies(And(b > 0, a >= 0), And(rp >= 0, rp < b, qp >= 0)),
         Implies(And(b > 0, a <= 0), And(rp <= 0, -rp < b, qp <= 0)),
         Implies(And(b < 0, a >= 0), And(rp >= 0, rp < -b, qp <= 0)),
         Implies(And(b < 0, a <= 0), And(rp <= 0, -rp < -b, qp >= 0))]
    f = [x for x in f if x.k != 'const']
    if not b.is_const():
        # redundant but linear: |q| <= |a|
        f += [Implies(And(b > 0, a >= 0), qp <= a), Implies(And(b > 0, a <= 0), qp >= a)]
    for (u, w) in C.cache.get(('factors', a.key), ()):
        for x, y in ((u, w), (w, u)):
            # a = x*y with |x| <= b: the quotient does not exceed |y|
            f.append(Implies(And(b > 0, x <= b, x >= -b), And(qp <= Abs(y), qp >= -Abs(y))))
    q.facts = f
    q.deps = frozenset([rem.id])
    rem.facts = f
    r = (qp, rp)
    C.cache[ck] = r
    return r


def floordiv(a, b):
    """floor(a/b) for b>0, via truncation"""
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a // b
    a, b = P(a), P(b)
    q, r = _divmod(a, b)
    return If(r < 0, q - 1, q)


def floormod(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a % b
    q, r = _divmod(P(a), P(b))
    return If(r < 0, r + b, r)


def rdiv(a, b):
    """exact real quotient (b != 0 assumed by definition)"""
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return Fraction(a) / Fraction(b)
    a, b = P(a), P(b)
    if b.is_const():
        return a / b
    if not a.t:
        return a
    ck = ('rdiv', a.key, b.key)
    r = C.cache.get(ck)
    if r is None:
        al, ah = a.iv()
        bl, bh = b.iv()
        lo = hi = None
        if None not in (al, ah, bl, bh) and (bl > 0 or bh < 0):
            v = [Fraction(x) / Fraction(y) for x in (al, ah) for y in (bl, bh)]
            lo, hi = norm(min(v)), norm(max(v))
        elif None not in (al, ah, bl) and bl > 0:
            v = [Fraction(x) / Fraction(bl) for x in (al, ah)] + [0]
            lo, hi = norm(min(v)), norm(max(v))
        elif al is not None and al >= 0 and bl is not None and bl >= 0:
            lo = 0
        at = C.fresh('rdiv', False, lo, hi)
        p = P(at)
        # sign / magnitude facts are consequences, given to help the solver
        at.facts = [Implies(b != 0, eq0(p * b - a)),
                    Implies(And(b > 0, a >= 0), p >= 0), Implies(And(b > 0, a <= 0), p <= 0),
                    Implies(And(b > 0, a <= b), p <= 1), Implies(And(b > 0, a >= b), p >= 1),
                    Implies(And(b < 0, a >= 0), p <= 0), Implies(And(b < 0, a <= 0), p >= 0)]
        at.facts = [f for f in at.facts if f.k != 'const']
        at.info = ('rdiv', a, b)
        C.cache[ck] = r = p
    return r


def rsqrt(a):
    """exact real square root"""
    if not isinstance(a, Poly):
        raise TypeError
    ck = ('sqrt', a.key)
    r = C.cache.get(ck)
    if r is None:
        al, ah = a.iv()
        hi = None
        if ah is not None:
            hi = isqrt_up(ah)
        lo = 0
        if al is not None and al > 0:
            lo = isqrt_dn(al)
        at = C.fresh('sqrt', False, lo, hi)
        p = P(at)
        at.facts = [Implies(a >= 0, eq0(p * p - a)), p >= 0, Implies(a >= 1, And(p >= 1, p <= a)),
                    Implies(And(a >= 0, a <= 1), And(p <= 1, p >= a))]
        at.info = ('sqrt', a)
        C.cache[ck] = r = p
    return r


def isqrt_up(x):
    import math
    x = Fraction(x)
    n = math.isqrt(int(x * 10 ** 12)) + 1
    return Fraction(n, 10 ** 6)


def isqrt_dn(x):
    import math
    x = Fraction(x)
    n = math.isqrt(int(x * 10 ** 12))
    return Fraction(n, 10 ** 6)


def sqrt_lemma(a, p, kind):
    """integer facts about floor/round of a correctly rounded square root of an integer below 2^50.
    Floor: floor(RN(sqrt x)) = floor(sqrt x) because n is representable and sqrt(n^2-1) <= n - 1/(2n) is further from n than half an ulp.
    Round: n + 1/2 is representable, never equal to sqrt x, and 3/(8(n+1/2)) exceeds half an ulp."""
    if len(a.t) != 1:
        return []
    (m, c), = a.t.items()
    if c != 1 or len(m) != 1:
        return []
    at = C.atoms[m[0]]
    info = getattr(at, 'info', None)
    if info and info[0] == 'rnd' and info[2] == 53:
        e = info[1]
        if len(e.t) != 1:
            return []
        (m, c), = e.t.items()
        if c != 1 or len(m) != 1:
            return []
        info = getattr(C.atoms[m[0]], 'info', None)
    if not info or info[0] != 'sqrt':
        return []
    x = info[1]
    lo, hi = x.iv()
    if not x.isint or hi is None or hi > 2 ** 51:
        return []
    C.notes.add('lemma: integer rounding of a correctly rounded square root (x < 2^51) is exact')
    if kind == 'floor':
        f = [p >= 0, p * p <= x, x < (p + 1) * (p + 1)]
    else:
        f = [p >= 0, Or(eq0(p), p * p - p < x), x <= p * p + p]
    return [Implies(x >= 0, And(*f))]


def floor_(a):
    if not isinstance(a, Poly):
        import math
        return math.floor(a)
    if a.isint:
        return a
    ck = ('floor', a.key)
    r = C.cache.get(ck)
    if r is None:
        lo, hi = a.iv()
        import math
        at = C.fresh('floor', True, None if lo is None else math.floor(lo), None if hi is None else math.floor(hi))
        p = P(at)
        at.facts = [p <= a, a < p + 1] + sqrt_lemma(a, p, 'floor')
        C.cache[ck] = r = p
    return r


def trunc_(a):
    if not isinstance(a, Poly):
        return int(a)
    if a.isint:
        return a
    ck = ('trunc', a.key)
    r = C.cache.get(ck)
    if r is None:
        lo, hi = a.iv()
        at = C.fresh('trunc', True, None if lo is None else int(lo), None if hi is None else int(hi))
        p = P(at)
        at.facts = [Implies(a >= 0, And(p >= 0, p <= a, a < p + 1)), Implies(a <= 0, And(p <= 0, p >= a, a > p - 1))]
        at.facts = [f for f in at.facts if f.k != 'const'] + sqrt_lemma(a, p, 'floor')
        C.cache[ck] = r = p
    return r


def rint_(a):
    """nearest integer, ties to even"""
    if not isinstance(a, Poly):
        return round(Fraction(a))
    if a.isint:
        return a
    ck = ('rint', a.key)
    r = C.cache.get(ck)
    if r is None:
        lo, hi = a.iv()
        at = C.fresh('rint', True, None if lo is None else round(Fraction(lo)), None if hi is None else round(Fraction(hi)))
        p = P(at)
        h = Fraction(1, 2)
        ev = C.fresh('rinteven', True)
        tie = Or(eq0(p - a - h), eq0(p - a + h))
        at.facts = [p - a <= h, a - p <= h, Implies(tie, eq0(p - P(ev) * 2))] + sqrt_lemma(a, p, 'round')
        C.cache[ck] = r = p
    return r


def uf(name, args, isint=True, lo=None, hi=None, facts=None):
    """uninterpreted (ghost) function application, cached; facts(p) -> list of axiom instances"""
    args = [P(a) for a in args]
    ck = ('uf', name, tuple(a.key for a in args))
    r = C.cache.get(ck)
    if r is None:
        fn = z3.Function(name, *([z3.IntSort() if a.isint else z3.RealSort() for a in args] + [z3.IntSort() if isint else z3.RealSort()]))
        at = C.fresh('uf_' + name, isint, lo, hi, z=fn(*[a.z() for a in args]))
        at.deps = frozenset(x for a in args for x in a.atoms())
        r = P(at)
        C.cache[ck] = r
        if facts:
            at.lazy = lambda: facts(r)
    return r


# ------------------------------------------------------------------ solving
class Query:
    pass


def closure(bs):
    """transitive defining facts of the atoms of bs"""
    seen = set()
    todo = set()
    for b in bs:
        todo |= b.atoms()
    facts = []
    fk = set()
    while todo:
        a = C.atoms[todo.pop()]
        if a.id in seen:
            continue
        seen.add(a.id)
        if a.lazy:
            f = a.lazy
            a.lazy = None
            a.facts = a.facts + [tob(x) for x in f()]
        for d in a.deps:
            if d not in seen:
                todo.add(d)
        for f in a.facts:
            if f.k == 'const':
                continue
            if f.key not in fk:
                fk.add(f.key)
                facts.append(f)
                todo |= f.atoms() - seen
    return seen, facts


def bounds_z(aid):
    a = C.atoms[aid]
    out = []
    if a.lo is not None:
        out.append(a.z >= _zc(a.lo if not a.isint else -((-Fraction(a.lo)) // 1), not a.isint))
    if a.hi is not None:
        out.append(a.z <= _zc(a.hi if not a.isint else Fraction(a.hi) // 1, not a.isint))
    return out


def slice_path(path, goal_atoms):
    """path conditions transitively connected with the goal"""
    cur = set(goal_atoms)
    rest = [(p, None) for p in path]
    sel = []
    # connectivity through the closure of each path condition's own atoms
    clos = {}
    items = []
    for p in path:
        items.append((p, set(p.atoms())))
    changed = True
    seen, _ = closure([])
    gc = set()
    todo = set(goal_atoms)
    while changed:
        changed = False
        # expand atoms through facts
        stack = list(todo)
        while stack:
            x = stack.pop()
            if x in gc:
                continue
            gc.add(x)
            a = C.atoms[x]
            for d in a.deps:
                stack.append(d)
            for f in a.facts:
                for y in f.atoms():
                    if y not in gc:
                        stack.append(y)
        todo = set()
        rem = []
        for p, at in items:
            if at & gc or not at:
                sel.append(p)
                todo |= at
                changed = True
            else:
                rem.append((p, at))
        items = rem
    return sel


def build(assumps, lin=False):
    seen, facts = closure(assumps)
    zs = []
    monos = set()
    for b in list(assumps) + facts:
        zs.append(b.zz(lin))
        if lin:
            _monos(b, monos)
    for a in seen:
        zs += bounds_z(a)
    if lin:
        for m in monos:
            v, isint = C.mono_lin[m]
            lo, hi = mono_iv(m)
            if lo is not None:
                zs.append(v >= _zc(lo, not isint))
            if hi is not None:
                zs.append(v <= _zc(hi, not isint))
    return zs


def _monos(b, out):
    if b.k in ('le', 'lt', 'eq'):
        for m in b.v.t:
            if len(m) > 1:
                out.add(m)
    elif b.k in ('and', 'or'):
        for x in b.v:
            _monos(x, out)
    elif b.k == 'not':
        _monos(b.v, out)


def check_sat(assumps, timeout_ms, lin=False, want_model=False, tactic=None):
    assumps = [tob(a) for a in assumps]
    for a in assumps:
        if a.k == 'const' and not a.v:
            return 'unsat', None
    t0 = time.time()
    zs = build([a for a in assumps if a.k != 'const'], lin)
    s = z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*zs)
    C.stats['queries'] += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    C.stats['z3_time'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat and not tactic:
        return 'sat', (s.model() if want_model else None)
    return 'unknown', None


def cvc5_check(assumps, timeout_ms):
    import cvc5, re
    t0 = time.time()
    zs = build([tob(a) for a in assumps if tob(a).k != 'const'], False)
    s = z3.Solver()
    s.add(*zs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    tm = cvc5.TermManager()
    slv = cvc5.Solver(tm)
    slv.setOption('tlimit-per', str(int(timeout_ms)))
    slv.setOption('nl-ext-tplanes', 'true')
    res = 'unknown'
    try:
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
    except Exception as e:  # parse / resource problems count as no answer
        res = 'unknown'
    C.stats['cvc5_time'] += time.time() - t0
    return res


def has_nonlinear(bs):
    s = set()
    _, facts = closure(bs)
    for b in list(bs) + facts:
        _monos(b, s)
    return bool(s)


def feasible(path, timeout_ms=300):
    r, _ = check_sat(path, timeout_ms, lin=True)
    return r != 'unsat'


def prove(path, goal, budget=1.0, want_model=True, use_cvc5=True):
    """path |- goal.  Returns (status, backend, model): status in proved / refuted / unknown"""
    goal = tob(goal)
    if goal.k == 'const' and goal.v:
        C.stats['syntactic'] += 1
        return 'proved', 'ring', None
    if goal.k == 'and':
        last = None
        for g in goal.v:
            st = prove(path, g, budget, want_model, use_cvc5)
            if st[0] != 'proved':
                return st
            last = st
        C.stats[{'ring': 'syntactic'}.get(last[1], last[1])] -= 0
        return last
    ng = Not(goal)
    pk = {p.key for p in path}
    if goal.key in pk:
        C.stats['syntactic'] += 1
        return 'proved', 'ring', None
    closure([goal] + list(path))      # force lazy facts
    sl = slice_path(path, goal.atoms())
    nl = has_nonlinear(list(path) + [ng])
    sliced = len(sl) != len(path)
    # (engine, use slice, linear abstraction, ms, tactic)
    plans = []
    if nl:
        plans.append(('z3', True, True, 1000, None))
        plans.append(('z3', True, False, 1000, None))
        if use_cvc5:
            plans.append(('cvc5', True, False, 1500, None))
        if sliced:
            plans.append(('z3', False, True, 1500, None))
            plans.append(('z3', False, False, 1500, None))
            if use_cvc5:
                plans.append(('cvc5', False, False, 3000, None))
        if use_cvc5:
            plans.append(('z3', True, False, 8000, None))
            plans.append(('cvc5', True, False, 10000, None))
            plans.append(('z3', False, False, 20000, None))
            plans.append(('cvc5', False, False, 20000, None))
            plans.append(('z3', False, False, 10000, 'QF_NIA'))
            plans.append(('z3', False, False, 10000, 'QF_NRA'))
    else:
        plans.append(('z3', True, False, 4000, None))
        if sliced:
            plans.append(('z3', False, False, 10000, None))
        if use_cvc5:
            plans.append(('cvc5', False, False, 10000, None))
            plans.append(('z3', False, False, 40000, None))
    for eng, sc, lin, to, tac in plans:
        ps = sl if sc else path
        full = not sc or not sliced
        if eng == 'cvc5':
            r = cvc5_check(list(ps) + [ng], to * budget)
            m = None
        else:
            r, m = check_sat(list(ps) + [ng], to * budget, lin=lin, want_model=(full and not lin and want_model), tactic=tac)
        if r == 'unsat':
            C.stats[eng] += 1
            return 'proved', eng, None
        if r == 'sat' and not lin and full:
            return 'refuted', eng, m
    return 'unknown', None, None


# ------------------------------------------------------------------ lemma schemas usable as proof hints in contracts (valid for all reals)
def H_sq(p):
    return p * p >= 0


def H_mul(p, q):
    """p>=0 and q>=0 -> p*q>=0"""
    return Implies(And(p >= 0, q >= 0), p * q >= 0)


def H_sqle(p, q):
    """|p| <= q -> p^2 <= q^2"""
    return Implies(And(p <= q, -p <= q), p * p <= q * q)


def H_cancel(p, q, r):
    """r>0 and p*r <= q*r -> p <= q"""
    return Implies(And(r > 0, p * r <= q * r), p <= q)


def H_absmul(p, q, b):
    """|q| <= b -> |p*q| <= |p|*b"""
    return Implies(And(q <= b, -q <= b), And(p * q <= Abs(p) * b, -p * q <= Abs(p) * b))


def hint(*bs):
    return [('hint', b) for b in bs]
