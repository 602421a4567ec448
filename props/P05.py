import re
from vp.spec import *
from vp.terms import *
from vp import terms as tm
from vp.ir import I8, I64
from vp.sym import Ptr, UNDEF
BUILD = dict(harness='P05.cpp', sources=[])
ZERO, NINE, DOT, MINUS = 48, 57, 46, 45


def cstr(ex, st, p):
    out = []
    while len(out) < 64:
        v = ex.load(st, Ptr(p.r, p.o + len(out)), I8)
        if v is UNDEF or not isinstance(v, Poly):
            raise ValueError('text of unknown contents')
        if v.is_const() and v.const() == 0:
            return out
        out.append(v)
    raise ValueError('text without an end')


def snprintf(ex, st, ins, args):
    """C library: "%d" and "%.kF" write the sign and the decimal digits of the (correctly rounded) number; nothing else is assumed"""
    buf, size, fmt, v = args[0], args[1], ''.join(chr(int(x.const())) for x in cstr(ex, st, args[2])), P(args[3])
    m = re.fullmatch(r'%d|%\.(\d)[Ff]', fmt)
    assert m, fmt
    k = int(m.group(1) or 0)
    if v.is_const():        # validation runs
        q = v.const() * 10 ** k
        n = abs(round(Fraction(q)))
        t = str(n).rjust(k + 1, '0')
        t = ('-' if q < 0 else '') + t[:len(t) - k] + ('.' + t[len(t) - k:] if k else '')
        for i, ch in enumerate(t + '\0'):
            ex.store(st, Ptr(buf.r, buf.o + i), I8, P(ord(ch)))
        return P(len(t))
    outs = []
    for neg in (False, True):
        s0 = st.fork()
        s0.assume(v < 0 if neg else v >= 0)
        for digits in range(k + 1, k + 11 if fmt == '%d' else k + 11):
            s = s0.fork()
            ds = [var('digit', True, 0, 9) for _ in range(digits)]
            n = P(0)
            for d in ds:
                n = n * 10 + d
            a = -v if neg else v
            if fmt == '%d':
                s.assume(eq0(n - a))
            else:
                s.assume(n - a * 10 ** k <= Fraction(1, 2))
                s.assume(a * 10 ** k - n <= Fraction(1, 2))
            if digits > k + 1:
                s.assume(ds[0] >= 1)
            if tm.check_sat(s.path, 5000, lin=True)[0] == 'unsat':
                continue
            text = ([P(MINUS)] if neg else []) + [ZERO + d for d in ds[:digits - k]] + ([P(DOT)] + [ZERO + d for d in ds[digits - k:]] if k else [])
            ex.oblige(s, P(len(text) + 1) <= size, 'the text fits the buffer')
            for i, ch in enumerate(text + [P(0)]):
                ex.store(s, Ptr(buf.r, buf.o + i), I8, ch)
            outs.append((s, P(len(text))))
    return ('states', outs)


def put(ex, st, o, chars):
    n = ex.load(st, Ptr(o.r, o.o), I64)
    assert n.is_const()
    for i, ch in enumerate(chars):
        ex.store(st, Ptr(o.r, o.o + 8 * (1 + int(n.const()) + i)), I64, ch)
    ex.store(st, Ptr(o.r, o.o), I64, n + len(chars))


def setup(ex, c):
    def open_(ex, st, ins, args):
        for i in range(61):
            ex.store(st, Ptr(args[0].r, args[0].o + 8 * i), I64, P(0))
        return args[0]

    def text(ex, st, ins, args):
        put(ex, st, args[0], cstr(ex, st, args[1]))
        return args[0]

    def char(ex, st, ins, args):
        put(ex, st, args[0], [args[1]])
        return args[0]
    ex.summaries.append((re.compile(r'^h_open$'), open_))
    ex.summaries.append((re.compile(r'std::operator<<.*\(std::basic_ostream<char, std::char_traits<char>\s*>&, char const\*\)$'), text))
    ex.summaries.append((re.compile(r'std::operator<<.*\(std::basic_ostream<char, std::char_traits<char>\s*>&, char\)$'), char))
    def write(ex, st, ins, args):
        put(ex, st, args[0], [ex.load(st, Ptr(args[1].r, args[1].o + i), I8) for i in range(int(args[2].const()))])
        return args[0]
    ex.summaries.append((re.compile(r'^std::basic_ostream<char, std::char_traits<char>\s*>::put\(char\)$'), char))
    ex.summaries.append((re.compile(r'^std::basic_ostream<char, std::char_traits<char>\s*>::write\(char const\*, long\)$'), write))
    ex.summaries.append((re.compile(r'^snprintf$'), snprintf))
    for f in ('writeInt2mm', 'writeDoubleToStream'):
        ex.unroll[f] = 32
    ex.unroll['Escaped'] = 8


def chars(c):
    n = c.o[0]
    n = int(n.const() if isinstance(n, Poly) else n)
    return list(c.o[1:1 + n])


def code(ch):
    """the character if it is known, otherwise None (a digit)"""
    if not isinstance(ch, Poly):
        return ch
    return int(ch.const()) if ch.is_const() else None


def number(t, decimals):
    """(conditions for the text to be a plain decimal number, its value times 10^decimals, sign, decimals used)"""
    neg = bool(t) and code(t[0]) == MINUS
    t = t[neg:]
    dots = [i for i, x in enumerate(t) if code(x) == DOT]
    whole, frac = (t[:dots[0]], t[dots[0] + 1:]) if dots else (t, [])
    ok = [len(dots) <= 1, len(whole) + len(frac) >= 1, not dots or len(frac) >= 1, len(frac) <= decimals]
    ok += [And(x >= ZERO, x <= NINE) for x in whole + frac]
    v = 0
    for x in whole + frac + [ZERO] * (decimals - len(frac)):
        v = v * 10 + (x - ZERO)
    short = []
    if frac:
        short.append(frac[-1] > ZERO)
    if len(whole) > 1:
        short.append(whole[0] > ZERO)
    return ok, (-v if neg else v), neg, short


def mm(v, t):
    ok, val, neg, short = number(t, 3)
    return [('a plain decimal number of at most three decimals', And(*ok)), ('exactly the length in millimetres', val == v), ('no needless zeros, except for zero itself', Or(v == 0, And(*short))), ('a sign only below zero', v < 0 if neg else v >= 0)]


def dbl(k):
    def f(c):
        ok, val, neg, short = number(chars(c), k)
        d = val - c.v * 10 ** k
        return [('a plain decimal number of at most %d decimals' % k, And(*ok)), ('the nearest such number', And(d <= Fraction(1, 2), -d <= Fraction(1, 2))), ('no needless zeros', And(*short)), ('a sign only below zero', c.v <= 0 if neg else c.v >= 0)]
    return f


def two(c):
    t = chars(c)
    sp = [i for i, x in enumerate(t) if code(x) == 32]
    if len(sp) != 1:
        return [('two numbers with a space between', False)]
    return [('first: ' + n, g) for n, g in mm(c.v, t[:sp[0]])] + [('second: ' + n, g) for n, g in mm(c.w, t[sp[0] + 1:])]


ESC = {7: b'\\a', 8: b'\\b', 12: b'\\f', 10: b'\\n', 13: b'\\r', 9: b'\\t', 11: b'\\v', 92: b'\\\\', 39: b"\\'", 34: b'\\"', 63: b'\\?'}


def escaped(c):
    out, i, t = [], 0, chars(c)
    for x in (c.a, c.b):
        if code(t[i]) == 92 and len(t) > i + 1 and any(bytes([92, code(t[i + 1]) or 0]) == e for e in ESC.values()):
            out.append(x == next(k for k, e in ESC.items() if e[1] == code(t[i + 1])))
            i += 2
        else:
            out += [x == t[i]] + [x != k for k in ESC]
            i += 1
    return [('every special character by its escape, the others as they are', And(*out)), ('nothing else', i == len(t))]


def b64(c):
    import base64
    s = bytes(int(x) & 255 for x in c.a[:int(c.n)])
    e = base64.b64encode(s)
    return [('base 64 of the text', c.ret == len(e) and bytes(int(x) & 255 for x in c.o[:len(e)]) == e)]


def case(c):
    x, y = [bytes(int(v) for v in l).split(b'\0')[0].lower() for l in (c.a, c.b)]
    return [('zero iff equal up to case', (c.ret == 0) == (x == y)), ('orders like the first difference', c.ret == 0 or (c.ret < 0) == (x < y))]


N31 = 2 ** 31
LO = Out('o', 'i64', 61)
TARGETS = [
    Target('microns as millimetres', 'h_int', [I('v', -N31 + 1, N31 - 1, ty='i32'), LO], lambda c: mm(c.v, chars(c)), setup=setup, opts=dict(models_only=True), fn=['writeInt2mm']),
    Target('a length into a stream', 'h_mm', [I('v', -N31 + 1, N31 - 1), LO], lambda c: mm(c.v, chars(c)), setup=setup, opts=dict(models_only=True), fn=['operator<<(ostream, MMtoStream)']),
    Target('two lengths into a stream', 'h_mm2', [I('v', -N31 + 1, N31 - 1), I('w', -N31 + 1, N31 - 1), LO], two, bounded='random and edge inputs', fn=['operator<<(ostream, MMtoStream)']),
    *[Target('number of up to %d decimals' % k, 'h_double%d' % k, [D('v', -10 ** 9, 10 ** 9), LO], dbl(k), setup=setup, opts=dict(models_only=True), fn=['writeDoubleToStream'], timeout=200) for k in (0, 1, 2, 3, 4, 5, 6, 9)],
    Target('number of up to 5 decimals into a stream', 'h_prec', [D('v', -10 ** 9, 10 ** 9), LO], dbl(5), setup=setup, opts=dict(models_only=True), fn=['operator<<(ostream, PrecisionedDouble)'], timeout=200),
    *[Target('would write zero, %d decimals' % k, 'h_zero%d' % k, [D('v', -10 ** 9, 10 ** 9)], lambda c, k=k: [('below the last decimal', Implies(c.ret, Abs(c.v) * 10 ** k <= 1)), ('otherwise not', Or(c.ret, Abs(c.v) * 10 ** k >= 1 - Fraction(1, 2 ** 40)))], ret='bool', fn=['PrecisionedDouble::wouldWriteZero']) for k in (2, 5)],
    Target('escaped text', 'h_escape', [I('a', 1, 126), I('b', 1, 126), LO], escaped, setup=setup, opts=dict(models_only=True), fn=['operator<<(ostream, Escaped)']),
    Target('base 64', 'h_base64', [Cells('a', 'i64', 30, 'in', 0, 255), I('n', 0, 30), Out('o', 'i64', 61)], b64, ret='i64', bounded='random texts of up to 30 bytes', fn=['convertTobase64']),
    Target('comparison regardless of case', 'h_case', [Cells('a', 'i64', 8, 'in', 0, 127), Cells('b', 'i64', 8, 'in', 0, 127)], case, ret='i32', bounded='random texts of up to 8 characters', fn=['stringcasecompare']),
]
