from vp.spec import *
from vp.terms import *
BUILD = dict(harness='P10.cpp', sources=['BeadingStrategy/' + x + '.cpp' for x in ('BeadingStrategy', 'BeadingStrategyFactory', 'DistributedBeadingStrategy', 'InnerWallInsetBeadingStrategy', 'LimitedBeadingStrategy', 'OuterWallInsetBeadingStrategy', 'RedistributeBeadingStrategy', 'WideningBeadingStrategy')])
N = 10
ONE = 1 + Fraction(1, 1000)      # truncation, and rounding in the floating point product
WM, TM = 10 ** 5, 10 ** 7


def near(v, e, tol):
    return And(v - e <= tol, e - v <= tol)


def galois(t, n, count, trans, slack=2, more=1):
    """n+1 beads are optimal exactly from the transition thickness of n on (up to one unit)"""
    return [('thick enough for one more bead', Implies(t >= trans + more, count >= n + 1)), ('not thick enough', Implies(t <= trans - slack, count <= n))]


def hints(c, t, w, n):
    q = tdiv(P(t) if c.symbolic else t, w)
    return [H_mul(P(n) - q - 1, w), H_mul(q - n, w), H_mul(q - n - 1, w)] if c.symbolic else []


def thr(c, n):
    return If(tmod(n, 2) == 1, c.split, c.add)


def dist(c):
    t, n, w = c.t, c.n, c.w
    h = hints(c, t, w, n)
    return [('optimal thickness', c.o[1] == n * w), ('transition between the optimal thicknesses, by the threshold', near(c.o[2], n * w + thr(c, n) * w, ONE)),
            (*galois(t, n, c.o[0], c.o[2])[0], h, []), (*galois(t, n, c.o[0], c.o[2])[1], h, []), ('beads of about the optimal width', And((c.o[0] - 1) * w <= t, t <= (c.o[0] + 1) * w), h, [])]


def redist(c):
    t, n, w, wo = c.t, c.n, c.w, c.wo
    h = hints(c, t - 2 * wo, w, n - 2)
    inner = Max(n - 2, 0)
    return [('optimal thickness: up to two outer walls and the inner ones', c.o[1] == inner * w + (n - inner) * wo),
            ('transition', near(c.o[2], If(n == 0, c.mr * wo, If(n == 1, (1 + c.split) * wo, 2 * wo + (n - 2) * w + thr(c, n) * w)), ONE)),
            (*galois(t, n, c.o[0], c.o[2], more=If(n == 1, 2, 1))[0], h, []), (*galois(t, n, c.o[0], c.o[2], more=If(n == 1, 2, 1))[1], h, [])]


def wide(c):
    t, n, w = c.t, c.n, c.w
    h = hints(c, t, w, n) + hints(c, t, w, 1)
    return [('optimal thickness', c.o[1] == n * w), ('thin features start at the given width', Implies(n == 0, c.o[2] == c.mi)), ('otherwise unchanged', Implies(n > 0, near(c.o[2], n * w + thr(c, n) * w, ONE))), ('nothing below the given width', Implies(t < c.mi, c.o[0] == 0)), ('something from it on', Implies(t >= c.mi, c.o[0] >= 1)),
            ('thick enough for one more bead', Implies(And(t >= c.o[2] + 1, c.mi <= c.o[2]), c.o[0] >= n + 1), h, []), ('not thick enough', Implies(t <= c.o[2] - 2, c.o[0] <= n), h, [])]


def limit(c):
    t, n, w, mx = c.t, c.n, c.w, c.mx
    par, opt = c.o[3], c.o[4]
    return [('never more than one above the limit', c.o[0] <= mx + 1), ('below the limit as without it', Implies(par <= mx, c.o[0] == par)), ('one above only if the thickness is almost optimal for it', Implies(par == mx + 1, c.o[0] == If(t < opt - 10, mx, mx + 1))), ('far above: one above the limit', Implies(par > mx + 1, c.o[0] == mx + 1)),
            ('optimal thickness', And(Implies(n <= mx, c.o[1] == n * w), Implies(n > mx, c.o[1] == 10000000))), ('transition', And(Implies(n < mx, near(c.o[2], n * w + thr(c, n) * w, ONE)), Implies(n == mx, c.o[2] == (n + 1) * w - 10), Implies(n > mx, c.o[2] == 9000000)))]


def anchor(c):
    q = c.q
    return [('where the transition lies between the optimal thicknesses', near(c.o[0], 1 - rdiv(q[1] - q[0], q[2] - q[0]), Fraction(1, 2 ** 30))), ('transition length', q[3] == If(c.n == 0, 10, 100)), ('settings kept', And(q[4] == c.w, q[5] == 100, c.o[1] == c.split, c.o[2] == c.add))]


def beading(o, n=N):
    return dict(total=o[0], left=o[1], nw=o[2], nl=o[3], w=o[4:4 + n], l=o[4 + n:4 + 2 * n])


def centers(b, n):
    """every toolpath lies in the middle of its own strip, up to rounding"""
    out = True
    s = 0
    for i in range(n):
        out = And(out, near(2 * b['l'][i], 2 * s + b['w'][i], 2 * (i + 1)))
        s = s + b['w'][i]
    return out


def distc(n):
    def f(c):
        b = beading(c.o)
        s = sum(b['w'][:n], 0)
        out = [('total', b['total'] == c.t), ('bead count', And(b['nw'] == n, b['nl'] == n))]
        if n == 0:
            return out + [('all left over', b['left'] == c.t)]
        out += [('nothing left over', b['left'] == 0), ('widths add up to the thickness', near(s, c.t, n)), ('symmetric widths', And(*[b['w'][i] == b['w'][n - 1 - i] for i in range(n)])),
                ('toolpaths in the middle of their beads', centers(b, n)), ('symmetric toolpaths', And(*[near(b['l'][i] + b['l'][n - 1 - i], c.t, n + 2) for i in range(n)]), [], ['symmetric widths', 'widths add up to the thickness', 'toolpaths in the middle of their beads'])]
        if n > 2:
            out += [('the middle takes the most of the difference', And(*[Abs(b['w'][i] - c.w) <= Abs(b['w'][i + 1] - c.w) for i in range((n - 1) // 2)])), ('all on the same side of the optimal width', Or(And(*[x >= c.w for x in b['w'][:n]]), And(*[x <= c.w for x in b['w'][:n]])))]
        return out
    return f


def redistc(n):
    def f(c):
        b = beading(c.o)
        none = c.t < c.mr * c.wo - Fraction(1, 1000)
        some = c.t > c.mr * c.wo + Fraction(1, 1000)
        out = [('total', b['total'] == c.t), ('too thin: all left over', Implies(none, And(b['left'] == c.t, b['nw'] == 0, b['nl'] == 0)))]
        if n == 0:
            return [('all left over', And(b['total'] == c.t, b['left'] == c.t, b['nw'] == 0, b['nl'] == 0))]
        inner = c.t > 2 * c.wo
        k = If(inner, n, 2) if n > 2 else n
        ow = c.t if n == 1 else tdiv(c.t, 2) if n == 2 else Min(tdiv(c.t, 2), c.wo)
        def when(k, x):
            return Implies(And(some, inner if k > 2 else True if n <= 2 else Not(inner)), x)
        out += [('bead count', Implies(some, And(b['nw'] == k, b['nl'] == k)))]
        for m in ([n] if n <= 2 else [n, 2]):
            out += [('nothing lost with %d beads' % m, when(m, b['left'] + sum(b['w'][:m], 0) == c.t)), ('outer walls of %d' % m, when(m, And(b['w'][0] == ow, b['w'][m - 1] == ow))),
                    ('outer toolpaths of %d' % m, when(m, And(b['l'][0] == tdiv(ow, 2), b['l'][m - 1] == (c.t - tdiv(ow, 2) if m > 1 else tdiv(ow, 2)))))]
        if n > 2:
            p = beading(c.p)
            out += [('inner walls as computed for the remaining thickness', when(n, And(*[And(b['w'][i + 1] == p['w'][i], b['l'][i + 1] == p['l'][i] + c.wo) for i in range(n - 2)])))]
        return out
    return f


def widec(c):
    b, p = beading(c.o), beading(c.p)
    thin = c.t < c.w
    return [('total', b['total'] == c.t), ('too thin: nothing', Implies(And(thin, c.t < c.mi), And(b['nw'] == 0, b['nl'] == 0))),
            ('thin: one bead in the middle, widened if needed', Implies(And(thin, c.t >= c.mi), And(b['nw'] == 1, b['nl'] == 1, b['w'][0] == Max(c.t, c.mo), b['l'][0] == tdiv(c.t, 2)))),
            ('thick: unchanged', Implies(Not(thin), And(b['nw'] == 3, b['nl'] == 3, *[And(b['w'][i] == p['w'][i], b['l'][i] == p['l'][i]) for i in range(3)])))]


def insetc(n):
    def f(c):
        o, p, q = beading(c.o), beading(c.p), beading(c.q)
        pos = sum([b2i(x > 0) if c.symbolic else int(x > 0) for x in q['w'][:n]], 0)
        mv = pos >= 2
        return [('widths unchanged', And(*[And(o['w'][i] == q['w'][i], p['w'][i] == q['w'][i]) for i in range(n)], o['total'] == c.t, p['total'] == c.t, o['left'] == q['left'], p['left'] == q['left'], o['nl'] == n, p['nl'] == n)),
                ('outer wall moved inward, not past the middle', o['l'][0] == If(mv, Min(q['l'][0] + c.off, tdiv(c.t, 2)), q['l'][0])), ('other walls stay', And(*[o['l'][i] == q['l'][i] for i in range(1, n)])),
                ('inner walls moved', And(*[p['l'][i] == If(mv, q['l'][i] + c.off, q['l'][i]) for i in range(1, n)])), ('outer wall stays', p['l'][0] == q['l'][0])]
    return f


def limitc(mx, n):
    def f(c):
        o, q = beading(c.o), beading(c.q)
        if n < mx:
            return [('unchanged', And(o['total'] == c.t, o['nw'] == n, o['nl'] == n, *[And(o['w'][i] == q['w'][i], o['l'][i] == q['l'][i]) for i in range(n)]))]
        h = mx // 2
        if n == mx:
            out = [('one marker more', And(o['total'] == c.t, o['nw'] == n + 1, o['nl'] == n + 1)), ('outer half unchanged', And(*[And(o['w'][i] == q['w'][i], o['l'][i] == q['l'][i]) for i in range(h)])),
                   ('marker of no width at the inner edge', And(o['w'][h] == 0, o['l'][h] == q['l'][h - 1] + tdiv(q['w'][h - 1], 2))), ('other half unchanged', And(*[And(o['w'][i + 1] == q['w'][i], o['l'][i + 1] == q['l'][i]) for i in range(h, n)]))]
            return out
        out = [('two markers more', And(o['total'] == c.t, o['nw'] == mx + 2, o['nl'] == mx + 2)), ('outer half of the limited walls', And(*[And(o['w'][i] == q['w'][i], o['l'][i] == q['l'][i]) for i in range(h)])),
               ('marker of no width at both inner edges', And(o['w'][h] == 0, o['w'][h + 1] == 0, o['l'][h] == q['l'][h - 1] + tdiv(q['w'][h - 1], 2))), ('symmetric', And(*[o['l'][i] + o['l'][mx + 1 - i] == c.t for i in range(mx + 2)], *[o['w'][i] == o['w'][mx + 1 - i] for i in range(mx + 2)])),
               ('the rest is left over', o['left'] == q['left'] + c.t - q['total'])]
        return out
    return f


DA = [I('w', 1, WM), D('split', 0, 1), D('add', 0, 1)]
RA = DA + [I('wo', 1, WM), D('mr', 0, 1)]
T = I('t', 0, TM)
TN = [T, I('n', 0, 1000)]
FA = [I('w', 1, WM), I('wo', 1, WM), I('tl', 1, WM), D('ang', 0, 3), I('mo', 1, WM), I('mi', 1, WM), D('split', 0, 1), D('add', 0, 1), I('mx', 2, 100), I('oo', 1, WM), I('io', 1, WM), D('mr', 0, 1)] + TN + [Out('o', 'i64', 4), Out('p', 'i64', 4)]
FAC = FA[:-2] + [Out('o', 'i64', 24), Out('p', 'i64', 24)]
OUT = lambda n: Out(n, 'i64', 4 + 2 * N)
TARGETS = [
    Target('bead counts of the distributed strategy', 'h_dist', DA + TN + [Out('o', 'i64', 3)], dist, fn=['DistributedBeadingStrategy::getOptimalBeadCount', 'BeadingStrategy::getOptimalThickness', 'BeadingStrategy::getTransitionThickness']),
    Target('bead counts of the redistributed strategy', 'h_redist', RA + TN + [Out('o', 'i64', 3)], redist, fn=['RedistributeBeadingStrategy::getOptimalBeadCount', 'RedistributeBeadingStrategy::getOptimalThickness', 'RedistributeBeadingStrategy::getTransitionThickness']),
    Target('bead counts with thin walls', 'h_wide', DA + [I('mi', 1, WM), I('mo', 1, WM)] + TN + [Out('o', 'i64', 4)], wide, fn=['WideningBeadingStrategy::getOptimalBeadCount', 'WideningBeadingStrategy::getTransitionThickness']),
    Target('bead counts with a limit', 'h_limit', DA + [I('mx', 2, 100)] + TN + [Out('o', 'i64', 6)], limit, fn=['LimitedBeadingStrategy::getOptimalBeadCount', 'LimitedBeadingStrategy::getOptimalThickness', 'LimitedBeadingStrategy::getTransitionThickness']),
    Target('bead counts with insets', 'h_insets', DA + [I('off', -WM, WM)] + TN + [Out('o', 'i64', 9)], lambda c: [('unchanged', And(*[And(c.o[i] == c.o[6 + i], c.o[3 + i] == c.o[6 + i]) for i in range(3)]))], fn=['OuterWallInsetBeadingStrategy', 'InnerWallInsetBeadingStrategy']),
    Target('transition anchor', 'h_anchor', DA + [I('n', 0, 1000), Out('o', 'f64', 3), Out('q', 'i64', 6)], anchor, fn=['BeadingStrategy::getTransitionAnchorPos']),
    *[Target('%d distributed beads, radius %d' % (n, r), 'h_dist_%d_%d' % (n, r), DA + [T, OUT('o')], distc(n), fn=['DistributedBeadingStrategy::compute']) for n, r in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (4, 2), (5, 1), (5, 3), (6, 2), (7, 3))],
    *[Target('%d redistributed beads' % n, 'h_redist_%d' % n, RA + [T, OUT('o'), OUT('p')], redistc(n), fn=['RedistributeBeadingStrategy::compute']) for n in range(7)],
    Target('thin walls', 'h_wide_c', DA + [I('mi', 1, WM), I('mo', 1, WM), T, OUT('o'), OUT('p')], widec, fn=['WideningBeadingStrategy::compute']),
    *[Target('%d beads with insets' % n, 'h_inset_%d' % n, DA + [I('off', 0, WM), T, OUT('o'), OUT('p'), OUT('q')], insetc(n), fn=['OuterWallInsetBeadingStrategy::compute', 'InnerWallInsetBeadingStrategy::compute']) for n in range(1, 5)],
    *[Target('%d beads limited to %d' % (n, m), 'h_limit_%d_%d' % (m, n), DA + [T, OUT('o'), OUT('q')], limitc(m, n), fn=['LimitedBeadingStrategy::compute']) for m, n in ((2, 1), (2, 2), (2, 3), (4, 3), (4, 4), (4, 5), (6, 6), (6, 7))],
    *[Target('made strategy: %s' % n, 'h_factory_' + n, FA, lambda c: [('as stacked by hand', And(*[c.o[i] == c.p[i] for i in range(4)]))], fn=['BeadingStrategyFactory::makeStrategy']) for n in ('thin', 'plain', 'all')],
    *[Target('beads of a made strategy: %s' % n, 'h_factoryc_' + n, FAC, lambda c: [('as stacked by hand', And(*[c.o[i] == c.p[i] for i in range(4)], *[Implies(And(c.o[2] > i, c.o[2] == k), And(c.o[4 + i] == c.p[4 + i], c.o[14 + i] == c.p[14 + i])) for k in (0, 2, 3, 4, 5) for i in range(k)]))], fn=['BeadingStrategyFactory::makeStrategy']) for n in ('plain', 'insets')],
    Target('description of a stack', 'h_names', [I('mx', 2, 6), Out('o', 'i64', 7)], lambda c: [('every strategy is named', And(*[c.o[i] == 1 for i in range(7)]))], fn=['BeadingStrategy::toString'], bounded='limits 2 to 6'),
]
