import math
import re
from vp.sym import Ptr, mark_fp
from vp.ir import F64
from vp.spec import *
from vp.terms import *
BUILD = dict(harness='P11.cpp', sources=['timeEstimate.cpp'])
VM, AM, DM = 1000, 10 ** 5, 10 ** 4
R = Fraction(1, 2 ** 38)
R3 = Fraction(1, 2 ** 50)
S = Fraction(1, 2 ** 20)      # the length of a move is computed in single precision


def near(v, e, tol):
    return And(v - e <= tol, e - v <= tol)


def rel(v, e, r=R):
    return And(v - e <= e * r + r, e - v <= e * r + r)


def reach(r, limit, target, a, d):
    """r: the limit, or the speed from which (or to which) target can be reached within d"""
    x = target * target + 2 * a * d
    return And(r <= limit, r >= 0, Or(r == limit, rel(r * r, x)), Implies(r == limit, limit * limit <= x * (1 + R) + R))


def fwd(f, pe, a, d, e, r):
    return And(Implies(Or(f, pe >= e), r == e), Implies(And(Not(f), pe < e), reach(r, e, pe, a, d)))


def rev(f, e, m, a, d, ne, r):
    return And(Implies(e == m, r == e), Implies(And(e != m if not c_sym(e) else Not(e == m), Or(f, m <= ne)), r == m), Implies(And(e != m if not c_sym(e) else Not(e == m), Not(f), m > ne), reach(r, m, ne, a, d)))


def c_sym(x):
    return isinstance(x, Poly)


def k_rev(c):
    return [('entry speed', rev(c.f0, c.e0, c.m0, c.a0, c.d0, c.e1, c.o[0])), ('marked for recalculation', Implies(Not(c.o[0] == c.e0), c.q[0] == 1)), ('next block and limit untouched', And(c.o[1] == c.e1, c.o[2] == c.m0)), ('nothing without a next block', c.o[3] == c.e0)]


def k_fwd(c):
    return [('entry speed', fwd(c.f0, c.e0, c.a0, c.d0, c.e1, c.o[0])), ('marked for recalculation', Implies(Not(c.o[0] == c.e1), c.q[0] == 1)), ('previous block untouched', c.o[1] == c.e0), ('nothing without a previous block', c.o[2] == c.e1)]


def passes2(c):
    return [('backward: first and last stay', And(c.o[0] == c.e0, c.o[1] == c.e1)), ('forward: first stays', c.o[2] == c.e0), ('forward: second reachable from the first', fwd(c.f0, c.e0, c.a0, c.d0, c.e1, c.o[3]))]


def passes3(c):
    return [('backward and forward, pair by pair', And(*[c.o[i] == c.p[i] for i in range(6)]))]


T = S


def trapezoid(o, p, ini, fin, nom, acc, dist):
    A = rdiv(nom * nom - ini * ini, 2 * acc)
    Dd = rdiv(nom * nom - fin * fin, 2 * acc)
    # if the top speed is never reached, braking starts where the speed curves meet
    X = rdiv(2 * acc * dist - ini * ini + fin * fin, 4 * acc)
    # the harness computes the three distances in floating point; p is only used to state intermediate facts
    return [('speeds not above the top speed', And(ini <= nom * (1 + R3), fin <= nom * (1 + R3))),
            ('distances in floating point', near(p[0], A, T / 8), [], []), ('braking distance in floating point', near(p[1], Dd, T / 8), [], []), ('meeting point in floating point', near(p[2], X, T / 8), [], []),
            ('braking distance not negative', p[1] >= -T / 2, [H_mul(nom * (1 + R3) - fin, nom * (1 + R3) + fin), nom * nom <= VM * VM, acc >= 1], ['speeds not above the top speed', 'braking distance in floating point']),
            ('accelerating up to the top speed', Implies(A + Dd <= dist - T, near(o[0], A, T))), ('braking from the top speed', Implies(A + Dd <= dist - T, near(o[1], dist - Dd, T))),
            ('no cruising: braking where the curves meet', Implies(A + Dd >= dist + T, And(o[0] == o[1], near(o[0], Min(Max(X, 0), dist), T)))),
            ('in order', o[0] <= o[1] + T), ('starts within the move', o[0] >= -T), ('ends within the move', o[1] <= dist + T)]


def trap(c):
    o = c.o
    return [('speeds at both ends', And(near(o[2], c.nom * c.ef, R), near(o[3], c.nom * c.xf, R)))] + trapezoid(o, c.p, o[2], o[3], c.nom, c.acc, c.dist)


def retrap(c):
    o, p = c.o, c.p
    either = Or(c.r0, c.r1)
    return [('last block ends slowly', And(*[o[4 + i] == p[4 + i] for i in range(4)])), ('first block meets the second', Implies(either, And(*[o[i] == p[i] for i in range(4)]))), ('unchanged blocks keep theirs', Implies(Not(either), And(*[o[i] == 0 for i in range(4)])))]


NT = 15


def fsqrt(x):
    """square root of a concrete value, to about 2^-100"""
    k = 2 ** 200
    return Fraction(math.isqrt(int(Fraction(x) * k)), 2 ** 100)


def time_of(o, dist, acc, nom):
    au, da, ini, fin = o[:4]
    def t(v, d):
        return (-v + fsqrt(max(v * v + 2 * acc * d, 0))) / acc
    return t(ini, au) + (da - au) / nom + t(fin, dist - da)


def calc1(f):
    def g(c):
        o = c.o
        t = time_of(o[16:], c.dist, c.acc, c.nom) if not c.symbolic else None
        out = [('all kinds of moves', o[15] == NT), ('other kinds take no time', And(*[rel(o[i], c.extra if i == 0 else 0) for i in range(NT) if i != f])), ('no negative times', And(*[o[i] >= 0 for i in range(NT)]))]
        if not c.symbolic:
            e = t + (c.extra if f == 0 else 0)
            out += [('time of its kind', abs(o[f] - e) <= e * S + S), ('not faster than the nominal speed', o[f] >= c.dist / c.nom * (1 - S) - S)]
        return out
    return g


def calc2(c):
    o, p = c.o, c.p
    out = [('other kinds take no time', And(*[Implies(And(Not(c.g0 == i), Not(c.g1 == i)), rel(o[i], c.x0 + c.x1 if i == 0 else 0)) for i in range(NT)])), ('no negative times', And(*[o[i] >= 0 for i in range(NT)]))]
    if not c.symbolic:
        want = [Fraction(0)] * NT
        want[0] += c.x0 + c.x1
        want[int(c.g0)] += time_of(p, c.d0, c.a0, c.n0)
        want[int(c.g1)] += time_of(p[4:], c.d1, c.a1, c.n1)
        out += [('times add up per kind', all(abs(o[i] - want[i]) <= want[i] * S + S for i in range(NT)))]
    return out


def plan(axis, sign):
    def f(c):
        o, q = c.o, c.q
        lim, la = (c.fx, c.fy, c.fz, c.fe)[axis], (c.ax, c.ay, c.az, c.ae)[axis]
        feed = Max(c.feed, Fraction(0.01))
        j = Min(c.jxy / 2, c.jz / 2) if axis == 2 else Min(c.jxy / 2, c.je / 2) if axis == 3 else c.jxy / 2
        return [('a block', q[0] == 1), ('length', And(rel(o[0], c.d, S), o[5] == c.d)), ('speed limited by the axis', rel(o[1], Min(feed, lim), S)), ('acceleration limited by the axis', rel(o[2], Min(c.acc, la), S)),
                ('jump limited', near(o[3], Min(j, o[1]), S)), ('entry reachable', reach(o[4], o[3], Fraction(0.05), o[2], o[0])),
                ('speed per axis', And(*[near(o[10 + i], o[1] * sign if i == axis else 0, S * VM) for i in range(4)])), ('kind', And(q[2] == 5, q[3] == 1)), ('arrived', And(*[o[15 + i] == (c.d * sign if i == axis else 0) for i in range(4)])), ('speed remembered', o[14] == o[1])]
    return f


def plan_none(c):
    return [('no block', c.q[0] == 0)]


def junction(axis):
    def f(c):
        o, q = c.o, c.q
        jerk = (c.jxy, c.jxy, c.jz, c.je)[axis]
        dv = Abs(o[10 + axis] - c.pv)
        full = Min(c.pn, o[1])
        return [('a block', q[0] == 2), ('jump within the limit: full speed', Implies(dv <= jerk * (1 - R), o[3] == full)), ('larger jump: scaled down', Implies(dv > jerk * (1 + R), Or(o[3] == c.pn, near(o[3], rdiv(o[1] * jerk, Max(dv, jerk)), S)))), ('not above either', And(o[3] <= c.pn, o[3] <= o[1] * (1 + R), Implies(dv > jerk * (1 + R), o[3] <= rdiv(o[1] * jerk, Max(dv, jerk)) + S)))]
    return f


def planref(st, feed, new, feat):
    """reference result of one move, in floating point"""
    d = [n - p for n, p in zip(new, st['pos'])]
    ad = [abs(x) for x in d]
    if max(ad) <= 0:
        return None
    feed = max(feed, 0.01)
    dist = math.sqrt(sum(x * x for x in ad[:3])) or ad[3]
    cur = [x * feed / dist for x in d]
    k = min([1.0] + [m / abs(x) for x, m in zip(cur, st['maxf']) if abs(x) > m])
    cur = [x * k for x in cur]
    nom = feed * k
    acc = st['acc']
    for x, m in zip(ad, st['maxa']):
        if acc * x / dist > m:
            acc = m
    jxy, jz, je = st['jerk']
    safe = jxy / 2
    if abs(cur[2]) > jz / 2:
        safe = min(safe, jz / 2)
    if abs(cur[3]) > je / 2:
        safe = min(safe, je / 2)
    safe = min(safe, nom)
    border = abs(abs(cur[2]) - jz / 2) < 1e-5 * jz or abs(abs(cur[3]) - je / 2) < 1e-5 * je     # the limit jumps there
    vj = safe
    if st['n'] and st['pn'] > 0.0001:
        f = 1.0
        for x, m in ((math.hypot(cur[0] - st['pv'][0], cur[1] - st['pv'][1]), jxy), (abs(cur[2] - st['pv'][2]), jz), (abs(cur[3] - st['pv'][3]), je)):
            if x > m:
                f = min(f, m / x)
        vj = min(st['pn'], nom * f)
    va = math.sqrt(0.05 ** 2 + 2 * acc * dist)
    st.update(pos=new, pv=cur, pn=nom, n=st['n'] + 1)
    return dict(dist=dist, nom=nom, acc=acc, max=vj, entry=min(vj, va), travel=max(ad), cur=cur, border=border and vj == safe)


def planned(c):
    fl = float
    st = dict(pos=[fl(c.s0)] * 4, pv=[0.0] * 4, pn=0.0, n=0, maxf=[fl(x) for x in (c.fx, c.fy, c.fz, c.fe)], maxa=[fl(x) for x in (c.ax, c.ay, c.az, c.ae)], acc=fl(c.acc), jerk=(fl(c.jxy), fl(c.jz), fl(c.je)))
    out = []
    for nm, new, o, q, kind in (('first', (c.x, c.y, c.z, c.e), c.o, c.q, 1), ('second', (c.x2, c.y2, c.z2, c.e2), c.o2, c.q2, 2)):
        n0, old = st['n'], list(st['pos'])
        r = planref(st, fl(c.feed), [fl(x) for x in new], 1)
        out.append((nm + ': a block for every move', q[0] == st['n']))
        if r is None or q[0] != n0 + 1:
            continue
        def ok(v, e):
            return abs(fl(v) - e) <= abs(e) * 1e-5 + 1e-5
        out += [(nm + ': length', ok(o[0], r['dist']) and ok(o[5], r['travel'])), (nm + ': speed', ok(o[1], r['nom'])), (nm + ': acceleration', ok(o[2], r['acc']) or any(abs(k * abs(fl(a) - b) / r['dist'] - m) < 1e-3 * m for k in st['maxa'] + [st['acc']] for a, b, m in zip(new, old, st['maxa']))), (nm + ': jump', r['border'] or ok(o[3], r['max'])), (nm + ': entry', r['border'] or ok(o[4], r['entry']) or not ok(o[2], r['acc'])), (nm + ': speed per axis', all(ok(o[10 + i], r['cur'][i]) for i in range(4))), (nm + ': kind', q[2] == kind)]
    out += [('times', all(c.tt[i] >= 0 for i in range(NT)) and all(c.tt[i] == 0 for i in range(NT) if i not in (1, 2)))]
    return out


def frame(c):
    return [('rest of the block untouched', And(*[a == b for a, b in zip(list(c.o[i] for i in range(5)), (c.dist, c.acc, c.nom, c.en, c.mx))])), ('flags untouched', And(Iff(c.q[0] == 1, c.f), Iff(c.q[1] == 1, c.r), c.q[2] == c.feat, c.q[3] == 0))]


def use_trap(ex, c=None):
    """contract of calculateTrapezoidForBlock (proved as 'speed profile of a block', 'rest of a block'): only the speed profile is written"""
    g = ex.global_ptr('h_off_trap')
    m = ex.globmem[g.r.id]
    off = [int(m.cells[8 * i][1].const()) for i in range(5)]
    def f(ex, st, ins, args):
        b = args[1]
        ex.oblige(st, ex.load(st, Ptr(b.r, b.o + off[4]), F64, check=True) > 0, 'precondition of calculateTrapezoidForBlock')
        for o in off[:4]:
            ex.store(st, Ptr(b.r, b.o + o), F64, mark_fp(var('profile', False, None, None)))
        return None
    ex.summaries.append((re.compile(r'^cura::TimeEstimateCalculator::calculateTrapezoidForBlock\('), f))


AX = [D(x, 1, VM) for x in ('fx', 'fy', 'fz', 'fe')] + [D(x, 10, AM) for x in ('ax', 'ay', 'az', 'ae', 'acc')] + [D('jxy', Fraction(1, 10), 100), D('jz', Fraction(1, 10), 100), D('je', Fraction(1, 10), 100)]
BK = lambda n: [D('e%d' % n, 0, VM), D('m%d' % n, 0, VM), D('d%d' % n, 0, DM), D('a%d' % n, 1, AM), Bool('f%d' % n)]
BN = lambda n: [D('e%d' % n, 0, VM), D('d%d' % n, Fraction(1, 1000), DM), D('a%d' % n, 1, AM), D('n%d' % n, Fraction(1, 10), VM)]
MG = dict(merge=True)


def MOVES(*ns, j=False):
    out = []
    for n in ns:
        if n[-1] != 'e' or j:      # the length of a move in space is rounded to single precision: one length, and (thorough) all lengths
            out.append((n, ' by 4 mm', D('d', 4, 4), False))
        out.append((n, '', D('d', Fraction(1, 1000), DM), n[-1] != 'e' or j))
    return out


AXJ = [D(p.name, 1000, 1000) if p.name in ('ax', 'ay', 'az', 'ae', 'acc') else p for p in AX]     # acceleration does not matter for the junction speed
PO = [Out('q', 'i64', 4), Out('o', 'f64', 19)]
P_ = lambda n: 'TimeEstimateCalculator::' + n
TARGETS = [
    Target('braking for the next block', 'h_rev', BK(0) + BK(1) + [Out('o', 'f64', 4), Out('q', 'i64', 1)], k_rev, requires=lambda c: [c.e0 <= c.m0, c.e1 <= c.m1], fn=[P_('plannerReversePassKernel'), 'maxAllowableSpeed']),
    Target('accelerating from the previous block', 'h_fwd', BK(0) + BK(1) + [Out('o', 'f64', 3), Out('q', 'i64', 1)], k_fwd, requires=lambda c: [c.e0 <= c.m0, c.e1 <= c.m1], fn=[P_('plannerForwardPassKernel')]),
    Target('passes over two blocks', 'h_passes2', BK(0) + BK(1) + [Out('o', 'f64', 4)], passes2, requires=lambda c: [c.e0 <= c.m0, c.e1 <= c.m1], fn=[P_('forwardPass'), P_('reversePass')]),
    Target('passes over three blocks', 'h_passes3', BK(0) + BK(1) + BK(2) + [Out('o', 'f64', 6), Out('p', 'f64', 6)], passes3, requires=lambda c: [c.e0 <= c.m0, c.e1 <= c.m1, c.e2 <= c.m2], fn=[P_('forwardPass'), P_('reversePass')]),
    Target('speed profile of a block', 'h_trap', [D('ef', 0, 1), D('xf', 0, 1), D('dist', Fraction(1, 1000), DM), D('acc', 1, AM), D('nom', Fraction(1, 10), VM), Out('o', 'f64', 4), Out('p', 'f64', 3)], trap, fn=[P_('calculateTrapezoidForBlock'), 'estimateAccelerationDistance', 'intersectionDistance']),
    Target('rest of a block', 'h_trap_frame', [D('ef', 0, VM), D('xf', 0, VM), D('dist', Fraction(1, 1000), DM), D('acc', 1, AM), D('nom', Fraction(1, 1000), VM), D('en', 0, VM), D('mx', 0, VM), Bool('f'), Bool('r'), I('feat', 0, NT - 1), Out('o', 'f64', 6), Out('q', 'i64', 4)], frame, fn=[P_('calculateTrapezoidForBlock')]),
    Target('speed profiles of two blocks', 'h_retrap', BN(0) + BN(1) + [Bool('r0'), Bool('r1'), Out('o', 'f64', 8), Out('p', 'f64', 8)], retrap, requires=lambda c: [c.e0 <= c.n0, c.e1 <= c.n0, c.e1 <= c.n1], fn=[P_('recalculateTrapezoids')]),
    *[Target('time of one block, kind %d' % k, 'h_calc1_%d' % k, [D('ini', 0, VM), D('dist', Fraction(1, 1000), DM), D('acc', 1, AM), D('nom', Fraction(1, 10), VM), D('extra', 0, 1000), Out('o', 'f64', 20)], calc1(k), requires=lambda c: [c.ini <= c.nom], fn=[P_('calculate'), 'accelerationTimeFromDistance']) for k in (0, 3, 14)],
    Target('times of two blocks', 'h_calc2', BN(0) + BN(1) + [I('g0', 0, NT - 1), I('g1', 0, NT - 1), D('x0', 0, 1000), D('x1', 0, 1000), Out('o', 'f64', NT), Out('p', 'f64', 8)], calc2, requires=lambda c: [c.e0 <= c.n0, c.e1 <= c.n0, c.e1 <= c.n1], bounded='two random blocks', fn=[P_('calculate'), P_('addTime')]),
    Target('reset', 'h_reset', [D('x0', 0, 1000), Out('o', 'f64', NT)], lambda c: [('nothing left', And(*[c.o[i] == 0 for i in range(NT)]))], fn=[P_('reset')]),
    *[Target('move along %s%s' % (n, m), 'h_plan_' + n.replace('-', 'n'), AX + [D('feed', 0, VM), d] + PO, plan('xyze'.index(n[-1]), -1 if n[0] == '-' else 1), fn=[P_('plan')], opts=MG, setup=use_trap, thorough_only=t) for n, m, d, t in MOVES('x', '-x', 'y', 'z', '-z', 'e', '-e')],
    Target('no move', 'h_plan_none', AX + [D('feed', 0, VM), D('s', -DM, DM)] + PO, plan_none, fn=[P_('plan')]),
    *[Target('junction along %s%s' % (n, m), 'h_junction_' + n.replace('-', 'n'), AXJ + [D('feed', 0, VM), d] + [D('pv', -VM, VM), D('pn', Fraction(1, 1000), VM)] + PO, junction('xyze'.index(n[-1])), fn=[P_('plan')], opts=MG, setup=use_trap, thorough_only=t) for n, m, d, t in MOVES('x', '-y', 'z', 'e', j=True) if not t],
    Target('two moves in space', 'h_plan', AX + [D('feed', 0, VM)] + [D(x, -200, 200) for x in ('s0', 'x', 'y', 'z', 'e', 'x2', 'y2', 'z2', 'e2')] + [Out('o', 'f64', 19), Out('q', 'i64', 4), Out('o2', 'f64', 19), Out('q2', 'i64', 4), Out('tt', 'f64', NT)], planned, bounded='two random moves', fn=[P_('plan'), P_('calculate')]),
]
