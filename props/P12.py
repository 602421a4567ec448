import os
from vp.spec import *
from vp.terms import *
from vp import build
APP = os.path.join(build.HERE, 'harness', 'app')
BUILD = dict(harness='P12.cpp', sources=['settings/FlowTempGraph.cpp', 'Preheat.cpp'], flags=['-iquote', APP])
EPS = Fraction(1, 2 ** 20)


def near(v, e, tol=EPS):
    return And(v - e <= tol, e - v <= tol)


class Graph(Vec):
    """flows in increasing order, at least a thousandth apart: known for every index read against the ghost index k and the one after it"""
    def __init__(self, name, k, n=None):
        Vec.__init__(self, name, [('flow', 0, 'f64', 0, 1000), ('temp', 8, 'f64', 0, 500)], 16, nmin=0 if n is None else n, nmax=2 ** 20 if n is None else n)
        self.k = k

    def sym(self, ex, st, vals=None):
        r = Vec.sym(self, ex, st, vals)
        if vals is None:
            rd = self.read['flow']
            k = self.k.v

            def ordered(i):
                v = rd(i)
                a = C.atoms[next(iter(P(v).atoms()))]
                if (id(self), P(v).key) not in C.cache:
                    C.cache[(id(self), P(v).key)] = True
                    i = P(i)
                    fs = []
                    for q in (k, k + 1, P(0), self.n - 1):
                        u = rd(q)
                        fs += [Implies(i < q, u - v >= (q - i) * Fraction(1, 1000)), Implies(i > q, v - u >= (i - q) * Fraction(1, 1000)), Implies(eq0(i - q), eq0(u - v))]
                    for q, sg in ((i - 1, -1), (i + 1, 1)):
                        u = rd(q)
                        fs.append(Implies(And(q >= 0, q < self.n), (u - v) * sg >= Fraction(1, 1000)))
                    a.facts = list(getattr(a, 'facts', None) or []) + [f for f in fs if f.k != 'const']
                return v
            self.read['flow'] = ordered
            c = ex.wcontent(st, self.data)
            sz, arr = c.fields[0]
            c.fields[0] = (sz, type(arr)('base', ordered))
        return r


def graph_setup(ex, c):
    def tmpl(L):
        for it in L.iters(L.args['v'].data):
            if it.idx is None:
                continue
            yield ('%s passed' % it.name, Or(eq0(it.idx), c.v('flow', it.idx) < c.flow))
            yield ('%s below' % it.name, c.v('flow', it.idx) <= c.flow)
            for l in L.ints:
                yield ('%s before %s' % (it.name, l.name), None if l.val is None else eq0(it.idx + 1 - l.val))
        for l in L.ints:
            yield ('%s started' % l.name, None if l.val is None else l.val >= 1)
            yield ('%s ends' % l.name, None if l.val is None else l.val <= c.v.n)
            yield ('%s passed' % l.name, None if l.val is None else Or(l.val <= 1, c.v('flow', l.val - 1) < c.flow))
            yield ('%s below' % l.name, None if l.val is None else c.v('flow', l.val - 1) <= c.flow)
    ex.inv_templates.append(tmpl)


def graph(c):
    n, k = c.v.n, c.k
    f, t = (lambda i: c.v('flow', i)), (lambda i: c.v('temp', i))
    if not c.symbolic:
        if not c.dep or n == 0:
            return [('the print temperature if there is no graph or it is not used', c.ret == c.t)]
        if any(f(i + 1) - f(i) < Fraction(1, 1000) for i in range(n - 1)):
            return []
        out = [('below the graph: its first temperature', Implies(Or(n == 1, c.flow < f(0)), c.ret == t(0))), ('above the graph: its last temperature', Implies(Or(n == 1, c.flow > f(n - 1)), c.ret == t(n - 1)))]
        if k + 1 < n:
            out.append(('on the line between the neighbouring points', Implies(And(f(k) <= c.flow, c.flow <= f(k + 1)), near(c.ret * (f(k + 1) - f(k)), t(k) * (f(k + 1) - f(k)) + (t(k + 1) - t(k)) * (c.flow - f(k))))))
        return out
    use = And(c.dep, n >= 1)
    return [('the print temperature if there is no graph or it is not used', Implies(Not(use), c.ret == c.t)), ('below the graph: its first temperature', Implies(And(use, Or(eq0(n - 1), c.flow < f(P(0)))), c.ret == t(P(0)))),
            ('above the graph: its last temperature', Implies(And(use, Or(eq0(n - 1), c.flow > f(n - 1))), c.ret == t(n - 1))),
            ('at the first point', Implies(And(use, eq0(f(P(0)) - c.flow)), near(c.ret, t(P(0)))))]


def gen_graph(rng):
    n = rng.randint(0, 7)
    f = sorted(rng.sample(range(1, 60), n))
    v = [dict(flow=Fraction(x, 2), temp=Fraction(rng.randint(150, 300))) for x in f]
    fl = rng.choice(v)['flow'] if v and rng.random() < 0.3 else Fraction(rng.randint(0, 128), 4)
    k = 0
    for i in range(n - 1):
        if v[i]['flow'] <= fl:
            k = i
    return dict(k=k, v=v, flow=fl, t=Fraction(200), dep=rng.random() < 0.8)


def speeds(c):
    m = If(c.p, c.s[2], 0)
    return c.s[0] - m, c.s[1] + m


def pre(c):
    return [speeds(c)[0] >= Fraction(1, 10)]


def time(c):
    h, k = speeds(c)
    return [('heating time', Implies(c.a > c.b, near(c.ret * h, c.a - c.b))), ('cooling time', Implies(c.a <= c.b, near(c.ret * k, c.b - c.a))), ('never negative', c.ret >= 0)]


def temp(c):
    return [('initial layer temperature where there is one', c.ret == If(And(c.first, Not(c.s[4] == 0)), c.s[4], c.s[3]))]


T = Fraction(1, 1000)


def warm(c):
    h, k = getattr(c, 'hk', None) or speeds(c)
    w, x, lo = c.o
    need = If(c.ts < c.te, (c.te - c.ts) * k, (c.ts - c.te) * h)      # times h*k
    short = w * h * k < need - T * h * k
    long_ = w * h * k - need
    d = If(c.ts < c.te, c.ts, c.te) - c.tm
    full = d * (h + k)
    return [('time window as given', w == c.w), ('heating within the window', And(x >= 0, x <= w + T)), ('no time: stays at the lower temperature', Implies(short, And(x <= T, near(lo, If(c.ts < c.te, c.ts, c.te), T)))),
            ('lowest temperature between standby and both ends', And(lo >= c.tm - T, lo <= c.ts + T, lo <= c.te + T)),
            ('heats from the lowest temperature to the end', Implies(long_ >= T, near(x * h, c.te - lo, T * h))),
            ('reaches standby when there is time', Implies(long_ > full + T * h * k, near(lo, c.tm, T))),
            ('otherwise uses the whole window', Implies(And(long_ >= T * h * k, long_ < full - T * h * k), near((c.ts - lo) * h + (c.te - lo) * k, w * h * k, T * h * k)))]


def cool(c):
    h, k = getattr(c, 'hk', None) or speeds(c)
    w, x, hi = c.o
    need = If(c.ts < c.te, (c.te - c.ts) * k, (c.ts - c.te) * h)
    short = w * h * k < need - T * h * k
    long_ = w * h * k - need
    top = If(c.ts < c.te, c.te, c.ts)
    full = (c.tm - top) * (h + k)
    return [('time window as given', w == c.w), ('cooling within the window', And(x >= 0, x <= w + T)), ('no time: stays at the higher temperature', Implies(short, And(x <= T, near(hi, top, T)))),
            ('highest temperature between both ends and printing', And(hi <= c.tm + T, hi >= c.ts - T, hi >= c.te - T)),
            ('cools from the highest temperature to the end', Implies(long_ >= T, near(x * k, hi - c.te, T * k))),
            ('reaches the printing temperature when there is time', Implies(long_ > full + T * h * k, near(hi, c.tm, T))),
            ('otherwise uses the whole window', Implies(And(long_ >= T * h * k, long_ < full - T * h * k), near((hi - c.ts) * k + (hi - c.te) * h, w * h * k, T * h * k)))]


def rates(f, h, k):
    def g(c):
        c.hk = (h, k)
        return f(c)
    return g


RATES = [(0, 2, Fraction(1, 2), 'heating fast'), (1, 1, 2, 'cooling fast'), (2, Fraction(1, 2), 1, 'while printing')]
SP = lambda: Cells('s', 'f64', 5, 'in', Fraction(1, 10), 20)
ST = lambda: Cells('s', 'f64', 5, 'in', 0, 500)
E = lambda: I('e', 0, 7)
TT = lambda n: D(n, 0, 500)
K_ = I('k', 0, 2 ** 20)
WIN = [SP(), I('e', 0, 1), D('w', 0, 100000), TT('ts'), TT('tm'), TT('te'), Bool('p'), Out('o', 'f64', 3)]
WIN1 = [D('w', 0, 100000), TT('ts'), TT('tm'), TT('te'), Out('o', 'f64', 3)]
TARGETS = [
    Target('temperature for a flow', 'h_graph', [K_, Graph('v', K_), D('flow', 0, 1000), TT('t'), Bool('dep')], graph, ret='f64', setup=graph_setup, gen=gen_graph, fn=['FlowTempGraph::getTemp']),
    Target('interpolation between the points', 'h_graph', [I('k', 0, 0), Vec('v', [('flow', 0, 'f64', 0, 1000), ('temp', 8, 'f64', 0, 500)], 16, nmax=12), D('flow', 0, 1000), TT('t'), Bool('dep')], graph, ret='f64', gen=gen_graph, bounded='graphs of up to 7 points', fn=['FlowTempGraph::getTemp']),
    Target('time between temperatures', 'h_time', [SP(), I('e', 0, 1), TT('b'), TT('a'), Bool('p')], time, pre, ret='f64', fn=['Preheat::getTimeToGoFromTempToTemp']),
    Target('print temperature', 'h_temp', [ST(), I('e', 0, 1), Bool('first')], temp, ret='f64', fn=['Preheat::getTemp']),
    Target('cool down, then warm up', 'h_warm', WIN, warm, bounded='random and edge inputs', requires=lambda c: pre(c) + [c.tm <= c.ts, c.tm <= c.te], fn=['Preheat::getWarmUpPointAfterCoolDown']),
    Target('warm up, then cool down', 'h_cool', WIN, cool, bounded='random and edge inputs', requires=lambda c: pre(c) + [c.tm >= c.ts, c.tm >= c.te], fn=['Preheat::getCoolDownPointAfterWarmUp']),
    *[Target('cool down, then warm up, %s' % n, 'h_warm_%d' % r, WIN1, rates(warm, h, k), lambda c: [c.tm <= c.ts, c.tm <= c.te], timeout=220, fn=['Preheat::getWarmUpPointAfterCoolDown']) for r, h, k, n in RATES],
    *[Target('warm up, then cool down, %s' % n, 'h_cool_%d' % r, WIN1, rates(cool, h, k), lambda c: [c.tm >= c.ts, c.tm >= c.te], timeout=220, fn=['Preheat::getCoolDownPointAfterWarmUp']) for r, h, k, n in RATES],
]
