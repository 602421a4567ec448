"""Runs one property: build, prove every contract, validate, replay, write evidence."""
import concurrent.futures
import ctypes
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

from . import build, ir, terms as tm, sym, spec, models
from .terms import P, B, Poly, And, Or, Not, Implies, C, bc
from .spec import CT, to_conc, isf
from .sym import Special

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_prop(pid):
    sys.path.insert(0, HERE)
    return importlib.import_module('props.' + pid)


# ---------------------------------------------------------------------------------------------- symbolic side
_mods = {}


def get_module(ll):
    if ll not in _mods:
        m = ir.Module(open(ll).read())
        _mods[ll] = (m, build.demangler(list(m.funcs_src) + list(m.decls)))
    return _mods[ll]


def namespace(target, views):
    c = spec.Ns()
    for p in target.params:
        setattr(c, p.name, views[p.name])
    return c


def conv_ret(ex, ty, v):
    if ty == 'void':
        return None
    if ty == 'bool':
        return v if isinstance(v, B) else tm.as_bool(v)
    if v is sym.UNDEF or v is None:
        return ex.asnum(sym.UNDEF, spec.IRT[ty])
    if isinstance(v, B):
        v = tm.b2i(v)
    if ty[0] == 'u':
        return ex.tou(v, spec.SZ[ty] * 8)
    return v


def prove_target(ll, pid, idx, tier, seed):
    """runs in its own process; returns a picklable result"""
    t0 = time.time()
    mod = load_prop(pid)
    target = mod.TARGETS[idx]
    tm.reset()
    res = dict(target=target.name, entry=target.entry, obligations=0, discharged=0, failed=[], cex=[], unsupported=None, notes=[], backends={}, inlined=[], contracts=[], models=[],
               loops=[], paths=0, vacuous=None)
    ex = None
    try:
        m, dem = get_module(ll)
        opts = dict(target.opts)
        if tier != 'quick':
            opts['budget'] = opts.get('budget', 1.0) * 4
        ex = sym.Executor(m, dem, opts)
        ex.deadline = t0 + (target.timeout if tier == 'quick' else 250 if tier == 'retry' else target.timeout * 4)
        st = sym.State()
        args, views = [], {}
        for p in target.params:
            args += p.sym(ex, st)
            views[p.name] = p.view
            ex.args[p.name] = p
        c = namespace(target, views)
        c.symbolic = True
        pre = [tm.tob(b) for b in (target.requires(c) if target.requires else [])]
        for b in pre:
            st.assume(b)
        ex.ghosts['c'] = c
        if target.setup:
            target.setup(ex, c)
        r, _ = tm.check_sat(st.path, 20000) if st.path else ('sat', None)
        if r == 'unsat':
            res['vacuous'] = 'precondition is unsatisfiable'
        outs = ex.call_function(target.entry, args, st)
        live = 0
        for s in outs:
            if s.status in ('abort', 'unreachable'):
                continue      # obligation recorded where it happened
            if s.status == 'throw':
                if not target.throws:
                    ex.oblige_end(s, tm.FALSE, 'no exception escapes')
                    continue
                cc = namespace(target, {p.name: (p.after(ex, s) if isinstance(p, spec.Cells) else p.view) for p in target.params})
                cc.symbolic = True
                cc.threw = True
                cc.pre = c
                cc.ret = None
            else:
                cc = namespace(target, {p.name: (p.after(ex, s) if isinstance(p, spec.Cells) else p.view) for p in target.params})
                cc.symbolic = True
                cc.threw = False
                cc.pre = c
                cc.ret = conv_ret(ex, target.ret, s.ret)
                cc.ex, cc.st = ex, s
            for p in target.params:
                if isinstance(p, spec.Cells):
                    vals = getattr(cc, p.name)
                    setattr(cc, p.name, [ex.asnum(v, spec.IRT[p.ty]) if v is sym.UNDEF else v for v in vals])
            if len(outs) <= 3 or live < 2:
                pass
            proven = {}
            for label, goal, *focus in target.ensures(cc):
                if label == 'hint':
                    s.assume(goal)      # instance of a lemma schema of vp/terms.py (H_*)
                    continue
                if focus:
                    # (hints, labels): prove from instances of lemma schemas and earlier (proved) postconditions only; falls back to the whole path
                    hs, labels = focus
                    if all(l in proven for l in labels):
                        s2 = sym.State()
                        for g in [proven[l] for l in labels] + [tm.tob(h[1] if isinstance(h, tuple) else h) for h in hs]:
                            s2.assume(g)
                        if ex.oblige_end(s2, goal, 'ensures: ' + label) == 'proved':
                            proven[label] = tm.tob(goal)
                            s.assume(goal)
                            continue
                        ex.obs.pop()
                    for h in hs:
                        s.assume(h[1] if isinstance(h, tuple) else h)
                if ex.oblige_end(s, goal, 'ensures: ' + label) == 'proved':
                    s.assume(goal)
                    proven[label] = tm.tob(goal)
        # vacuity: some completed path is satisfiable
        sat = False
        for s in outs:
            if s.status in ('ret', 'throw'):
                r, _ = tm.check_sat(s.path, 3000, lin=True)
                if r != 'unsat':
                    sat = True
                    break
        if not sat and res['vacuous'] is None:
            res['vacuous'] = 'no completed path is reachable'
        res['paths'] = len(outs)
    except sym.Unsupported as e:
        res['unsupported'] = str(e)
    except ir.ParseError as e:
        res['unsupported'] = 'extraction: ' + str(e)[:300]
    except RecursionError:
        res['unsupported'] = 'recursion limit'
    except MemoryError:
        res['unsupported'] = 'out of memory'
    except Exception as e:
        res['unsupported'] = 'internal: ' + ''.join(traceback.format_exception(e))[-1500:]
    if ex is not None:
        res['obligations'] = len(ex.obs)
        res['discharged'] = sum(1 for o in ex.obs if o.status == 'proved')
        for o in ex.obs:
            if o.status == 'proved':
                res['backends'][o.backend] = res['backends'].get(o.backend, 0) + 1
        res['kinds'] = {}
        for o in ex.obs:
            k = o.name.split(':')[0] if o.name.startswith('loop invariant') else o.name
            res['kinds'][k] = res['kinds'].get(k, 0) + 1
        bad = [o for o in ex.obs if o.status != 'proved']
        for o in bad[:12]:
            res['failed'].append(dict(name=o.name, fn=o.fn, status=o.status, detail=o.detail))
            if o.model:
                res['cex'].append(o.model)
        t1 = time.time()
        for o in bad[:8]:
            if time.time() - t1 > 60:
                break
            try:
                res['cex'] += small_models(ex, target, o)
            except Exception:
                pass
        res['notes'] = sorted(ex.notes | C.notes)
        res['inlined'] = sorted(dem(n) for n in ex.inlined)
        res['contracts'] = sorted(ex.used_contracts)
        res['models'] = sorted(ex.used_models)
        res['loops'] = [dict(fn=k[0], invariants=v['invariants'], varying=v['havoc']) for k, v in ex.loop_report.items()]
        res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in C.stats.items()}
    res['time'] = time.time() - t0
    return res


def oblige_end(self, st, goal, name):
    """postcondition at the end of a path (the frames are gone)"""
    goal = tm.tob(goal)
    t0 = time.time()
    status, be, model = tm.prove(st.path, goal, self.budget)
    ob = sym.Ob(name=name, fn=self.dem(self.entry_fn), status=status, backend=be, time=time.time() - t0)
    if sym.TRACE and ob.time > 1:
        print('SLOW', round(ob.time, 1), status, be, name, repr(goal)[:300], file=sys.stderr)
    if status != 'proved':
        ob.model = self.model_inputs(model) if model is not None else None
        ob.path = list(st.path)
        ob.goal = goal
        ob.detail = repr(goal)[:600]
        if os.environ.get('VP_V', '') >= '3':
            ob.detail = explain(goal)
    self.obs.append(ob)
    return status


sym.Executor.oblige_end = oblige_end


def small_models(ex, target, o):
    """more counterexample candidates with small inputs"""
    out = []
    if o.path is None:
        return out
    base = list(o.path) + [Not(o.goal)]
    for bound in (3, 20, 1000, None):
        extra = []
        for p in target.params:
            if isinstance(p, spec.Vec):
                extra.append(p.n <= (4 if bound and bound < 100 else 8))
                if bound:
                    for i in range(4):
                        for fn, off, ty, lo, hi in p.fields:
                            v = p.read[fn](P(i))
                            extra += [v <= bound, v >= -bound]
            elif isinstance(p, spec.Num) and p.ty != 'bool' and bound:
                extra += [p.v <= bound, p.v >= -bound]
            elif isinstance(p, spec.Cells) and bound:
                for v in p.vs:
                    extra += [v <= bound, v >= -bound]
        if any(tm.tob(e).k == 'const' and not tm.tob(e).v for e in extra):
            continue
        r, m = tm.check_sat(base + extra, 4000, want_model=True)
        if r == 'sat' and m is not None:
            mi = ex.model_inputs(m)
            if mi:
                out.append(mi)
    return out


def concrete_symbolic(m, dem, target, inp):
    """run the VC generator on a concrete input (validation of the executor against the native code)"""
    tm.reset()
    ex = sym.Executor(m, dem, dict(target.opts))
    ex.deadline = time.time() + 20
    if target.opts.get('models_only'):      # its setup only gives models of external functions
        target.setup(ex, None)
    st = sym.State()
    args = []
    for p in target.params:
        args += p.const(ex, st, inp[p.name])
    outs = ex.call_function(target.entry, args, st)
    if len(outs) != 1:
        return None
    s = outs[0]
    if s.status != 'ret':
        return dict(status=s.status)
    r = dict(status='ret', ret=None, outs={})
    v = conv_ret(ex, target.ret, s.ret)
    r['ret'] = conc(v)
    for p in target.params:
        if isinstance(p, spec.Cells):
            r['outs'][p.name] = [conc(x) for x in p.after(ex, s)]
    return r


def conc(v):
    if v is None or v is sym.UNDEF:
        return None
    if isinstance(v, B):
        return v.v if v.k == 'const' else '?'
    if isinstance(v, Poly):
        return tm.norm(Fraction(v.const())) if v.is_const() else '?'
    if isinstance(v, Special):
        return v.k
    return '?'


# ---------------------------------------------------------------------------------------------- native side
class Native:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so, mode=os.RTLD_LAZY)

    def call(self, target, inp):
        f = getattr(self.lib, target.entry)
        f.restype = CT[target.ret] if target.ret != 'void' else None
        at, a, keep = [], [], []
        for p in target.params:
            at += p.argtypes()
            a += p.native(inp[p.name], keep)
        f.argtypes = at
        r = f(*a)
        c = spec.Ns()
        c.symbolic = False
        c.threw = False
        c.pre = spec.Ns()
        for p in target.params:
            v = p.cview(inp[p.name])
            setattr(c.pre, p.name, v)
            setattr(c, p.name, p.native_after() if hasattr(p, 'native_after') else v)
            if isinstance(p, spec.Vec):
                p.native_release()
        c.ret = None if target.ret == 'void' else to_conc(target.ret, r)
        return c


def check_pre(target, inp):
    c = spec.Ns()
    c.symbolic = False
    for p in target.params:
        setattr(c, p.name, p.cview(inp[p.name]))
        if isinstance(p, spec.Num) and p.ty != 'bool':
            if not (p.lo <= inp[p.name] <= p.hi):
                return False
    c.pre = c
    return all(bool(b) for b in (target.requires(c) if target.requires else []))


def eval_post(target, c):
    """list of violated labels"""
    bad = []
    vals = [c.ret] + [x for p in target.params if isinstance(p, spec.Cells) for x in getattr(c, p.name)]
    if any(isinstance(v, Special) for v in vals) and not target.allow_nan:
        return ['result is not finite']
    for label, goal, *focus in target.ensures(c):
        if label != 'hint' and not bool(goal):
            bad.append(label)
    return bad


def gen_input(target, rng):
    if target.gen:
        r = target.gen(rng)
        if r is not None:
            for p in target.params:
                if p.name not in r:
                    r[p.name] = p.gen(rng, [])
            return r
    pool = []
    return {p.name: p.gen(rng, pool) for p in target.params}


def native_worker(conn, so, pid, idx, inputs, seed, nrandom, tlimit, trace):
    """evaluates given inputs then random ones; sends ('cex', inp, labels) or ('done', count, samples)"""
    try:
        target = load_prop(pid).TARGETS[idx]
        nat = Native(so)
        rng = random.Random(seed)
        n = ok = 0
        t0 = time.time()
        sample = []
        seen = set()

        def one(inp):
            nonlocal n, ok
            if not check_pre(target, inp):
                return None
            if trace:
                conn.send(('try', inp))
            signal.alarm(20)
            c = nat.call(target, inp)
            signal.alarm(0)
            n += 1
            h = hash(repr(inp))
            seen.add(h)
            if len(sample) < 60:
                sample.append((inp, dict(ret=(c.ret.k if isinstance(c.ret, Special) else c.ret), outs={p.name: [x.k if isinstance(x, Special) else x for x in getattr(c, p.name)] for p in target.params if isinstance(p, spec.Cells)})))
            return eval_post(target, c) or None
        for inp in inputs:
            bad = one(inp)
            if bad:
                conn.send(('cex', inp, bad))
                return
        k = 0
        while k < nrandom and time.time() - t0 < tlimit:
            k += 1
            inp = gen_input(target, rng)
            bad = one(inp)
            if bad:
                conn.send(('cex', inp, bad))
                return
        conn.send(('done', n, len(seen), sample))
    except Exception:
        conn.send(('error', traceback.format_exc()[-2000:]))
    finally:
        conn.close()


def native_run(so, pid, idx, inputs, seed, nrandom, tlimit):
    """returns ('cex', inp, labels) / ('crash', inp, how) / ('done', n, distinct, samples) / ('error', text)"""
    ctx = mp.get_context('fork')
    for trace in (False, True):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=native_worker, args=(b, so, pid, idx, inputs, seed, nrandom, tlimit, trace))
        p.start()
        b.close()
        last = None
        msg = None
        while True:
            try:
                if not a.poll(tlimit + 60):
                    p.kill()
                    break
                m = a.recv()
            except EOFError:
                break
            if m[0] == 'try':
                last = m[1]
            else:
                msg = m
                break
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
        if msg is not None:
            return msg
        if trace:
            how = 'does not terminate within 20 s' if p.exitcode == -signal.SIGALRM else 'crashes (signal %s)' % (-p.exitcode if p.exitcode and p.exitcode < 0 else p.exitcode)
            if last is None or p.exitcode == 127:
                return ('error', 'native worker died: %s' % ('unresolved symbol' if p.exitcode == 127 else how))
            return ('crash', last, how)
    return ('error', 'no answer')


def ser(x):
    if isinstance(x, Fraction):
        return float(x) if x.denominator != 1 else int(x)
    if isinstance(x, dict):
        return {k: ser(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [ser(v) for v in x]
    return x


def exact(x):
    if isinstance(x, Fraction):
        return {'num': str(x.numerator), 'den': str(x.denominator)}
    if isinstance(x, dict):
        return {k: exact(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [exact(v) for v in x]
    return x


# ---------------------------------------------------------------------------------------------- driver
def run_one(args):
    kind, a = args
    if kind == 'prove':
        return prove_target(*a)
    if kind == 'native':
        return native_run(*a)


def pool_map(jobs, workers=8, timeout=None, total=None, found=None):
    """run jobs in fresh forked processes, at most `workers` at a time; result None if a job died"""
    ctx = mp.get_context('fork')
    start = time.time()
    res = [None] * len(jobs)
    pending = list(range(len(jobs)))
    running = {}

    def child(conn, job):
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            conn.send(run_one(job))
        except BaseException:
            conn.send(dict(died=traceback.format_exc()[-1500:]))
        conn.close()
    while pending or running:
        if total and time.time() - start > total:
            for i in pending:
                res[i] = dict(died='timeout')
            pending = []
        while pending and len(running) < workers:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, jobs[i]))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        done = mp.connection.wait([r[1] for r in running.values()], 1.0)
        now = time.time()
        for i in list(running):
            p, a, t = running[i]
            if a in done:
                try:
                    res[i] = a.recv()
                    if found and found(res[i]):      # a failing input on the real code settles the verdict: the rest gets another minute
                        total = min(total or 10 ** 9, now - start + 60)
                        found = None
                except EOFError:
                    res[i] = dict(died='process ended')
                p.join(10)
                del running[i]
            elif (timeout and now - t > timeout) or (total and now - start > total):
                p.kill()
                p.join()
                res[i] = dict(died='timeout')
                del running[i]
    return res


def known_findings(pid):
    out = []
    fn = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid:
                    out.append(d)
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = load_prop(pid)
    only = os.environ.get('VP_ONLY')
    targets = mod.TARGETS
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        return _main(pid, tier, seed, mod, targets, tmp, t0, only)
    finally:
        if os.environ.get('VP_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def first_pass(ll, so, pid, targets, idxs, tier, seed):

    jobs, meta = [], []
    qn = 3000 if tier == 'quick' else 60000
    for i in idxs:
        t = targets[i]
        n = qn
        tl = 15 if tier == 'quick' else 60
        if t.bounded is not None:
            n = t.samples or (60000 if tier == 'quick' else 1000000)
            tl = 60 if tier == 'quick' else 300
        jobs.append(('native', (so, pid, i, [], seed, n, tl)))
        meta.append(('native', i))
    for i in idxs:
        t = targets[i]
        if t.bounded is None:
            jobs.append(('prove', (ll, pid, i, tier, seed)))
            meta.append(('prove', i))
    res = pool_map(jobs, 8, timeout=380 if tier == 'quick' else 3000, total=480 if tier == 'quick' else None, found=(lambda r: isinstance(r, tuple) and r and r[0] in ('cex', 'crash')) if tier == 'quick' else None)
    proofs, natives = {}, {}
    for (k, i), r in zip(meta, res):
        if k == 'prove':
            if r is None or 'died' in r:
                r = dict(target=targets[i].name, entry=targets[i].entry, obligations=0, discharged=0, failed=[], cex=[], unsupported='prover process: ' + str((r or {}).get('died')), notes=[], backends={}, inlined=[], contracts=[], models=[], loops=[], paths=0, vacuous=None, time=0, stats={})
            proofs[i] = r
        else:
            natives[i] = r if not isinstance(r, dict) else ('error', str(r))
    return proofs, natives


def _main(pid, tier, seed, mod, targets, tmp, t0, only):
    verbose = os.environ.get('VP_V')
    entries = sorted(set(t.entry for t in targets))
    spec_ = dict(mod.BUILD)
    spec_['entries'] = entries + spec_.get('keep', [])
    try:
        ll, so = build.build(spec_, tmp)
    except build.BuildError as e:
        print('build of the code under contract failed:\n%s' % e)
        return 2
    idxs = [i for i, t in enumerate(targets) if (not only or any(o in t.name for o in only.split(','))) and (tier == 'thorough' or not t.thorough_only)]
    tb = time.time() - t0
    get_module(ll)
    native = Native(so)    # load errors surface here
    natives, proofs = {}, {}
    todo = list(idxs)
    for rnd_ in range(4):
        p_, n_ = first_pass(ll, so, pid, targets, todo, tier, seed)
        proofs.update(p_)
        natives.update(n_)
        # code that now calls into a source file outside the listed ones: add the file and look again
        need = [i for i in todo if 'call to external function cura::' in str(proofs.get(i, {}).get('unsupported')) or 'unresolved symbol' in str(natives[i][:2])]
        if not need or rnd_ == 3:
            break
        more = build.find_sources(ll, spec_['sources'])
        if not more:
            break
        try:
            s2 = dict(spec_)
            s2['sources'] = spec_['sources'] + more
            d2 = os.path.join(tmp, 'r%d' % rnd_)
            os.makedirs(d2)
            ll, so = build.build(s2, d2)
            spec_ = s2
        except build.BuildError as e:
            break
        todo = need
    # differential validation of the VC generator on concrete inputs
    val_n = val_bad = 0
    val_detail = []
    m, dem = get_module(ll)
    tv = time.time()
    for i in idxs:
        t = targets[i]
        r = natives.get(i)
        if t.bounded is not None or not r or r[0] != 'done' or (proofs[i]['unsupported'] and not proofs[i]['obligations']):
            continue
        k = 0
        for inp, out in r[3][:(6 if tier == 'quick' else 40)]:
            if time.time() - tv > (20 if tier == 'quick' else 200):
                break
            try:
                cs = concrete_symbolic(m, dem, t, inp)
            except sym.Unsupported as e:
                continue
            except Exception as e:
                continue
            if cs is None:
                continue
            val_n += 1
            mis = differs(t, cs, out)
            if mis:
                val_bad += 1
                val_detail.append('%s on %s: %s' % (t.name, ser(inp), mis))
    # obligations that only ran out of solver time are retried alone with a larger budget
    again = [i for i in idxs if i in proofs and natives[i][0] not in ('cex', 'crash') and (any(f['status'] == 'unknown' for f in proofs[i]['failed']) or 'time budget' in str(proofs[i]['unsupported']) or 'prover process' in str(proofs[i]['unsupported']))
             and not any(f['status'] == 'refuted' for f in proofs[i]['failed'])]
    hit = tier == 'quick' and any(n[0] in ('cex', 'crash') for n in natives.values())
    if again and tier == 'quick' and not hit and time.time() - t0 < 560:
        for i, r in zip(again, pool_map([('prove', (ll, pid, i, 'retry', seed)) for i in again], 4, timeout=280, total=min(280, max(1, 640 - (time.time() - t0))))):
            if r is not None and 'died' not in r:
                r['time'] += proofs[i]['time']
                r['retried'] = True
                proofs[i] = r
    # verdicts
    violations = []
    undecided = []
    bounded_ok = []
    known = known_findings(pid)
    for i in idxs:
        t = targets[i]
        n = natives[i]
        pr = proofs.get(i)
        failed = pr is not None and (pr['failed'])
        undec = pr is not None and (pr['unsupported'] or pr['vacuous'])
        if n[0] in ('cex', 'crash'):
            violations.append((i, n))
            continue
        if failed or undec:
            # counterexample search on the real code: solver models first, then contract-driven search
            cex = pr['cex']
            tl = (45 if failed else 12) if tier == 'quick' else 400
            if tier == 'quick':
                left = 780 - (time.time() - t0)
                tl = max(3, min(tl, left / 3 - 5, 5 if hit else tl))
                if left < 25:
                    if failed:
                        violations.append((i, ('noinput', pr)))
                    else:
                        undecided.append((i, pr['unsupported'] or pr['vacuous'], ('error', 'out of time')))
                    continue
            r = search(so, pid, i, cex, seed, tl)
            if r[0] in ('cex', 'crash'):
                violations.append((i, r))
                continue
            if failed:
                violations.append((i, ('noinput', pr)))
            else:
                undecided.append((i, pr['unsupported'] or pr['vacuous'], r))
        elif n[0] == 'error' and t.bounded is not None:
            undecided.append((i, 'native: ' + n[1], n))
    ev = evidence(pid, tier, seed, mod, targets, idxs, proofs, natives, violations, undecided, val_n, val_bad, val_detail, tb, t0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if verbose or only:
        for i in idxs:
            pr = proofs.get(i)
            if pr:
                print('%-46s %4d/%-4d paths=%-3d %.1fs %s %s %s' % (targets[i].name, pr['discharged'], pr['obligations'], pr['paths'], pr['time'], pr['backends'], pr['unsupported'] or '', pr['vacuous'] or ''))
                for f in pr['failed'][:5]:
                    print('     FAILED', f['name'], f['status'], f['fn'], (f['detail'] or '')[:300 if (verbose or '') < '3' else 9000])
                if verbose and verbose > '1':
                    for l in pr['loops']:
                        print('     loop', l['fn'][:80], l['varying'], l['invariants'])
                    print('     ', pr['stats'], pr['models'], pr['contracts'])
            n = natives[i]
            print('      native', n[0], n[1] if n[0] == 'done' else str(ser(n[1:]))[:600])
        print('validation', val_n, val_bad, val_detail[:3])
    code = 0
    for k in known:
        if k.get('status') == 'known':
            pass
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for k, (i, r) in enumerate(violations):
        t = targets[i]
        kf = match_known(known, t, r)
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
            continue
        path = os.path.join(HERE, 'replays', '%s_%s.json' % (pid, ''.join(ch if ch.isalnum() else '_' for ch in t.name)))
        if r[0] == 'noinput':
            body = dict(property=pid, contract=t.name, entry=t.entry, failed_obligations=r[1]['failed'], verifier='vp (LLVM IR -> z3/cvc5)', note='the obligation was refuted or not discharged; no concrete failing input was found on the real code', solver_candidates=exact(r[1]['cex'][:4]))
            tail = ' no-failing-input-found'
        else:
            body = dict(property=pid, contract=t.name, entry=t.entry, sources=spec_['sources'], input=exact(r[1]), readable=ser(r[1]), observed=r[2], failed_obligations=proofs[i]['failed'] if i in proofs else [], how='./replay.sh %s' % path)
            tail = ''
        with open(path, 'w') as f:
            json.dump(body, f, indent=1, default=str)
        print('%s: contract %s: %s' % (pid, t.name, (r[2] if r[0] != 'noinput' else [f['name'] for f in r[1]['failed']])))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        code = 1
    if val_bad:
        print('VC generator disagrees with the native code: %s' % val_detail[:3])
        if code == 0:
            return 3
    for i, why, r in undecided:
        print('UNDECIDED %s contract %s: %s; bounded stand-in on the real code: %s' % (pid, targets[i].name, why.strip().split('\n')[-1], r[:3] if r[0] == 'done' else r))
    if code == 0:
        ob = sum(p['obligations'] for p in proofs.values())
        print('%s: %d contracts, %d obligations discharged, %d undecided, %.1f s' % (pid, len(idxs), sum(p['discharged'] for p in proofs.values()), len(undecided), time.time() - t0))
        if any(p['vacuous'] for p in proofs.values()) or (ob == 0 and not undecided):
            return 3
    return code


def unexact(x):
    if isinstance(x, dict):
        if set(x) == {'num', 'den'}:
            return Fraction(int(x['num']), int(x['den']))
        return {k: unexact(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unexact(v) for v in x]
    return x


def replay(path):
    d = json.load(open(path))
    if 'input' not in d:
        print('no concrete input recorded; failed obligations:')
        print(json.dumps(d.get('failed_obligations'), indent=1))
        return 1
    pid = d['property']
    mod = load_prop(pid)
    i = [k for k, t in enumerate(mod.TARGETS) if t.name == d['contract']][0]
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        sp = dict(mod.BUILD)
        sp['sources'] = d.get('sources', sp['sources'])
        sp['entries'] = sorted(set(t.entry for t in mod.TARGETS)) + sp.get('keep', [])
        ll, so = build.build(sp, tmp)
        r = native_run(so, pid, i, [unexact(d['input'])], 1, 0, 10)
        print('%s %s on %s: %s' % (pid, d['contract'], d.get('readable'), (r[2] if r[0] in ('cex', 'crash') else 'contract holds')))
        return 1 if r[0] in ('cex', 'crash') else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    import z3, cvc5
    for t in (build.CLANG, build.LINK, build.OPT, '/usr/bin/g++'):
        if not os.path.exists(t):
            print('missing tool', t)
            return 1
    for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if f.endswith('.py'):
            load_prop(f[:-3])
    print('tools and contracts load')
    return 0


def match_known(known, t, r):
    for k in known:
        if k.get('status') == 'known' and k.get('contract') == t.name:
            return k
    return None


def search(so, pid, i, cex, seed, tl):
    jobs = [('native', (so, pid, i, cex, seed, 0, 10))] + [('native', (so, pid, i, [], seed * 1000 + 7 + w, 10 ** 8, tl)) for w in range(6)]
    # first the solver's candidates
    r = pool_map(jobs[:1], 1, 40)[0]
    if isinstance(r, tuple) and r[0] in ('cex', 'crash'):
        return r
    short = [('native', (so, pid, i, [], seed * 1000 + 7 + w, 10 ** 8, min(tl, 12))) for w in range(6)]
    rs = pool_map(short, 6, tl + 40)
    tot = 0
    for r in rs:
        if isinstance(r, tuple) and r[0] in ('cex', 'crash'):
            return r
    rs = pool_map(jobs[1:], 6, tl + 40)
    last = ('error', 'no result')
    for r in rs:
        if isinstance(r, tuple):
            if r[0] in ('cex', 'crash'):
                return r
            if r[0] == 'done':
                tot += r[1]
                last = r
            elif last[0] == 'error':
                last = r
    if last[0] == 'done':
        return ('done', tot, last[2], [])
    return last


def differs(t, cs, out):
    def cmp(a, b):
        if a is None or a == '?' or b is None:
            return True
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        return Fraction(a) == Fraction(b)
    if cs['status'] != 'ret':
        return 'executor ended with ' + cs['status']
    if not cmp(cs['ret'], out['ret']):
        return 'ret %s vs native %s' % (cs['ret'], out['ret'])
    for k, v in cs['outs'].items():
        for a, b in zip(v, out['outs'][k]):
            if not cmp(a, b):
                return '%s: %s vs native %s' % (k, v, out['outs'][k])
    return None


TRUSTED = ['clang++-18 front end and the opt passes sroa/early-cse/simplifycfg/loop-simplify/inlining-free linking (C++ to LLVM IR)',
           'the VC generator in /verif/vp (validated against native runs on every check)', 'z3 5.3.2, cvc5 1.4.2 (python bindings)',
           'floating point: exact reals plus an explicit relative/absolute rounding-error term per operation (round to nearest, no NaN/infinity inputs)',
           'g++ 13 -O1 build used for replay and validation']


def explain(goal):
    """a goal with the facts of its atoms (debugging)"""
    out, seen, todo = [repr(goal)], set(), re.findall(r'\w+!(\d+)', repr(goal))
    while todo:
        i = int(todo.pop(0))
        if i in seen:
            continue
        seen.add(i)
        for f in tm.C.atoms[i].facts or []:
            out.append('   %s: %r' % (tm.C.atoms[i].name, f))
            todo += re.findall(r'\w+!(\d+)', repr(f))
    return '\n'.join(out)


def evidence(pid, tier, seed, mod, targets, idxs, proofs, natives, violations, undecided, val_n, val_bad, val_detail, tb, t0):
    fns = sorted({f for i in idxs for f in targets[i].fn})
    obl = sum(p['obligations'] for p in proofs.values())
    dis = sum(p['discharged'] for p in proofs.values())
    be = {}
    for p in proofs.values():
        for k, v in p['backends'].items():
            be[k] = be.get(k, 0) + v
    models_ = sorted({x for p in proofs.values() for x in p['models']})
    notes = sorted({x for p in proofs.values() for x in p['notes']} | set(getattr(mod, 'ASSUMPTIONS', [])))
    bounded = [dict(contract=targets[i].name, bound=targets[i].bounded, evaluations=natives[i][1] if natives[i][0] == 'done' else 0) for i in idxs if targets[i].bounded is not None]
    cov = dict(obligations=obl, discharged=dis,
               checker_cmd='python3-vt /verif/run.py %s %s' % (pid, tier),
               trusted_base=TRUSTED + ['assumed contract of external function: ' + x for x in models_],
               functions_under_contract=fns,
               contracts=[dict(name=targets[i].name, entry=targets[i].entry, obligations=proofs[i]['obligations'], discharged=proofs[i]['discharged'], paths=proofs[i]['paths'], backends=proofs[i]['backends'],
                               seconds=round(proofs[i]['time'], 2), obligation_kinds=proofs[i].get('kinds', {}), callee_contracts_used=proofs[i]['contracts'], loops=proofs[i]['loops'], undecided=proofs[i]['unsupported'], vacuity=proofs[i]['vacuous'] or 'precondition and exit reachable')
                          for i in idxs if i in proofs],
               functions_verified_inline=sorted({x for p in proofs.values() for x in p['inlined']}),
               backends=be, solver_seconds=round(sum(p.get('stats', {}).get('z3_time', 0) + p.get('stats', {}).get('cvc5_time', 0) for p in proofs.values()), 2),
               bounded_stand_ins=bounded, undecided=[dict(contract=targets[i].name, reason=str(w)[:400], bounded_native_evaluations=(r[1] if r[0] == 'done' else 0)) for i, w, r in undecided],
               native_contract_evaluations=sum(n[1] for n in natives.values() if n[0] == 'done'),
               executor_validation=dict(concrete_inputs_compared=val_n, disagreements=val_bad, detail=val_detail[:5]),
               samples=[dict(contract=targets[i].name, input=ser(natives[i][3][0][0]), observed=ser(natives[i][3][0][1])) for i in idxs if natives[i][0] == 'done' and natives[i][3]][:6],
               build_seconds=round(tb, 2))
    if proofs:
        level = 'proof'
    else:
        level = 'other'
    if level == 'other':
        cov['explanation'] = 'bounded stand-ins only'
    return dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=notes, wall_s=round(time.time() - t0, 2), violations=len(violations))
