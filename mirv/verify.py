"""Obligations: generation, discharge, counterexample extraction and replay."""
import math, multiprocessing as mp, os, re, struct, subprocess, tempfile, time, traceback
import z3
from .values import *
from .engine import Ctx, State, Out


def fenc(x):
    return 'f:%016x' % struct.unpack('>Q', struct.pack('>d', x))[0]


def to_float(mv):
    """nearest double of a z3 model value"""
    if z3.is_algebraic_value(mv):
        mv = mv.approx(40)
    if z3.is_rational_value(mv) or z3.is_int_value(mv):
        fr = mv.as_fraction() if z3.is_rational_value(mv) else mv.as_long()
        try:
            return float(fr)
        except OverflowError:
            return math.inf
    return None


class Job:
    """one function under contract: run(J) performs the symbolic execution and calls J.claim"""

    def __init__(self, name, fn, body, budget=120, **kw):
        self.name, self.fn, self.body, self.budget, self.kw = name, fn, body, budget, kw


class Local:
    """axioms of a context after generalising some terms to fresh constants"""
    subterms, relevant = Ctx.subterms, Ctx.relevant
    definite = False

    def __init__(self, ctx, subst, goal):
        stop = {t.get_id() for t, _ in subst}
        self._sub, self.keep, self.axioms = {}, [], []

        def walk(roots, known):
            seen, stack = set(), list(roots)
            while stack:
                t = stack.pop()
                i = t.get_id()
                if i in seen or i in known:
                    continue
                seen.add(i)
                self.keep.append(t)
                if i not in stop:
                    stack.extend(t.children())
            return seen
        deep, stack = set(), [x for t, _ in subst for x in t.children()]
        while stack:
            t = stack.pop()
            if t.get_id() not in deep and t.num_args():
                deep.add(t.get_id())
                stack.extend(t.children())
        S = walk([goal], ())
        todo = list(ctx.axioms)
        again = True
        while again:
            again, rest = False, []
            for x in todo:
                a, about, heavy = x
                if not about or not all(i in S for i in about):
                    rest.append(x)
                    continue
                new = walk([a], S)
                if new & deep:
                    continue      # speaks about what lies below a generalised term
                if new:
                    S |= new
                    again = True
                self.axioms.append((z3.substitute(a, *subst) if subst else a, (), heavy))
            todo = rest


class J:
    """what a job body sees"""

    def __init__(self, V, job, prog, budget):
        self.V, self.job, self.P = V, job, prog
        self.obs = []
        self.covers = []
        self.deadline = time.time() + budget
        self.notes = set()
        self.functions = set()
        self.ctxs = []
        self.ms = 20000 if V['tier'] == 'quick' else 120000
        self._n = {}

    def ctx(self, fmode='round', **kw):
        c = Ctx(self.P, fmode, self.deadline)
        for k, v in kw.items():
            setattr(c, k, v)
        self.ctxs.append(c)
        return c

    def fn(self, ty, name, trait=None):
        f = self.P.fn(ty, name, trait)
        if f is None:
            raise Undecided('lost anchor: no function %s::%s' % (ty, name))
        self.functions.add('%s::%s' % (ty, name) if ty else name)
        return f

    def execute(self, ctx, f, args, pre=(), st=None):
        s = st.fork() if st is not None else State()
        for p in pre:
            s.pc = s.pc + (p,)
        lits = set()
        for b in f.raw.values():
            for l in (b if isinstance(b, list) else [b]):
                for m in re.finditer(r'const (-?[0-9.]+(?:E[+-]?\d+)?)f64', l):
                    lits.add(float(m.group(1)))
        ctx.anchors |= {x for x in lits if abs(x) < 1e6}
        r = ctx.check(s, (), 5000)
        if r == z3.unsat:
            raise Undecided('precondition unsatisfiable (vacuous)')
        self.covers.append('%s: precondition %s' % (self.job.name, 'satisfiable' if r == z3.sat else 'not refuted'))
        outs = ctx.run(f, args, s)
        if not any(o.kind == 'return' for o in outs):
            raise Undecided('no returning path (vacuous)')
        return outs

    def no_panic(self, ctx, outs, inputs=None, replay=None, allowed=None):
        """every panicking path must be infeasible (or allowed)"""
        ps = [o for o in outs if o.kind == 'panic' and o.val != 'unwind']
        if not ps:
            self.add('no panic', 'discharged', 'mirv: no reachable panic', 0.0)
            return
        for o in ps:
            if allowed is not None:
                self.claim(ctx, o.st, 'panics only as specified', allowed(o), inputs, replay)
            else:
                self.claim(ctx, o.st, 'no panic (%s)' % str(o.val)[:60], z3.BoolVal(False), inputs, replay)

    def drop(self, n):
        """forget the obligations from the n-th on (an exploratory run); replayed violations stay"""
        gone = [o for o in self.obs[n:] if o['status'] != 'violated']
        self.obs[n:] = [o for o in self.obs[n:] if o['status'] == 'violated']
        for o in gone:
            nm = re.sub(r'#\d+$', '', o['name'])
            self._n[nm] = self._n.get(nm, 1) - 1

    def add(self, name, status, backend, secs, **kw):
        nm = '%s/%s' % (self.job.name, name)
        k = self._n.get(nm, 0)
        self._n[nm] = k + 1
        if k:
            nm += '#%d' % k
        self.obs.append(dict(name=nm, function=self.job.fn, status=status, backend=backend, seconds=round(secs, 3), **kw))

    def claim(self, ctx, st, name, formula, inputs=None, replay=None, definite=None):
        """pc /\\ axioms |= formula.  inputs: {name: value}; replay: (kind, model dict -> [encoded args] or None)"""
        if isinstance(formula, bool):
            formula = z3.BoolVal(formula)
        t0 = time.time()
        if z3.is_true(z3.simplify(formula)):
            self.add(name, 'discharged', 'z3 (simplifier)', time.time() - t0)
            return True
        if time.time() > self.deadline:
            self.add(name, 'undecided', 'z3', 0, detail='time budget exhausted')
            return False
        goal = z3.Not(formula)
        fs = tuple(st.pc) + (goal,)
        r = None
        if len(ctx.axioms) > 400:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*fs)
            r = s.check()
        for heavy in (False, True) if r != z3.unsat else ():
            if not heavy and not any(x[2] for x in ctx.axioms):
                continue
            s = z3.Solver()
            s.set('timeout', int(min(self.ms if heavy else self.ms / 3, max(1000, (self.deadline - time.time()) * 1000))))
            s.add(*ctx.relevant(fs, heavy))
            s.add(*fs)
            r = s.check()
            if r == z3.unsat:
                break
        if r == z3.unsat:
            self.add(name, 'discharged', 'z3', time.time() - t0)
            return True
        if r == z3.unknown:
            b = self.second(s, self.ms)
            if b:
                self.add(name, 'discharged', b, time.time() - t0)
                return True
            self.add(name, 'undecided', 'z3', time.time() - t0, detail='solver: ' + s.reason_unknown())
            return False
        # counterexample
        m = s.model()
        vals = {}
        for k, v in (inputs or {}).items():
            try:
                vals[k] = self.value(ctx, m, v)
            except Exception as e:
                vals[k] = None
        detail = 'counterexample: ' + ', '.join('%s=%s' % kv for kv in vals.items())
        rp = None
        passed = None
        if replay is not None and all(v is not None for v in vals.values()):
            kind, enc = replay
            try:
                args = enc(vals)
            except Exception:
                args = None
            if args is not None:
                failed, text = self.V['case'](kind, args)
                if failed:
                    rp = text
                else:
                    passed = text
        if rp:
            self.add(name, 'violated', 'z3', time.time() - t0, model=vals, detail=detail, replayed=rp)
        elif passed is not None and not (definite if definite is not None else ctx.definite):
            self.add(name, 'undecided', 'z3', time.time() - t0, model=vals, detail=detail + '; spurious, the code satisfies the contract there: ' + passed[:200])
        elif definite if definite is not None else ctx.definite:
            self.add(name, 'violated', 'z3', time.time() - t0, model=vals, detail=detail + ('; passes at that point: ' + passed[:200] if passed else ''), smt2=s.to_smt2()[:20000])
        else:
            self.add(name, 'undecided', 'z3', time.time() - t0, model=vals, detail=detail + ' (abstract counterexample, not replayable)')
        return False

    def local(self, ctx, name, formula, gen, pre=()):
        """claim for all values of the terms in gen within their enclosures (path condition dropped)"""
        t0 = time.time()
        sub, st = [], State()
        for i, v in enumerate(gen):
            if isinstance(v, float) or z3.is_const(v.t) or z3.is_rational_value(v.t):
                continue
            k = z3.Real('gen!%d' % i)
            sub.append((v.t, k))
        # larger terms first
        sub.sort(key=lambda p: -len(ctx.subterms(p[0])))
        loc = Local(ctx, sub, formula)
        for v in gen:
            lo, hi = bounds(v)
            if not isinstance(v, float) and lo is not None:
                k = z3.substitute(v.t, *sub)
                st.pc = st.pc + (k >= rv(lo), k <= rv(hi))
        st.pc = st.pc + tuple(z3.substitute(p, *sub) for p in pre)
        if os.environ.get('MIRV_LOCAL'):
            f = z3.substitute(formula, *sub) if sub else formula
            print(name, f, st.pc, loc.relevant((f,)), sep='\n')
        return self.claim(loc, st, name, z3.substitute(formula, *sub) if sub else formula)

    def value(self, ctx, m, v):
        if isinstance(v, (int, float, bool)):
            return v
        t = v.t if isinstance(v, SF) else v
        x = m.eval(t, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x) or z3.is_false(x):
            return z3.is_true(x)
        return to_float(x)

    def second(self, s, ms):
        """second opinion on an unknown: cvc5, then the newer z3"""
        txt = '(set-logic ALL)\n' + s.to_smt2()
        left = self.deadline - time.time()
        lim = max(1, min(ms / 1000.0, left))
        if left < 1:
            return None
        for cmd, nm in ((['z3-new', '-in', '-T:%d' % int(lim + 1)], 'z3-new'), (['cvc5', '--lang=smt2', '--tlimit=%d' % int(lim * 1000), '-'], 'cvc5')):
            try:
                r = subprocess.run(cmd, input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=lim + 5)
                if r.stdout.strip().split('\n')[0] == 'unsat':
                    return nm
            except Exception:
                pass
        return None


def run_job(V, job, prog):
    t0 = time.time()
    b = job.budget * (1 if V['tier'] == 'quick' else 5)
    j = J(V, job, prog, b)
    err = None
    try:
        job.body(j)
        if not j.obs:
            err = 'no obligation generated'
    except Undecided as e:
        err = str(e)
    except RecursionError:
        err = 'recursion'
    except Exception as e:
        err = 'engine: %s: %s' % (type(e).__name__, e)
        if os.environ.get('MIRV_DEBUG'):
            traceback.print_exc()
    if err:
        j.add('completion', 'undecided', 'mirv', time.time() - t0, detail=err)
    inl = set()
    notes = set(j.notes)
    ss = 0.0
    for c in j.ctxs:
        inl |= c.inlined
        notes |= c.notes
        ss += c.solver_s
    return dict(job=job.name, obligations=j.obs, functions=sorted(j.functions), inlined=sorted(inl), notes=sorted(notes), covers=j.covers, seconds=time.time() - t0, path_solver_seconds=round(ss, 2))
