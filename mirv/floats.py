"""Float semantics.

mode 'round': every operation returns a fresh-by-congruence real fl_op(a,b)
  constrained by the IEEE-754 round-to-nearest error bound and by monotonicity
  of rounding at anchor constants (exactly representable numbers); results
  must be finite (checked: interval or solver).
mode 'exact': machine arithmetic treated as mathematical (listed as assumption)
mode 'uf':    operations uninterpreted (structural contracts), congruence and
              commutativity only
mode 'havoc': any float may be any of the 2^64 values, including NaN; compare
              results and casts are unconstrained (totality contracts)
"""
import math
from fractions import Fraction
import z3
from .values import *

U = Fraction(1, 2 ** 53)
ETA = Fraction(1, 2 ** 1074)
BIG = 1e300

_R = z3.RealSort()
UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in UF:
        UF[k] = z3.Function(name, *sorts)
    return UF[k]


def ufr(name, *args):
    return uf(name, *([_R] * len(args) + [_R]))(*args)


class FloatOps:
    def __init__(self, ctx):
        self.ctx = ctx

    # -- helpers
    def zero_possible(self, b):
        lo, hi = bounds(b)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        return True

    def _iv(self, op, a, b):
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        if None in (al, ah, bl, bh):
            return None, None
        try:
            if op == 'Add':
                return (max(dn(al + bl), 0.0) if al >= 0 and bl >= 0 else dn(al + bl)), up(ah + bh)
            if op == 'Sub':
                return dn(al - bh), up(ah - bl)
            if op == 'Mul':
                c = [x * y for x in (al, ah) for y in (bl, bh)]
            else:
                if bl <= 0 <= bh:
                    return None, None
                c = [x / y for x in (al, ah) for y in (bl, bh)]
            if any(math.isnan(x) or math.isinf(x) for x in c):
                return None, None
            return (max(dn(min(c)), 0.0) if al >= 0 and bl >= 0 else dn(min(c))), up(max(c))
        except (OverflowError, ZeroDivisionError):
            return None, None

    def _finite(self, st, t, lo, hi, what):
        if lo is not None and hi is not None and -BIG < lo and hi < BIG:
            return
        if not self.ctx.valid(st, z3.And(t < rv(BIG), t > rv(-BIG))):
            raise Undecided('float overflow not excluded in %s' % what)

    def plus_zero(self, a):
        if not isinstance(a, SF):
            return a
        r = SF(a.t, a.lo, a.hi, a.isint, a.ex, a.err)
        r.nz = False
        return r

    def binop(self, st, op, a, b):
        ctx = self.ctx
        if isinstance(a, float) and isinstance(b, float):
            return self.conc(op, a, b)
        if ctx.fmode == 'havoc' or isinstance(a, HF) or isinstance(b, HF):
            return HFV
        if op == 'Rem':
            return self.rem(st, a, b)
        x, y = real(a), real(b)
        if op == 'Div' and ctx.fmode != 'uf' and self.zero_possible(b):
            if not ctx.valid(st, y != 0):
                if ctx.div0 == 'havoc':
                    return HFV
                if ctx.div0 != 'assume':
                    raise Undecided('division by zero not excluded')
                ctx.assume_note('a denominator is not zero')
        lo, hi = self._iv(op, a, b)
        if op == 'Mul' and lo is not None and x.eq(y):
            lo = max(lo, 0.0)
        # identities that are exact in IEEE (up to the sign of zero)
        if op == 'Mul' and a == 1.0 and isinstance(a, float):
            return b
        if op in ('Mul', 'Div') and b == 1.0 and isinstance(b, float):
            return a
        if op == 'Mul' and ((isinstance(a, float) and a == 0.0) or (isinstance(b, float) and b == 0.0)):
            return 0.0
        if op == 'Div' and x.eq(y) and ctx.fmode != 'uf':
            return 1.0
        if op == 'Sub' and x.eq(y):
            return 0.0
        if ctx.fmode == 'round' and isinstance(b, float) and (op == 'Div' and 0 < abs(b) <= 1 or op == 'Mul' and abs(b) >= 1) and math.frexp(abs(b))[0] == 0.5 and lo is not None and max(abs(lo), abs(hi)) < BIG:
            # scaling up by a power of two is exact
            k = rv(1 / b if op == 'Div' else b)
            return SF(x * k, lo, hi, False, None if isinstance(a, float) else a.ex * k, None if isinstance(a, float) else a.err * abs(1 / b if op == 'Div' else b))
        if op == 'Mul' and ((isinstance(a, float) and a == -1.0) or (isinstance(b, float) and b == -1.0)):
            return self.neg(b if isinstance(a, float) else a)
        if op in ('Add', 'Sub') and isinstance(b, float) and b == 0.0:
            return self.plus_zero(a) if op == 'Add' and math.copysign(1.0, b) > 0 else a
        if op == 'Add' and isinstance(a, float) and a == 0.0:
            return self.plus_zero(b) if math.copysign(1.0, a) > 0 else b
        if op == 'Sub' and isinstance(b, float) and b < 0:
            return self.binop(st, 'Add', a, -b)
        if ctx.antisym:
            # rounding is symmetric: a - b = -(b - a), (-a)(-b) = ab
            ctx.keep += [x, y]
            if op == 'Sub' and x.get_id() > y.get_id():
                return self.neg(self.binop(st, op, b, a))
            um = lambda t: z3.is_app_of(t, z3.Z3_OP_UMINUS)
            if op == 'Mul' and um(x) and um(y):
                st2 = lambda v: SF(v.t.arg(0), None if v.hi is None else -v.hi, None if v.lo is None else -v.lo)
                return self.binop(st, op, st2(a), st2(b))
        t = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]()
        if ctx.fmode == 'exact':
            return SF(t, lo, hi)
        ctx.keep += [x, y]          # operands are ordered by id: an id must not be given away
        if op in ('Add', 'Mul') and x.get_id() > y.get_id():
            x, y = y, x
        r = ufr('fl_' + op, x, y)
        if ctx.fmode == 'uf':
            if op in ('Add', 'Mul') and ('comm', r.get_id()) not in ctx.fl_done:
                ctx.fl_done.add(('comm', r.get_id()))
                ctx.keep.append(r)
                ctx.axiom(r == ufr('fl_' + op, y, x), (r,))     # the order by id is not kept by equal operands
            return SF(r, lo, hi)
        ia, ib = getattr(a, 'isint', isinstance(a, float) and a == int(a)), getattr(b, 'isint', isinstance(b, float) and b == int(b))
        if op in ('Add', 'Sub', 'Mul') and ia and ib and lo is not None and abs(lo) < 2 ** 52 and abs(hi) < 2 ** 52:
            return SF(t, lo, hi, True)
        if ctx.overflow == 'havoc' and not (lo is not None and hi is not None and -BIG < lo and hi < BIG):
            return HFV
        self._finite(st, t, lo, hi, op)
        if (r.get_id(),) not in ctx.fl_done:
            ctx.fl_done.add((r.get_id(),))
            ctx.keep.append(r)
            e = rv(U)
            eta = rv(ETA) if op in ('Mul', 'Div') else rv(0)
            if op == 'Div':
                # avoid division in the error bound: name the quotient
                q = ufr('q', x, y)
                ctx.fl_done.add(('quot', q.get_id()))
                ctx.axiom(z3.Implies(y != 0, q * y == x), (q,))
                t = q
                ctx.axiom(z3.Implies(y > 0, z3.And((x >= 0) == (q >= 0), (x <= 0) == (q <= 0))), (q,), True)
                ctx.axiom(z3.Implies(y < 0, z3.And((x >= 0) == (q <= 0), (x <= 0) == (q >= 0))), (q,), True)
            g = z3.BoolVal(True) if op != 'Div' else y != 0
            ab = z3.If(t >= 0, t, -t)
            ctx.axiom(z3.Implies(g, z3.And(r - t <= e * ab + eta, t - r <= e * ab + eta)), (r,), True)
            ctx.axiom(z3.Implies(g, z3.And((t >= 0) == (r >= 0), (t <= 0) == (r <= 0))) if op in ('Add', 'Sub') else
                      z3.Implies(g, z3.And(z3.Implies(t >= 0, r >= 0), z3.Implies(t <= 0, r <= 0))), (r,), op == 'Div')
            for c in ctx.anchors:
                if c != 0:
                    cc = rv(c)
                    if op == 'Div':
                        # x / y <= c  without the quotient
                        ctx.axiom(z3.Implies(z3.And(y > 0, x <= cc * y), r <= cc), (r,))
                        ctx.axiom(z3.Implies(z3.And(y > 0, x >= cc * y), r >= cc), (r,))
                    else:
                        ctx.axiom(z3.And(z3.Implies(t <= cc, r <= cc), z3.Implies(t >= cc, r >= cc)), (r,))
            if op in ('Add', 'Sub', 'Mul'):
                ctx.mono_instance(op, x, y, t, r)
        ex, err = self._shadow(op, a, b, lo, hi)
        if ex is None:
            return SF(r, lo, hi)
        if ctx.affine:
            lo, hi = self._tight(op, a, b, ex, err, lo, hi)
            ef = self._eform(op, a, b)
            lo, hi = self._erange(ex, ef, lo, hi)
        k = ('shadow', r.get_id(), ex.get_id())
        if k not in ctx.fl_done:
            ctx.fl_done.add(k)
            ctx.keep.append(ex)
            ctx.axiom(z3.And(r - ex <= rv(err), ex - r <= rv(err)), (r,))
            if ctx.affine and lo > -BIG and hi < BIG:
                ctx.axiom(z3.And(r >= rv(lo), r <= rv(hi)), (r,))
        v = SF(r, lo, hi, ex=ex, err=err)
        if ctx.affine:
            v.ef = ef
        return v

    def _shadow(self, op, a, b, lo, hi):
        if lo is None or hi is None:
            return None, None
        def sh(v):
            return (rv(v), 0.0) if isinstance(v, float) else (v.ex, v.err)
        (xa, ea), (xb, eb) = sh(a), sh(b)
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        ma, mb, mr = max(abs(al), abs(ah)), max(abs(bl), abs(bh)), max(abs(lo), abs(hi))
        u = 2.0 ** -53
        if op in ('Add', 'Sub'):
            e = ea + eb
            ex = xa + xb if op == 'Add' else xa - xb
        elif op == 'Mul':
            e = ma * eb + mb * ea + ea * eb
            ex = xa * xb
        else:
            m = min(abs(bl), abs(bh))
            if bl <= 0 <= bh or m <= 2 * eb:
                return None, None
            e = (ea + mr * eb) / (m - eb)
            if isinstance(b, float):
                ex = xa / xb
            else:
                ex = ufr('q', xa, xb)
                k = ('quot', ex.get_id())
                if k not in self.ctx.fl_done:
                    self.ctx.fl_done.add(k)
                    self.ctx.axiom(z3.Implies(xb != 0, ex * xb == xa), (ex,))
        return ex, (e + u * mr + 2.0 ** -1070) * (1 + 1e-9)

    # -- affine forms over named terms: tighter enclosures than intervals alone (correlated operands)
    def _form(self, t):
        ctx = self.ctx
        k = t.get_id()
        if k in ctx.forms:
            return ctx.forms[k]
        r = None
        if z3.is_rational_value(t):
            r = ({}, t.as_fraction())
        elif z3.is_add(t) or z3.is_sub(t):
            r = ({}, Fraction(0))
            for i, x in enumerate(t.children()):
                f = self._form(x)
                if f is None:
                    r = None
                    break
                sg = -1 if i and z3.is_sub(t) else 1
                d = dict(r[0])
                for a, c in f[0].items():
                    d[a] = d.get(a, 0) + sg * c
                r = (d, r[1] + sg * f[1])
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            f = self._form(t.arg(0))
            r = f and ({a: -c for a, c in f[0].items()}, -f[1])
        elif z3.is_mul(t) and t.num_args() == 2:
            f, g = self._form(t.arg(0)), self._form(t.arg(1))
            if f and g and (not f[0] or not g[0]):
                if f[0]:
                    f, g = g, f
                r = ({a: c * f[1] for a, c in g[0].items()}, f[1] * g[1])
        elif z3.is_div(t):
            f, g = self._form(t.arg(0)), self._form(t.arg(1))
            if f and g and not g[0] and g[1] != 0:
                r = ({a: c / g[1] for a, c in f[0].items()}, f[1] / g[1])
        elif k in ctx.atom_b:
            r = ({k: Fraction(1)}, Fraction(0))
        ctx.forms[k] = r
        ctx.keep.append(t)
        return r

    def _tight(self, op, a, b, ex, err, lo, hi):
        ctx = self.ctx
        f = self._form(ex)
        e = Fraction(err)
        if f is not None:
            l = f[1] + sum(c * Fraction(ctx.atom_b[x][0 if c >= 0 else 1]) for x, c in f[0].items())
            h = f[1] + sum(c * Fraction(ctx.atom_b[x][1 if c >= 0 else 0]) for x, c in f[0].items())
        elif op == 'Div':
            g = lambda v: ({}, Fraction(v)) if isinstance(v, float) else self._form(v.ex)
            n, d = g(a), g(b)
            if not n or not d or len(set(n[0]) | set(d[0])) != 1:
                return lo, hi
            x, = set(n[0]) | set(d[0])
            v = []
            for p in ctx.atom_b[x]:
                p = Fraction(p)
                q = d[0].get(x, 0) * p + d[1]
                v.append((n[0].get(x, 0) * p + n[1], q))
            if v[0][1] * v[1][1] <= 0:
                return lo, hi
            v = [y / z for y, z in v]
            l, h = min(v), max(v)
        else:
            return lo, hi
        return max(lo, dn(float(l - e))), min(hi, up(float(h + e)))

    def _eform(self, op, a, b):
        """bound of |computed - exact| as an affine form over non-negative named terms (relative errors); None: unknown"""
        ctx = self.ctx

        def get(v):
            if isinstance(v, float):
                return ({}, Fraction(v)), ({}, Fraction(0))
            f = self._form(v.ex)
            e = ({}, Fraction(0)) if v.err == 0 else v.ef
            return f, e
        (fa, ea), (fb, eb) = get(a), get(b)
        if None in (fa, ea, fb, eb) or any(ctx.atom_b[x][0] < 0 for x in list(fa[0]) + list(fb[0])):
            return None
        absf = lambda f: ({x: abs(c) for x, c in f[0].items()}, abs(f[1]))

        def comb(*ps):
            d, k = {}, Fraction(0)
            for w, f in ps:
                for x, c in f[0].items():
                    d[x] = d.get(x, 0) + w * c
                k += w * f[1]
            return d, k
        if op in ('Add', 'Sub'):
            return comb((1 + U, ea), (1 + U, eb), (U, absf(fa)), (U, absf(fb)))
        if op == 'Mul' and (isinstance(a, float) or isinstance(b, float)):
            if isinstance(a, float):
                fa, ea, fb, eb = fb, eb, fa, ea
            k = abs(fb[1])
            r = comb((k * (1 + U), ea), (k * U, absf(fa)))
            g = ctx.atom_g
            pure = fa[1] == 0 and all(c > 0 for c in fa[0].values()) and all(x in g for x in fa[0]) and (not fa[0] or k * min(c * Fraction(g[x]) for x, c in fa[0].items()) > Fraction(1, 10 ** 290))
            return r if pure else (r[0], r[1] + ETA)
        return None

    def _erange(self, ex, ef, lo, hi):
        f = self._form(ex)
        if ef is None or f is None:
            return lo, hi
        b = self.ctx.atom_b
        l, h = f[1] - ef[1], f[1] + ef[1]
        for x in set(f[0]) | set(ef[0]):
            c, e = f[0].get(x, 0), ef[0].get(x, 0)
            l += min((c - e) * Fraction(v) for v in b[x])
            h += max((c + e) * Fraction(v) for v in b[x])
        lo2 = float(l)
        return max(lo, lo2 if lo2 == l else dn(lo2)), min(hi, up(float(h)))

    def conc(self, op, a, b):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mul':
                return a * b
            if op == 'Div':
                if b == 0:
                    raise Undecided('constant division by zero')
                return a / b
            if op == 'Rem':
                return math.fmod(a, b)
        except OverflowError:
            raise Undecided('constant overflow')
        raise Undecided('float op ' + op)

    def rem(self, st, a, b):
        if not isinstance(b, float) or b <= 0:
            raise Undecided('float remainder by a non-constant')
        if self.ctx.fmode == 'uf':
            return SF(ufr('fl_Rem', real(a), real(b)), -b, b)
        x = real(a)
        q = x / rv(b)
        k = z3.If(x >= 0, z3.ToInt(q), -z3.ToInt(-q))
        kv = self.ctx.fresh('rem_k', z3.IntSort())
        # name the quotient: 0 <= |x| - b*|k| < b
        kk = ufr_int('rem_q', x, rv(b))
        r = x - rv(b) * z3.ToReal(kk)
        if ('rem', kk.get_id()) not in self.ctx.fl_done:
            self.ctx.fl_done.add(('rem', kk.get_id()))
            self.ctx.keep.append(kk)
            self.ctx.axiom(z3.Implies(x >= 0, z3.And(r >= 0, r < rv(b), kk >= 0)), (kk,))
            self.ctx.axiom(z3.Implies(x < 0, z3.And(r <= 0, r > -rv(b), kk <= 0)), (kk,))
        return SF(r, -b, b)

    def cmp(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Eq': a == b, 'Ne': a != b}[op]
        if isinstance(a, HF) or isinstance(b, HF):
            return self.ctx.fresh('fcmp', z3.BoolSort())
        x, y = real(a), real(b)
        if self.ctx.affine or self.ctx.ivcmp:
            (al, ah), (bl, bh) = bounds(a), bounds(b)
            if None not in (al, ah, bl, bh):
                if ah < bl:
                    return op in ('Lt', 'Le', 'Ne')
                if al > bh:
                    return op in ('Gt', 'Ge', 'Ne')
                if al >= bh and op in ('Lt', 'Ge'):
                    return op == 'Ge'
                if ah <= bl and op in ('Gt', 'Le'):
                    return op == 'Le'
        return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op]

    def neg(self, a):
        if isinstance(a, float):
            return -a
        if isinstance(a, HF):
            return a
        return SF(-a.t, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, a.isint)

    # -- std functions
    def call(self, st, name, args):
        ctx = self.ctx
        if all(isinstance(x, float) for x in args):
            r = self.conc_call(name, args)
            if r is not None:
                return r
        if any(isinstance(x, HF) for x in args) or ctx.fmode == 'havoc':
            if name in ('is_nan', 'is_finite', 'is_infinite', 'is_sign_negative', 'is_sign_positive'):
                return ctx.fresh('fb', z3.BoolSort())
            return HFV
        if name == 'abs':
            a, = args
            lo, hi = bounds(a)
            m = None if lo is None or hi is None else max(abs(lo), abs(hi))
            return SF(z3.If(a.t >= 0, a.t, -a.t), 0.0 if m is not None else None, m, a.isint)
        if name in ('max', 'min'):
            a, b = args
            x, y = real(a), real(b)
            (al, ah), (bl, bh) = bounds(a), bounds(b)
            f = max if name == 'max' else min
            lo = f(al, bl) if al is not None and bl is not None else None
            hi = f(ah, bh) if ah is not None and bh is not None else None
            return SF(z3.If(x >= y, x, y) if name == 'max' else z3.If(x <= y, x, y), lo, hi)
        if name == 'clamp':
            a, l, h = args
            return self.call(st, 'min', (self.call(st, 'max', (a, l)), h))
        if name in ('round', 'floor', 'ceil', 'trunc'):
            a, = args
            x = a.t
            lo, hi = bounds(a)
            if name == 'round':
                t = z3.If(x >= 0, z3.ToInt(x + rv(0.5)), -z3.ToInt(-x + rv(0.5)))
            elif name == 'floor':
                t = z3.ToInt(x)
            elif name == 'ceil':
                t = -z3.ToInt(-x)
            else:
                t = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return SF(z3.ToReal(t), None if lo is None else math.floor(lo) - 1.0, None if hi is None else math.ceil(hi) + 1.0, True)
        if name == 'is_nan' or name == 'is_infinite':
            return False
        if name == 'is_finite':
            return True
        if name == 'signum':
            a, = args
            return SF(z3.If(a.t >= 0, rv(1), rv(-1)), -1.0, 1.0)
        if name == 'powi' or name in ('mul_add', 'rem_euclid', 'hypot', 'exp_m1', 'ln_1p'):
            pass
        if name == 'sqrt':
            a, = args
            r = ufr('fl_sqrt', a.t)
            if ctx.fmode != 'uf' and ('sqrt', r.get_id()) not in ctx.fl_done:
                ctx.fl_done.add(('sqrt', r.get_id()))
                ctx.keep.append(r)
                if ctx.fmode == 'exact':
                    ctx.axiom(z3.Implies(a.t >= 0, z3.And(r >= 0, r * r == a.t)), (r,))
                else:
                    s = ufr('sqrt', a.t)
                    ctx.axiom(z3.Implies(a.t >= 0, z3.And(s >= 0, s * s == a.t, r >= s * rv(1 - U), r <= s * rv(1 + U))), (r,))
            lo, hi = bounds(a)
            return SF(r, 0.0 if lo is not None and lo >= 0 else None, up(math.sqrt(hi)) if hi is not None and hi >= 0 and lo is not None and lo >= 0 else None)
        h = ctx.libm.get(name)
        if h is not None:
            return h(self, st, args)
        if name in ('powf', 'powi', 'cbrt', 'exp', 'ln', 'log10', 'sin', 'cos', 'tan', 'atan', 'atan2', 'hypot', 'asin', 'acos', 'exp_m1', 'ln_1p', 'to_degrees', 'to_radians', 'log2'):
            ctx.assume_note('libm %s uninterpreted (deterministic, finite)' % name)
            lo = hi = None
            if name in ('sin', 'cos'):
                lo, hi = -1.0, 1.0
            ts = [real(x) for x in args]
            r = ufr('fl_' + name, *ts)
            if lo is not None:
                ctx.axiom(z3.And(r >= -1, r <= 1), (r,))
            if name == 'powf' and ctx.fmode != 'uf':
                ctx.axiom(z3.Implies(ts[0] >= 0, r >= 0), (r,))
            return SF(r, lo, hi)
        raise Undecided('float function ' + name)

    def conc_call(self, name, a):
        x = a[0]
        if name == 'abs':
            return abs(x)
        if name == 'max':
            return max(a)
        if name == 'min':
            return min(a)
        if name == 'round':
            return math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 and abs(x) != 0.49999999999999994 else (0.0 if abs(x) < 0.5 else abs(x)), x)
        if name == 'floor':
            return float(math.floor(x))
        if name == 'ceil':
            return float(math.ceil(x))
        if name == 'sqrt' and x >= 0:
            return math.sqrt(x)
        if name == 'is_nan':
            return math.isnan(x)
        return None      # libm: fall through to the symbolic treatment on constants

    # -- casts
    def to_int(self, st, a, lo, hi):
        """`as iN`: truncate, saturate, NaN -> 0"""
        if isinstance(a, float):
            if math.isnan(a):
                return 0
            if math.isinf(a):
                return hi if a > 0 else lo
            return max(lo, min(hi, int(a)))
        if isinstance(a, HF):
            r = self.ctx.fresh('f2i', z3.IntSort())
            self.ctx.axiom(z3.And(r >= lo, r <= hi))
            return r
        x = a.t
        t = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        ts = z3.simplify(t)
        if z3.is_int_value(ts):
            t = ts
        al, ah = bounds(a)
        if al is not None and ah is not None and al >= lo and ah <= hi:
            return t
        return z3.If(t < lo, z3.IntVal(lo), z3.If(t > hi, z3.IntVal(hi), t))

    def from_int(self, st, i):
        if isinstance(i, int):
            return float(i)
        if self.ctx.fmode == 'havoc':
            return HFV
        t = z3.ToReal(i)
        if self.ctx.fmode in ('exact', 'uf'):
            return SF(t, None, None, True)
        if self.ctx.valid(st, z3.And(i <= 2 ** 53, i >= -2 ** 53)):
            lo, hi = self.ctx.int_bounds(st, i)
            return SF(t, lo, hi, True)
        r = ufr('fl_i2f', t)
        ab = z3.If(t >= 0, t, -t)
        self.ctx.axiom(z3.And(r - t <= rv(U) * ab, t - r <= rv(U) * ab, z3.Implies(ab <= 2 ** 53, r == t)), (r,))
        return SF(r, None, None, True)


def ufr_int(name, *args):
    return uf(name, *([_R] * len(args) + [z3.IntSort()]))(*args)
