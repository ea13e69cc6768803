"""libm functions as interval-enclosed functions of their arguments (assumed accuracy of the
platform libm: 1e-14 relative, 1e-15 absolute for the trigonometric functions)."""
import math
from .common import *

NOTE = 'libm powf, exp, ln, sin, cos, atan2: deterministic, relative error at most 1e-14 (trigonometric: absolute 1e-15)'
REL = 1e-14


def named(ctx, name, ts, lo, hi):
    r = ufr('fl_' + name, *ts)
    if r.get_id() not in ctx.atom_b:
        ctx.atom_b[r.get_id()] = (lo, hi)
        ctx.keep.append(r)
        ctx.axiom(z3.And(r >= rv(lo), r <= rv(hi)), (r,))
    else:
        l, h = ctx.atom_b[r.get_id()]
        lo, hi = max(lo, l), min(hi, h)
    return SF(r, lo, hi)


def box(ops, st, x, nonneg=False):
    lo, hi = bounds(x)
    if lo is None or hi is None:
        raise Undecided('libm argument without bounds')
    if nonneg and lo < 0:
        if not ops.ctx.valid(st, real(x) >= 0):
            raise Undecided('power of a possibly negative number %r' % ((lo, hi),))
        lo = 0.0
    return lo, hi


def widen(lo, hi):
    f = lambda v, s: v + s * abs(v) * REL + s * 1e-300 if v else 0.0
    return (f(lo, -1), f(hi, 1))


def powf(ops, st, args):
    x, e = args
    bl, bh = box(ops, st, x, True)
    el, eh = bounds(e)
    if el is None or el <= 0:
        raise Undecided('power with a possibly non-positive exponent')
    c = [b ** q for b in (bl, bh) for q in (el, eh)]
    lo, hi = widen(min(c), max(c))
    v = named(ops.ctx, 'powf', [real(x), real(e)], max(lo, 0.0), hi)
    if bh == 0:
        return 0.0
    ops.ctx.axiom(z3.Implies(real(x) == 0, v.t == 0), (v.t,))
    return v


def exp(ops, st, args):
    lo, hi = box(ops, st, args[0])
    if hi > 600:
        raise Undecided('exp overflow not excluded')
    v = named(ops.ctx, 'exp', [real(args[0])], *widen(math.exp(lo), math.exp(hi)))
    if v.lo < 1e-3:
        return v
    s = spec(ops.ctx, 'LN', v.t, 1 / v.lo)
    ops.ctx.axiom(within(s, real(args[0]), rv(2 * REL)), (s,))      # the logarithm inverts the exponential
    return v


def ln(ops, st, args):
    lo, hi = box(ops, st, args[0])
    if lo <= 0:
        raise Undecided('logarithm of a possibly non-positive number')
    return lip(ops.ctx, named(ops.ctx, 'ln', [real(args[0])], *widen(math.log(lo), math.log(hi))), 'LN', args[0], 1 / lo, max(abs(math.log(lo)), abs(math.log(hi))) * REL)


def lip(ctx, v, spec, x, k, err):
    """v is within err of spec(x), spec Lipschitz with constant k over the arguments in use"""
    s = ufr(spec, real(x))
    ctx.axiom(within(v.t, s, rv(err + 1e-300)), (v.t,))
    seen = ctx.__dict__.setdefault('lips', {}).setdefault(spec, [])
    if not any(s.eq(q) for q, _, _ in seen):
        for q, y, kk in seen:
            lipschitz(ctx, s, real(x), q, y, max(k, kk))
        seen.append((s, real(x), k))
    return v


def lipschitz(ctx, s, x, q, y, k):
    d = x - y
    ctx.axiom(within(s, q, rv(k) * z3.If(d >= 0, d, -d)), (s, q))


def spec(ctx, name, x, k):
    """specification function at a term of the contract"""
    s = ufr(name, x)
    seen = ctx.__dict__.setdefault('lips', {}).setdefault(name, [])
    if not any(s.eq(q) for q, _, _ in seen):
        for q, y, kk in seen:
            lipschitz(ctx, s, x, q, y, max(k, kk))
        seen.append((s, x, k))
    return s


def cos(ops, st, args):
    return lip(ops.ctx, named(ops.ctx, 'cos', [real(args[0])], -1.0, 1.0), 'COS', args[0], 1.0, 1e-15)


def sin(ops, st, args):
    return lip(ops.ctx, named(ops.ctx, 'sin', [real(args[0])], -1.0, 1.0), 'SIN', args[0], 1.0, 1e-15)


def atan2(ops, st, args):
    p = 3.1415926535897936
    return named(ops.ctx, 'atan2', [real(a) for a in args], -p, p)


def use(c):
    c.affine = True
    c.prune_ms = 300
    c.libm.update(powf=powf, exp=exp, ln=ln, cos=cos, sin=sin, atan2=atan2)
    c.assume_note(NOTE)


def var(c, name, lo, hi):
    v, p = fin(name, lo, hi)
    c.atom_b[v.t.get_id()] = (float(lo), float(hi))
    c.keep.append(v.t)
    return v, p
