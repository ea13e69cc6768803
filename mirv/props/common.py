import z3
from ..values import *
from ..engine import Ctx, State, Out
from ..stdmodel import deref, ret
from ..verify import Job, J, fenc
from ..floats import uf, ufr


def fi(x):
    return 'i:%d' % x


def args_f(*names):
    return lambda m: [fenc(float(m[n])) for n in names]


def args_i(*names):
    return lambda m: [fi(m[n]) for n in names]


def R(x):
    return rv(x) if isinstance(x, (int, float)) else real(x)


def zabs(t):
    return z3.If(t >= 0, t, -t)


def zmax(a, b):
    return z3.If(a >= b, a, b)


def zmin(a, b):
    return z3.If(a <= b, a, b)


def fin(name, lo, hi):
    """symbolic float input with bounds; returns (value, precondition)"""
    t = z3.Real(name)
    return SF(t, float(lo), float(hi)), z3.And(t >= R(float(lo)), t <= R(float(hi)))


def within(a, b, tol):
    return z3.And(a - b <= tol, b - a <= tol)


def returns(outs):
    return [o for o in outs if o.kind == 'return']


def uf_contract(name, retty, ctxterm=None):
    """callee replaced by an uninterpreted function of its (dereferenced) arguments"""
    def h(ctx, st, args, callee):
        a = [deref(ctx, st, x) for x in args]
        return [Out(st, 'return', ctx.app(name, a, retty))]
    return h


def c_sanitize(ctx, st, args, callee):
    """contract of MathUtils::sanitize_degrees_double (proved in C03): in [0,360), congruent within 1e-9, identity in range"""
    x = args[0]
    xt = real(x)
    v = ctx.fresh('san', z3.RealSort())
    k = ctx.fresh('san_k', z3.IntSort())
    ctx.san_k = k
    st = st.assume(z3.And(v >= 0, v < 360, within(v, xt - 360 * z3.ToReal(k), R(1e-9)), z3.Implies(z3.And(xt >= 0, xt < 360), v == xt)))
    return [Out(st, 'return', SF(v, 0.0, 360.0))]


SANITIZE = ('MathUtils', None, 'sanitize_degrees_double')


# ---- luminance: contracts of ColorUtils::y_from_lstar and lstar_from_y (proved in C04)
E_Y = 4e-13      # error of y_from_lstar against the CIE formula on [0,100]
E_L = 1e-10      # error of lstar_from_y on [-5, 2300]
SLOPE_LO, SLOPE_HI = 0.1107, 2.587


def Yspec(ctx, L):
    """CIE luminance of L* as a specification function, with the facts proved in C04 (order, slopes, end points) instantiated for all arguments seen"""
    seen = ctx.__dict__.setdefault('lum_seen', [])
    if not seen:
        for l, y in ((0, 0), (100, 100)):
            ctx.axiom(ufr('Yspec', R(float(l))) == y, (ufr('Yspec', R(float(l))),))
            seen.append(R(float(l)))
    if not any(L.eq(x) for x in seen):
        y = ufr('Yspec', L)
        for m in seen:
            ym = ufr('Yspec', m)
            ab = (y,) if z3.is_rational_value(m) else (y, ym)
            for (a, ya), (b, yb) in (((L, y), (m, ym)), ((m, ym), (L, y))):
                ctx.axiom(z3.Implies(a <= b, yb - ya >= R(SLOPE_LO) * (b - a)), ab)
                ctx.axiom(z3.Implies(z3.And(a <= b, b <= 100), yb - ya <= R(SLOPE_HI) * (b - a)), ab)
        seen.append(L)
    return ufr('Yspec', L)


def c_y_from_lstar(j, ins=None, rp=None):
    def h(ctx, st, args, callee):
        L = args[0]
        x = real(L)
        lo, hi = bounds(L)
        if not (lo is not None and lo >= 0 and hi <= 100):
            if not j.claim(ctx, st, 'precondition of y_from_lstar: tone in [0,100]', z3.And(x >= 0, x <= 100), ins, rp):
                raise Undecided('precondition of y_from_lstar')
        y = ufr('y_from_lstar', x)
        st = st.assume(z3.And(within(y, Yspec(ctx, x), R(E_Y)), y >= -R(E_Y), y <= 100 + R(E_Y)))
        return [Out(st, 'return', SF(y, -1e-9, 100.0 + 1e-9))]
    return h


def c_lstar_from_y(j, ins=None, rp=None):
    def h(ctx, st, args, callee):
        y = real(args[0])
        lo, hi = bounds(args[0])
        if not (lo is not None and lo >= -5 and hi <= 2300):
            if not j.claim(ctx, st, 'precondition of lstar_from_y: luminance in [-5,2300]', z3.And(y >= -5, y <= 2300), ins, rp):
                raise Undecided('precondition of lstar_from_y')
        L0 = ufr('Lspec', y)
        v = ufr('lstar_from_y', y)
        st = st.assume(z3.And(Yspec(ctx, L0) == y, within(v, L0, R(E_L))))
        return [Out(st, 'return', SF(v, -50.0, 310.0))]
    return h


def lum(j, c, ins=None, rp=None):
    c.contracts[('ColorUtils', None, 'y_from_lstar')] = c_y_from_lstar(j, ins, rp)
    c.contracts[('ColorUtils', None, 'lstar_from_y')] = c_lstar_from_y(j, ins, rp)


def ufr_i(name, *args):
    """real-valued uninterpreted function of integer terms, as ctx.app builds it"""
    return uf(name, *([z3.IntSort()] * len(args) + [z3.RealSort()]))(*args)


def byte_contract(name):
    """callee returns a byte, otherwise uninterpreted"""
    def h(ctx, st, args, callee):
        v = ctx.app(name, [deref(ctx, st, a) for a in args], 'i64')
        ctx._setbits(v, 0, 8)
        return [Out(st.assume(z3.And(v >= 0, v <= 255)), 'return', v)]
    return h


def c_clamp(ctx, st, args, callee):
    """contract of MathUtils::clamp_double(lo, hi, x) (proved in C03)"""
    lo, hi, x = args
    if isinstance(lo, float) and isinstance(hi, float):
        l, h, t = real(lo), real(hi), real(x)
        return [Out(st, 'return', SF(z3.If(t < l, l, z3.If(t > h, h, t)), lo, hi))]
    raise Undecided('clamp with symbolic bounds')


CLAMP = ('MathUtils', None, 'clamp_double')


def with_fields(ctx, v, **kw):
    """struct value with some fields replaced, by name"""
    names = [n for n, _ in ctx.P.structs[v.ty.split('<')[0]]]
    f = dict(v.f)
    for k, x in kw.items():
        if k not in names:
            raise Undecided('lost anchor: no field %s in %s' % (k, v.ty))
        f[names.index(k)] = x
    return St(v.ty, f, v.base)


def hct_in(c, name, cmax=200.0):
    """symbolic Hct satisfying the invariant of C13; -> (value, precondition)"""
    h, ch, t = (z3.Real(name + s) for s in ('.hue', '.chroma', '.tone'))
    v = with_fields(c, c.mk('Hct', name), _hue=SF(h, 0.0, 360.0), _chroma=SF(ch, 0.0, cmax), _tone=SF(t, 0.0, 100.0), _argb=c.mk('i64', name + '.argb'))
    return v, z3.And(h >= 0, h < 360, ch >= 0, ch <= R(cmax), t >= 0, t <= 100)
