"""Blend over symbolic colours: Hct::from_int and Cam16::from_int are uninterpreted functions with
bounded coordinates; Hct::from and Cam16::from_ucs are uninterpreted functions whose arguments are
the object of the contract; sanitize_degrees_double is replaced by its contract (C03)."""
from .common import *

SCOPE = 'part'
PROVED = 'for all colours: harmonize solves for the chroma and tone of the design colour at its hue rotated along the shorter arc by min(difference/2, 15) degrees (hue within 1e-8); cam16_ucs takes the colour at the linear interpolation of the UCS coordinates (within 1e-9, exactly the first end point at 0); hct_hue keeps chroma and tone of the first colour and takes the hue of the UCS blend'
BOUNDED = 'at amounts 0 and 1 the colour returned by the numeric UCS inversion is the end point (enumerated)'
ASSUMPTIONS = ['Hct::from_int and Cam16::from_int are functions of their argument; hue in [0,360), chroma in [0,200], tone in [0,100], UCS coordinates within +-150 (C13, C26)', 'contract of sanitize_degrees_double (proved in C03)']


def rec(name, retty):
    """uninterpreted function whose calls are recorded as effects of the path"""
    def h(ctx, st, args, callee):
        a = [deref(ctx, st, x) for x in args]
        v = ctx.app(name, a, retty)
        s = st.fork()
        s.eff = s.eff + ((name, tuple(a), v),)
        return [Out(s, 'return', v)]
    return h


def hctval(ctx, a):
    """the Hct of an integer colour by its invariant (C13)"""
    cam = ctx.app('Cam16::from_int', [a], 'Cam16')
    t = ctx.app('lstar_from_argb', [a], 'f64')
    return with_fields(ctx, ctx.app('Hct::from_int', [a], 'Hct'), _hue=SF(real(ctx.fname(cam, 'hue')), 0.0, 360.0), _chroma=SF(real(ctx.fname(cam, 'chroma')), 0.0, 200.0), _tone=SF(real(t), 0.0, 100.0), _argb=a)


def jobs(P):
    js = []

    def base(j):
        c = j.ctx(definite=True)
        c.contracts[SANITIZE] = c_sanitize

        def hct(ctx, st, args, callee):
            v = hctval(ctx, args[0])
            h, ch, t = (real(ctx.fname(v, n)) for n in ('_hue', '_chroma', '_tone'))
            return [Out(st.assume(z3.And(h >= 0, h < 360, ch >= 0, ch <= 200, t >= 0, t <= 100)), 'return', v)]
        c.contracts[('Hct', None, 'from_int')] = hct
        c.contracts[('Hct', None, 'new')] = hct

        def cam(ctx, st, args, callee):
            v = ctx.app('Cam16::from_int', [args[0]], 'Cam16')
            f = {n: real(ctx.fname(v, n)) for n in ('jstar', 'astar', 'bstar')}
            st = st.assume(z3.And([z3.And(t >= -150, t <= 150) for t in f.values()]))
            return [Out(st, 'return', with_fields(ctx, v, **{n: SF(t, -150.0, 150.0) for n, t in f.items()}))]
        c.contracts[('Cam16', None, 'from_int')] = cam
        c.contracts[('ColorUtils', None, 'lstar_from_argb')] = uf_contract('lstar_from_argb', 'f64')
        c.contracts[('Hct', None, 'from')] = rec('Hct::from', 'Hct')
        c.contracts[('Cam16', None, 'from_ucs')] = rec('Cam16::from_ucs', 'Cam16')
        c.contracts[('Cam16', None, 'to_int')] = uf_contract('Cam16::to_int', 'i64')
        return c
    two = lambda kind: (kind, lambda m: [fi(m['a'] % 2 ** 24 + 0xff000000), fi(m['b'] % 2 ** 24 + 0xff000000)])
    three = ('ucs', lambda m: [fi(m['a'] % 2 ** 24 + 0xff000000), fi(m['b'] % 2 ** 24 + 0xff000000), fenc(m['t'])])

    def only(j, o, name):
        e = [x for x in o.st.eff if x[0] == name]
        if not e:
            raise Undecided('no call of ' + name)
        return e[-1]

    def harm(j):
        c = base(j)
        a, b = c.mk('i64', 'a'), c.mk('i64', 'b')
        ins = dict(a=a, b=b)
        rp = two('harmonize')
        outs = j.execute(c, j.fn('Blend', 'harmonize'), [a, b])
        j.no_panic(c, outs, ins, rp)
        d, s = (hctval(c, x) for x in (a, b))
        h1, h2 = real(c.fname(d, '_hue')), real(c.fname(s, '_hue'))
        inc = z3.If(h2 >= h1, h2 - h1, h2 - h1 + 360)
        rt = zmin(zmin(inc, 360 - inc) / 2, R(15))
        tol = R(1e-8)
        near = lambda x, y: z3.Or([within(x, y + 360 * n, tol) for n in (0, 1, -1)])
        for o in returns(outs):
            _, ar, v = only(j, o, 'Hct::from')
            h = real(ar[0])
            j.claim(c, o.st, 'the result is the solved colour', iv(o.val) == c.fname(v, '_argb'), ins, rp)
            j.claim(c, o.st, 'chroma of the design colour', real(ar[1]) == real(c.fname(d, '_chroma')), ins, rp)
            j.claim(c, o.st, 'tone of the design colour', real(ar[2]) == real(c.fname(d, '_tone')), ins, rp)
            j.claim(c, o.st, 'hue in [0,360)', z3.And(h >= 0, h < 360), ins, rp)
            j.claim(c, o.st, 'hue rotated towards the source by half the difference, at most 15', z3.And(
                z3.Implies(inc <= 180 - tol, near(h, h1 + rt)), z3.Implies(inc >= 180 + tol, near(h, h1 - rt)), z3.Or(near(h, h1 + rt), near(h, h1 - rt))), ins, rp)
    js.append(Job('harmonize', 'Blend::harmonize', harm))

    def ucs(j):
        c = base(j)
        a, b = c.mk('i64', 'a'), c.mk('i64', 'b')
        t, p = fin('t', 0, 1)
        ins = dict(a=a, b=b, t=t)
        outs = j.execute(c, j.fn('Blend', 'cam16_ucs'), [a, b, t], [p])
        j.no_panic(c, outs, ins, three)
        f, g = (c.app('Cam16::from_int', [x], 'Cam16') for x in (a, b))
        for o in returns(outs):
            _, ar, v = only(j, o, 'Cam16::from_ucs')
            j.claim(c, o.st, 'the result is the colour at the interpolated coordinates', iv(o.val) == iv(c.app('Cam16::to_int', [v], 'i64')), ins, three)
            for i, n in enumerate(('jstar', 'astar', 'bstar')):
                x, y = real(c.fname(f, n)), real(c.fname(g, n))
                j.claim(c, o.st, n + ' interpolated', within(real(ar[i]), x + (y - x) * t.t, R(1e-9)), ins, three)
                j.claim(c, o.st, n + ' of the first colour at 0', z3.Implies(t.t == 0, within(real(ar[i]), x, R(1e-10))), ins, three)
                j.claim(c, o.st, n + ' of the second colour at 1', z3.Implies(t.t == 1, within(real(ar[i]), y, R(1e-10))), ins, three)
    js.append(Job('cam16_ucs', 'Blend::cam16_ucs', ucs))

    def hue(j):
        c = base(j)
        c.contracts[('Blend', None, 'cam16_ucs')] = uf_contract('cam16_ucs', 'i64')
        a, b = c.mk('i64', 'a'), c.mk('i64', 'b')
        t, p = fin('t', 0, 1)
        ins = dict(a=a, b=b, t=t)
        outs = j.execute(c, j.fn('Blend', 'hct_hue'), [a, b, t], [p])
        j.no_panic(c, outs, ins, three)
        u = c.app('Cam16::from_int', [c.app('cam16_ucs', [a, b, t], 'i64')], 'Cam16')
        f = c.app('Cam16::from_int', [a], 'Cam16')
        for o in returns(outs):
            _, ar, v = only(j, o, 'Hct::from')
            j.claim(c, o.st, 'the result is the solved colour', iv(o.val) == c.fname(v, '_argb'), ins, three)
            j.claim(c, o.st, 'hue of the UCS blend', real(ar[0]) == real(c.fname(u, 'hue')), ins, three)
            j.claim(c, o.st, 'chroma of the first colour', real(ar[1]) == real(c.fname(f, 'chroma')), ins, three)
            j.claim(c, o.st, 'tone of the first colour', real(ar[2]) == real(c.app('lstar_from_argb', [a], 'f64')), ins, three)
    js.append(Job('hct_hue', 'Blend::hct_hue', hue))
    return js
