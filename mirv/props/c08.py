from .common import *

ASSUMPTIONS = ['callee contracts: Contrast::lighter_unsafe, darker_unsafe (proved in C06) and ratio_of_tones (proved in C05)']
SCOPE = 'whole'
PROVED = 'every clause, for every background tone in [0,100] and ratio in [1,21] (contrast comparisons at 1e-9)'
BOUNDED = '-'


def contrast_contracts(j, c, ins=None, rp=None):
    """contracts of the Contrast functions, stated over the luminance specification Yspec"""
    def unsafe(dark):
        def h(ctx, st, args, callee):
            t, r = real(args[0]), real(args[1])
            if not j.claim(ctx, st, 'precondition of %s_unsafe: ratio in [1,21], tone in [0,100]' % ('darker' if dark else 'lighter'), z3.And(t >= 0, t <= 100, r >= 1, r <= 21), ins, rp):
                raise Undecided('precondition of the tone search')
            v = ufr('darker_unsafe' if dark else 'lighter_unsafe', t, r)
            y, yv = Yspec(ctx, t), Yspec(ctx, v)
            e = ctx.fresh('exact', z3.RealSort())
            sol = ((Yspec(ctx, e) + 5) * r == y + 5) if dark else (Yspec(ctx, e) + 5 == r * (y + 5))
            good = z3.And(v <= t, y + 5 >= r * (yv + 5), v <= e - R(0.39)) if dark else z3.And(v >= t, yv + 5 >= r * (y + 5), v >= e + R(0.39))
            none = z3.And(v == 0, e - R(0.4) < R(1e-6)) if dark else z3.And(v == 100, e + R(0.4) > 100 - R(1e-6))
            st = st.assume(z3.And(v >= 0, v <= 100, sol, z3.Or(good, none)))
            return [Out(st, 'return', SF(v, 0.0, 100.0))]
        return h
    c.contracts[('Contrast', None, 'lighter_unsafe')] = unsafe(False)
    c.contracts[('Contrast', None, 'darker_unsafe')] = unsafe(True)

    def ratio(ctx, st, args, callee):
        a, b = real(args[0]), real(args[1])
        if not ctx.valid(st, z3.And(a >= 0, a <= 100, b >= 0, b <= 100)):
            raise Undecided('ratio_of_tones outside [0,100]')
        v = ufr('ratio_of_tones', a, b)
        ya, yb = Yspec(ctx, a), Yspec(ctx, b)
        d, l = zmin(ya, yb) + 5, zmax(ya, yb) + 5
        e = R(1e-11)
        st = st.assume(z3.And(v >= 1, v <= 21 + R(1e-9), v * d <= l + e * d, v * d >= l - e * d))
        return [Out(st, 'return', SF(v, 1.0, 21.1))]
    c.contracts[('Contrast', None, 'ratio_of_tones')] = ratio


def jobs(P):
    js = []

    def fg(j):
        c = j.ctx()
        (t, p1), (r, p2) = fin('bg', 0, 100), fin('r', 1, 21)
        ins = dict(bg=t, r=r)
        rp = ('foreground', args_f('bg', 'r'))
        contrast_contracts(j, c, ins, rp)
        outs = j.execute(c, j.fn('DynamicColor', 'foreground_tone'), [t, r], [p1, p2])
        j.no_panic(c, outs, ins, rp)
        tol = R(1e-9)
        y = Yspec(c, t.t)
        pref = z3.If(t.t >= 0, z3.ToInt(t.t + R(0.5)), -z3.ToInt(-t.t + R(0.5))) < 60
        white = 105 >= (r.t + tol) * (y + 5)
        black = y + 5 >= (r.t + tol) * 5
        nwhite = 105 < (r.t - tol) * (y + 5)
        nblack = y + 5 < (r.t - tol) * 5
        for o in returns(outs):
            v = R(o.val)
            yv = Yspec(c, v)
            d, l = zmin(yv, y) + 5, zmax(yv, y) + 5
            j.claim(c, o.st, 'in [0,100]', z3.And(v >= 0, v <= 100), ins, rp)
            j.claim(c, o.st, 'reaches the ratio whenever white does', z3.Implies(white, l >= (r.t - tol) * d), ins, rp)
            j.claim(c, o.st, 'reaches the ratio whenever black does', z3.Implies(black, l >= (r.t - tol) * d), ins, rp)
            j.claim(c, o.st, 'otherwise black or white', z3.Implies(z3.And(nwhite, nblack), z3.Or(v == 0, v == 100)), ins, rp)
            # contrast(v) >= max(white, black) - 0.1, where contrast(100) = 105/(y+5), contrast(0) = (y+5)/5
            w, b = z3.Reals('cw cb')
            st = o.st.assume(z3.And(w * (y + 5) == 105, b * 5 == y + 5))
            cv = z3.If(v == 100, w, b)
            j.claim(c, st, 'otherwise within 0.1 of the better one', z3.Implies(z3.And(nwhite, nblack, z3.Or(v == 0, v == 100)), z3.And(cv >= w - R(0.1) - tol, cv >= b - R(0.1) - tol)), ins, rp)
            j.claim(c, o.st, 'light side when light is preferred and reaches the ratio', z3.Implies(z3.And(pref, white), v >= t.t), ins, rp)
            j.claim(c, o.st, 'dark side when dark is preferred and reaches the ratio', z3.Implies(z3.And(z3.Not(pref), black), v <= t.t), ins, rp)
    js.append(Job('foreground_tone', 'DynamicColor::foreground_tone', fg))

    def lf(j):
        rnd = lambda t: z3.If(t >= 0, z3.ToInt(t + R(0.5)), -z3.ToInt(-t + R(0.5)))
        for nm, spec in (('tone_prefers_light_foreground', lambda t: rnd(t) < 60), ('tone_allows_light_foreground', lambda t: rnd(t) <= 49)):
            c = j.ctx()
            t = c.mk('f64', 't')
            rp = ('light_foreground', args_f('t'))
            outs = j.execute(c, j.fn('DynamicColor', nm), [t])
            j.no_panic(c, outs, dict(t=t), rp)
            for o in returns(outs):
                j.claim(c, o.st, nm, bv(o.val) == spec(t.t), dict(t=t), rp)
        c = j.ctx()
        t = c.mk('f64', 't')
        outs = j.execute(c, j.fn('DynamicColor', 'enable_light_foreground'), [t])
        j.no_panic(c, outs, dict(t=t), rp)
        for o in returns(outs):
            j.claim(c, o.st, 'enable_light_foreground', R(o.val) == z3.If(z3.And(rnd(t.t) < 60, rnd(t.t) > 49), R(49.0), t.t), dict(t=t), rp)
    js.append(Job('light foregrounds', 'DynamicColor::enable_light_foreground', lf))
    return js
