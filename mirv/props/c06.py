from .common import *

ASSUMPTIONS = ['callee contracts: ColorUtils::y_from_lstar and lstar_from_y (proved in C04, lstar_from_y under the accuracy assumption on libm pow)']
SCOPE = 'whole'
PROVED = 'every clause, for every tone (any finite float) and ratio in [1,21]'
BOUNDED = '-'


def jobs(P):
    js = []

    def body(j, dark):
        nm = 'darker' if dark else 'lighter'
        c = j.ctx()
        (t, p1), (r, p2) = fin('t', 0, 100), fin('r', 1, 21)
        ins = dict(t=t, r=r)
        rp = (nm, args_f('t', 'r'))
        lum(j, c, ins, rp)
        outs = j.execute(c, j.fn('Contrast', nm), [t, r], [p1, p2])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            v = R(o.val)
            y = Yspec(c, t.t)
            # exact solution: the tone e whose luminance has exactly the ratio
            e = z3.Real('e')
            st = o.st.assume((Yspec(c, e) + 5) * r.t == y + 5 if dark else Yspec(c, e) + 5 == r.t * (y + 5))
            m1 = v == -1
            if isinstance(o.val, float) and o.val == -1.0:
                j.claim(c, st, '-1 only if the margin leaves [0,100]', (e - R(0.4) < R(1e-6)) if dark else (e + R(0.4) > 100 - R(1e-6)), ins, rp)
                continue
            yv = Yspec(c, v)
            j.claim(c, st, 'in [0,100]', z3.Or(m1, z3.And(v >= 0, v <= 100)), ins, rp)
            j.claim(c, st, 'on the requested side', z3.Or(m1, v <= t.t if dark else v >= t.t), ins, rp)
            j.claim(c, st, 'within 0.41 of the exact tone, on the safe side', z3.Or(m1, z3.And(e - v <= R(0.41), e >= v + R(0.39)) if dark else z3.And(v - e <= R(0.41), v >= e + R(0.39))), ins, rp)
            j.claim(c, st, 'contrast at least the ratio', z3.Or(m1, (y + 5 >= r.t * (yv + 5)) if dark else (yv + 5 >= r.t * (y + 5))), ins, rp)
    for dark in (False, True):
        js.append(Job('darker' if dark else 'lighter', 'Contrast::' + ('darker' if dark else 'lighter'), lambda j, dark=dark: body(j, dark)))

    def outside(j, nm):
        c = j.ctx()
        t, r = c.mk('f64', 't'), fin('r', 1, 21)[0]
        ins = dict(t=t, r=r)
        rp = (nm, args_f('t', 'r'))
        lum(j, c, ins, rp)
        outs = j.execute(c, j.fn('Contrast', nm), [t, r], [r.t >= 1, r.t <= 21, z3.Or(t.t < 0, t.t > 100)])
        for o in returns(outs):
            j.claim(c, o.st, '-1 outside [0,100]', R(o.val) == -1, ins, rp)

    def unsafe(j, nm, alt):
        c = j.ctx()
        t, r = c.mk('f64', 't'), c.mk('f64', 'r')

        def h(ctx, st, args, callee):
            v = ctx.app('c:' + nm, args, 'f64')
            return [Out(st.assume(z3.Or(v.t == -1, z3.And(v.t >= 0, v.t <= 100))), 'return', v)]
        c.contracts[('Contrast', None, nm)] = h
        outs = j.execute(c, j.fn('Contrast', nm + '_unsafe'), [t, r])
        j.no_panic(c, outs)
        w = c.app('c:' + nm, [t, r], 'f64').t
        for o in returns(outs):
            j.claim(c, o.st, 'the safe result, or %d in place of -1' % alt, R(o.val) == z3.If(w < 0, R(float(alt)), w), dict(t=t, r=r), (nm, args_f('t', 'r')))
    for nm, alt in (('lighter', 100), ('darker', 0)):
        js.append(Job(nm + ' outside', 'Contrast::' + nm, lambda j, nm=nm: outside(j, nm)))
        js.append(Job(nm + '_unsafe', 'Contrast::%s_unsafe' % nm, lambda j, nm=nm, alt=alt: unsafe(j, nm, alt)))
    return js
