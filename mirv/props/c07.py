from .common import *

ASSUMPTIONS = ['knots finite, magnitude at most 1000']
SCOPE = 'whole'
PROVED = 'every clause, for every finite contrast level and all knots of magnitude at most 1000'
BOUNDED = 'knots of larger magnitude'


def jobs(P):
    js = []

    def enc(m):
        return ['F:' + ','.join(fenc(m['k%d' % i])[2:] for i in range(4)), fenc(m['l'])]

    def body(j):
        c = j.ctx()
        ks = [fin('k%d' % i, -1000, 1000) for i in range(4)]
        l = c.mk('f64', 'l')
        f = j.fn('ContrastCurve', 'get')
        st = State()
        names = [n for n, _ in P.structs['ContrastCurve']]
        order = ['low', 'normal', 'medium', 'high']
        for n in order:
            if n not in names:
                raise Undecided('lost anchor: field ' + n)
        st.pc = tuple(p for _, p in ks)
        # built by the real constructor
        co = j.execute(c, j.fn('ContrastCurve', 'new'), [k for k, _ in ks], st=st)
        ins = dict({'k%d' % i: ks[i][0] for i in range(4)}, l=l)
        rp = ('curve', enc)
        j.no_panic(c, co, ins, rp)
        k = [x[0].t for x in ks]
        for oc in returns(co):
            for lo, hi, cond in ((None, None, l.t <= -1), (0, 1, z3.And(l.t > -1, l.t < 0)), (1, 2, z3.And(l.t >= 0, l.t < R(0.5))), (2, 3, z3.And(l.t >= R(0.5), l.t < 1)), (None, None, l.t >= 1)):
                s = oc.st.fork()
                lv = l
                if lo is not None:
                    b = {0: (-1.0, 0.0), 1: (0.0, 0.5), 2: (0.5, 1.0)}[lo]
                    lv = SF(l.t, b[0], b[1])
                ref = c.new_cell(s, oc.val)
                outs = j.execute(c, f, [ref, lv], [cond], st=s)
                j.no_panic(c, outs, ins, rp)
                for o in returns(outs):
                    v = R(o.val)
                    if lo is None:
                        j.claim(c, o.st, 'low at or below -1, high at or above 1', v == z3.If(l.t <= -1, k[0], k[3]), ins, rp)
                    else:
                        x0, x1 = {0: (-1, 0), 1: (0, Fraction(1, 2)), 2: (Fraction(1, 2), 1)}[lo]
                        t = (l.t - rv(x0)) / rv(Fraction(x1) - Fraction(x0))
                        j.claim(c, o.st, 'interpolates knots %d and %d' % (lo, hi), within(v, k[lo] + t * (k[hi] - k[lo]), R(1e-11)), ins, rp)
                        j.claim(c, o.st, 'stays between knots %d and %d within rounding' % (lo, hi), z3.And(v >= zmin(k[lo], k[hi]) - R(1e-11), v <= zmax(k[lo], k[hi]) + R(1e-11)), ins, rp)
    js.append(Job('get', 'ContrastCurve::get', body))

    def knots(j):
        c = j.ctx()
        ks = [fin('k%d' % i, -1000, 1000) for i in range(4)]
        st = State()
        st.pc = tuple(p for _, p in ks)
        co = j.execute(c, j.fn('ContrastCurve', 'new'), [k for k, _ in ks], st=st)
        for oc in returns(co):
            for lev, i in ((-1.0, 0), (0.0, 1), (0.5, 2), (1.0, 3)):
                s = oc.st.fork()
                ref = c.new_cell(s, oc.val)
                for o in returns(j.execute(c, j.fn('ContrastCurve', 'get'), [ref, lev], st=s)):
                    j.claim(c, o.st, 'knot at %s exactly' % lev, R(o.val) == ks[i][0].t, {'k%d' % n: ks[n][0] for n in range(4)}, ('curve', lambda m, lev=lev: enc(dict(m, l=lev))))
    js.append(Job('knots', 'ContrastCurve::get', knots))
    return js
