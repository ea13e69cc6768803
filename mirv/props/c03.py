from .common import *

ASSUMPTIONS = ['float contracts: operands finite with magnitude at most 1e12 (angles, lerp) unless stated; rounding modelled by the IEEE error bound, monotonicity at constants, exact fmod/min/max/abs']
B = 1e12

SCOPE = 'whole'
PROVED = 'every clause, for all integers and all finite floats in the stated ranges'
BOUNDED = 'operands beyond the stated ranges'


def jobs(P):
    js = []

    def job(name, fn):
        def d(body):
            js.append(Job(name, 'MathUtils::' + fn, body))
            return body
        return d

    @job('sanitize_int', 'sanitize_degrees_int')
    def _(j):
        c = j.ctx()
        x = c.mk('i64', 'd')
        outs = j.execute(c, j.fn('MathUtils', 'sanitize_degrees_int'), [x])
        rp = ('sanitize_int', args_i('d'))
        j.no_panic(c, outs, {'d': x}, rp)
        for o in returns(outs):
            v = iv(o.val)
            j.claim(c, o.st, 'in [0,360)', z3.And(v >= 0, v < 360), {'d': x}, rp)
            j.claim(c, o.st, 'congruent modulo 360', (x - v) % 360 == 0, {'d': x}, rp)

    @job('sanitize_double', 'sanitize_degrees_double')
    def _(j):
        c = j.ctx()
        x, pre = fin('d', -1e300, 1e300)
        outs = j.execute(c, j.fn('MathUtils', 'sanitize_degrees_double'), [x], [pre])
        rp = ('sanitize', args_f('d'))
        ins = {'d': x}
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            v = R(o.val)
            j.claim(c, o.st, 'in [0,360)', z3.And(v >= 0, v < 360), ins, rp)
            j.claim(c, o.st, 'unchanged in range', z3.Implies(z3.And(x.t >= 0, x.t < 360), v == x.t), ins, rp)
            # congruent: within 1e-9 of x - 360 k for the quotient k of the remainder or a neighbour of it
            q = z3.ToReal(uf('rem_q', z3.RealSort(), z3.RealSort(), z3.IntSort())(x.t, R(360.0)))
            j.claim(c, o.st, 'congruent modulo 360 within 1e-9', z3.Or([within(v, x.t - 360 * (q + d), R(1e-9)) for d in (-1, 0, 1)]), ins, rp)

    @job('clamp_int', 'clamp_int')
    def _(j):
        c = j.ctx()
        lo, hi, x = [c.mk('i64', n) for n in ('lo', 'hi', 'x')]
        ins = dict(lo=lo, hi=hi, x=x)
        rp = ('clamp_int', args_i('lo', 'hi', 'x'))
        outs = j.execute(c, j.fn('MathUtils', 'clamp_int'), [lo, hi, x], [lo <= hi])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            j.claim(c, o.st, 'nearest value of the interval', iv(o.val) == z3.If(x < lo, lo, z3.If(x > hi, hi, x)), ins, rp)

    @job('clamp_double', 'clamp_double')
    def _(j):
        c = j.ctx()
        lo, hi, x = [c.mk('f64', n) for n in ('lo', 'hi', 'x')]
        ins = dict(lo=lo, hi=hi, x=x)
        rp = ('clamp_double', args_f('lo', 'hi', 'x'))
        outs = j.execute(c, j.fn('MathUtils', 'clamp_double'), [lo, hi, x], [lo.t <= hi.t])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            j.claim(c, o.st, 'nearest value of the interval', R(o.val) == z3.If(x.t < lo.t, lo.t, z3.If(x.t > hi.t, hi.t, x.t)), ins, rp)

    @job('signum', 'signum')
    def _(j):
        c = j.ctx()
        x = c.mk('f64', 'x')
        rp = ('signum', args_f('x'))
        outs = j.execute(c, j.fn('MathUtils', 'signum'), [x])
        j.no_panic(c, outs, {'x': x}, rp)
        for o in returns(outs):
            j.claim(c, o.st, 'sign', iv(o.val) == z3.If(x.t > 0, 1, z3.If(x.t < 0, -1, 0)), {'x': x}, rp)

    @job('lerp', 'lerp')
    def _(j):
        c = j.ctx()
        (s, p1), (e, p2), (t, p3) = fin('s', -1e9, 1e9), fin('e', -1e9, 1e9), fin('t', -1e3, 1e3)
        ins = dict(s=s, e=e, t=t)
        rp = ('lerp', args_f('s', 'e', 't'))
        outs = j.execute(c, j.fn('MathUtils', 'lerp'), [s, e, t], [p1, p2, p3])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            v = R(o.val)
            tol = R(1e-9) * (1 + zabs(s.t) + zabs(e.t)) * (1 + zabs(t.t))
            j.claim(c, o.st, 'is (1-t)*start + t*stop', within(v, (1 - t.t) * s.t + t.t * e.t, tol), ins, rp)

    for (tv, nm) in ((0.0, 'start'), (1.0, 'stop')):
        def body(j, tv=tv, nm=nm):
            c = j.ctx()
            (s, p1), (e, p2) = fin('s', -1e9, 1e9), fin('e', -1e9, 1e9)
            outs = j.execute(c, j.fn('MathUtils', 'lerp'), [s, e, tv], [p1, p2])
            ins = dict(s=s, e=e)
            rp = ('lerp', lambda m: [fenc(m['s']), fenc(m['e']), fenc(tv)])
            for o in returns(outs):
                w = s.t if nm == 'start' else e.t
                j.claim(c, o.st, 'end point', within(R(o.val), w, R(1e-12) * (1 + zabs(w))), ins, rp)
        js.append(Job('lerp_' + nm, 'MathUtils::lerp', body))

    @job('difference', 'difference_degrees')
    def _(j):
        c = j.ctx()
        (a, p1), (b, p2) = fin('a', 0, 360), fin('b', 0, 360)
        ins = dict(a=a, b=b)
        rp = ('difference', args_f('a', 'b'))
        pre = [p1, p2, a.t < 360, b.t < 360]
        outs = j.execute(c, j.fn('MathUtils', 'difference_degrees'), [a, b], pre)
        j.no_panic(c, outs, ins, rp)
        d = zabs(a.t - b.t)
        for o in returns(outs):
            v = R(o.val)
            j.claim(c, o.st, 'shorter arc', within(v, zmin(d, 360 - d), R(1e-9)), ins, rp)
            j.claim(c, o.st, 'between 0 and 180', z3.And(v >= -R(1e-9), v <= 180), ins, rp)

    @job('rotation_direction', 'rotation_direction')
    def _(j):
        c = j.ctx()
        c.contracts[SANITIZE] = c_sanitize
        (a, p1), (b, p2) = fin('a', -1e6, 1e6), fin('b', -1e6, 1e6)
        ins = dict(a=a, b=b)
        rp = ('rotation', args_f('a', 'b'))
        outs = j.execute(c, j.fn('MathUtils', 'rotation_direction'), [a, b], [p1, p2])
        j.no_panic(c, outs, ins, rp)
        k = getattr(c, 'san_k', 0) + z3.Int('m')     # any integer, written relative to the quotient of the contract
        inc = b.t - a.t - 360 * z3.ToReal(k)
        for o in returns(outs):
            v = R(o.val)
            j.claim(c, o.st, 'is 1 or -1', z3.Or(v == 1, v == -1), ins, rp)
            j.claim(c, o.st, '1 when the increasing difference is below 180', z3.Implies(z3.And(inc <= 180 - R(1e-6), inc > R(1e-6)), v == 1), ins, rp)
            j.claim(c, o.st, '-1 when it is above 180', z3.Implies(z3.And(inc > 180 + R(1e-6), inc < 360 - R(1e-6)), v == -1), ins, rp)

    def rot_exact(j):
        # whole-degree angles: subtraction is exact, so the boundary itself is decided
        c = j.ctx()
        x, y = z3.Ints('x y')
        a, b = SF(z3.ToReal(x), -1e6, 1e6, True), SF(z3.ToReal(y), -1e6, 1e6, True)
        pre = [x >= -10 ** 6, x <= 10 ** 6, y >= -10 ** 6, y <= 10 ** 6]
        outs = j.execute(c, j.fn('MathUtils', 'rotation_direction'), [a, b], pre)
        rp = ('rotation', args_f('a', 'b'))
        for o in returns(outs):
            j.claim(c, o.st, '1 exactly when the increasing difference is at most 180', (R(o.val) == 1) == ((y - x) % 360 <= 180), dict(a=a, b=b), rp)
    js.append(Job('rotation_direction_whole', 'MathUtils::rotation_direction', rot_exact))

    @job('matrix_multiply', 'matrix_multiply')
    def _(j):
        c = j.ctx(fmode='exact')
        j.notes.add('matrix_multiply: machine arithmetic treated as mathematical (dot products up to rounding)')
        row = [c.mk('f64', 'r%d' % i) for i in range(3)]
        m = [[c.mk('f64', 'm%d%d' % (i, k)) for k in range(3)] for i in range(3)]
        outs = j.execute(c, j.fn('MathUtils', 'matrix_multiply'), [Vc(row), Vc([Vc(x) for x in m])])
        ins = {'r%d' % i: row[i] for i in range(3)}
        ins.update({'m%d%d' % (i, k): m[i][k] for i in range(3) for k in range(3)})
        rp = ('matrix', lambda v: [fl_enc([v['r%d' % i] for i in range(3)]), fl_enc([v['m%d%d' % (i, k)] for i in range(3) for k in range(3)])])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            if not isinstance(o.val, Vc) or len(o.val.e) != 3:
                raise Undecided('shape of the result')
            for i in range(3):
                j.claim(c, o.st, 'component %d is the dot product with row %d' % (i, i), R(o.val.e[i]) == sum(row[k].t * m[i][k].t for k in range(3)), ins, rp)
    return js


def fl_enc(xs):
    return 'F:' + ','.join(fenc(x)[2:] for x in xs)
