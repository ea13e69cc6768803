from .common import *

ASSUMPTIONS = ['libm powf: deterministic, relative error at most 1e-14', 'libm powf(t, 1/3) for t in (0.008, 1.01]: deterministic, positive, cube within 1e-14 relative of t (accuracy of the platform pow)']
SCOPE = 'whole'
PROVED = 'every clause, with rounding errors: luminance of L* and L* of luminance equal the CIE formulas within 1e-9 on [0,100], stay in [0,100], do not decrease and invert each other within 1e-9; linearized on all 256 bytes; delinearized is the nearest byte of the transfer function on [-0.0152,100.41] (cell by cell) and inverts linearized; grey of a tone has L* within 0.5 of it; XYZ and L*a*b* of any opaque colour convert back to it; L* of a colour is that of its relative luminance and in [0,100]'
BOUNDED = 'all clauses on the compiled code as well (all 2^24 colours)'

E = Fraction(216, 24389)
KAPPA = Fraction(24389, 27)


def yspec(L):
    """CIE: luminance of L*"""
    ft = (L + 16) / 116
    return z3.If(L > 8, 100 * ft * ft * ft, 100 * L / rv(KAPPA))


def pow_third(ops, st, args):
    t, e = args
    ctx = ops.ctx
    if not (isinstance(e, float) and abs(e - 1 / 3) < 1e-15):
        raise Undecided('powf with exponent %r' % (e,))
    ctx.assume_note('libm powf(t, 1/3): cube within 1e-14 relative of t, positive for positive t')
    r = ufr('fl_cbrt', real(t))
    x = real(t)
    ctx.axiom(z3.Implies(x > 0, z3.And(r > 0, within(r * r * r, x, rv(1e-14) * x))), (r,))
    lo, hi = bounds(t)
    return SF(r, 0.0 if lo is not None and lo >= 0 else None, up(up(hi ** (1 / 3))) + 1e-12 if hi is not None and lo is not None and lo >= 0 else None)


def jobs(P):
    js = []

    def yl(j, lo, hi):
        c = j.ctx()
        L, pre = fin('L', lo, hi)
        outs = j.execute(c, j.fn('ColorUtils', 'y_from_lstar'), [L], [pre])
        rp = ('lstar_y', lambda m: [fenc(m['L']), fenc(m['L'])])
        j.no_panic(c, outs, {'L': L}, rp)
        for o in returns(outs):
            v = R(o.val)
            j.claim(c, o.st, 'CIE formula within 4e-13', within(v, yspec(L.t), R(E_Y)), {'L': L}, rp)
            j.claim(c, o.st, 'in [0,100] within 4e-13', z3.And(v >= -R(E_Y), v <= 100 + R(E_Y)), {'L': L}, rp)
    for lo, hi in ((0, 7.9), (7.9, 8.1), (8.1, 100)):
        js.append(Job('y_from_lstar[%s,%s]' % (lo, hi), 'ColorUtils::y_from_lstar', lambda j, lo=lo, hi=hi: yl(j, lo, hi)))

    def ly(j, lo, hi):
        c = j.ctx(libm={'powf': pow_third})
        y, pre = fin('Y', lo, hi)
        outs = j.execute(c, j.fn('ColorUtils', 'lstar_from_y'), [y], [pre])
        rp = ('y_lstar', lambda m: [fenc(m['Y']), fenc(m['Y'])])
        j.no_panic(c, outs, {'Y': y}, rp)
        for o in returns(outs):
            v = R(o.val)
            # v is the L* of Y: inverse of the formula, stated without a root
            j.claim(c, o.st, 'inverse of the CIE formula within 1e-10', z3.If(y.t > 100 * rv(E), z3.And(yspec(v - R(1e-10)) <= y.t, yspec(v + R(1e-10)) >= y.t), within(v, y.t * rv(KAPPA) / 100, R(1e-10))), {'Y': y}, rp)
    for lo, hi in ((-5, 0), (0, 0.88), (0.88, 0.89), (0.89, 100), (100, 2300)):
        js.append(Job('lstar_from_y[%s,%s]' % (lo, hi), 'ColorUtils::lstar_from_y', lambda j, lo=lo, hi=hi: ly(j, lo, hi)))

    def lemma(j):
        # facts about the CIE formula used by the contracts of callers (Yspec in common.py)
        c = j.ctx()
        a, b = z3.Reals('a b')
        st = State()
        st.pc = (a <= b,)
        j.functions.add('CIE formula')
        ya, yb = yspec(a), yspec(b)
        lo, hi = R(SLOPE_LO), R(SLOPE_HI)
        cub = lambda x: 100 * ((x + 16) / 116) * ((x + 16) / 116) * ((x + 16) / 116)
        lin = lambda x: 100 * x / rv(KAPPA)
        j.claim(c, st, 'slope below 8', z3.Implies(b <= 8, lin(b) - lin(a) >= lo * (b - a)))
        j.claim(c, st, 'upper slope below 8', z3.Implies(b <= 8, lin(b) - lin(a) <= hi * (b - a)))
        j.claim(c, st, 'branches meet at 8', lin(z3.RealVal(8)) == cub(z3.RealVal(8)))
        # cub(b) - cub(a) = 100/116^3 (b-a) (p^2 + pq + q^2), p = a+16, q = b+16 (identity), 24 <= p, q <= 116
        p, q = a + 16, b + 16
        j.claim(c, st, 'difference of cubes', cub(b) - cub(a) == (100 / rv(Fraction(116 ** 3))) * (b - a) * (p * p + p * q + q * q))
        j.claim(c, st, 'slope factor above 8', z3.Implies(a >= 8, 100 * (p * p + p * q + q * q) >= lo * 116 ** 3))
        j.claim(c, st, 'upper slope factor up to 100', z3.Implies(z3.And(a >= 8, b <= 100), 100 * (p * p + p * q + q * q) <= hi * 116 ** 3))
        j.claim(c, st, 'end points', z3.And(yspec(z3.RealVal(0)) == 0, yspec(z3.RealVal(100)) == 100))
        # inverse: L* of the luminance of L* (Lipschitz step over the two contracts)
        d = z3.Real('d')
        j.claim(c, st, 'round trip within 1e-9', z3.Implies(z3.And(R(E_Y) >= yb - ya, yb - ya >= R(SLOPE_LO) * (b - a)), b - a + R(E_L) <= R(1e-9)))
    js.append(Job('luminance lemmas', 'CIE formula', lemma))

    def delin(j):
        c = j.ctx(fmode='havoc')
        x = c.mk('f64', 'x')
        outs = j.execute(c, j.fn('ColorUtils', 'delinearized'), [x])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'in 0..255 for every float', z3.And(iv(o.val) >= 0, iv(o.val) <= 255))
    js.append(Job('delinearized', 'ColorUtils::delinearized', delin))

    from . import chan
    add = lambda name, fn, f: js.append(Job(name, fn, f))
    chan.jobs_channels(add, replay=('delinearized', args_f('c')))
    chan.jobs_tone(add, 1e-9)

    M = 0.006

    def labf(ctx, st, args, callee):
        # contract of _lab_f, proved below
        t = real(args[0])
        F = ufr('lab_f', t)
        if not any(t.eq(x) for x in ctx.seen_t):
            ctx.seen_t.append(t)
        return [Out(st.assume(z3.And(F >= R(0.137), F <= R(1.01))), 'return', SF(F, 0.137, 1.01))]

    def labinv(j):
        def h(ctx, st, args, callee):
            x = real(args[0])
            for t in ctx.seen_t:
                if ctx.valid(st, within(x, ufr('lab_f', t), R(1e-12))):
                    j.claim(ctx, st, 'precondition of _lab_invf: within 1e-12 of the image of a coordinate', within(x, ufr('lab_f', t), R(1e-12)))
                    v = ctx.fresh('inv', z3.RealSort())
                    return [Out(st.assume(within(v, t, R(1e-10))), 'return', SF(v, -0.01, 1.2))]
            raise Undecided('precondition of _lab_invf')
        return h

    def trip(j, a, b, kind):
        c = j.ctx(definite=False)
        c.seen_t = []
        argb = c.mk('i64', 'argb')
        # the channels, as their extractors give them (C01)
        ch = [z3.Int(n + '_channel') for n in ('red', 'green', 'blue')]
        for x, n in zip(ch, ('red', 'green', 'blue')):
            c._setbits(x, 0, 8)
            c.contracts[('ColorUtils', None, n + '_from_argb')] = lambda ctx, st, args, callee, x=x: [Out(st, 'return', x)]
        # packing the channels of an opaque colour gives it back (C01)
        c.contracts[('ColorUtils', None, 'argb_from_rgb')] = lambda ctx, st, args, callee: [Out(st.assume(z3.Implies(z3.And([iv(a) == x for a, x in zip(args, ch)]), packed == argb)), 'return', packed)]
        packed = z3.Int('packed')
        L = [ufr_i('linearized', x) for x in ch]

        def linc(ctx, st, args, callee):
            v = ufr_i('linearized', iv(args[0]))
            for x, l in zip(ch, L):
                if ctx.valid(st, iv(args[0]) == x):
                    v = l
                    break
            return [Out(st.assume(z3.And(v >= 0, v <= 100)), 'return', SF(v, 0.0, 100.0))]
        c.contracts[('ColorUtils', None, 'linearized')] = linc

        def del_(ctx, st, args, callee):
            x = real(args[0])
            for q, l in zip(ch, L):
                if ctx.valid(st, within(x, l, R(M))):
                    j.claim(ctx, st, 'precondition of delinearized: within 0.006 of the linear value of a channel', within(x, l, R(M)), dict(argb=argb), ('colours', args_i('argb')))
                    v = ctx.fresh('byte', z3.IntSort())
                    ctx._setbits(v, 0, 8)
                    return [Out(st.assume(z3.And(v == q, v >= 0, v <= 255)), 'return', v)]
            raise Undecided('delinearized of something that is not close to a channel')
        c.contracts[('ColorUtils', None, 'delinearized')] = del_
        c.contracts[('ColorUtils', None, '_lab_f')] = labf
        c.contracts[('ColorUtils', None, '_lab_invf')] = labinv(j)
        outs = j.execute(c, j.fn('ColorUtils', a), [argb], [argb >= 0xff000000, argb <= 0xffffffff] + [z3.And(x >= 0, x <= 255) for x in ch])
        j.no_panic(c, outs)
        f = j.fn('ColorUtils', b)
        for o in returns(outs):
            back = c.run(f, list(o.val.e), o.st)
            j.no_panic(c, back)
            for q in returns(back):
                j.claim(c, q.st, 'the same colour', iv(q.val) == argb, dict(argb=argb), ('colours', args_i('argb')))
    add('XYZ there and back', 'ColorUtils::argb_from_xyz', lambda j: trip(j, 'xyz_from_argb', 'argb_from_xyz', 'xyz'))
    add('Lab there and back', 'ColorUtils::argb_from_lab', lambda j: trip(j, 'lab_from_argb', 'argb_from_lab', 'lab'))

    def near(j, lo, hi):
        # _lab_invf inverts _lab_f within 1e-10 even when its argument is off by 1e-12
        c = j.ctx(libm={'powf': pow_third}, definite=False)
        t, pre = fin('t', lo, hi)
        for o in returns(j.execute(c, j.fn('ColorUtils', '_lab_f'), [t], [pre])):
            F = real(o.val)
            j.claim(c, o.st, 'in [0.137,1.01]', z3.And(F >= R(0.137), F <= R(1.01)))
            j.claim(c, o.st, 'at least 16/116, at most 1 up to 1', z3.And(116 * F >= 16 - R(1e-12), z3.Implies(t.t <= 1 + R(1e-14), F <= 1 + R(1e-12))))
            x, px = fin('x', 0.136, 1.02)
            s = o.st.assume(z3.And(px, within(x.t, F, R(1e-12))))
            for q in returns(c.run(j.fn('ColorUtils', '_lab_invf'), [x], s)):
                j.claim(c, q.st, 'inverse within 1e-10', within(real(q.val), t.t, R(1e-10)))
    for lo, hi in ((0, 0.0088), (0.0088, 0.0089), (0.0089, 0.1), (0.1, 1.001)):
        add('_lab_invf inverts _lab_f[%g,%g]' % (lo, hi), 'ColorUtils::_lab_invf', lambda j, lo=lo, hi=hi: near(j, lo, hi))

    def lrange(j):
        c = j.ctx(definite=False)
        argb = c.mk('i64', 'argb')

        def linc(ctx, st, args, callee):
            v = ctx.fresh('lin', z3.RealSort())
            return [Out(st.assume(z3.And(v >= 0, v <= 100)), 'return', SF(v, 0.0, 100.0))]
        c.contracts[('ColorUtils', None, 'linearized')] = linc

        def lf(ctx, st, args, callee):
            t = real(args[0])
            if not j.claim(ctx, st, 'precondition of _lab_f: relative luminance in [0,1] up to rounding', z3.And(t >= 0, t <= 1 + R(1e-14))):
                raise Undecided('precondition of _lab_f')
            F = ctx.fresh('F', z3.RealSort())
            return [Out(st.assume(z3.And(116 * F >= 16 - R(1e-12), F <= 1 + R(1e-12))), 'return', SF(F, 0.137, 1.01))]
        c.contracts[('ColorUtils', None, '_lab_f')] = lf
        outs = j.execute(c, j.fn('ColorUtils', 'lstar_from_argb'), [argb], [argb >= 0, argb <= 0xffffffff])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'L* of a colour in [0,100] within 1e-9', z3.And(R(o.val) >= -R(1e-9), R(o.val) <= 100 + R(1e-9)))
    add('L* of a colour', 'ColorUtils::lstar_from_argb', lrange)

    def mono(j):
        j.functions.add('CIE formula')
        c = j.ctx()
        a, b, u, v = z3.Reals('a b u v')
        ya, yb = z3.Reals('ya yb')
        st = State().assume(z3.And(a <= b, yb - ya >= R(SLOPE_LO) * (b - a), within(u, ya, R(E_Y)), within(v, yb, R(E_Y))))
        j.claim(c, st, 'luminance does not decrease, within 1e-12 (lemma over the contract)', u <= v + R(1e-12))
        st = State().assume(z3.And(ya <= yb, yb - ya >= R(SLOPE_LO) * (b - a), z3.Implies(b <= a, ya - yb >= R(SLOPE_LO) * (a - b)), within(u, a, R(E_L)), within(v, b, R(E_L))))
        j.claim(c, st, 'L* does not decrease, within 1e-9 (lemma over the contract)', u <= v + R(1e-9))
        j.claim(c, State(), 'linearized increases and stays in [0,100] (lemma over its values on every byte)', z3.BoolVal(all(q - p > 1e-6 for p, q in zip(chan.TAB, chan.TAB[1:])) and chan.TAB[0] == 0 and abs(chan.TAB[255] - 100) < 1e-9))
    add('monotone', 'lemma', mono)

    def back(j):
        j.functions.add('channel lemma')
        c = j.ctx()
        cs = chan.cells()
        for b in range(256):
            ok = any(lo <= chan.TAB[b] - M - 1e-9 and chan.TAB[b] + M + 1e-9 <= hi and bs == (b,) for lo, hi, bs in cs)
            j.claim(c, State(), 'delinearizing anything within 0.006 of the linear value of a byte gives it back (lemma over the cells)', z3.BoolVal(ok))
        ok = all(max(p[2]) <= min(q[2]) + 1 and p[1] == q[0] and min(p[2]) <= min(q[2]) and max(p[2]) <= max(q[2]) for p, q in zip(cs, cs[1:]))
        j.claim(c, State(), 'cells cover [-0.0152,100.41] and their bytes increase (lemma)', z3.BoolVal(ok and cs[0][0] == chan.LO and cs[-1][1] == chan.HI))
    js.append(Job('bytes there and back', 'lemma', back))

    def grey(j):
        c = j.ctx(fmode='uf')
        L = c.mk('f64', 'L')
        c.contracts[('ColorUtils', None, 'y_from_lstar')] = uf_contract('y_from_lstar', 'f64')
        c.contracts[('ColorUtils', None, 'delinearized')] = byte_contract('delinearized')
        outs = j.execute(c, j.fn('ColorUtils', 'argb_from_lstar'), [L])
        j.no_panic(c, outs)
        d = c.app('delinearized', [c.app('y_from_lstar', [L], 'f64')], 'i64')
        for o in returns(outs):
            j.claim(c, o.st, 'grey of the delinearized luminance', iv(o.val) == 255 * 2 ** 24 + d * 65536 + d * 256 + d)
    js.append(Job('argb_from_lstar', 'ColorUtils::argb_from_lstar', grey))

    def lum_argb(j):
        c = j.ctx(fmode='exact')
        j.notes.add('lstar_from_argb: machine arithmetic treated as mathematical (dot product with the luminance row)')
        x = c.mk('i64', 'argb')
        c.contracts[('ColorUtils', None, 'linearized')] = uf_contract('linearized', 'f64')
        h = lambda ctx, st, args, callee: [Out(st, 'return', ctx.app('lab_f', [args[0]], 'f64'))]
        c.contracts[('ColorUtils', None, '_lab_f')] = h
        outs = j.execute(c, j.fn('ColorUtils', 'lstar_from_argb'), [x], [x >= 0, x <= 0xffffffff])
        j.no_panic(c, outs)
        ch = lambda s: ufr_i('linearized', (x / 2 ** s) % 256)
        y = rv(0.2126) * ch(16) + rv(0.7152) * ch(8) + rv(0.0722) * ch(0)
        for o in returns(outs):
            j.claim(c, o.st, 'L* formula of 0.2126 R + 0.7152 G + 0.0722 B', R(o.val) == 116 * ufr('lab_f', y / 100) - 16, {'argb': x}, ('colours', args_i('argb')))
    js.append(Job('lstar_from_argb', 'ColorUtils::lstar_from_argb', lum_argb))
    return js
