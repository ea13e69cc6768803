"""Loop invariant of create_key_color: after the tones at distance below i from 50 the best colour is the
one solved for hue, chroma and some whole tone of them, and no tone among them (an arbitrary one, K) has
a chroma closer to the requested one.  Hct::from is an uninterpreted function of hue, chroma and tone
with a chroma in [0,1000]; the constructors of palettes are checked against it."""
from .common import *
from ..loops import Spec

SCOPE = 'whole'
PROVED = 'every clause, for every hue and every chroma within +-1e6 (distances of chroma within 1e-6)'
BOUNDED = '-'
ASSUMPTIONS = ['Hct::from is a function of its arguments (uninterpreted) with a finite chroma in [0,1000] (C13, C26)']


def jobs(P):
    js = []

    def setup(j):
        c = j.ctx(definite=False)
        h, ph = fin('hue', -1e6, 1e6)
        x, px = fin('chroma', -1e6, 1e6)
        hct_of = lambda t: c.app('Hct::from', [h, x, SF(t)], 'Hct')
        ch = lambda t: real(c.fname(hct_of(t), '_chroma'))

        def frm(ctx, st, args, callee):
            v = ctx.app('Hct::from', [deref(ctx, st, a) for a in args], 'Hct')
            t = real(ctx.fname(v, '_chroma'))
            i = [k for k, (n, _) in enumerate(ctx.P.structs['Hct']) if n == '_chroma'][0]
            st = st.assume(z3.And(t >= 0, t <= 1000))
            return [Out(st, 'return', St(v.ty, {**v.f, i: SF(t, 0.0, 1000.0)}, v.base))]
        c.contracts[('Hct', None, 'from')] = frm
        return c, h, x, [ph, px], hct_of, ch

    def key(j):
        c, h, x, pre, hct_of, ch = setup(j)
        K = z3.Int('K')
        T = z3.ToReal
        xr = real(x)
        err = lambda t: zabs(ch(T(t)) - xr)
        dist = lambda t: zabs(t - 50)
        rnd = lambda t: z3.If(t >= 0, z3.ToInt(t + R(0.5)), -z3.ToInt(-t + R(0.5)))
        match50 = rnd(ch(R(50.0))) == rnd(xr)
        same = lambda v, t: z3.And([real(c.fname(v, n)) == real(c.fname(hct_of(T(t)), n)) for n in ('_hue', '_chroma', '_tone')] + [iv(c.fname(v, '_argb')) == iv(c.fname(hct_of(T(t)), '_argb'))])

        def inv(L):
            i = L.cursor()
            v = L.any('smallest_delta_hct', St)
            sd = real(L.any('smallest_delta', SF))
            return [('cursor in range', z3.And(i >= 1, i <= 50)),
                    ('the best colour is that of a tone looked at', L.exists('best', z3.IntVal(0), lambda b: z3.And(same(v, b), dist(b) <= i - 1, z3.Implies(i == 1, b == 50)), [z3.IntVal(50), 50 + (i - 1), 50 - (i - 1)])),
                    ('its distance is kept', within(sd, zabs(real(c.fname(v, '_chroma')) - xr), R(1e-9))),
                    ('the best chroma is in range', z3.And(real(c.fname(v, '_chroma')) >= 0, real(c.fname(v, '_chroma')) <= 1000)),
                    ('no tone looked at is closer', z3.Implies(dist(K) <= i - 1, sd <= err(K) + R(1e-9))),
                    ('the search goes on only when tone 50 does not do', z3.Implies(i > 1, z3.Not(match50)))]
        c.loops[('TonalPalette', None, 'create_key_color')] = Spec(j, inv, bounds={'smallest_delta': (0.0, 2e6)}, variant=lambda L: 50 - L.cursor())
        ins, rp = dict(hue=h, chroma=x), ('key_color', args_f('hue', 'chroma'))
        outs = j.execute(c, j.fn('TonalPalette', 'create_key_color'), [h, x], pre + [K >= 1, K <= 99])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            v = o.val
            d = zabs(real(c.fname(v, '_chroma')) - xr)
            ws = [z3.IntVal(50)] + wits(o.st)
            hit = rnd(real(c.fname(v, '_chroma'))) == rnd(xr)
            j.claim(c, o.st, 'solved for hue, chroma and a whole tone of 1..99', z3.Or([z3.And(same(v, w), w >= 1, w <= 99) for w in ws]), ins, rp)
            j.claim(c, o.st, 'no tone is closer unless the chroma matches', z3.Or(hit, d <= err(K) + R(1e-6)), ins, rp)
            j.claim(c, o.st, 'no tone nearer to 50 is closer', z3.Or([z3.And(same(v, w), z3.Implies(dist(K) <= dist(w), d <= err(K) + R(1e-6))) for w in ws]), ins, rp)
            j.claim(c, o.st, 'tone 50 when it matches', z3.Implies(match50, same(v, z3.IntVal(50))), ins, rp)

    def terms(st, name):
        return [t for t in wits(st, name) if t.decl().name() == name]

    def wits(st, name='w:best'):
        seen, out, stack = set(), [], list(st.pc)
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name().startswith(name):
                out.append(t)
            stack.extend(t.children())
        return out
    js.append(Job('create_key_color', 'TonalPalette::create_key_color', key))

    def order(j):
        # specification function: best(0) = 50, best(i) = the closest of best(i-1), 50+i, 50-i, the earlier one on ties;
        # the key colour is that of best(d) for the first d whose chroma rounds to the requested one, or d = 49
        c, h, x, pre, hct_of, ch = setup(j)
        K = z3.Int('K')
        T, xr = z3.ToReal, real(x)
        best = uf('best', z3.IntSort(), z3.IntSort())
        err = lambda t: real(c.fl.call(State(), 'abs', [c.fl.binop(State(), 'Sub', SF(ch(T(t)), 0.0, 1000.0), x)]))
        rnd = lambda t: z3.If(t >= 0, z3.ToInt(t + R(0.5)), -z3.ToInt(-t + R(0.5)))
        match = lambda i: rnd(ch(T(best(i)))) == rnd(xr)

        def step(i):
            b = best(i - 1)
            b1 = z3.If(err(50 + i) < err(b), 50 + i, b)
            return z3.Implies(z3.And(i >= 1, i <= 49), best(i) == z3.If(err(50 - i) < err(b1), 50 - i, b1))
        same = lambda v, t: z3.And([real(c.fname(v, n)) == real(c.fname(hct_of(T(t)), n)) for n in ('_hue', '_chroma', '_tone')] + [iv(c.fname(v, '_argb')) == iv(c.fname(hct_of(T(t)), '_argb'))])

        def inv(L):
            i = L.cursor()
            v = L.any('smallest_delta_hct', St)
            return [('cursor in range', z3.And(i >= 1, i <= 50)),
                    ('the best colour so far', same(v, best(i - 1))),
                    ('its distance', real(L.any('smallest_delta', SF)) == err(best(i - 1))),
                    ('no distance before matched', z3.Implies(z3.And(K >= 0, K < i - 1), z3.Not(match(K))))]
        c.loops[('TonalPalette', None, 'create_key_color')] = Spec(j, inv, variant=lambda L: 50 - L.cursor(), facts=lambda L: [step(L.cursor()), ch(T(best(L.cursor() - 1))) >= 0, ch(T(best(L.cursor() - 1))) <= 1000], bounds={'smallest_delta': (0.0, 2e6)})
        ins, rp = dict(hue=h, chroma=x), ('key_color', args_f('hue', 'chroma'))
        outs = j.execute(c, j.fn('TonalPalette', 'create_key_color'), [h, x], pre + [best(z3.IntVal(0)) == 50, K >= 0, K <= 48])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            ds = [z3.IntVal(49)] + [t.arg(0) for t in terms(o.st, 'best')]
            j.claim(c, o.st, 'the best of the first distance that matches, or of all', z3.Or([z3.And(same(o.val, best(d)), z3.Or(match(d), d == 49), z3.Implies(K < d, z3.Not(match(K)))) for d in ds]), ins, rp)
    js.append(Job('search order', 'TonalPalette::create_key_color', order))

    def of(j):
        c = j.ctx(definite=True)
        c.contracts[('TonalPalette', None, 'create_key_color')] = uf_contract('create_key_color', 'Hct')
        h, x = c.mk('f64', 'hue'), c.mk('f64', 'chroma')
        ins, rp = dict(hue=h, chroma=x), ('key_color', args_f('hue', 'chroma'))
        outs = j.execute(c, j.fn('TonalPalette', 'of'), [h, x])
        j.no_panic(c, outs, ins, rp)
        k = c.app('create_key_color', [h, x], 'Hct')
        for o in returns(outs):
            v = c.fname(o.val, 'key_color')
            j.claim(c, o.st, 'the key colour is the searched one', z3.And(iv(c.fname(v, '_argb')) == iv(c.fname(k, '_argb')), real(c.fname(v, '_tone')) == real(c.fname(k, '_tone')), real(c.fname(v, '_chroma')) == real(c.fname(k, '_chroma')), real(c.fname(v, '_hue')) == real(c.fname(k, '_hue'))), ins, rp)
    js.append(Job('of', 'TonalPalette::of', of))

    def from_hct(j):
        c = j.ctx(definite=True)
        r = c.mk('&Hct', 'hct')
        v0 = c.load(State(), r)
        ins, rp = dict(a=c.fname(v0, '_argb')), ('key_color_hct', args_i('a'))
        outs = j.execute(c, j.fn('TonalPalette', 'from_hct'), [r])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            v = c.fname(o.val, 'key_color')
            eq = [real(c.fname(v, n)) == real(c.fname(v0, n)) for n in ('_hue', '_chroma', '_tone')] + [iv(c.fname(v, '_argb')) == iv(c.fname(v0, '_argb'))]
            j.claim(c, o.st, 'the key colour is the colour itself', z3.And(eq), ins, rp)
            j.claim(c, o.st, 'hue and chroma of the colour', z3.And(real(c.fname(o.val, 'hue')) == real(c.fname(v0, '_hue')), real(c.fname(o.val, 'chroma')) == real(c.fname(v0, '_chroma'))), ins, rp)
    js.append(Job('from_hct', 'TonalPalette::from_hct', from_hct))
    return js
