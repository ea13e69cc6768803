"""The nine scheme constructors over a symbolic source Hct (invariant of C13), darkness and
contrast level: create_key_color, Hct::from_int, the temperature queries and fix_if_disliked are
uninterpreted functions, sanitize_degrees_double is replaced by its contract (C03); hue rotation
is inlined with the constructors' constant tables."""
from .common import *
from .c16 import key_contract

SCOPE = 'whole'
PROVED = 'every clause for every source colour, darkness and contrast level: inputs and variant kept, hue (modulo 360, within 1e-9) and chroma (within 1e-9) of all six palettes of the nine variants, rotated hues in [0,360), palettes independent of darkness and contrast level'
BOUNDED = '-'
ASSUMPTIONS = ['source Hct satisfies the invariant of C13 with chroma at most 200', 'contract of sanitize_degrees_double (proved in C03)',
               'TemperatureCache::get_complement and analogous(3,6) are functions of the cache input (C10, C23); fix_if_disliked is a function of its argument (C24)']

EX_H = [0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0]
VI_H = [0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0]


def rot(hs, rs):
    """target hue (before reduction) as a term of the source hue"""
    def f(h):
        t = h
        for i in range(len(hs) - 2, -1, -1):
            t = z3.If(z3.And(h > R(hs[i]), h < R(hs[i + 1])), h + R(rs[i]), t)
        return t
    return f


def off(d):
    return lambda h: h + R(d)


H = off(0.0)
E = (lambda h: R(25), lambda c: R(84), False)


def k(hue, chroma, rotated=False):
    return (hue, chroma if callable(chroma) else (lambda c: R(float(chroma))), rotated)


FID = [k(H, lambda c: c), k(H, lambda c: zmax(c - 32, c / 2)), None, k(H, lambda c: c / 8), k(H, lambda c: c / 8 + 4), E]
SPEC = {
    'SchemeMonochrome': ('Monochrome', [k(H, 0)] * 5 + [E]),
    'SchemeNeutral': ('Neutral', [k(H, 12), k(H, 8), k(H, 16), k(H, 2), k(H, 2), E]),
    'SchemeTonalSpot': ('TonalSpot', [k(H, 36), k(H, 16), k(off(60.0), 24, True), k(H, 6), k(H, 8), E]),
    'SchemeVibrant': ('Vibrant', [k(H, 200), k(rot(VI_H, [18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0, 12.0]), 24, True), k(rot(VI_H, [35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0, 25.0]), 32, True), k(H, 10), k(H, 12), E]),
    'SchemeExpressive': ('Expressive', [k(off(240.0), 40, True), k(rot(EX_H, [45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0, 45.0]), 24, True), k(rot(EX_H, [120.0, 120.0, 20.0, 45.0, 20.0, 15.0, 20.0, 120.0, 120.0]), 32, True), k(off(15.0), 8), k(off(15.0), 12), E]),
    'SchemeContent': ('Content', FID),
    'SchemeFidelity': ('Fidelity', FID),
    'SchemeRainbow': ('Rainbow', [k(H, 48), k(H, 16), k(off(60.0), 24, True), k(H, 0), k(H, 0), E]),
    'SchemeFruitSalad': ('FruitSalad', [k(off(-50.0), 48, True), k(off(-50.0), 36, True), k(H, 36), k(H, 10), k(H, 16), E]),
}
PALS = ['primary_palette', 'secondary_palette', 'tertiary_palette', 'neutral_palette', 'neutral_variant_palette', 'error_palette']


def near(a, b, tol):
    """equal modulo 360 within tol"""
    return z3.Or([within(a, b + 360 * n, tol) for n in (0, -1, 1, -2, 2)])


def jobs(P):
    js = []

    def scheme(ty, variant, spec):
        def body(j):
            c = j.ctx(definite=True)
            key_contract(c)
            c.contracts[SANITIZE] = c_sanitize
            c.contracts[('Hct', None, 'from_int')] = uf_contract('Hct::from_int', 'Hct')
            c.contracts[('Hct', None, 'new')] = uf_contract('Hct::from_int', 'Hct')
            c.contracts[('DislikeAnalyzer', None, 'fix_if_disliked')] = uf_contract('fix_if_disliked', 'Hct')
            src, pre = hct_in(c, 'src')

            def inp(ctx, st, v):
                return ctx.fname(deref(ctx, st, v), 'input')

            def compl(ctx, st, args, callee):
                return [Out(st, 'return', ctx.app('complement', [inp(ctx, st, args[0])], 'Hct'))]

            def analog(ctx, st, args, callee):
                n = []
                for a, d in ((args[1], 5), (args[2], 12)):
                    if not isinstance(a, En) or not isinstance(a.tag, int):
                        raise Undecided('analogous with symbolic count')
                    n.append(ctx.payload(a, 'Some', 0, None) if a.tag == 1 else d)
                if not all(isinstance(x, int) for x in n):
                    raise Undecided('analogous with symbolic count')
                i = inp(ctx, st, args[0])
                return [Out(st, 'return', Vc([ctx.app('analogous', [i, n[0], n[1], q], 'Hct') for q in range(n[0])]))]
            c.contracts[('TemperatureCache', None, 'get_complement')] = compl
            c.contracts[('TemperatureCache', None, 'analogous')] = analog
            dark, level = c.mk('bool', 'dark'), c.mk('f64', 'level')
            a0 = c.fname(src, '_argb')
            ins = dict(hue=c.fname(src, '_hue'), chroma=c.fname(src, '_chroma'), dark=dark, level=level)
            vi = P.enums['Variant'].index(variant)
            rp = ('palettes_at', lambda m: [fi(vi), fenc(m['hue']), fenc(m['chroma']), fi(int(m['dark'])), fenc(m['level'])])
            outs = j.execute(c, j.fn(ty, 'new'), [src, dark, level], [pre])
            j.no_panic(c, outs, ins, rp)
            h, ch = real(c.fname(src, '_hue')), real(c.fname(src, '_chroma'))
            for o in returns(outs):
                s = c.fname(o.val, 'dynamic_scheme')
                hct = c.app('Hct::from_int', [a0], 'Hct')
                j.claim(c, o.st, 'source colour kept', z3.And(iv(c.fname(s, 'source_color_argb')) == a0, z3.Or(c.same(c.fname(s, 'source_color_hct'), hct, o.st), c.same(c.fname(s, 'source_color_hct'), src, o.st))), ins, rp)
                j.claim(c, o.st, 'darkness kept', bv(c.fname(s, 'is_dark')) == bv(dark), ins, rp)
                j.claim(c, o.st, 'contrast level kept', real(c.fname(s, 'contrast_level')) == level.t, ins, rp)
                j.claim(c, o.st, 'own variant', iv(c.fname(s, 'variant').tag) == vi, ins, rp)
                for n, q in zip(PALS, spec):
                    v = c.fname(s, n)
                    ph, pc = real(c.fname(v, 'hue')), real(c.fname(v, 'chroma'))
                    if q is None:
                        x = c.app('complement', [src], 'Hct') if variant == 'Fidelity' else c.app('analogous', [src, 3, 6, 2], 'Hct')
                        x = c.app('fix_if_disliked', [x], 'Hct')
                        j.claim(c, o.st, n, z3.And(ph == real(c.fname(x, '_hue')), pc == real(c.fname(x, '_chroma'))), ins, rp)
                        continue
                    j.claim(c, o.st, n + ' hue', near(ph, q[0](h), R(1e-8)), ins, rp)
                    j.claim(c, o.st, n + ' chroma', within(pc, q[1](ch), R(1e-9)), ins, rp)
                    if q[2]:
                        j.claim(c, o.st, n + ' hue in [0,360)', z3.And(ph >= 0, ph < 360), ins, rp)
        js.append(Job(variant, ty + '::new', body))
    for ty, (v, s) in SPEC.items():
        scheme(ty, v, s)

    def new(j):
        """DynamicScheme::new keeps its arguments"""
        c = j.ctx(definite=True)
        key_contract(c)
        c.contracts[('Hct', None, 'from_int')] = uf_contract('Hct::from_int', 'Hct')
        c.contracts[('Hct', None, 'new')] = uf_contract('Hct::from_int', 'Hct')
        a, va, lv, dk = c.mk('i64', 'a'), c.mk('Variant', 'variant'), c.mk('Option<f64>', 'level'), c.mk('bool', 'dark')
        ps = [c.mk('TonalPalette', n) for n in PALS[:5]]
        outs = j.execute(c, j.fn('DynamicScheme', 'new'), [a, va, lv, dk] + ps)
        j.no_panic(c, outs)
        for o in returns(outs):
            s = o.val
            j.claim(c, o.st, 'colour, variant and darkness kept', z3.And(iv(c.fname(s, 'source_color_argb')) == a, c.same(c.fname(s, 'source_color_hct'), c.app('Hct::from_int', [a], 'Hct'), o.st), iv(c.fname(s, 'variant').tag) == va.tag, bv(c.fname(s, 'is_dark')) == dk))
            j.claim(c, o.st, 'contrast level is the given one, or 0', real(c.fname(s, 'contrast_level')) == z3.If(lv.tag == 1, real(c.payload(lv, 'Some', 0, None)), R(0.0)))
            for n, p in zip(PALS, ps):
                j.claim(c, o.st, n + ' kept', c.same(c.fname(s, n), p, o.st))
            e = c.fname(s, 'error_palette')
            j.claim(c, o.st, 'error palette', z3.And(real(c.fname(e, 'hue')) == 25, real(c.fname(e, 'chroma')) == 84))
    js.append(Job('DynamicScheme::new', 'DynamicScheme::new', new))
    return js
