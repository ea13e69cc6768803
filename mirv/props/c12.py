"""Equality functions against their specification formula, and hash functions as the sequence of
values they feed to the hasher: two values that the specification calls equal feed equal sequences.
The bit pattern of a float depends on the sign of a zero, so -0.0 and 0.0 must be fed alike."""
from .common import *
from .c16 import pal_get

SCOPE = 'whole'
PROVED = 'every clause, for all pairs of HCT colours, variants, palettes of the same construction and schemes (finite floats; signed zeros included)'
BOUNDED = '-'
ASSUMPTIONS = ['contract of TonalPalette::get (proved in C10): a function of the palette and the tone', 'a hasher is a function of the sequence of values fed to it', 'floats are not NaN']

TONES = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100]


def jobs(P, keys=False):
    """keys: only that values which compare equal agree in the specified fields (what a cache relies on, C10)"""
    js = []

    def pair(c, ty):
        a, b = c.mk('&' + ty, 'a'), c.mk('&' + ty, 'b')
        return a, b, c.load(State(), a), c.load(State(), b)

    def eq_hash(ty, contracts, spec, pre=lambda c, a, b: [], replay=None):
        def eqs(j):
            c = j.ctx(definite=True)
            contracts(c)
            a, b, x, y = pair(c, ty)
            outs = j.execute(c, j.fn(ty, 'eq', 'PartialEq'), [a, b])
            j.no_panic(c, outs)
            for o in returns(outs):
                if keys:
                    j.claim(c, o.st, 'values that compare equal agree in what is looked up', z3.Implies(bv(o.val), spec(c, x, y)))
                else:
                    j.claim(c, o.st, 'equality is as specified', bv(o.val) == spec(c, x, y))
            if keys:
                return
            outs = j.execute(c, j.fn(ty, 'eq', 'PartialEq'), [a, a])
            for o in returns(outs):
                j.claim(c, o.st, 'equality is reflexive', bv(o.val))
            j.claim(c, State(), 'equality is symmetric', spec(c, x, y) == spec(c, y, x))
        js.append(Job(ty + ' eq', ty + '::eq', eqs))
        if keys:
            return

        def hashes(j):
            c = j.ctx(definite=True)
            contracts(c)
            a, b, x, y = pair(c, ty)
            st = State()
            h = c.new_cell(st, St('Hasher', {}))
            f = j.fn(ty, 'hash', 'Hash')
            for o1 in j.execute(c, f, [a, h], [spec(c, x, y)] + pre(c, x, y), st):
                if o1.kind != 'return':
                    j.claim(c, o1.st, 'hash does not panic', False)
                    continue
                s1 = o1.st.fork()
                e1 = [e[1] for e in s1.eff if e[0] == 'hash']
                s1.eff = ()
                for o2 in returns(c.run(f, [b, h], s1)):
                    e2 = [e[1] for e in o2.st.eff if e[0] == 'hash']
                    j.claim(c, o2.st, 'equal values feed the hasher the same number of values', len(e1) == len(e2))
                    if len(e1) == len(e2):
                        j.claim(c, o2.st, 'equal values feed the hasher the same values', z3.And([c.same(p, q) for p, q in zip(e1, e2)]) if e1 else True)
        js.append(Job(ty + ' hash', ty + '::hash', hashes))

    eq_hash('Hct', lambda c: None, lambda c, a, b: iv(c.fname(a, '_argb')) == iv(c.fname(b, '_argb')))
    eq_hash('Variant', lambda c: None, lambda c, a, b: iv(a.tag) == iv(b.tag))

    def pspec(c, a, b):
        fa, fb = (bv(c.fname(v, '_is_from_cache')) for v in (a, b))
        hc = z3.And([real(c.fname(a, n)) == real(c.fname(b, n)) for n in ('hue', 'chroma')])
        li = z3.And([iv(c.app('palette colour', [a, t], 'i64')) == iv(c.app('palette colour', [b, t], 'i64')) for t in TONES])
        return z3.If(z3.And(z3.Not(fa), z3.Not(fb)), hc, li)
    eq_hash('TonalPalette', pal_get, pspec, lambda c, a, b: [bv(c.fname(a, '_is_from_cache')) == bv(c.fname(b, '_is_from_cache'))])

    pal = ['primary_palette', 'secondary_palette', 'tertiary_palette', 'neutral_palette', 'neutral_variant_palette', 'error_palette']
    PE, PH = (lambda p, q: uf('palette equality', Obj, Obj, z3.BoolSort())(p, q)), (lambda p: uf('palette hash', Obj, z3.IntSort())(p))

    def sub(c):
        """contracts of palette equality and hashing (the obligations above)"""
        def peq(ctx, st, args, callee):
            p, q = (ctx.term(deref(ctx, st, a)) for a in args)
            v = z3.BoolVal(True) if p.eq(q) else PE(p, q)
            return [Out(st, 'return', z3.Not(v) if callee.endswith('::ne') else v)]

        def ph(ctx, st, args, callee):
            s = st.fork()
            s.eff = s.eff + (('hash', PH(ctx.term(deref(ctx, st, args[0])))),)
            return [Out(s, 'return', UNIT)]
        c.contracts[('TonalPalette', 'PartialEq', 'eq')] = peq
        c.contracts[('TonalPalette', 'PartialEq', 'ne')] = peq
        c.contracts[('TonalPalette', 'Hash', 'hash')] = ph

    def sspec(c, a, b):
        cs = [iv(c.fname(a, 'source_color_argb')) == iv(c.fname(b, 'source_color_argb')),
              iv(c.fname(c.fname(a, 'source_color_hct'), '_argb')) == iv(c.fname(c.fname(b, 'source_color_hct'), '_argb')),
              iv(c.fname(a, 'variant').tag) == iv(c.fname(b, 'variant').tag), bv(c.fname(a, 'is_dark')) == bv(c.fname(b, 'is_dark')),
              real(c.fname(a, 'contrast_level')) == real(c.fname(b, 'contrast_level'))]
        for n in pal:
            p, q = c.term(c.fname(a, n)), c.term(c.fname(b, n))
            if not p.eq(q):
                c.axiom(PE(p, q) == PE(q, p))
                c.axiom(z3.Implies(PE(p, q), PH(p) == PH(q)))
                cs.append(PE(p, q))
        return z3.And(cs)
    eq_hash('DynamicScheme', sub, sspec)
    return js
