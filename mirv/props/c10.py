"""Representation invariants of the three caches, with the colour solver and the closures of a
dynamic colour uninterpreted.  Palette: with B the colours given at construction (none for `of`),
every cached entry is B's colour or the solver's colour for (hue, chroma, tone); `get` and `get_hct`
return exactly that and keep the invariant, from any state satisfying it.  Because the invariant is
inductive, the answers are those of a fresh palette after every history."""
from .common import *
from .c25 import rec

SCOPE = 'part'
PROVED = 'for every palette state reachable by any history: get returns the constructed colour of the tone or the solver\'s colour for (hue, chroma, tone), get_hct the same at every finite tone, and both preserve hue, chroma and the cache invariant; get_argb/get_hct of a dynamic colour return the palette colour at the resolved tone for every reachable cache (eviction included) and preserve the cache invariant; schemes, palettes and colours that compare equal as keys agree in every field that is looked up; the lazily computed parts of a temperature cache are computed from the input alone when absent, returned unchanged when present, and no query touches the parts kept by another'
BOUNDED = 'whole histories on the compiled code'
ASSUMPTIONS = ['HctSolver::solve_to_int, Cam16::from_int, lstar_from_argb, DynamicColor::get_tone and the role closures are functions of their arguments', 'HashMap behaves as a finite map keyed by Eq/Hash; resolving a scheme depends only on the fields that scheme equality compares (palettes of the same construction)', '|tone| <= 2^53']


def jobs(P):
    js = []

    def solver(c):
        c.contracts[('HctSolver', None, 'solve_to_int')] = uf_contract('solve_to_int', 'i64')
        c.contracts[('Cam16', None, 'from_int')] = uf_contract('Cam16::from_int', 'Cam16')
        c.contracts[('ColorUtils', None, 'lstar_from_argb')] = uf_contract('lstar_from_argb', 'f64')

    def pal(c):
        """palette reference, its initial value, base map, and the invariant at a key"""
        r = c.mk('&mut TonalPalette', 'pal')
        v = c.load(State(), r)
        bh = z3.Const('B@has', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        bv_ = z3.Const('B@val', z3.ArraySort(z3.IntSort(), z3.IntSort()))

        def ans(k):
            s = c.app('solve_to_int', [c.fname(v, 'hue'), c.fname(v, 'chroma'), SF(z3.ToReal(k))], 'i64')
            return z3.If(bh[k], bv_[k], s)

        def inv(w, k):
            m = c.fname(w, '_cache')
            return z3.And(z3.Implies(m.has[k], m.val[k] == ans(k)), z3.Implies(bh[k], m.has[k]))
        return r, v, ans, inv, bh, bv_

    def frame(c, v, w):
        return z3.And([c.same(c.fname(v, n), c.fname(w, n)) for n in ('hue', 'chroma', 'key_color', '_is_from_cache')])

    hist = lambda op: ('palette_history', lambda m: ['F:' + fenc(200.0)[2:], 'F:' + fenc(36.0)[2:], 'I:0,1,0,1', 'F:' + ','.join(fenc(float(x))[2:] for x in (m['t'], m['t'], m['t'], m['t']))])

    def get(j):
        c = j.ctx(definite=True)
        solver(c)
        r, v, ans, inv, bh, _ = pal(c)
        t, k = c.mk('i64', 't'), z3.Int('k')
        pre = [inv(v, t), inv(v, k), t >= -2 ** 53, t <= 2 ** 53, k >= -2 ** 53, k <= 2 ** 53]
        outs = j.execute(c, j.fn('TonalPalette', 'get'), [r, t], pre)
        ins = dict(t=t)
        j.no_panic(c, outs, ins, hist(0))
        for o in returns(outs):
            w = c.load(o.st, r)
            j.claim(c, o.st, 'get returns the colour of a fresh palette', iv(o.val) == ans(t), ins, hist(0))
            j.claim(c, o.st, 'get keeps the cache invariant at every tone', inv(w, k), ins, hist(0))
            j.claim(c, o.st, 'get keeps hue, chroma, key colour and provenance', frame(c, v, w), ins, hist(0))
    js.append(Job('get', 'TonalPalette::get', get))

    def get_hct(j):
        c = j.ctx(definite=True)
        solver(c)
        r, v, ans, inv, bh, bv_ = pal(c)
        t, p = fin('t', -2.0 ** 53, 2.0 ** 53)
        k = z3.ToInt(t.t)
        outs = j.execute(c, j.fn('TonalPalette', 'get_hct'), [r, t], [p, inv(v, k), inv(v, k + 1), inv(v, -k), inv(v, z3.ToInt(-t.t)), inv(v, -z3.ToInt(-t.t)), inv(v, z3.IntVal(0))])
        ins = dict(t=t)
        j.no_panic(c, outs, ins, hist(1))
        solve = c.app('solve_to_int', [c.fname(v, 'hue'), c.fname(v, 'chroma'), t], 'i64')
        for o in returns(outs):
            a = c.fname(o.val, '_argb')
            j.claim(c, o.st, 'at an integral tone: the colour a fresh palette has', z3.Implies(t.t == z3.ToReal(k), iv(a) == ans(k)), ins, hist(1))
            j.claim(c, o.st, 'at a fractional tone: the solved colour, whatever is cached', z3.Implies(t.t != z3.ToReal(k), iv(a) == solve), ins, hist(1))
            j.claim(c, o.st, 'get_hct leaves the palette unchanged', c.same(v, c.load(o.st, r)), ins, hist(1))
    js.append(Job('get_hct', 'TonalPalette::get_hct', get_hct))

    def fresh(j):
        for nm, args in (('of', ['f64', 'f64']), ('from_hct', ['&Hct'])):
            c = j.ctx(definite=True)
            c.contracts[('TonalPalette', None, 'create_key_color')] = uf_contract('create_key_color', 'Hct')
            a = [c.mk(t, 'x%d' % i) for i, t in enumerate(args)]
            outs = j.execute(c, j.fn('TonalPalette', nm), a)
            j.no_panic(c, outs)
            k = z3.Int('k')
            for o in returns(outs):
                m = c.fname(o.val, '_cache')
                j.claim(c, o.st, nm + ': a new palette has no cached colour', z3.Not(m.has[k]))
                j.claim(c, o.st, nm + ': hue and chroma are the given ones', z3.And(real(c.fname(o.val, 'hue')) == real(a[0] if nm == 'of' else c.fname(c.load(State(), a[0]), '_hue')),
                                                                                      real(c.fname(o.val, 'chroma')) == real(a[1] if nm == 'of' else c.fname(c.load(State(), a[0]), '_chroma'))))
                j.claim(c, o.st, nm + ': marked as not built from a list', z3.Not(bv(c.fname(o.val, '_is_from_cache'))))
    js.append(Job('constructors', 'TonalPalette::of', fresh))

    # ---- dynamic colour
    def dyn(which):
        def body(j):
            c = j.ctx(definite=True)
            c.contracts[('DynamicColor', None, 'get_tone')] = uf_contract_scheme('get_tone')
            c.contracts[('TonalPalette', None, 'get_hct')] = uf_contract('pal_get_hct', 'Hct')
            r, s = c.mk('&mut DynamicColor', 'dc'), c.mk('&DynamicScheme', 's')
            v = c.load(State(), r)
            kk = z3.Const('k', Obj)
            sk = c.term(c.load(State(), s))
            names = [n for n, _ in P.structs['DynamicColor'] if n != '_hct_cache']

            def A(key):
                sch = c.wrap('DynamicScheme', key)
                t = c.app('get_tone', [c.load(State(), r) if False else c.fname(v, 'name'), sch], 'f64')
                f = c.fname(v, 'palette')
                pl = c.from_maker('TonalPalette', lambda sort, suf='': uf('call:&TonalPalette' + suf, Obj, Obj, sort)(f.base, key))
                return c.app('pal_get_hct', [pl, t], 'Hct')

            def inv(w, k):
                m = c.fname(w, '_hct_cache')
                return z3.Implies(m.has[k], m.val[k] == c.term(A(k)))
            outs = j.execute(c, j.fn('DynamicColor', which), [r, s], [inv(v, sk), inv(v, kk)])
            j.no_panic(c, outs)
            for o in returns(outs):
                want = A(sk)
                w = c.load(o.st, r)
                if which == 'get_hct':
                    j.claim(c, o.st, 'the colour is the scheme palette at the resolved tone, cached or not', c.term(o.val) == c.term(want))
                else:
                    j.claim(c, o.st, 'get_argb is the integer colour of get_hct', iv(o.val) == iv(c.fname(c.wrap('Hct', c.term(want)), '_argb')))
                j.claim(c, o.st, 'the cache invariant holds at every scheme', inv(w, kk))
                j.claim(c, o.st, 'the role itself is unchanged', z3.And([c.same(c.fname(v, n), c.fname(w, n)) for n in names]))
        js.append(Job('DynamicColor::' + which, 'DynamicColor::' + which, body))

    def uf_contract_scheme(name):
        def h(ctx, st, args, callee):
            d = deref(ctx, st, args[0])
            return [Out(st, 'return', ctx.app(name, [ctx.fname(d, 'name'), deref(ctx, st, args[1])], 'f64'))]
        return h
    dyn('get_hct')
    dyn('get_argb')

    from . import c12, c23
    for x in c12.jobs(P, keys=True):
        js.append(Job('cache key: ' + x.name, x.fn, x.body))
    for x in c23.jobs(P):
        if x.name in ('get_hcts_by_hue', 'get_temps_by_hct', 'get_hcts_by_temp', 'ends of the ranking', 'coldest and warmest', 'relative temperature', 'get_complement', 'analogous'):
            js.append(Job('temperature cache: ' + x.name, x.fn, x.body))
    return js
