"""Every getter is executed with the role constructors replaced by constants (one per role) and
DynamicColor::get_hct by its contract of C10: the colour of (role, scheme).  The same contract is
proved here against the role's own closures for a fresh dynamic colour, so 'the role resolves to' is
the palette's colour at the resolved tone."""
from .common import *

SCOPE = 'whole'
PROVED = 'every clause: each of the 54 getters returns the integer colour of the role of its name in that scheme; DynamicScheme::get_hct and get_argb return what the dynamic colour returns; the colour is the role\'s palette at the role\'s resolved tone, with an empty cache and with any cache filled by earlier resolutions'
BOUNDED = '-'
ASSUMPTIONS = ['the role constructors return the same role each time (proved in C18)', 'DynamicColor::get_tone, TonalPalette::get_hct and the role closures are functions of their arguments (no interior mutability: checked by the compiler)']


def jobs(P):
    from .c18 import ROLES
    js = []

    def base(j):
        c = j.ctx(definite=True)
        for r in ROLES:
            c.contracts[('MaterialDynamicColors', None, r)] = (lambda r: lambda ctx, st, args, callee: [Out(st, 'return', ctx.app('role:' + r, [], 'DynamicColor'))])(r)

        def hct(ctx, st, args, callee):
            return [Out(st, 'return', ctx.app('role colour', [deref(ctx, st, args[0]), deref(ctx, st, args[1])], 'Hct'))]
        c.contracts[('DynamicColor', None, 'get_hct')] = hct
        return c
    rp = lambda: ('getters', lambda m: [fi(5), fi(0xff4285f4), fi(0), fenc(0.0)])

    def one(r):
        def body(j):
            c = base(j)
            s = c.mk('&DynamicScheme', 's')
            outs = j.execute(c, j.fn('DynamicScheme', 'get_' + r), [s])
            j.no_panic(c, outs, {}, rp())
            want = c.app('role colour', [c.app('role:' + r, [], 'DynamicColor'), c.load(State(), s)], 'Hct')
            for o in returns(outs):
                j.claim(c, o.st, 'get_%s is the colour of the role %s' % (r, r), iv(o.val) == iv(c.fname(want, '_argb')), {}, rp())
        js.append(Job('get_' + r, 'DynamicScheme::get_' + r, body))
    for r in ROLES:
        one(r)

    def through(j):
        for nm in ('get_hct', 'get_argb'):
            c = base(j)
            s, d = c.mk('&DynamicScheme', 's'), c.mk('&mut DynamicColor', 'd')
            want = c.app('role colour', [c.load(State(), d), c.load(State(), s)], 'Hct')
            for who in ('DynamicScheme', 'DynamicColor'):
                if (who, nm) == ('DynamicColor', 'get_hct'):
                    continue
                outs = j.execute(c, j.fn(who, nm), [s, d] if who == 'DynamicScheme' else [d, s])
                j.no_panic(c, outs, {}, rp())
                for o in returns(outs):
                    got = iv(c.fname(o.val, '_argb')) == iv(c.fname(want, '_argb')) if nm == 'get_hct' else iv(o.val) == iv(c.fname(want, '_argb'))
                    j.claim(c, o.st, '%s::%s is what the dynamic colour resolves to' % (who, nm), z3.And(got, c.term(o.val) == c.term(want)) if nm == 'get_hct' else got, {}, rp())
    js.append(Job('through the scheme', 'DynamicScheme::get_hct', through))

    def resolve(j):
        c = j.ctx(definite=True)
        c.contracts[('DynamicColor', None, 'get_tone')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.app('tone of role', [ctx.fname(deref(ctx, st, args[0]), 'name'), deref(ctx, st, args[1])], 'f64'))]
        c.contracts[('TonalPalette', None, 'get_hct')] = uf_contract('pal_get_hct', 'Hct')
        r, s = c.mk('&mut DynamicColor', 'dc'), c.mk('&DynamicScheme', 's')
        v = c.load(State(), r)
        m = c.fname(v, '_hct_cache')
        key = c.term(c.load(State(), s))
        f = c.fname(v, 'palette')
        t = c.app('tone of role', [c.fname(v, 'name'), c.load(State(), s)], 'f64')
        pl = c.from_maker('TonalPalette', lambda sort, suf='': uf('call:&TonalPalette' + suf, Obj, Obj, sort)(f.base, key))
        want = c.term(c.app('pal_get_hct', [pl, t], 'Hct'))
        outs = j.execute(c, j.fn('DynamicColor', 'get_hct'), [r, s], [z3.Implies(m.has[key], m.val[key] == want)])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'the role palette at the resolved tone', c.term(o.val) == want, {}, rp())
    js.append(Job('resolution', 'DynamicColor::get_hct', resolve))
    return js
