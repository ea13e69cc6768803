"""List construction and projection of palettes.  The list of a palette is its `get` at the common
tones (get under contract); from_list is executed for lists of every length, its search for the
highest chroma cut by a loop invariant (every eligible entry before the cursor has at most the best
chroma, and the best hue and chroma are those of an eligible entry or zero); the round trips follow by
running get_as_list on the resulting cache, and as_list/from_list of the core palette over the
contracts of its parts.  Colour conversions are uninterpreted functions of the colour."""
from .common import *
from ..loops import Spec

SCOPE = 'whole'
PROVED = 'every clause, for lists of every length and any 64-bit integers as colours'
BOUNDED = '-'
ASSUMPTIONS = ['Hct::from_int and create_key_color are functions of their arguments', 'HashMap behaves as a finite map', 'the specification of the list order is written out here: 0,10,20,30,40,50,60,70,80,90,95,99,100']
TONES = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100]
ROLES = ['primary', 'secondary', 'tertiary', 'neutral', 'neutral_variant']


def jobs(P):
    def cols(c, st):
        n = z3.Int('n')
        a = z3.Array('colours', z3.IntSort(), z3.IntSort())
        return n, a, c.new_cell(st, SVec(n, a, 'i64'))

    rp = lambda kind, k: (kind, lambda m: None)

    def as_list(j):
        c = j.ctx(definite=True)
        c.contracts[('TonalPalette', None, 'get')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.app('palette colour', [ctx.fname(deref(ctx, st, args[0]), 'hue'), ctx.fname(deref(ctx, st, args[0]), 'chroma'), args[1]], 'i64'))]
        r = c.mk('&mut TonalPalette', 'pal')
        v = c.load(State(), r)
        outs = j.execute(c, j.fn('TonalPalette', 'get_as_list'), [r])
        j.no_panic(c, outs)
        for o in returns(outs):
            e = o.val.e
            j.claim(c, o.st, 'the list has 13 entries', len(e) == 13)
            for i, t in enumerate(TONES[:len(e)]):
                j.claim(c, o.st, 'entry %d is the colour of tone %d' % (i, t), iv(e[i]) == c.app('palette colour', [c.fname(v, 'hue'), c.fname(v, 'chroma'), t], 'i64'))
    js = [Job('get_as_list', 'TonalPalette::get_as_list', as_list)]

    def hctc(c):
        c.contracts[('Hct', None, 'from_int')] = uf_contract('Hct::from_int', 'Hct')
        c.contracts[('TonalPalette', None, 'create_key_color')] = uf_contract('create_key_color', 'Hct')

    def from_list(j):
        c = j.ctx(definite=True)
        hctc(c)
        st = State()
        n, a, r = cols(c, st)
        K = z3.Int('K')

        def at(k):
            h = c.app('Hct::from_int', [z3.Select(a, k)], 'Hct')
            return [real(c.fname(h, f)) for f in ('_hue', '_chroma', '_tone')]

        def best(bh, bc, upto):
            hk, ck, tk = at(K)
            return [('no eligible entry before the cursor has more chroma', z3.Implies(z3.And(K >= 0, K < upto, tk <= 98), ck <= bc)),
                    ('the best hue and chroma are those of an eligible entry, or zero', z3.Or([z3.And(bh == 0, bc == 0)] + [z3.And(m < upto, at(z3.IntVal(m))[2] <= 98, at(z3.IntVal(m))[0] == bh, at(z3.IntVal(m))[1] == bc) for m in range(13)]))]
        for m in range(13):
            at(z3.IntVal(m))

        def inv(L):
            return [('cursor in range', z3.And(L.cursor() >= 0, L.cursor() <= 13))] + best(real(L.get('best_hue')), real(L.get('best_chroma')), L.cursor())
        c.loops[('TonalPalette', None, 'from_list')] = Spec(j, inv)
        outs = j.execute(c, j.fn('TonalPalette', 'from_list'), [r], [n >= 0, n < 2 ** 40], st)
        j.no_panic(c, outs, allowed=lambda o: n != 13)
        k = z3.Int('key')
        for o in returns(outs):
            j.claim(c, o.st, 'only lists of 13 colours are accepted', n == 13)
            m = c.fname(o.val, '_cache')
            for i, t in enumerate(TONES):
                j.claim(c, o.st, 'tone %d is given the colour at index %d' % (t, i), z3.And(m.has[t], m.val[t] == z3.Select(a, i)))
            j.claim(c, o.st, 'no other tone is cached', z3.Implies(z3.And([k != t for t in TONES]), z3.Not(m.has[k])))
            bh, bc = real(c.fname(o.val, 'hue')), real(c.fname(o.val, 'chroma'))
            for nm, f in best(bh, bc, z3.IntVal(13)):
                j.claim(c, o.st, 'result: ' + nm, f)
            j.claim(c, o.st, 'marked as built from a list', bv(c.fname(o.val, '_is_from_cache')))
    js.append(Job('from_list', 'TonalPalette::from_list', from_list))

    def trip(j):
        c = j.ctx(definite=True)
        c.contracts[('HctSolver', None, 'solve_to_int')] = uf_contract('solve_to_int', 'i64')
        c.contracts[('Cam16', None, 'from_int')] = uf_contract('Cam16::from_int', 'Cam16')
        c.contracts[('ColorUtils', None, 'lstar_from_argb')] = uf_contract('lstar_from_argb', 'f64')
        r = c.mk('&mut TonalPalette', 'pal')
        m = c.fname(c.load(State(), r), '_cache')
        a = z3.Array('colours', z3.IntSort(), z3.IntSort())
        outs = j.execute(c, j.fn('TonalPalette', 'get_as_list'), [r], [z3.And(m.has[t], m.val[t] == a[i]) for i, t in enumerate(TONES)])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'a palette made from a list returns that list', z3.And([z3.BoolVal(len(o.val.e) == 13)] + [iv(x) == a[i] for i, x in enumerate(o.val.e)]))
    js.append(Job('round trip', 'TonalPalette::get_as_list', trip))

    def core_list(j):
        c = j.ctx(definite=True)
        c.contracts[('TonalPalette', None, 'get_as_list')] = lambda ctx, st, args, callee: [Out(st, 'return', Vc([ctx.app('list entry', [deref(ctx, st, args[0]), i], 'i64') for i in range(13)]))]
        r = c.mk('&mut CorePalette', 'core')
        v = c.load(State(), r)
        outs = j.execute(c, j.fn('CorePalette', 'as_list'), [r])
        j.no_panic(c, outs)
        for o in returns(outs):
            e = o.val.e
            j.claim(c, o.st, 'the list has 65 entries', len(e) == 65)
            for p, role in enumerate(ROLES):
                j.claim(c, o.st, 'entries %d to %d are the %s list' % (13 * p, 13 * p + 12, role), z3.And([iv(e[13 * p + i]) == c.app('list entry', [c.fname(v, role), i], 'i64') for i in range(13) if 13 * p + i < len(e)]))
    js.append(Job('CorePalette::as_list', 'CorePalette::as_list', core_list))

    def core_from(j):
        c = j.ctx(definite=True)

        def fl(ctx, st, args, callee):
            v = deref(ctx, st, args[0])
            if not isinstance(v, Vc):
                raise Undecided('partition of unknown length')
            if len(v.e) != 13:
                return [Out(st, 'panic', 'length')]
            return [Out(st, 'return', ctx.app('TonalPalette::from_list', list(v.e), 'TonalPalette'))]
        c.contracts[('TonalPalette', None, 'from_list')] = fl
        c.contracts[('TonalPalette', None, 'of')] = uf_contract('TonalPalette::of', 'TonalPalette')
        st = State()
        n, a, r = cols(c, st)
        outs = j.execute(c, j.fn('CorePalette', 'from_list'), [r], [n >= 0, n < 2 ** 40], st)
        j.no_panic(c, outs, allowed=lambda o: n != 65)
        for o in returns(outs):
            j.claim(c, o.st, 'only lists of 65 colours are accepted', n == 65)
            for p, role in enumerate(ROLES):
                want = c.app('TonalPalette::from_list', [z3.Select(a, 13 * p + i) for i in range(13)], 'TonalPalette')
                j.claim(c, o.st, '%s is made from colours %d to %d' % (role, 13 * p, 13 * p + 12), c.same(c.fname(o.val, role), want))
            j.claim(c, o.st, 'the error palette is the default one', c.same(c.fname(o.val, 'error'), c.app('TonalPalette::of', [25.0, 84.0], 'TonalPalette')))
    js.append(Job('CorePalette::from_list', 'CorePalette::from_list', core_from))
    return js
