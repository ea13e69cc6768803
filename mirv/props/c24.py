"""is_disliked over a symbolic Hct value against the three rounded comparisons; fix_if_disliked
with Hct::from replaced by its contract (an uninterpreted function of hue, chroma and tone whose
tone is within 0.5 of the requested one)."""
from .common import *

SCOPE = 'part'
PROVED = 'is_disliked is exactly the conjunction of the three rounded range tests for every HCT value; fix_if_disliked returns liked values unchanged and otherwise Hct::from(hue, chroma, 70); the result is never disliked, given that solving for tone 70 gives a tone above 65'
BOUNDED = 'the tone reached by the solver at tone 70 (enumerated over all disliked opaque colours)'
ASSUMPTIONS = ['contract of Hct::from: tone of the result within 0.5 of the requested tone (C27, bounded)']


def rnd(t):
    return z3.If(t >= 0, z3.ToInt(t + R(0.5)), -z3.ToInt(-t + R(0.5)))


def spec(c, v):
    h, ch, t = (real(c.fname(v, n)) for n in ('_hue', '_chroma', '_tone'))
    return z3.And(rnd(h) >= 90, rnd(h) <= 111, rnd(ch) > 16, rnd(t) < 65)


def jobs(P):
    js = []

    def rp(c, v):
        ins = dict(a=c.fname(v, '_argb'))
        return ins, ('all_colours', args_i('a'))

    def isd(j):
        c = j.ctx()
        r = c.mk('&Hct', 'hct')
        v = c.load(State(), r)
        ins, q = rp(c, v)
        outs = j.execute(c, j.fn('DislikeAnalyzer', 'is_disliked'), [r])
        j.no_panic(c, outs, ins, q)
        for o in returns(outs):
            j.claim(c, o.st, 'exactly hue 90..111, chroma above 16, tone below 65 (rounded)', bv(o.val) == spec(c, v), ins, q)
    js.append(Job('is_disliked', 'DislikeAnalyzer::is_disliked', isd))

    def fix(j):
        c = j.ctx()
        r = c.mk('&Hct', 'hct')
        v = c.load(State(), r)
        ins, q = rp(c, v)

        def frm(ctx, st, args, callee):
            x = ctx.app('Hct::from', args, 'Hct')
            t = real(ctx.fname(x, '_tone'))
            return [Out(st.assume(within(t, zmin(zmax(real(args[2]), R(0.0)), R(100.0)), R(0.5))), 'return', x)]
        c.contracts[('Hct', None, 'from')] = frm
        outs = j.execute(c, j.fn('DislikeAnalyzer', 'fix_if_disliked'), [r])
        j.no_panic(c, outs, ins, q)
        h, ch = c.fname(v, '_hue'), c.fname(v, '_chroma')
        want = c.term(c.app('Hct::from', [h, ch, 70.0], 'Hct'))
        for o in returns(outs):
            got = c.term(o.val)
            j.claim(c, o.st, 'liked colours unchanged', z3.Implies(z3.Not(spec(c, v)), c.same(o.val, v, o.st)), ins, q)
            j.claim(c, o.st, 'disliked colours solved for the same hue and chroma at tone 70', z3.Implies(spec(c, v), got == want), ins, q)
            j.claim(c, o.st, 'the result is not disliked', z3.Not(spec(c, o.val)), ins, q)
    js.append(Job('fix_if_disliked', 'DislikeAnalyzer::fix_if_disliked', fix))
    return js
