"""Every role constructor is executed on its own (the roles it mentions are constants, one per role)
and each of its closures is called on an arbitrary scheme; the results are compared with the role
table of the specification.  ContrastCurve::get is an uninterpreted function of its four knots and
the level, so the comparison holds for every level."""
from .common import *
from ..loops import Spec

SCOPE = 'whole'
PROVED = 'every clause, for every scheme: name, background flag, palette, backgrounds, curve and pair of the 54 roles, and their base tones as functions of darkness, level, variant, source tone and palettes; the tone search of the secondary container follows its recursive specification'
BOUNDED = '-'
ASSUMPTIONS = ['in the tone search of the secondary container float subtraction is treated as mathematical', 'DynamicColor::get_tone, foreground_tone, TonalPalette::get_hct, DislikeAnalyzer::fix_if_disliked, Hct::from and ContrastCurve::get are functions of their arguments', 'the tone search is specified by partial correctness: that it ends is checked by enumeration']

PAL = ['primary_palette', 'secondary_palette', 'tertiary_palette', 'neutral_palette', 'neutral_variant_palette', 'error_palette']
C_ON, C_ONV, C_ACC, C_CON = (4.5, 7.0, 11.0, 21.0), (3.0, 4.5, 7.0, 11.0), (3.0, 4.5, 7.0, 7.0), (1.0, 1.0, 3.0, 4.5)
H = 'highest surface'
# tone specifications over a view S of the scheme
ld = lambda l, d: lambda S: S.dark(l, d)
mld = lambda ml, md, l, d: lambda S: z3.If(S.mono, S.dark(ml, md), S.dark(l, d))
m1 = lambda m, o: lambda S: z3.If(S.mono, S.v(m), S.v(o))
key = lambda i: lambda S: S.key(i)
cv = lambda *k: ('curve', k)
fidor = lambda f, g: lambda S: z3.If(S.fid, f(S), g(S))
NEAR, LIGHT = 2, 1


def pr(a, fixed=False):
    return (a + '_fixed', a + '_fixed_dim', LIGHT, True) if fixed else (a + '_container', a, NEAR, False)


# role: palette, is_background, tone, background, second background, curve, pair
ROLES = {}
for _i, _p in enumerate(('primary', 'secondary', 'tertiary', 'neutral', 'neutral_variant')):
    ROLES[_p + '_palette_key_color'] = (_i, False, key(_i), None, None, None, None)
ROLES.update(
    background=(3, True, ld(98, 6), None, None, None, None),
    on_background=(3, False, ld(10, 90), 'background', None, (3.0, 3.0, 4.5, 7.0), None),
    surface=(3, True, ld(98, 6), None, None, None, None),
    surface_dim=(3, True, ld(cv(87, 87, 80, 75), 6), None, None, None, None),
    surface_bright=(3, True, ld(98, cv(24, 24, 29, 34)), None, None, None, None),
    surface_container_lowest=(3, True, ld(100, cv(4, 4, 2, 0)), None, None, None, None),
    surface_container_low=(3, True, ld(cv(96, 96, 96, 95), cv(10, 10, 11, 12)), None, None, None, None),
    surface_container=(3, True, ld(cv(94, 94, 92, 90), cv(12, 12, 16, 20)), None, None, None, None),
    surface_container_high=(3, True, ld(cv(92, 92, 88, 85), cv(17, 17, 21, 25)), None, None, None, None),
    surface_container_highest=(3, True, ld(cv(90, 90, 84, 80), cv(22, 22, 26, 30)), None, None, None, None),
    on_surface=(3, False, ld(10, 90), H, None, C_ON, None),
    surface_variant=(4, True, ld(90, 30), None, None, None, None),
    on_surface_variant=(4, False, ld(30, 80), H, None, C_ONV, None),
    inverse_surface=(3, False, ld(20, 90), None, None, None, None),
    inverse_on_surface=(3, False, ld(95, 20), 'inverse_surface', None, C_ON, None),
    outline=(4, False, ld(50, 60), H, None, (1.5, 3.0, 4.5, 7.0), None),
    outline_variant=(4, False, ld(80, 30), H, None, C_CON, None),
    shadow=(3, False, ld(0, 0), None, None, None, None),
    scrim=(3, False, ld(0, 0), None, None, None, None),
    surface_tint=(0, True, ld(40, 80), None, None, None, None),
    primary=(0, True, mld(0, 100, 40, 80), H, None, C_ACC, pr('primary')),
    on_primary=(0, False, mld(90, 10, 100, 20), 'primary', None, C_ON, None),
    primary_container=(0, True, fidor(lambda S: S.source_tone, mld(25, 85, 90, 30)), H, None, C_CON, pr('primary')),
    on_primary_container=(0, False, fidor(lambda S: S.on('primary_container'), mld(100, 0, 10, 90)), 'primary_container', None, C_ON, None),
    inverse_primary=(0, False, ld(80, 40), 'inverse_surface', None, C_ACC, None),
    secondary=(1, True, ld(40, 80), H, None, C_ACC, pr('secondary')),
    on_secondary=(1, False, mld(100, 10, 100, 20), 'secondary', None, C_ON, None),
    secondary_container=(1, True, fidor(lambda S: S.desired, mld(85, 30, 90, 30)), H, None, C_CON, pr('secondary')),
    on_secondary_container=(1, False, fidor(lambda S: S.on('secondary_container'), ld(10, 90)), 'secondary_container', None, C_ON, None),
    tertiary=(2, True, mld(25, 90, 40, 80), H, None, C_ACC, pr('tertiary')),
    on_tertiary=(2, False, mld(90, 10, 100, 20), 'tertiary', None, C_ON, None),
    tertiary_container=(2, True, fidor(lambda S: S.liked, mld(49, 60, 90, 30)), H, None, C_CON, pr('tertiary')),
    on_tertiary_container=(2, False, fidor(lambda S: S.on('tertiary_container'), mld(100, 0, 10, 90)), 'tertiary_container', None, C_ON, None),
    error=(5, True, ld(40, 80), H, None, C_ACC, pr('error')),
    on_error=(5, False, ld(100, 20), 'error', None, C_ON, None),
    error_container=(5, True, ld(90, 30), H, None, C_CON, pr('error')),
    on_error_container=(5, False, ld(10, 90), 'error_container', None, C_ON, None))
for _i, (_p, _f, _d, _o, _v) in enumerate((('primary', m1(40, 90), m1(30, 80), m1(100, 10), m1(90, 30)),
                                           ('secondary', m1(80, 90), m1(70, 80), ld(10, 10), m1(25, 30)),
                                           ('tertiary', m1(40, 90), m1(30, 80), m1(100, 10), m1(90, 30)))):
    ROLES[_p + '_fixed'] = (_i, True, _f, H, None, C_CON, pr(_p, True))
    ROLES[_p + '_fixed_dim'] = (_i, True, _d, H, None, C_CON, pr(_p, True))
    ROLES['on_%s_fixed' % _p] = (_i, False, _o, _p + '_fixed_dim', _p + '_fixed', C_ON, None)
    ROLES['on_%s_fixed_variant' % _p] = (_i, False, _v, _p + '_fixed_dim', _p + '_fixed', C_ONV, None)


class View:
    """the scheme as the tone specifications see it"""

    def __init__(self, c, s):
        self.c, self.s = c, s
        self.is_dark = bv(c.fname(s, 'is_dark'))
        tag = iv(c.fname(s, 'variant').tag)
        vs = c.variants('Variant')
        for n in ('Monochrome', 'Fidelity', 'Content'):
            if n not in vs:
                raise Undecided('lost anchor: no variant ' + n)
        self.mono = tag == vs.index('Monochrome')
        self.fid = z3.Or(tag == vs.index('Fidelity'), tag == vs.index('Content'))
        self.source_tone = real(c.fname(c.fname(s, 'source_color_hct'), '_tone'))

    def v(self, x):
        if isinstance(x, tuple):
            return real(self.c.app('curve', [float(k) for k in x[1]] + [self.c.fname(self.s, 'contrast_level')], 'f64'))
        return R(float(x))

    def dark(self, l, d):
        return z3.If(self.is_dark, self.v(d), self.v(l))

    def key(self, i):
        return real(self.c.fname(self.c.fname(self.c.fname(self.s, PAL[i]), 'key_color'), '_tone'))

    def on(self, r):
        return real(self.c.app('foreground_tone', [self.c.app('tone of role', [self.role(r), self.s], 'f64'), 4.5], 'f64'))

    def role(self, r):
        return self.c.app('role:' + r, [], 'DynamicColor')

    @property
    def desired(self):
        p = self.c.fname(self.s, PAL[1])
        f = lambda t, down: real(self.c.app('desired tone', [self.c.fname(p, 'hue'), self.c.fname(p, 'chroma'), t, down], 'f64'))
        return z3.If(self.is_dark, f(30.0, False), f(90.0, True))

    @property
    def liked(self):
        h = self.c.app('pal_get_hct', [self.c.fname(self.s, PAL[2]), self.c.fname(self.c.fname(self.s, 'source_color_hct'), '_tone')], 'Hct')
        return real(self.c.fname(self.c.app('fix_if_disliked', [h], 'Hct'), '_tone'))


def roles_as_constants(c, but=None):
    for r in ROLES:
        if r != but:
            c.contracts[('MaterialDynamicColors', None, r)] = (lambda r: lambda ctx, st, args, callee: [Out(st, 'return', ctx.app('role:' + r, [], 'DynamicColor'))])(r)


def jobs(P):
    js = []

    def base(j, but=None):
        c = j.ctx(definite=True)
        # the role itself is a constant too when one of its closures mentions it (its pair)
        roles_as_constants(c)

        def curve(ctx, st, args, callee):
            k = deref(ctx, st, args[0])
            return [Out(st, 'return', ctx.app('curve', [ctx.fname(k, n) for n in ('low', 'normal', 'medium', 'high')] + [args[1]], 'f64'))]
        c.contracts[('ContrastCurve', None, 'get')] = curve
        c.contracts[('DynamicColor', None, 'foreground_tone')] = uf_contract('foreground_tone', 'f64')
        c.contracts[('DynamicColor', None, 'get_tone')] = uf_contract('tone of role', 'f64')
        c.contracts[('TonalPalette', None, 'get_hct')] = uf_contract('pal_get_hct', 'Hct')
        c.contracts[('DislikeAnalyzer', None, 'fix_if_disliked')] = uf_contract('fix_if_disliked', 'Hct')
        c.contracts[('MaterialDynamicColors', None, '_find_desired_chroma_by_tone')] = uf_contract('desired tone', 'f64')
        return c

    def role(r):
        pal, isbg, tone, bg, bg2, cur, pair = ROLES[r]

        def body(j):
            c = base(j, r)
            s = c.mk('&DynamicScheme', 's')
            S = View(c, c.load(State(), s))
            rp = ('role_table', lambda m: [fi(5), fi(0xff4285f4), fi(0), fenc(0.0)])
            f = j.fn('MaterialDynamicColors', r)
            del c.contracts[('MaterialDynamicColors', None, r)]
            outs = j.execute(c, f, [])
            roles_as_constants(c)
            j.no_panic(c, outs, {}, rp)
            for o in returns(outs):
                d = o.val
                nm = c.fname(d, 'name')
                j.claim(c, o.st, 'name', z3.BoolVal(isinstance(nm, Str) and nm.s == r), {}, rp)
                j.claim(c, o.st, 'background flag', bv(c.fname(d, 'is_background')) == z3.BoolVal(isbg), {}, rp)
                for q in c.call_value(o.st, c.fname(d, 'palette'), [s]):
                    if q.kind != 'return':
                        j.no_panic(c, [q], {}, rp)
                        continue
                    j.claim(c, q.st, 'palette is ' + PAL[pal], c.same(deref(c, q.st, q.val), c.fname(S.s, PAL[pal]), q.st), {}, rp)
                for q in c.call_value(o.st, c.fname(d, 'tone'), [s]):
                    if q.kind != 'return':
                        j.no_panic(c, [q], {}, rp)
                        continue
                    j.claim(c, q.st, 'base tone', real(q.val) == tone(S), {}, rp)

                def isrole(q, want):
                    t = c.term(deref(c, q.st, q.val))
                    if want == H:
                        return t == z3.If(S.is_dark, c.term(S.role('surface_bright')), c.term(S.role('surface_dim')))
                    return t == c.term(S.role(want))

                def opt(field, what, want, check):
                    v = c.fname(d, field)
                    tag = v.tag
                    j.claim(c, o.st, what + (' present' if want else ' absent'), iv(tag) == (1 if want else 0), {}, rp)
                    if want and (not isinstance(tag, int) or tag == 1):
                        check(c.payload(v, 'Some', 0, None))
                for field, want in (('background', bg), ('second_background', bg2)):
                    def chk(fn, field=field, want=want):
                        for q in c.call_value(o.st, fn, [s]):
                            if q.kind != 'return':
                                j.no_panic(c, [q], {}, rp)
                                continue
                            j.claim(c, q.st, '%s is %s' % (field.replace('_', ' '), want), isrole(q, want), {}, rp)
                    opt(field, field.replace('_', ' '), want, chk)

                def chk_curve(k):
                    j.claim(c, o.st, 'contrast curve', z3.And([real(c.fname(k, n)) == R(x) for n, x in zip(('low', 'normal', 'medium', 'high'), cur)]), {}, rp)
                opt('contrast_curve', 'curve', cur, chk_curve)

                def chk_pair(fn):
                    for q in c.call_value(o.st, fn, [s]):
                        if q.kind != 'return':
                            j.no_panic(c, [q], {}, rp)
                            continue
                        p = deref(c, q.st, q.val)
                        a, b, pol, stay = pair
                        g = lambda n: c.fname(p, n)
                        j.claim(c, q.st, 'pair is %s and %s, delta 10' % (a, b), z3.And(
                            c.term(g('role_a')) == c.term(S.role(a)), c.term(g('role_b')) == c.term(S.role(b)), real(g('delta')) == 10,
                            iv(g('polarity').tag) == pol, bv(g('stay_together')) == z3.BoolVal(stay)), {}, rp)
                opt('tone_delta_pair', 'pair', pair, chk_pair)
        js.append(Job('role ' + r, 'MaterialDynamicColors::' + r, body))
    for r in ROLES:
        role(r)

    def highest(j):
        c = base(j)
        s = c.mk('&DynamicScheme', 's')
        S = View(c, c.load(State(), s))
        outs = j.execute(c, j.fn('MaterialDynamicColors', 'highest_surface'), [s])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'highest surface is bright in dark schemes, dim in light ones', c.term(o.val) == z3.If(S.is_dark, c.term(S.role('surface_bright')), c.term(S.role('surface_dim'))))
    js.append(Job('highest surface', 'MaterialDynamicColors::highest_surface', highest))

    def desired(j):
        # F(t, best, peak): the tone the search ends at, from tone t with closest chroma best and peak chroma peak
        c = j.ctx('exact', definite=False)
        (hue, p1), (ch, p2), (t0, p3) = fin('hue', 0, 360), fin('chroma', 0, 200), fin('tone', 0, 100)
        down = z3.Bool('down')
        X = lambda t: ufr('chroma at', t)

        def frm(ctx, st, args, callee):
            st2 = st.assume(z3.And(real(args[0]) == hue.t, real(args[1]) == ch.t)) if False else st
            t = real(args[2])
            ok = z3.And(real(args[0]) == hue.t, real(args[1]) == ch.t)
            j.claim(ctx, st, 'the search solves for the hue and chroma of the palette', ok)
            x = X(t)
            v = with_fields(ctx, ctx.app('Hct::from', list(args), 'Hct'), _chroma=SF(x, 0.0, 200.0))
            return [Out(st2.assume(z3.And(x >= 0, x <= 200)), 'return', v)]
        c.contracts[('Hct', None, 'from')] = frm
        F = lambda t, b, p: ufr('search', t, b, p)
        d = lambda x: zabs(x - ch.t)

        def unfold(t, b, p):
            n = z3.If(down, t - 1, t + 1)
            x = X(n)
            return F(t, b, p) == z3.If(b >= ch.t, t, z3.If(z3.Or(p > x, d(x) < R(0.4)), n, F(n, z3.If(d(x) < d(b), x, b), zmax(p, x))))
        x0 = X(t0.t)
        goal = z3.If(x0 >= ch.t, t0.t, F(t0.t, x0, x0))

        def inv(L):
            t, b, p = real(L.get('answer')), real(c.fname(L.get('closest_to_chroma'), '_chroma')), real(L.get('chroma_peak'))
            L.ctx.axiom(unfold(t, b, p), (F(t, b, p),))
            return [('the search from here ends where it has to', F(t, b, p) == goal)]
        c.loops[('MaterialDynamicColors', None, '_find_desired_chroma_by_tone')] = Spec(j, inv)
        outs = j.execute(c, j.fn('MaterialDynamicColors', '_find_desired_chroma_by_tone'), [hue, ch, t0, down], [p1, p2, p3])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'the tone the specified search ends at', real(o.val) == goal)
    js.append(Job('tone search', 'MaterialDynamicColors::_find_desired_chroma_by_tone', desired))
    return js
