"""get_tone on an arbitrary dynamic colour: its closures are uninterpreted functions of the scheme,
ratio_of_tones, foreground_tone, lighter and darker are uninterpreted functions with the ranges proved
in C05-C08 (ratio_of_tones symmetric), clamp_double its contract (C03).  The pair is decided
relationally: get_tone is executed for both roles of an arbitrary pair and the two results are
compared on every pair of paths."""
from .common import *

SCOPE = 'whole'
PROVED = 'every clause, for every base tone and background tone in [0,100], curve, level, delta in [0,40], polarity and darkness (tone differences within 1e-9)'
BOUNDED = '-'
ASSUMPTIONS = ['foreground_tone in [0,100] (proved in C08 for ratios in [1,21]); ratio_of_tones symmetric (C05); lighter and darker return -1 or a tone in [0,100] (C06)', 'background tones in [0,100] (follows from these contracts for roles with base tones in [0,100]); role closures are functions of the scheme', 'the names of the two roles of a pair differ and the role resolved is one of them']


def jobs(P):
    js = []

    def base(j):
        c = j.ctx(definite=True)
        c.contracts[CLAMP] = c_clamp
        s = c.mk('&DynamicScheme', 's')
        S = c.load(State(), s)

        def inrange(st, v, lo=0, hi=100):
            t = real(v)
            return [Out(st.assume(z3.And(t >= lo, t <= hi)), 'return', SF(t, float(lo), float(hi)))]
        app = lambda ctx, st, n, args: ctx.app(n, [deref(ctx, st, a) for a in args], 'f64')
        c.contracts[('DynamicColor', None, 'foreground_tone')] = lambda ctx, st, args, callee: inrange(st, app(ctx, st, 'foreground_tone', args))
        c.tone_of = lambda ctx, st, args, callee: inrange(st, app(ctx, st, 'tone of role', args))

        def ratio(ctx, st, args, callee):
            a, b = real(args[0]), real(args[1])
            v = ufr('ratio_of_tones', zmin(a, b), zmax(a, b))
            return [Out(st.assume(z3.And(v >= 1, v <= 22)), 'return', SF(v, 1.0, 22.0))]
        c.contracts[('Contrast', None, 'ratio_of_tones')] = ratio

        def solve(n):
            def h(ctx, st, args, callee):
                v = ufr(n, real(args[0]), real(args[1]))
                return [Out(st.assume(z3.Or(v == -1, z3.And(v >= 0, v <= 100))), 'return', SF(v, -1.0, 100.0))]
            return h
        for n in ('lighter', 'darker'):
            c.contracts[('Contrast', None, n)] = solve(n)

        def curve(ctx, st, args, callee):
            k = deref(ctx, st, args[0])
            return inrange(st, ctx.app('curve', [ctx.fname(k, n) for n in ('low', 'normal', 'medium', 'high')] + [args[1]], 'f64'), 0, 1000)
        c.contracts[('ContrastCurve', None, 'get')] = curve

        def absfn(ctx, st, f, args):
            if f.ret == 'f64':
                t = uf('call:f64', Obj, Obj, z3.RealSort())(f.base, ctx.term(args[0], st))
                return inrange(st, SF(t))
        c.hooks['absfn'] = absfn
        return c, s, S

    def closure(c, f, S, ty):
        return c.from_maker(ty, lambda sort, suf='': uf('call:' + ty + suf, Obj, Obj, sort)(f.base, c.term(S)))

    def view(c, d, S):
        """what the statement says about a role without a pair: (present tags, base tone, background tone, ratio)"""
        opt = lambda n: c.fname(d, n)
        some = lambda n: iv(opt(n).tag) == 1
        pay = lambda n: c.payload(opt(n), 'Some', 0, None)
        t = uf('call:f64', Obj, Obj, z3.RealSort())(c.fname(d, 'tone').base, c.term(S))

        def tone_of(n):
            return real(c.app('tone of role', [closure(c, pay(n), S, 'DynamicColor'), S], 'f64'))
        k = pay('contrast_curve')
        r = real(c.app('curve', [c.fname(k, n) for n in ('low', 'normal', 'medium', 'high')] + [c.fname(S, 'contrast_level')], 'f64'))
        return some, t, tone_of, r

    def recursive(c, fn):
        """the role under test is executed, the roles it calls by contract"""
        k = ('DynamicColor', None, 'get_tone')

        def h(ctx, st, args, callee):
            return c.tone_of(ctx, st, args, callee)
        c.contracts[k] = h

    def single(j):
        c, s, S = base(j)
        r = c.mk('&DynamicColor', 'd')
        d = c.load(State(), r)
        some, t, tone_of, ratio = view(c, d, S)
        recursive(c, None)
        level = real(c.fname(S, 'contrast_level'))
        fg = lambda b: real(c.app('foreground_tone', [SF(b), SF(ratio)], 'f64'))
        rat = lambda a, b: ufr('ratio_of_tones', zmin(a, b), zmax(a, b))
        isbg = bv(c.fname(d, 'is_background'))
        for has2 in (None, False, True):
            pre = [z3.Not(some('tone_delta_pair'))]
            if has2 is None:
                pre.append(z3.Not(some('background')))
            else:
                pre += [some('background'), some('contrast_curve'), some('second_background') == has2]
            outs = j.execute(c, j.fn('DynamicColor', 'get_tone'), [r, s], pre)
            j.no_panic(c, outs)
            for o in returns(outs):
                v = real(o.val)
                if has2 is None:
                    j.claim(c, o.st, 'without background: the base tone', v == t)
                    continue
                b = tone_of('background')
                keep = z3.And(level >= 0, rat(b, t) >= ratio)
                first = z3.If(keep, t, fg(b))
                zone = z3.And(first >= 50, first < 60, isbg)
                moved = z3.If(zone, z3.If(rat(R(49.0), b) >= ratio, R(49.0), R(60.0)), first)
                if not has2:
                    j.claim(c, o.st, 'keeps a base tone that is good enough', z3.Implies(z3.And(keep, z3.Not(zone)), v == t))
                    j.claim(c, o.st, 'takes the foreground tone otherwise', z3.Implies(z3.And(z3.Not(keep), z3.Not(zone)), v == fg(b)))
                    j.claim(c, o.st, 'background roles are moved out of the awkward zone', z3.Implies(zone, z3.And(v == moved, z3.Not(z3.And(v >= 50, v < 60)))))
                    j.claim(c, o.st, 'in [0,100]', z3.And(v >= 0, v <= 100))
                    continue
                b2 = tone_of('second_background')
                up, lo = zmax(b, b2), zmin(b, b2)
                good = z3.And(rat(up, moved) >= ratio, rat(lo, moved) >= ratio)
                li, da = ufr('lighter', up, ratio), ufr('darker', lo, ratio)
                rnd = lambda x: z3.If(x >= 0, z3.ToInt(x + R(0.5)), -z3.ToInt(-x + R(0.5))) < 60
                pref = z3.Or(rnd(b), rnd(b2))
                want = z3.If(good, moved, z3.If(pref, z3.If(li < 0, R(100.0), li), z3.If(z3.And(li >= 0, da < 0), li, z3.If(da < 0, R(0.0), da))))
                j.claim(c, o.st, 'two backgrounds: the first choice if it reaches the ratio on both, else the lighter or darker solution', v == want)
    js.append(Job('no pair', 'DynamicColor::get_tone', single))

    def pair(dark, isnear, stay, dec):
      def body(j):
        c, s, S = base(j)
        recursive(c, None)
        # two roles with the same pair and the same background
        st0 = State()
        A = c.mk('DynamicColor', 'da')
        B = with_fields(c, A, name=c.mk('String', 'nameb'), tone=c.fname(c.mk('DynamicColor', 'db'), 'tone'), contrast_curve=c.fname(c.mk('DynamicColor', 'db'), 'contrast_curve'))
        ra, rb = c.new_cell(st0, A), c.new_cell(st0, B)
        some = lambda d, n: iv(c.fname(d, n).tag) == 1
        pay = lambda d, n: c.payload(c.fname(d, n), 'Some', 0, None)
        pr = closure(c, pay(A, 'tone_delta_pair'), S, 'ToneDeltaPair')
        g = lambda n: c.fname(pr, n)
        na, nb = c.fname(g('role_a'), 'name'), c.fname(g('role_b'), 'name')
        delta = real(g('delta'))
        isd = bv(c.fname(S, 'is_dark'))
        vs = c.variants('TonePolarity')
        pol = iv(g('polarity').tag)
        near = z3.Or(pol == vs.index('Nearer'), z3.And(pol == vs.index('Lighter'), z3.Not(isd)), z3.And(pol == vs.index('Darker'), isd))
        pre = [some(A, 'tone_delta_pair'), some(A, 'background'), delta >= 0, delta <= 40,
               c.term(na) != c.term(nb), c.term(c.fname(A, 'name')) == c.term(na), c.term(c.fname(B, 'name')) == c.term(nb),
               some(g('role_a'), 'contrast_curve'), some(g('role_b'), 'contrast_curve'), isd == dark, near == isnear, bv(g('stay_together')) == stay, (real(c.fname(S, 'contrast_level')) < 0) == dec]
        oa = j.execute(c, j.fn('DynamicColor', 'get_tone'), [ra, s], pre, st0)
        j.no_panic(c, oa)
        d = 1 if dark else -1
        tol = R(1e-9)
        zone = lambda x: z3.And(x >= 50, x < 60)
        ins = dict(delta=SF(delta), near=near)
        oa = returns(oa)
        ob = j.execute(c, j.fn('DynamicColor', 'get_tone'), [rb, s], pre, st0)
        j.no_panic(c, ob)
        ob = returns(ob)
        neg = lambda l: l.arg(0) if z3.is_not(l) else z3.Not(l)
        for x, nm in ((oa, 'first'), (ob, 'second')):
            for o in x:
                v = real(o.val)
                j.claim(c, o.st, nm + ' role in [0,100] and outside [50,60)', z3.And(v >= 0, v <= 100, z3.Not(zone(v))), ins)
        for o in oa:
            no = {neg(l).get_id() for l in o.st.pc}
            for q in ob:
                if any(l.get_id() in no for l in q.st.pc):
                    continue        # one path takes a branch the other does not
                st = o.st
                for l in q.st.pc:
                    if not any(l.eq(m) for m in o.st.pc):
                        st = st.assume(l)
                v, w = real(o.val), real(q.val)
                n, f = (v, w) if isnear else (w, v)
                j.claim(c, st, 'apart by the delta, away from the background', (f - n) * d >= delta - tol, dict(ins, n=SF(n), f=SF(f)))
      js.append(Job('pair, %s, first role %s%s%s' % ('dark' if dark else 'light', 'nearer' if isnear else 'farther', ', together' if stay else '', ', reduced contrast' if dec else ''), 'DynamicColor::get_tone', body, budget=200))
    for k in range(16):
        pair(bool(k & 1), bool(k & 2), bool(k & 4), bool(k & 8))
    return js
