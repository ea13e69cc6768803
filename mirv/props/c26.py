"""CAM16 and its viewing conditions, executed with rounding error and interval/affine enclosures;
libm functions are enclosed within their assumed accuracy.  Channels enter as three linear
intensities in [0,100] (contract of linearized, C04)."""
import math
from .common import *
from ..stdmodel import some, NONE
from . import libmx

SCOPE = 'part'
PROVED = 'for every colour: from_int does not panic, hue in [0,360), chroma finite and not negative, J in [0,100+1e-6], M = C FL^0.25, J*, a*, b* the UCS coordinates of J, M and hue (1e-7), with rounding errors; from_jch keeps J, C, h with the same relations; from_ucs reproduces J*, M* and the angle of (a*, b*) within 1e-6 for J* in [0,101], |a*|, |b*| <= 150; distance symmetric, not negative, zero for equal coordinates; viewing conditions: defaults equal the published sRGB constants within 1e-8 however they are requested, background floored at 0.1, panic exactly for surrounds outside [0,2], adaptation factors between no and full adaptation for adapting luminance in [1e-3,1e5]; to_int and viewed convert the XYZ of the given conditions'
BOUNDED = 'converting back to the same integer and through XYZ (numeric inversion), all 2^24 colours in the thorough tier'
ASSUMPTIONS = [libmx.NOTE, 'contract of linearized: 0 or in [0.03,100] (C04, all 256 values)', 'contract of sanitize_degrees_double (proved in C03)']
PI = 3.141592653589793


def jobs(P):
    js = []

    def lin(c):
        """contract of ColorUtils::linearized (C04): in [0,100]"""
        def h(ctx, st, args, callee):
            v = ctx.app('linearized', [args[0]], 'f64')
            x = real(v)
            ctx.atom_b[x.get_id()] = (0.0, 100.0)
            ctx.atom_g[x.get_id()] = 0.03
            ctx.keep.append(x)
            ctx.axiom(z3.And(x >= 0, x <= 100), (x,))
            return [Out(st, 'return', SF(x, 0.0, 100.0))]
        c.contracts[('ColorUtils', None, 'linearized')] = h

    def atoms(c, t, *names):
        """enclosed libm results occurring in a term (outermost first), optionally by name"""
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in c.atom_b:
                if not names or x.decl().name() in names:
                    out.append(SF(x, *c.atom_b[x.get_id()]))
                continue
            stack.extend(x.children())
        return out

    def ucs(j, c, v, fl):
        V = {n: c.fname(v, n) for n in ('hue', 'chroma', 'j', 'm', 'jstar', 'astar', 'bstar')}
        f = {n: real(x) for n, x in V.items()}
        j.local(c, "J* = 1.7 J / (1 + 0.007 J)", within(f['jstar'] * (1 + R(0.007) * f['j']), R(1.7) * f['j'], R(1e-9)), atoms(c, f['j']))
        j.local(c, 'M = C FL^0.25', within(f['m'], f['chroma'] * real(fl), R(1e-9)), [V['chroma'], fl])
        ms = libmx.spec(c, 'LN', 1 + R(0.0228) * f['m'], 1.0)
        h = f['hue'] * R(PI) / 180
        tol = R(1e-10)
        for n, spec, fn in (('astar', 'COS', 'fl_cos'), ('bstar', 'SIN', 'fl_sin')):
            t = libmx.spec(c, spec, h, 1.0)
            la, ca = atoms(c, f[n], 'fl_ln'), atoms(c, f[n], fn)
            if len(la) != 1 or len(ca) != 1:
                raise Undecided('lost anchor: one logarithm and one %s in %s' % (fn, n))
            la, ca = la[0], ca[0]
            j.local(c, n + ': logarithm of M', within(la.t, ms, tol), [V['m']])
            j.local(c, n + ': direction of the hue', within(ca.t, t, tol), [V['hue']])
            j.local(c, n + ': product', within(R(0.0228) * f[n], la.t * ca.t, tol), [la, ca])
            x, y = z3.Real('ms'), z3.Real('dir')
            j.local(c, n + ': consistent with M and hue (lemma)', z3.Implies(z3.And(within(la.t, x, tol), within(ca.t, y, tol)), within(la.t * ca.t, x * y, R(1e-7))), [la, ca])
        return f

    def from_int(j):
        c = j.ctx()
        libmx.use(c)
        lin(c)
        c.contracts[SANITIZE] = c_sanitize
        st = State()
        vc = returns(j.execute(c, j.fn('ViewingConditions', 's_rgb'), []))
        if len(vc) != 1:
            raise Undecided('several results of s_rgb')
        a = c.mk('i64', 'a')
        ins = dict(a=a)
        rp = ('cam_all', args_i('a'))
        outs = j.execute(c, j.fn('Cam16', 'from_int'), [a])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            f = ucs(j, c, o.val, c.fname(vc[0].val, 'f_lroot'))
            j.claim(c, o.st, 'hue in [0,360)', z3.And(f['hue'] >= 0, f['hue'] < 360), ins, rp)
            j.local(c, 'chroma finite and not negative', z3.And(f['chroma'] >= 0, f['chroma'] <= 10 ** 6), [c.fname(o.val, 'chroma')])
            j.local(c, 'J in [0,100] within 1e-6', z3.And(f['j'] >= 0, f['j'] <= 100 + R(1e-6)), [c.fname(o.val, 'j')])
    js.append(Job('from_int', 'Cam16::from_int', from_int))

    # ---- viewing conditions
    W = (95.047, 100.0, 108.883)
    M16 = ((0.401288, 0.650173, -0.051461), (-0.250268, 1.204414, 0.045854), (-0.002079, 0.048952, 0.953127))
    RW = [sum(x * y for x, y in zip(r, W)) for r in M16]

    def reference():
        """CAM16 viewing conditions of sRGB, from the published formulas"""
        y50 = 100 * ((50 + 16) / 116) ** 3
        la = 200 / math.pi * y50 / 100
        f = 1.0
        d = f * (1 - 1 / 3.6 * math.exp((-la - 42) / 92))
        rgb = [d * 100 / w + 1 - d for w in RW]
        k4 = (1 / (5 * la + 1)) ** 4
        fl = k4 * la + 0.1 * (1 - k4) ** 2 * (5 * la) ** (1 / 3)
        n = y50 / 100
        nbb = 0.725 / n ** 0.2
        af = [(fl * x * w / 100) ** 0.42 for x, w in zip(rgb, RW)]
        ra = [400 * x / (x + 27.13) for x in af]
        return dict(adapting_luminance=la, background_lstar=50.0, surround=2.0, background_y_to_white_point_y=n, aw=(40 * ra[0] + 20 * ra[1] + ra[2]) / 20 * nbb, nbb=nbb, ncb=nbb, c=0.69, n_c=1.0, fl=fl, f_lroot=fl ** 0.25, z=1.48 + math.sqrt(n)), rgb

    def fields(c, v, name):
        x = c.fname(v, name)
        return x.e if isinstance(x, Vc) else [x]

    def defaults(j):
        c = j.ctx()
        libmx.use(c)
        none = lambda t: none_of(t)
        f = j.fn('ViewingConditions', 'make')
        runs = {}
        runs['s_rgb'] = j.execute(c, j.fn('ViewingConditions', 's_rgb'), [])
        runs['standard'] = j.execute(c, j.fn('ViewingConditions', 'standard'), [])
        runs['make without arguments'] = j.execute(c, f, [NONE] * 5)
        runs['make with the default values'] = j.execute(c, f, [some(Vc(W)), some(-1.0), some(50.0), some(2.0), some(False)])
        ref, rgb = reference()
        for nm, outs in runs.items():
            j.no_panic(c, outs)
            rs = returns(outs)
            if len(rs) != 1:
                raise Undecided('several results of ' + nm)
            v = rs[0].val
            for n, x in ref.items():
                y = c.fname(v, n)
                j.local(c, '%s: %s of the sRGB conditions' % (nm, n), within(R(y), R(x), R(1e-8)), atoms(c, real(y)) if isinstance(y, SF) else [])
            for n, xs in (('rgb_d', rgb), ('white_point', W)):
                y = c.fname(v, n).e
                for i in range(3):
                    j.local(c, '%s: %s[%d] of the sRGB conditions' % (nm, n, i), within(R(y[i]), R(xs[i]), R(1e-8)), atoms(c, real(y[i])) if isinstance(y[i], SF) else [])
            d = c.fname(v, 'discounting_illuminant')
            j.claim(c, rs[0].st, nm + ': no discounting', z3.Not(bv(d)))
    js.append(Job('viewing conditions: defaults', 'ViewingConditions::make', defaults))

    def make(j):
        c = j.ctx()
        libmx.use(c)
        al, p1 = libmx.var(c, 'al', 1e-3, 1e5)
        bg, p2 = libmx.var(c, 'bg', -1e4, 100.0)
        su, p3 = libmx.var(c, 'su', -100.0, 100.0)
        di = z3.Bool('di')
        ins = dict(al=al, bg=bg, su=su, di=di)
        rp = ('viewing', lambda m: [fenc(m['al']), fenc(m['bg']), fenc(min(max(m['su'], 0.0), 2.0)), fi(int(m['di']))])
        outs = j.execute(c, j.fn('ViewingConditions', 'make'), [NONE, some(al), some(bg), some(su), some(di)], [p1, p2, p3])
        out = z3.Or(su.t < 0, su.t > 2)
        for o in outs:
            if o.kind == 'panic' and o.val != 'unwind':
                j.claim(c, o.st, 'panics only for a surround outside [0,2]', out, ins, rp)
        for o in returns(outs):
            j.claim(c, o.st, 'a surround outside [0,2] is rejected', z3.Not(out), ins, rp)
            g = lambda n: c.fname(o.val, n)
            j.claim(c, o.st, 'background floored at 0.1', R(g('background_lstar')) == zmax(R(0.1), bg.t), ins, rp)
            j.claim(c, o.st, 'arguments kept', z3.And(R(g('surround')) == su.t, R(g('adapting_luminance')) == al.t, bv(g('discounting_illuminant')) == di), ins, rp)
            r = g('rgb_d').e
            for i in range(3):
                w = 100 / RW[i]
                lo, hi = min(1.0, w) - 1e-9, max(1.0, w) + 1e-9
                j.local(c, 'degree of adaptation within [0,1] (channel %d)' % i, z3.And(R(r[i]) >= R(lo), R(r[i]) <= R(hi)), atoms(c, real(r[i])) + [su, al], o.st.pc)
                j.claim(c, o.st, 'full adaptation when discounting (channel %d)' % i, z3.Implies(di, within(R(r[i]), R(w), R(1e-9))), ins, rp)
    js.append(Job('viewing conditions: make', 'ViewingConditions::make', make, budget=240))

    # ---- distance
    def distance(j):
        c = j.ctx(antisym=True)
        libmx.use(c)

        def cam(n):
            ps, kw = [], {}
            for k in ('jstar', 'astar', 'bstar'):
                kw[k], p = libmx.var(c, n + '.' + k, -300, 300)
                ps.append(p)
            return with_fields(c, c.mk('Cam16', n), **kw), ps
        (a, p), (b, q) = cam('a'), cam('b')
        st = State()
        ra, rb = c.new_cell(st, a), c.new_cell(st, b)
        f = j.fn('Cam16', 'distance')
        ab = j.execute(c, f, [ra, rb], p + q, st)
        ba = j.execute(c, f, [rb, ra], p + q, st)
        aa = j.execute(c, f, [ra, ra], p + q, st)
        for outs in (ab, ba, aa):
            j.no_panic(c, outs)
        for o in returns(ab):
            j.claim(c, o.st, 'not negative', R(o.val) >= 0)
            same = z3.And([real(c.fname(a, n)) == real(c.fname(b, n)) for n in ('jstar', 'astar', 'bstar')])
            j.claim(c, o.st, 'zero for equal coordinates', z3.Implies(same, R(o.val) == 0))
            for r in returns(ba):
                s = State()
                s.pc = o.st.pc + r.st.pc
                j.claim(c, s, 'symmetric', R(o.val) == R(r.val))
        for o in returns(aa):
            j.claim(c, o.st, 'zero from itself', R(o.val) == 0)
    js.append(Job('distance', 'Cam16::distance', distance))

    # ---- reconstruction
    def vcs(j, c):
        vc = returns(j.execute(c, j.fn('ViewingConditions', 's_rgb'), []))
        if len(vc) != 1:
            raise Undecided('several results of s_rgb')
        return vc[0].val

    def from_jch(j):
        c = j.ctx()
        c.div0 = 'havoc'
        libmx.use(c)
        vc = vcs(j, c)
        jj, p1 = libmx.var(c, 'J', 0.0, 100.0)
        ch, p2 = libmx.var(c, 'C', 0.0, 300.0)
        h, p3 = libmx.var(c, 'h', 0.0, 360.0)
        outs = j.execute(c, j.fn('Cam16', 'from_jch'), [jj, ch, h], [p1, p2, p3])
        j.no_panic(c, outs)
        for o in returns(outs):
            f = ucs(j, c, o.val, c.fname(vc, 'f_lroot'))
            j.claim(c, o.st, 'J, C and h kept', z3.And(f['j'] == jj.t, f['chroma'] == ch.t, f['hue'] == h.t))
    js.append(Job('from_jch', 'Cam16::from_jch', from_jch))

    def from_ucs(j):
        c = j.ctx()
        c.div0 = 'havoc'
        libmx.use(c)
        c.contracts[SANITIZE] = c_sanitize
        vc = vcs(j, c)
        jj, p1 = libmx.var(c, 'Js', 0.0, 101.0)
        a, p2 = libmx.var(c, 'as', -150.0, 150.0)
        b, p3 = libmx.var(c, 'bs', -150.0, 150.0)
        ins = dict(j=jj, a=a, b=b)
        rp = ('ucs_hue', args_f('j', 'a', 'b'))
        outs = j.execute(c, j.fn('Cam16', 'from_ucs'), [jj, a, b], [p1, p2, p3])
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            f = ucs(j, c, o.val, c.fname(vc, 'f_lroot'))
            V = c.fname(o.val, 'j')
            j.claim(c, o.st, 'hue in [0,360)', z3.And(f['hue'] >= 0, f['hue'] < 360), ins, rp)
            j.local(c, 'J from J*', within(f['j'] * (R(1.7) - R(0.007) * jj.t), jj.t, R(1e-9)), [jj])
            x, y, z = z3.Reals('J Js Js_out')
            st = State()
            st.pc = (x >= 0, x <= 200, y >= 0, y <= 101, z >= -1, z <= 200, within(x * (R(1.7) - R(0.007) * y), y, R(1e-9)), within(z * (1 + R(0.007) * x), R(1.7) * x, R(1e-9)))
            j.claim(c, st, 'J* reproduced (lemma)', within(y, z, R(1e-6)))
            sq = [t for t in apps(f['m'], 'fl_sqrt')]
            ex = [t for t in apps(f['m'], 'fl_exp')]
            if len(sq) != 1 or len(ex) != 1:
                raise Undecided('lost anchor: square root and exponential in M')
            j.local(c, 'M from the length of (a*, b*)', within(1 + R(0.0228) * f['m'], ex[0], R(1e-9)), [SF(ex[0], *c.atom_b[ex[0].get_id()])])
            le = libmx.spec(c, 'LN', ex[0], 1.0)
            j.local(c, 'M* from the length of (a*, b*)', within(le, R(0.0228) * sq[0], R(1e-9)), [SF(sq[0], 0.0, 213.0)])
            m2 = libmx.spec(c, 'LN', 1 + R(0.0228) * f['m'], 1.0)
            j.local(c, 'M* reproduced', within(m2, le, R(1e-8)), [SF(ex[0], *c.atom_b[ex[0].get_id()])])
            # direction: the hue is the angle of (a*, b*) modulo 360
            at = apps(f['hue'], 'fl_atan2') or [t for p in o.st.pc for t in apps(p, 'fl_atan2')]
            if not at:
                raise Undecided('lost anchor: angle of (a*, b*)')
            at = at[0]
            h = f['hue'] * R(PI) / 180
            s = State()
            s.pc = tuple(p for p in o.st.pc if apps(p, 'fl_atan2'))
            j.claim(c, s, 'hue is the angle of (a*, b*)', z3.Or([within(h, at + R(2 * PI) * n, R(1e-9)) for n in (-1, 0, 1)]))
            j.claim(c, o.st, 'angle taken of b* over a*', z3.And(at.arg(0) == b.t, at.arg(1) == a.t))
    js.append(Job('from_ucs', 'Cam16::from_ucs', from_ucs))

    # ---- composition
    def viewed(nm):
        def body(j):
            c = j.ctx('uf')
            c.contracts[('ViewingConditions', None, 's_rgb')] = uf_contract('s_rgb', 'ViewingConditions')
            c.contracts[('ViewingConditions', None, 'standard')] = uf_contract('s_rgb', 'ViewingConditions')

            def xyz(ctx, st, args, callee):
                a = [deref(ctx, st, x) for x in args[:2]]
                return [Out(st, 'return', Vc([ctx.app('xyz%d' % i, a, 'f64') for i in range(3)]))]
            c.contracts[('Cam16', None, 'xyz_in_viewing_conditions')] = xyz
            c.contracts[('ColorUtils', None, 'argb_from_xyz')] = uf_contract('argb_from_xyz', 'i64')
            r = c.mk('&Cam16', 'cam')
            args = [r]
            if nm == 'viewed':
                args.append(c.mk('&ViewingConditions', 'vc'))
                vc = c.load(State(), args[1])
            else:
                vc = c.app('s_rgb', [], 'ViewingConditions')
            v = c.load(State(), r)
            outs = j.execute(c, j.fn('Cam16', nm), args)
            j.no_panic(c, outs)
            want = c.app('argb_from_xyz', [c.app('xyz%d' % i, [v, vc], 'f64') for i in range(3)], 'i64')
            for o in returns(outs):
                j.claim(c, o.st, 'colour of the XYZ of the given conditions', iv(o.val) == iv(want))
        js.append(Job(nm, 'Cam16::' + nm, body))
    viewed('viewed')
    viewed('to_int')
    return js


def apps(t, name):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            out.append(x)
        stack.extend(x.children())
    return out
