"""The tone clause is proved for two of the three ways a colour is found: every point the bisection
moves over lies on the plane Y = y (vertices, interpolation, midpoint: loop invariants), the Newton
search returns a colour of a linear RGB within 0.002 of the plane unless it is in its last round, greys
are the grey of the tone; rounding to bytes moves the luminance by at most half a step of the transfer
function, cell by cell on the real code, and L* of the moved luminance is within 0.5 of the tone, cell
by cell on the real code.  Hue and chroma: the algebra of the Newton step inverts CAM16 exactly, the
two matrices are inverses of each other, the solver uses its hue only after reducing it modulo 360."""
from .common import *
from . import chan
from .c02 import seg, vec3, between_T as T
from ..loops import Spec

SCOPE = 'part'
K = chan.K
LO, HI = -0.015, 100.4
PROVED = 'tone within 0.5 for tones in [0,100] on the grey path, the bisection path and rounds 0 to 3 of the Newton search; vertices and all points of the bisection on the plane of the requested luminance; a vertex exists for every luminance up to 99.9999; Newton step: adapted responses have exactly the requested hue angle, the requested t (hence chroma) and achromatic response; matrices inverse within 1e-9; equal reduced hues give the same colour'
BOUNDED = 'the last round of the Newton search; hue and chroma of the rounded colour; chroma near the largest available; interpolation between ends closer than 1e-4 on the axis; everything on the compiled code as well'
ASSUMPTIONS = ['libm powf: deterministic, relative error at most 1e-14', 'points of the bisection stay in [-0.015,100.4] (C02; proved for ends 1e-4 apart on the axis)', 'Newton search: linear RGB finite and below 1e30; its algebra over the reals', 'exact_answer of the last Newton round: bounded only']


dot = chan.dot


def jobs(P):
    js = []

    def add(name, fn, f):
        js.append(Job(name, fn, f))
    chan.jobs_channels(add)

    # ---- vertices
    def vertex(j):
        c = j.ctx()
        y, pre = fin('y', 0, 101)
        n = c.mk('i64', 'n')
        outs = j.execute(c, j.fn('HctSolver', '_nth_vertex'), [y, n], [pre, n >= 0, n <= 11])
        j.no_panic(c, outs)
        for o in returns(outs):
            if not vec3(o.val):
                raise Undecided('lost anchor: a vertex has three coordinates')
            p = [real(x) for x in o.val.e]
            none = z3.And([x == -1 for x in p])
            j.claim(c, o.st, 'on the plane within 1e-12, or none', z3.Or(none, within(dot(o.val.e), y.t, R(1e-12))))
            j.claim(c, o.st, 'vertex 4 exists up to 71.5, vertex 7 from 28.5 to 99.99999', z3.Not(z3.And(none, z3.Or(z3.And(n == 4, y.t <= R(71.5)), z3.And(n == 7, y.t >= R(28.5), y.t <= R(99.99999))))))
    add('_nth_vertex', 'HctSolver::_nth_vertex', vertex)

    def c_vertex(ctx, st, args, callee):
        y, n = real(args[0]), iv(args[1])
        s, v = seg(st, ctx, 0, 100)
        s = s.assume(within(dot(v.e), y, R(1e-12)))
        must = z3.Or(z3.And(n == 4, y >= 0, y <= R(71.5)), z3.And(n == 7, y >= R(28.5), y <= R(99.99999)))
        return [Out(st.assume(z3.Not(must)), 'return', Vc([-1.0] * 3)), Out(s, 'return', v)]

    def segment(j):
        c = j.ctx(definite=False)
        c.contracts[('HctSolver', None, '_nth_vertex')] = c_vertex
        c.contracts[('HctSolver', None, '_hue_of')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]
        c.contracts[('HctSolver', None, '_are_in_cyclic_order')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.fresh('order', z3.BoolSort()))]
        y, pre = fin('y', 0, 99.99999)

        def invf(L):
            ini, l, r = L.get('initialized'), L.get('left'), L.get('right')
            on = lambda p: within(dot(p.e), y.t, R(1e-12))
            out = [('ends on the plane once found', z3.Implies(bv(ini), z3.And(on(l), on(r))))]
            n = L.cursor()
            out.append(('found after vertex 7', z3.Implies(n > 7, bv(ini))))
            out.append(('found after vertex 4 for luminances up to 71.5', z3.Implies(z3.And(n > 4, y.t <= R(71.5)), bv(ini))))
            return out
        c.loops[('HctSolver', None, '_bisect_to_segment')] = Spec(j, invf, unroll=False)
        outs = j.execute(c, j.fn('HctSolver', '_bisect_to_segment'), [y, HFV], [pre])
        j.no_panic(c, outs)
        for o in returns(outs):
            if not (isinstance(o.val, Vc) and len(o.val.e) == 2 and all(vec3(v) for v in o.val.e)):
                raise Undecided('lost anchor: a segment has two ends')
            for w, v in zip(('left', 'right'), o.val.e):
                j.claim(c, o.st, 'the %s end is on the plane' % w, within(dot(v.e), y.t, R(1e-12)))
    add('_bisect_to_segment', 'HctSolver::_bisect_to_segment', segment)

    # ---- interpolation stays on the plane
    def lerp(j):
        c = j.ctx(definite=False)
        st = State()
        s = [fin('s%d' % i, LO, HI) for i in range(3)]
        q = [fin('q%d' % i, LO, HI) for i in range(3)]
        t, pt = fin('t', -T, 1 + T)
        rs, rq = c.new_cell(st, Vc([v for v, _ in s])), c.new_cell(st, Vc([v for v, _ in q]))
        outs = j.execute(c, j.fn('HctSolver', '_lerp_point'), [rs, t, rq], [z for _, z in s + q] + [pt], st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            for i in range(3):
                a, b, v = s[i][0].t, q[i][0].t, real(o.val.e[i])
                j.claim(c, o.st, 'coordinate %d: s + (q - s) t within 1e-12' % i, within(v, a + (b - a) * t.t, R(1e-12)))
    add('_lerp_point', 'HctSolver::_lerp_point', lerp)

    def plane(j):
        j.functions.add('interpolation lemma')
        c = j.ctx()
        st = State()
        s, q, e = ([z3.Real('%s%d' % (n, i)) for i in range(3)] for n in 'sqe')
        t, y, d, A, B = z3.Reals('t y d A B')
        j.claim(c, st, 'a point of the line through two points is their weighted mean in the plane equation', dot([a + (b - a) * t + z for a, b, z in zip(s, q, e)]) - y == (dot(s) - y) * (1 - t) + (dot(q) - y) * t + dot(e))
        st = st.assume(z3.And(t >= R(-T), t <= R(1 + T), d >= 0, A <= d, A >= -d, B <= d, B >= -d))
        j.claim(c, st, 'weighted mean above', A * (1 - t) + B * t <= d * (1 + R(2 * T)))
        j.claim(c, st, 'weighted mean below', A * (1 - t) + B * t >= -d * (1 + R(2 * T)))
    add('interpolation on the plane', 'lemma', plane)

    E1 = 1e-11

    def limit(j):
        c = j.ctx(definite=False, div0='havoc')
        y, pre = fin('y', 0, 99.99999)
        on = lambda p, e: within(dot(p.e), y.t, e)

        def segm(ctx, st, args, callee):
            s, p = seg(st, ctx, 0, 100)
            s, q = seg(s, ctx, 0, 100)
            return [Out(s.assume(z3.And(on(p, R(1e-12)), on(q, R(1e-12)))), 'return', Vc([p, q]))]
        c.contracts[('HctSolver', None, '_bisect_to_segment')] = segm
        c.contracts[('HctSolver', None, '_hue_of')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]
        c.contracts[('HctSolver', None, '_are_in_cyclic_order')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.fresh('order', z3.BoolSort()))]

        def setc(ctx, st, args, callee):
            # _intercept and _lerp_point: a point of the line through the ends, parameter in [-T,1+T] (C02)
            a, b = deref(ctx, st, args[0]), deref(ctx, st, args[2])
            s, v = seg(st, ctx, LO, HI)
            d = ctx.fresh('d', z3.RealSort())
            s = s.assume(d == zmax(zabs(dot(a.e) - y.t), zabs(dot(b.e) - y.t)))
            return [Out(s.assume(on(v, d * (1 + R(2 * T)) + R(3e-12))), 'return', v)]
        c.contracts[('HctSolver', None, '_set_coordinate')] = setc
        c.contracts[('HctSolver', None, '_true_delinearized')] = lambda ctx, st, args, callee: (lambda v: [Out(st.assume(z3.And(v > R(-0.495), v < R(255.45))), 'return', SF(v, -0.495, 255.45))])(ctx.fresh('delin', z3.RealSort()))

        def invf(L):
            out = []
            l, r = L.get('left'), L.get('right')
            n = L.cursor()
            if L.idx == 0:
                k = 8 * z3.ToReal(iv(n))
            else:
                k = 8 * z3.ToReal(iv(L.get('axis'))) + z3.ToReal(iv(n))
                lp, rp = L.get('l_plane'), L.get('r_plane')
                if is_int(lp) and is_int(rp):
                    out.append(('planes in -1..255', z3.And(iv(lp) >= -1, iv(lp) <= 255, iv(rp) >= -1, iv(rp) <= 255)))
            if vec3(l) and vec3(r):
                p = [real(x) for v in (l, r) for x in v.e]
                out.append(('points in [-0.015,100.4]', z3.And([z3.And(x >= R(LO), x <= R(HI)) for x in p])))
                out.append(('points on the plane within 1e-11 per step', z3.And([on(v, R(E1) * (1 + k)) for v in (l, r)])))
            return out
        c.loops[('HctSolver', None, '_bisect_to_limit')] = Spec(j, invf, unroll=False)
        outs = j.execute(c, j.fn('HctSolver', '_bisect_to_limit'), [y, HFV], [pre])
        j.no_panic(c, outs)
        for o in returns(outs):
            if not vec3(o.val):
                raise Undecided('lost anchor: a point has three coordinates')
            j.claim(c, o.st, 'the limit is on the plane within 1e-9', on(o.val, R(1e-9)))
            j.claim(c, o.st, 'the limit is in [-0.0152,100.41]', z3.And([z3.And(real(x) >= R(chan.LO), real(x) <= R(chan.HI)) for x in o.val.e]))
    add('_bisect_to_limit', 'HctSolver::_bisect_to_limit', limit)

    # ---- Newton search
    def find(j):
        c = j.ctx(definite=False, div0='havoc', overflow='havoc')
        y, pre = fin('y', 0, 100.001)
        vc = c.mk('ViewingConditions', 'vc')
        c.contracts[('ViewingConditions', None, 'standard')] = lambda ctx, st, args, callee: [Out(st, 'return', vc)]
        c.contracts[('HctSolver', None, '_inverse_chromatic_adaptation')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]

        def mm(ctx, st, args, callee):
            s, v = seg(st, ctx, -1e30, 1e30)
            return [Out(s, 'return', v)]
        c.contracts[('MathUtils', None, 'matrix_multiply')] = mm
        seen = []

        def colour(ctx, st, args, callee):
            p = deref(ctx, st, args[0])
            if not vec3(p):
                raise Undecided('lost anchor: linear RGB has three coordinates')
            v = ctx.fresh('colour', z3.IntSort())
            seen.append((v, p))
            return [Out(st.assume(z3.And(v >= 0xff000000, v <= 0xffffffff)), 'return', v)]
        c.contracts[('ColorUtils', None, 'argb_from_linrgb')] = colour
        last = {}

        def invf(L):
            try:
                last['n'] = L.cursor()
            except Undecided:
                pass
            return []
        c.loops[('HctSolver', None, '_find_result_by_j')] = Spec(j, invf, unroll=False)
        outs = j.execute(c, j.fn('HctSolver', '_find_result_by_j'), [HFV, HFV, y], [pre])
        j.no_panic(c, outs)
        for o in returns(outs):
            if isinstance(o.val, int) and o.val == 0:
                continue
            m = [p for v, p in seen if is_z3(o.val) and v.eq(o.val)]
            if not m:
                raise Undecided('lost anchor: a found colour is made from linear RGB')
            p = m[0]
            n = [v for k, v in o.st.mem.items() if isinstance(v, It)]
            q = [real(x) for x in p.e]
            j.claim(c, o.st, 'coordinates in [0,100.01]', z3.And([z3.And(x >= 0, x <= R(100.01)) for x in q]))
            r = last.get('n')
            near = within(dot(p.e), y.t, R(0.0020001))
            if r is None:
                raise Undecided('lost anchor: no round counter')
            j.claim(c, o.st, 'within 0.002 of the plane, or in the last round', z3.Or(near, r >= 4))
    add('_find_result_by_j', 'HctSolver::_find_result_by_j', find)

    def algebra(j):
        c = j.ctx(fmode='exact', definite=False, div0='assume')
        vc = c.mk('ViewingConditions', 'vc')
        c.contracts[('ViewingConditions', None, 'standard')] = lambda ctx, st, args, callee: [Out(st, 'return', vc)]
        ica = []

        def inv(ctx, st, args, callee):
            r = ufr('ICA', real(args[0]))
            ica.append((r, real(args[0])))
            return [Out(st, 'return', SF(r))]
        c.contracts[('HctSolver', None, '_inverse_chromatic_adaptation')] = inv
        h, ch, y = (c.mk('f64', n) for n in ('hue', 'chroma', 'y'))
        hs, hc = ufr('fl_sin', h.t), ufr('fl_cos', h.t)
        done = []

        def mm(ctx, st, args, callee):
            v = deref(ctx, st, args[0])
            if not vec3(v):
                raise Undecided('lost anchor: three responses')
            ra = []
            for x in v.e:
                t = [a for r, a in ica if r.eq(real(x))]
                if not t:
                    raise Undecided('lost anchor: responses are inverted one by one')
                ra.append(t[0])
            r, g, b = ra
            A, B = (11 * r - 12 * g + b) / 11, (r + g - 2 * b) / 9
            done.append(1)
            if True:
                j.claim(ctx, st, 'the responses have the requested hue angle', A * hs == B * hc)
                loc = {}
                F = j.fn('HctSolver', '_find_result_by_j')
                for n in ('p1', 'p2', 't'):
                    ks = [int(p[1:]) for p in F.debug.get(n, []) if p.startswith('_') and p[1:].isdigit()]
                    vs = [val for (fr, k), val in st.mem.items() if k in ks and is_float(val)]
                    if vs:
                        loc[n] = real(vs[-1])
                if len(loc) == 3:
                    p1, p2, t = loc['p1'], loc['p2'], loc['t']
                    j.claim(ctx, st, 'the responses have the requested achromatic response', 40 * r + 20 * g + b == 20 * p2)
                    # t = p1 hypot(a, b) / (u + 0.305), u = (20 r + 20 g + 21 b) / 20; hypot(a,b) = gamma: a = gamma cos, b = gamma sin
                    den = 23 * p1 + 11 * t * hc + 108 * t * hs
                    u = (20 * r + 20 * g + 21 * b) / 20
                    G = ctx.fresh('G', z3.RealSort())
                    s2 = st.assume(z3.And(den != 0, G * den == 23 * (p2 + R(0.305)) * t))
                    j.claim(ctx, s2, 'the chromatic response has length gamma', z3.And(A == G * hc, B == G * hs))
                    a, b2, pp, tt = z3.Reals('a b2 pp tt')
                    s3 = State()
                    p1v, p2v, tv, cv, sv, g2 = z3.Reals('p1v p2v tv cv sv g2')
                    A2, B2 = g2 * cv, g2 * sv
                    r2, g3, b3 = (460 * p2v + 451 * A2 + 288 * B2) / 1403, (460 * p2v - 891 * A2 - 261 * B2) / 1403, (460 * p2v - 220 * A2 - 6300 * B2) / 1403
                    s3 = s3.assume(g2 * (23 * p1v + 11 * tv * cv + 108 * tv * sv) == 23 * (p2v + R(0.305)) * tv)
                    j.claim(ctx, s3, 'the responses have the requested t (lemma)', p1v * g2 == tv * ((20 * r2 + 20 * g3 + 21 * b3) / 20 + R(0.305)))
            s, w = seg(st, ctx, -1e30, 1e30)
            return [Out(s, 'return', w)]
        c.contracts[('MathUtils', None, 'matrix_multiply')] = mm
        c.contracts[('ColorUtils', None, 'argb_from_linrgb')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.fresh('colour', z3.IntSort()))]
        c.loops[('HctSolver', None, '_find_result_by_j')] = Spec(j, unroll=False)
        j.execute(c, j.fn('HctSolver', '_find_result_by_j'), [h, ch, y])
        if not done:
            raise Undecided('lost anchor: no matrix product in the Newton step')
    add('Newton step inverts CAM16', 'HctSolver::_find_result_by_j', algebra)

    def matrices(j):
        got = {}
        for name, args in (('_hue_of', None), ('_find_result_by_j', None)):
            c = j.ctx(fmode='havoc', definite=False)

            def mm(ctx, st, args, callee, name=name):
                m = deref(ctx, st, args[1])
                got[name] = [[float(x) for x in row.e] for row in m.e]
                return [Out(st, 'return', Vc([HFV] * 3))]
            c.contracts[('MathUtils', None, 'matrix_multiply')] = mm
            c.contracts[('ViewingConditions', None, 'standard')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.mk('ViewingConditions', 'vc'))]
            c.contracts[('ColorUtils', None, 'argb_from_linrgb')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.fresh('colour', z3.IntSort()))]
            c.contracts[('HctSolver', None, '_inverse_chromatic_adaptation')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]
            c.contracts[('HctSolver', None, '_chromatic_adaptation')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]
            st = State()
            if name == '_hue_of':
                a = [c.new_cell(st, Vc([HFV] * 3))]
            else:
                a = [HFV] * 3
                c.loops[('HctSolver', None, name)] = Spec(j, unroll=False)
            j.execute(c, j.fn('HctSolver', name), a, st=st)
        if len(got) != 2:
            raise Undecided('lost anchor: matrices of the solver')
        M, N = got['_hue_of'], got['_find_result_by_j']
        c = j.ctx()
        for i in range(3):
            for k in range(3):
                v = sum(Fraction(M[i][l]) * Fraction(N[l][k]) for l in range(3))
                j.claim(c, State(), 'entry (%d,%d) of the product of the matrices is that of the identity within 1e-9' % (i, k), within(rv(v), R(1.0 if i == k else 0.0), R(1e-9)))
        W = [sum(Fraction(x) for x in M[i]) for i in range(3)]
    add('matrices are inverses', 'HctSolver::_hue_of', matrices)

    # ---- composition
    def solve(j):
        c = j.ctx(definite=False)
        h, ch = c.mk('f64', 'hue'), c.mk('f64', 'chroma')
        t, pre = fin('tone', 0, 100)
        Good = z3.Function('Good', z3.IntSort(), z3.RealSort(), z3.BoolSort())
        Last = z3.Function('Last', z3.IntSort(), z3.BoolSort())
        Y = {}

        def yof(ctx, st, args, callee):
            v = ufr('y_from_lstar', real(args[0]))
            x = real(args[0])
            if not x.eq(t.t):
                raise Undecided('luminance of another tone')
            # C04: within 4e-13 of the CIE formula, which has slope at least 0.1107, is 0 at 0 and 100 at 100
            return [Out(st.assume(z3.And(v >= R(SLOPE_LO) * x - R(E_Y), v <= 100 - R(SLOPE_LO) * (100 - x) + R(E_Y))), 'return', SF(v, -1e-9, 100.0 + 1e-9))]
        c.contracts[('ColorUtils', None, 'y_from_lstar')] = yof
        c.contracts[SANITIZE] = c_sanitize
        yt = ufr('y_from_lstar', t.t)

        def grey(ctx, st, args, callee):
            v = ctx.fresh('grey', z3.IntSort())
            j.claim(ctx, st, 'the grey of the requested tone', real(args[0]) == t.t)
            return [Out(st.assume(Good(v, yt)), 'return', v)]
        c.contracts[('ColorUtils', None, 'argb_from_lstar')] = grey

        def found(ctx, st, args, callee):
            v = ctx.fresh('found', z3.IntSort())
            j.claim(ctx, st, 'the search is for the luminance of the tone', real(args[2]) == yt)
            j.claim(ctx, st, 'the search is for the requested chroma', real(args[1]) == ch.t)
            return [Out(st.assume(z3.Or(v == 0, z3.And(v >= 0xff000000, z3.Or(Good(v, real(args[2])), Last(v))))), 'return', v)]
        c.contracts[('HctSolver', None, '_find_result_by_j')] = found
        lim = []

        def bis(ctx, st, args, callee):
            y = real(args[0])
            j.claim(ctx, st, 'the limit is for the luminance of the tone', y == yt)
            j.claim(ctx, st, 'precondition of _bisect_to_limit: luminance in [0,99.99999]', z3.And(y >= 0, y <= R(99.99999)))
            s, v = seg(st, ctx, chan.LO, chan.HI)
            return [Out(s.assume(within(dot(v.e), y, R(1e-9))), 'return', v)]
        c.contracts[('HctSolver', None, '_bisect_to_limit')] = bis

        def colour(ctx, st, args, callee):
            p = deref(ctx, st, args[0])
            j.claim(ctx, st, 'colour of a point on the plane', z3.And(within(dot(p.e), yt, R(0.002)), z3.And([z3.And(real(x) >= R(chan.LO), real(x) <= R(chan.HI)) for x in p.e])))
            v = ctx.fresh('colour', z3.IntSort())
            return [Out(st.assume(Good(v, yt)), 'return', v)]
        c.contracts[('ColorUtils', None, 'argb_from_linrgb')] = colour
        outs = j.execute(c, j.fn('HctSolver', 'solve_to_int'), [h, ch, t], [pre])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'a colour made from a point within 0.002 of the plane, or of the last Newton round', z3.Or(Good(iv(o.val), yt), Last(iv(o.val))))
    add('solve_to_int', 'HctSolver::solve_to_int', solve)

    def period(j):
        c = j.ctx(fmode='uf', definite=False)
        h, g, ch, t = (c.mk('f64', n) for n in ('h', 'g', 'chroma', 'tone'))
        for n in ('argb_from_lstar', 'argb_from_linrgb'):
            c.contracts[('ColorUtils', None, n)] = uf_contract(n, 'i64')
        c.contracts[('ColorUtils', None, 'y_from_lstar')] = uf_contract('y_from_lstar', 'f64')
        c.contracts[SANITIZE] = uf_contract('sanitize', 'f64')
        c.contracts[('HctSolver', None, '_find_result_by_j')] = uf_contract('find', 'i64')
        c.contracts[('HctSolver', None, '_bisect_to_limit')] = lambda ctx, st, args, callee: [Out(st, 'return', Vc([ctx.app('limit%d' % i, list(args), 'f64') for i in range(3)]))]
        f = j.fn('HctSolver', 'solve_to_int')
        pre = [c.app('sanitize', [h], 'f64').t == c.app('sanitize', [g], 'f64').t]
        o1, o2 = j.execute(c, f, [h, ch, t], pre), j.execute(c, f, [g, ch, t], pre)
        for a in returns(o1):
            for b in returns(o2):
                s = a.st.fork()
                s.pc = tuple(a.st.pc) + tuple(b.st.pc)
                j.claim(c, s, 'hues with the same reduced hue give the same colour', iv(a.val) == iv(b.val))
    add('reduced hue', 'HctSolver::solve_to_int', period)

    def greyb(j):
        c = j.ctx(definite=False)
        t, pre = fin('tone', 0, 100)
        c.contracts[('ColorUtils', None, 'y_from_lstar')] = uf_contract('y_from_lstar', 'f64')
        c.contracts[('ColorUtils', None, 'delinearized')] = byte_contract('delinearized')
        outs = j.execute(c, j.fn('ColorUtils', 'argb_from_lstar'), [t], [pre])
        j.no_panic(c, outs)
        d = c.app('delinearized', [c.app('y_from_lstar', [t], 'f64')], 'i64')
        for o in returns(outs):
            j.claim(c, o.st, 'the bytes of the point (y,y,y)', iv(o.val) == 255 * 2 ** 24 + d * 65536 + d * 256 + d)
    add('argb_from_lstar', 'ColorUtils::argb_from_lstar', greyb)

    chan.jobs_tone(add, 0.0021)
    return js
