"""Conversions run in totality mode (every float operation may return any of the 2^64 values, NaN
included): the result is opaque and nothing panics.  The solver: the grey cases are exact, the Newton
search returns 0 or an opaque colour, the bisection indexes its table in bounds, given the ranges of
the points it moves between; tones at or below 0 and at or above 100 are solved to black and white."""
from .common import *
from ..loops import Spec
from .libmx import powf as powx

SCOPE = 'part'
PROVED = 'delinearized is a byte and argb_from_rgb/linrgb/xyz/lab/lstar return an opaque colour without panicking for all 2^64 values of each argument; solve_to_int gives argb_from_lstar(tone) exactly when chroma < 0.0001, tone < 0.0001 or tone > 99.9999 and an opaque colour otherwise; argb_from_lstar is a grey, black for tones in [-1e90,0], white for tones in [100,1e90]; the Newton search returns 0 or an opaque colour and never panics; the bisection returns three coordinates and never panics, given that the points between two vertices stay in [-0.015,100.4]; the vertices lie in the cube'
BOUNDED = 'that interpolated points stay in [-0.015,100.4] when the two ends differ by less than 1e-4 on the axis (proved for larger differences); tones beyond 1e90; all clauses on the compiled code as well'
ASSUMPTIONS = ['libm powf: deterministic, relative error at most 1e-14, never panics', 'interpolated points of the bisection stay in [-0.015,100.4] (proved for ends 1e-4 apart, bounded otherwise)']

BLACK, WHITE = 0xff000000, 0xffffffff
LO, HI = -0.015, 100.4
between_T = 2e-5


def opaque(t):
    return z3.And(iv(t) >= BLACK, iv(t) <= WHITE)


def c_opaque(name):
    def h(ctx, st, args, callee):
        v = ctx.fresh(name, z3.IntSort())
        return [Out(st.assume(opaque(v)), 'return', v)]
    return h


def c_byte(ctx, st, args, callee):
    v = ctx.fresh('byte', z3.IntSort())
    ctx._setbits(v, 0, 8)
    return [Out(st.assume(z3.And(v >= 0, v <= 255)), 'return', v)]


def seg(st, ctx, lo, hi, n=3):
    e = []
    for _ in range(n):
        t = ctx.fresh('p', z3.RealSort())
        st = st.assume(z3.And(t >= R(lo), t <= R(hi)))
        e.append(SF(t, float(lo), float(hi)))
    return st, Vc(e)


def vec3(v):
    return isinstance(v, Vc) and len(v.e) == 3


def jobs(P):
    js = []

    def add(name, f):
        js.append(Job(name, 'lemma' if ' ' in name else name, f))

    def delin(j):
        c = j.ctx(fmode='havoc')
        outs = j.execute(c, j.fn('ColorUtils', 'delinearized'), [c.mk('f64', 'x')])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'a byte', z3.And(iv(o.val) >= 0, iv(o.val) <= 255))
    add('delinearized', delin)

    def conv(name, n, vec=False):
        def body(j):
            c = j.ctx(fmode='havoc', definite=False)
            c.contracts[('ColorUtils', None, 'delinearized')] = c_byte
            a = [c.mk('f64', 'x%d' % i) for i in range(n)]
            outs = j.execute(c, j.fn('ColorUtils', name), [Vc(a)] if vec else a)
            j.no_panic(c, outs)
            for o in returns(outs):
                j.claim(c, o.st, 'opaque', opaque(o.val))
                if name == 'argb_from_lstar':
                    v = iv(o.val)
                    j.claim(c, o.st, 'grey', z3.And((v / 65536) % 256 == v % 256, (v / 256) % 256 == v % 256))
        add(name, body)
    conv('argb_from_xyz', 3)
    conv('argb_from_lab', 3)
    conv('argb_from_lstar', 1)
    conv('argb_from_linrgb', 3, True)

    def ends(j, lo, hi, want, what):
        c = j.ctx(libm={'powf': powx})
        L, pre = fin('L', lo, hi)
        ins, rp = dict(L=L), ('special', args_f('L'))
        outs = j.execute(c, j.fn('ColorUtils', 'argb_from_lstar'), [L], [pre])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, what, iv(o.val) == want)
    for lo, hi in ((-1e90, -1e3), (-1e3, 0)):
        js.append(Job('black below 0 [%g,%g]' % (lo, hi), 'ColorUtils::argb_from_lstar', lambda j, lo=lo, hi=hi: ends(j, lo, hi, BLACK, 'black')))
    for lo, hi in ((100, 101), (101, 1e3), (1e3, 1e90)):
        js.append(Job('white from 100 [%g,%g]' % (lo, hi), 'ColorUtils::argb_from_lstar', lambda j, lo=lo, hi=hi: ends(j, lo, hi, WHITE, 'white')))

    def solve(j):
        c = j.ctx(fmode='uf', definite=False)
        h, ch, t = (c.mk('f64', n) for n in ('hue', 'chroma', 'tone'))
        ins, rp = dict(h=h, c=ch, t=t), ('solve_wild', args_f('h', 'c', 't'))
        grey = lambda ctx, st, args, callee: [Out(st.assume(opaque(ctx.app('argb_from_lstar', args, 'i64'))), 'return', ctx.app('argb_from_lstar', args, 'i64'))]
        c.contracts[('ColorUtils', None, 'argb_from_lstar')] = grey
        c.contracts[('ColorUtils', None, 'argb_from_linrgb')] = c_opaque('linrgb')
        c.contracts[('ColorUtils', None, 'y_from_lstar')] = uf_contract('y_from_lstar', 'f64')
        c.contracts[SANITIZE] = uf_contract('sanitize', 'f64')

        def find(ctx, st, args, callee):
            v = ctx.fresh('found', z3.IntSort())
            return [Out(st.assume(z3.Or(v == 0, opaque(v))), 'return', v)]
        c.contracts[('HctSolver', None, '_find_result_by_j')] = find
        c.contracts[('HctSolver', None, '_bisect_to_limit')] = lambda ctx, st, args, callee: (lambda s: [Out(s[0], 'return', s[1])])(seg(st, ctx, LO, HI))
        outs = j.execute(c, j.fn('HctSolver', 'solve_to_int'), [h, ch, t])
        j.no_panic(c, outs, ins, rp)
        isgrey = z3.Or(real(ch) < R(0.0001), real(t) < R(0.0001), real(t) > R(99.9999))
        for o in returns(outs):
            j.claim(c, o.st, 'opaque', opaque(o.val), ins, rp)
            j.claim(c, o.st, 'the grey of the tone when chroma < 0.0001, tone < 0.0001 or tone > 99.9999', z3.Implies(isgrey, iv(o.val) == c.app('argb_from_lstar', [t], 'i64')), ins, rp)
    add('solve_to_int', solve)

    def total(j):
        # any float arguments, NaN and infinities included
        c = j.ctx(fmode='havoc', definite=False)
        a = [c.mk('f64', n) for n in ('hue', 'chroma', 'tone')]
        for n in ('argb_from_lstar', 'argb_from_linrgb'):
            c.contracts[('ColorUtils', None, n)] = c_opaque(n)
        c.contracts[('HctSolver', None, '_find_result_by_j')] = c_opaque('found')
        c.contracts[('HctSolver', None, '_bisect_to_limit')] = lambda ctx, st, args, callee: [Out(st, 'return', Vc([ctx.mk('f64', 'b%d' % i) for i in range(3)]))]
        outs = j.execute(c, j.fn('HctSolver', 'solve_to_int'), a)
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'opaque', opaque(o.val))
    add('solve_to_int of any floats', total)

    def find(j):
        c = j.ctx(fmode='havoc', definite=False)
        c.contracts[('ColorUtils', None, 'argb_from_linrgb')] = c_opaque('linrgb')
        c.contracts[('ViewingConditions', None, 'standard')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.mk('ViewingConditions', 'vc'))]
        c.contracts[('HctSolver', None, '_inverse_chromatic_adaptation')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.mk('f64', 'inv'))]
        c.loops[('HctSolver', None, '_find_result_by_j')] = Spec(j, unroll=False)
        outs = j.execute(c, j.fn('HctSolver', '_find_result_by_j'), [c.mk('f64', n) for n in 'hcy'])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, '0 or an opaque colour', z3.Or(iv(o.val) == 0, opaque(o.val)))
    add('_find_result_by_j', find)

    def inv(j):
        c = j.ctx(fmode='havoc')
        outs = j.execute(c, j.fn('HctSolver', '_inverse_chromatic_adaptation'), [c.mk('f64', 'x')])
        j.no_panic(c, outs)
    add('_inverse_chromatic_adaptation', inv)

    def hue(j):
        c = j.ctx(fmode='havoc')
        st = State()
        r = c.new_cell(st, Vc([c.mk('f64', 'x%d' % i) for i in range(3)]))
        outs = j.execute(c, j.fn('HctSolver', '_hue_of'), [r], st=st)
        j.no_panic(c, outs)
    add('_hue_of', hue)

    def vertex(j):
        c = j.ctx()
        y, pre = fin('y', 0, 101)
        n = c.mk('i64', 'n')
        outs = j.execute(c, j.fn('HctSolver', '_nth_vertex'), [y, n], [pre, n >= 0, n <= 11])
        j.no_panic(c, outs)
        for o in returns(outs):
            v = o.val
            p = [real(x) for x in v.e]
            if len(p) != 3:
                raise Undecided('lost anchor: a vertex has three coordinates')
            j.claim(c, o.st, 'in the cube, or -1 everywhere', z3.Or(z3.And([x == -1 for x in p]), z3.And([z3.And(x >= 0, x <= 100) for x in p])))
    add('_nth_vertex', vertex)

    def c_vertex(ctx, st, args, callee):
        n = iv(args[1])
        outs = [Out(st, 'return', Vc([-1.0] * 3))]
        s, v = seg(st, ctx, 0, 100)
        outs.append(Out(s, 'return', v))
        return outs

    def good(p, q):
        """both ends in the cube, or both -1"""
        p, q = [real(x) for x in p.e], [real(x) for x in q.e]
        return z3.Or(z3.And([x == -1 for x in p + q]), z3.And([z3.And(x >= 0, x <= 100) for x in p + q]))

    def segment(j):
        c = j.ctx(definite=False)
        c.contracts[('HctSolver', None, '_nth_vertex')] = c_vertex
        c.contracts[('HctSolver', None, '_hue_of')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]
        c.contracts[('HctSolver', None, '_are_in_cyclic_order')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.fresh('order', z3.BoolSort()))]

        def invf(L):
            vs = [v for v in (L.st.mem.get((L.fr, k)) for k in sorted(k for (f, k) in L.chg if f == L.fr and isinstance(k, int))) if vec3(v)]
            ini = L.get('initialized')
            l, r = L.get('left'), L.get('right')
            one = lambda p: z3.And([z3.And(real(x) >= 0, real(x) <= 100) for x in p.e])
            none = lambda p: z3.And([real(x) == -1 for x in p.e])
            return [('ends in the cube once found', z3.If(bv(ini), z3.And(one(l), one(r)), z3.And(none(l), none(r))))]
        c.loops[('HctSolver', None, '_bisect_to_segment')] = Spec(j, invf, unroll=False)
        outs = j.execute(c, j.fn('HctSolver', '_bisect_to_segment'), [c.mk('f64', 'y'), HFV])
        j.no_panic(c, outs)
        for o in returns(outs):
            if not (isinstance(o.val, Vc) and len(o.val.e) == 2 and all(vec3(v) for v in o.val.e)):
                raise Undecided('lost anchor: a segment has two ends')
            j.claim(c, o.st, 'two ends in the cube, or none', good(*o.val.e))
    add('_bisect_to_segment', segment)

    def tdelin(j, lo, hi):
        c = j.ctx(libm={'powf': powx})
        x, pre = fin('x', lo, hi)
        outs = j.execute(c, j.fn('HctSolver', '_true_delinearized'), [x], [pre])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'between -0.495 and 255.45', z3.And(R(o.val) > R(-0.495), R(o.val) < R(255.45)))
    for lo, hi in ((LO, 0.31), (0.31, HI)):
        js.append(Job('_true_delinearized[%g,%g]' % (lo, hi), 'HctSolver::_true_delinearized', lambda j, lo=lo, hi=hi: tdelin(j, lo, hi)))

    def between(x, p, q):
        d = R(1e-9)
        return z3.And(zabs(q - p) >= R(1e-4), z3.Or(z3.And(x >= p - d, x <= q + d), z3.And(x >= q - d, x <= p + d)))
    T = between_T

    def icept(j):
        c = j.ctx()
        (s, a), (x, b), (t, d) = fin('s', LO, HI), fin('x', -0.02, HI), fin('t', LO, HI)
        outs = j.execute(c, j.fn('HctSolver', '_intercept'), [s, x, t], [a, b, d, between(x.t, s.t, t.t)])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'a parameter in [0,1] up to 2e-5', z3.And(R(o.val) >= R(-T), R(o.val) <= R(1 + T)))
    add('_intercept', icept)

    def setc(j, ax):
        c = j.ctx(definite=False)

        def ic(ctx, st, args, callee):
            s, x, t = (real(a) for a in args)
            if not j.claim(ctx, st, 'precondition of _intercept', between(x, s, t)):
                raise Undecided('precondition of _intercept')
            v = ctx.fresh('t', z3.RealSort())
            return [Out(st.assume(z3.And(v >= R(-T), v <= R(1 + T))), 'return', SF(v, -T, 1 + T))]
        c.contracts[('HctSolver', None, '_intercept')] = ic
        st = State()
        lo, hi = LO + 0.01, HI - 0.01
        s = [fin('s%d' % i, lo, hi) for i in range(3)]
        t = [fin('t%d' % i, lo, hi) for i in range(3)]
        x, px = fin('x', -0.02, HI)
        rs, rt = c.new_cell(st, Vc([v for v, _ in s])), c.new_cell(st, Vc([v for v, _ in t]))
        p, q = s[ax][0].t, t[ax][0].t
        pre = [z for _, z in s + t] + [px, between(x.t, p, q)]
        outs = j.execute(c, j.fn('HctSolver', '_set_coordinate'), [rs, x, rt, ax], pre, st=st)
        j.no_panic(c, outs)
        # the parameter is in [0,1] up to 1e-5; a weighted mean of the ends stays between them up to 1e-5*100
        for o in returns(outs):
            p3 = [real(v) for v in o.val.e]
            for i in range(3):
                j.claim(c, o.st, 'axis %d, coordinate %d: within 0.003 of the range of the ends' % (ax, i), z3.And(p3[i] >= zmin(s[i][0].t, t[i][0].t) - R(0.003), p3[i] <= zmax(s[i][0].t, t[i][0].t) + R(0.003)))
    for ax in range(3):
        js.append(Job('_set_coordinate[%d]' % ax, 'HctSolver::_set_coordinate', lambda j, ax=ax: setc(j, ax)))

    def limit(j):
        c = j.ctx(definite=False, div0='havoc')

        def segm(ctx, st, args, callee):
            s, p = seg(st, ctx, 0, 100)
            s, q = seg(s, ctx, 0, 100)
            return [Out(s, 'return', Vc([p, q])), Out(st, 'return', Vc([Vc([-1.0] * 3), Vc([-1.0] * 3)]))]
        c.contracts[('HctSolver', None, '_bisect_to_segment')] = segm
        c.contracts[('HctSolver', None, '_hue_of')] = lambda ctx, st, args, callee: [Out(st, 'return', HFV)]
        c.contracts[('HctSolver', None, '_are_in_cyclic_order')] = lambda ctx, st, args, callee: [Out(st, 'return', ctx.fresh('order', z3.BoolSort()))]
        c.contracts[('HctSolver', None, '_set_coordinate')] = lambda ctx, st, args, callee: (lambda s: [Out(s[0], 'return', s[1])])(seg(st, ctx, LO, HI))

        def td(ctx, st, args, callee):
            x = real(args[0])
            if not j.claim(ctx, st, 'precondition of _true_delinearized: a coordinate in [-0.015,100.4]', z3.And(x >= R(LO), x <= R(HI))):
                raise Undecided('precondition of _true_delinearized')
            v = ctx.fresh('delin', z3.RealSort())
            return [Out(st.assume(z3.And(v > R(-0.495), v < R(255.45))), 'return', SF(v, -0.495, 255.45))]
        c.contracts[('HctSolver', None, '_true_delinearized')] = td

        def invf(L):
            out = []
            vs = [L.st.mem.get(k) for k in L.chg if k[0] == L.fr] if L.chg else []
            pts = []
            for n in ('left', 'right'):
                try:
                    pts.append(L.get(n))
                except Undecided:
                    pass
            for n in ('l_plane', 'r_plane'):
                try:
                    v = L.get(n)
                except Undecided:
                    continue
                if is_int(v):
                    out.append(('planes in -1..255', z3.And(iv(v) >= -1, iv(v) <= 255)))
            if len(pts) == 2 and all(vec3(v) for v in pts):
                p = [real(x) for v in pts for x in v.e]
                rng = z3.And([z3.And(x >= R(LO), x <= R(HI)) for x in p])
                # an inner loop is entered with two different ends only
                out.append(('points in [-0.015,100.4], or both -1', z3.Or(z3.And([x == -1 for x in p]), rng)) if L.idx == 0 else ('points in [-0.015,100.4]', rng))
            return out
        c.loops[('HctSolver', None, '_bisect_to_limit')] = Spec(j, invf, unroll=False)
        outs = j.execute(c, j.fn('HctSolver', '_bisect_to_limit'), [c.mk('f64', 'y'), HFV])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'three coordinates', z3.BoolVal(vec3(o.val)))
    add('_bisect_to_limit', limit)
    return js
