"""Wu quantizer.  Indices are base-33 numbers; the histogram loop accumulates per cell (sum over the
entries of the colour map); the cumulative loops compute the prefix sums M(r,g,b) (nested loop
invariants over line, area and moment arrays); volume/top/bottom are inclusion-exclusion of M, hence
exact box sums (additive, unit boxes are cells); cut splits a box in two; create_boxes keeps boxes
disjoint and covering; create_result pushes one rounded mean per box with weight."""
from .common import *
from ..loops import Spec

SCOPE = 'whole'
PROVED = 'cell indices are injective base-33 numbers; each cell of the four integer histograms is the sum over the counted colours that fall in it and cells with a zero coordinate are empty; compute_moments turns each table into its prefix sums (nested loop invariants); volume is the inclusion-exclusion of the prefix sums and bottom+top that of the part below the position, box sums are additive, unit boxes are cells, box sums of non-negative cells are non-negative and at least each cell; no i64 overflow for up to 2^31 pixels; maximize finds no cut or one inside the box with pixels on both sides; cut splits one box in two and leaves the others alone, or changes nothing; maximize returns the plane of the highest score and cut takes the best of the three directions, failing only if no plane has pixels on both sides; create_boxes keeps the boxes disjoint, inside and covering the table, makes between 1 and max of them, always splits the box of greatest variance, terminates, and makes fewer than max only if every box is a single cell, has no positive variance or cannot be split; create_result returns one opaque colour per box with pixels, each channel the mean rounded to the nearest integer; quantize composes these and its keys are exactly those colours'
BOUNDED = 'the end-to-end statement on generated images, as a second line of defence'
ASSUMPTIONS = ['sums over boxes: the induction steps in each direction are discharged, the induction over naturals that combines them is not (bounds 0..2^31*255 of box sums are preconditions of the table functions)', 'the counts of the colour map are positive and sum to at most 2^31 (C19)', 'the iteration order of a hash map visits every key once', 'the variance of a box with pixels is a finite number (its value only steers which box is cut next)']

T = 2 ** 31 * 255            # no box sum of 2^31 pixels exceeds this
N = 35937
FIELDS = (('weights', 'line', 'area'), ('moments_r', 'line_r', 'area_r'), ('moments_g', 'line_g', 'area_g'), ('moments_b', 'line_b', 'area_b'))
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
I3 = [z3.IntSort()] * 4


def idx(r, g, b):
    return 1089 * r + 33 * g + b


def in32(*xs):
    return z3.And([z3.And(x >= 0, x <= 32) for x in xs])


def wu(c, st, **kw):
    v = c.mk('QuantizerWu', 'wu')
    f = {}
    for n, _, _ in FIELDS:
        f[n] = SVec(z3.IntVal(N), z3.Const('wu.' + n, AI), 'i64')
    f['moments'] = SVec(z3.IntVal(N), z3.Const('wu.moments', z3.ArraySort(z3.IntSort(), z3.RealSort())), 'f64')
    f.update(kw)
    v = with_fields(c, v, **f)
    return c.new_cell(st, v), v


def box(c, name):
    v = c.mk('WuBox', name)
    cs = {n: c.mk('i64', name + '.' + n) for n in ('r0', 'r1', 'g0', 'g1', 'b0', 'b1', 'vol')}
    pre = [in32(*(cs[n] for n in ('r0', 'r1', 'g0', 'g1', 'b0', 'b1'))), cs['r0'] <= cs['r1'], cs['g0'] <= cs['g1'], cs['b0'] <= cs['b1']]
    return with_fields(c, v, **cs), pre


def coords(c, v):
    return {n: iv(c.fname(v, n)) for n in ('r0', 'r1', 'g0', 'g1', 'b0', 'b1')}


def V(m, x):
    """inclusion-exclusion over the cumulative function m"""
    f = lambda r, g, b: m(x['r' + r], x['g' + g], x['b' + b])
    return f('1', '1', '1') - f('1', '1', '0') - f('1', '0', '1') + f('1', '0', '0') - f('0', '1', '1') + f('0', '1', '0') + f('0', '0', '1') - f('0', '0', '0')


def ctx_div(c, x, w):
    return SF(ufr('fl_Div', real(x), z3.ToReal(w)))


def fadd(c, x, y):
    x, y = real(x), real(y)
    if x.get_id() > y.get_id():
        x, y = y, x
    return SF(ufr('fl_Add', x, y))


def jobs(P):
    js = []

    def add(name, f, budget=120):
        js.append(Job(name, 'lemma' if ' ' in name else 'QuantizerWu::' + name, f, budget))

    def index(j):
        c = j.ctx()
        r, g, b = (c.mk('i64', n) for n in 'rgb')
        outs = j.execute(c, j.fn('QuantizerWu', 'get_index'), [r, g, b], [in32(r, g, b)])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'base-33 number of the cell', iv(o.val) == idx(r, g, b))
            j.claim(c, o.st, 'inside the tables', z3.And(iv(o.val) >= 0, iv(o.val) < N))
        x, y, z = z3.Ints('x y z')
        st = State()
        st.pc = (in32(r, g, b, x, y, z), idx(r, g, b) == idx(x, y, z))
        j.claim(c, st, 'different cells have different indices', z3.And(r == x, g == y, b == z))
    add('get_index', index)

    def c_index(ctx, st, args, callee):
        r, g, b = (iv(a) for a in args)
        if not ctx.valid(st, in32(r, g, b)):
            raise Undecided('precondition of get_index: coordinates in 0..32')
        return [Out(st, 'return', idx(r, g, b))]

    def base(j, **kw):
        c = j.ctx(fmode='uf', definite=False, **kw)
        c.contracts[('QuantizerWu', None, 'get_index')] = c_index
        return c

    def hist(j):
        c = base(j)
        st = State()
        ref, v = wu(c, st)
        m = HM('i64', 'i64', z3.Const('pix@has', z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const('pix@val', AI), c.mk('i64', 'pix#'))
        X = z3.Int('X')
        RGB = z3.Ints('R G B')
        k = z3.Int('q!k')
        ch = lambda p, s: (p / 2 ** s) % 256
        cell = lambda p: idx(ch(p, 16) / 8 + 1, ch(p, 8) / 8 + 1, ch(p, 0) / 8 + 1)
        S = {n: uf('hist ' + n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n, _, _ in FIELDS}
        weight = {'weights': lambda p: 1, 'moments_r': lambda p: ch(p, 16), 'moments_g': lambda p: ch(p, 8), 'moments_b': lambda p: ch(p, 0)}
        pre = [z3.ForAll([k], z3.Implies(m.has[k], z3.And(m.val[k] >= 1, m.val[k] <= 2 ** 31)), patterns=[m.val[k]]), iv(m.n) >= 0, iv(m.n) <= 2 ** 24]

        def keys(L):
            (_, ks, pos, n) = c.enums[-1]
            return ks, n

        def inv(L):
            i = L.cursor()
            s = c.load(L.st, ref)
            out = []
            for n, _, _ in FIELDS:
                out.append((n + ' is the sum over the entries so far', z3.Implies(z3.And(X >= 0, X < N), z3.Select(c.fname(s, n).arr, X) == S[n](i, X))))
                out.append((n + ' is zero at cells with a zero coordinate', z3.Implies(z3.And(in32(*RGB), z3.Or([x == 0 for x in RGB])), z3.Select(c.fname(s, n).arr, idx(*RGB)) == 0)))
                out.append((n + ' keeps its length', iv(c.fname(s, n).n) == N))
            out.append(('moments keeps its length', iv(c.fname(s, 'moments').n) == N))
            return out

        def facts(L):
            ks, n = keys(L)
            i = L.cursor()
            p = ks[i]
            out = [m.has[p], m.val[p] >= 1, m.val[p] <= 2 ** 31]
            for f in S:
                for x in (X, cell(p)):
                    out += [S[f](i + 1, x) == S[f](i, x) + z3.If(cell(p) == x, weight[f](p) * m.val[p], 0), S[f](0, x) == 0, S[f](i, x) >= 0, S[f](i, x) <= T]
            # bits of a colour
            return [z3.Implies(i < n, z3.And(out))]

        def at(L):
            ks, n = keys(L)
            return [(cell(ks[L.cursor()]),) + tuple(RGB)]
        for f in S:
            c.axiom(S[f](0, X) == 0)
        c.loops[('QuantizerWu', None, 'construct_histogram')] = Spec(j, inv, forall=(X,) + tuple(RGB), at=at, facts=facts)
        outs = j.execute(c, j.fn('QuantizerWu', 'construct_histogram'), [ref, m], pre, st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            s = c.load(o.st, ref)
            n = c.enums[-1][3]
            for f in S:
                j.claim(c, o.st, f + ': every cell holds the sum over all entries', z3.Implies(z3.And(X >= 0, X < N), z3.Select(c.fname(s, f).arr, X) == S[f](n, X)))
                j.claim(c, o.st, f + ': cells with a zero coordinate are empty', z3.Implies(z3.And(in32(*RGB), z3.Or([x == 0 for x in RGB])), z3.Select(c.fname(s, f).arr, idx(*RGB)) == 0))
    add('construct_histogram', hist)

    # ---- cumulative sums
    R_, G_, B_ = z3.Ints('R G B')
    LI = {n: uf('line ' + n, *I3) for n, _, _ in FIELDS}
    AR = {n: uf('area ' + n, *I3) for n, _, _ in FIELDS}
    M = {n: uf('M ' + n, *I3) for n, _, _ in FIELDS}
    H = {n: (lambda r, g, b, n=n: z3.Select(z3.Const('wu.' + n, AI), idx(r, g, b))) for n, _, _ in FIELDS}

    def defs(f, r, g, b):
        """definition of the prefix sums at (r,g,b) >= 1, and their bounds"""
        li, ar, m = LI[f], AR[f], M[f]
        out = [li(r, g, b) == li(r, g, b - 1) + H[f](r, g, b), li(r, g, 0) == 0, ar(r, g, b) == ar(r, g - 1, b) + li(r, g, b), ar(r, 0, b) == 0, m(r, g, b) == m(r - 1, g, b) + ar(r, g, b), m(0, g, b) == 0]
        for t in (li(r, g, b), li(r, g, b - 1), ar(r, g, b), ar(r, g - 1, b), m(r, g, b), m(r - 1, g, b)):
            out.append(z3.And(t >= 0, t <= T))
        return out

    def moments(j):
        c = base(j)
        st = State()
        ref, v = wu(c, st)
        pre = []
        # the arrays before the loops, for an arbitrary cell
        for f, _, _ in FIELDS:
            pre.append(z3.Implies(z3.And(in32(R_, G_, B_), z3.Or(R_ == 0, G_ == 0, B_ == 0)), H[f](R_, G_, B_) == 0))

        def inv(L):
            s = c.load(L.st, ref)
            i = L.cursor()
            ok = z3.And(R_ >= 1, G_ >= 1, B_ >= 1, in32(R_, G_, B_))
            zero = z3.And(in32(R_, G_, B_), z3.Or(R_ == 0, G_ == 0, B_ == 0))
            out = []
            if L.idx == 0:
                r, done = i, R_ < i
                rng = z3.And(i >= 1, i <= 33)
            elif L.idx == 1:
                r, g = iv(L.get('r')), i
                done = z3.Or(R_ < r, z3.And(R_ == r, G_ < g))
                rng = z3.And(r >= 1, r <= 32, i >= 1, i <= 33)
            else:
                r, g, b = iv(L.get('r')), iv(L.get('g')), i
                done = z3.Or(R_ < r, z3.And(R_ == r, z3.Or(G_ < g, z3.And(G_ == g, B_ < b))))
                rng = z3.And(r >= 1, r <= 32, g >= 1, g <= 32, i >= 1, i <= 33)
            out.append(('cursors in range', rng))
            for f, ln, an in FIELDS:
                w = c.fname(s, f)
                out.append((f + ': cumulative where done, histogram elsewhere', z3.Implies(ok, w.arr[idx(R_, G_, B_)] == z3.If(done, M[f](R_, G_, B_), H[f](R_, G_, B_)))))
                out.append((f + ': zero at cells with a zero coordinate', z3.Implies(zero, w.arr[idx(R_, G_, B_)] == 0)))
                out.append((f + ' keeps its length', iv(w.n) == N))
                if L.idx > 0:
                    a = L.get(an)
                    el = lambda k: a.arr[k] if isinstance(a, SVec) else iv(c.elem(L.st, a, k))
                    out.append((an + ' holds the areas', z3.Implies(z3.And(B_ >= 1, B_ <= 32), el(B_) == (AR[f](r, g - 1, B_) if L.idx == 1 else z3.If(B_ < b, AR[f](r, g, B_), AR[f](r, g - 1, B_))))))
                    out.append((an + ' keeps its length', iv(a.n if isinstance(a, SVec) else len(a.e)) == 33))
                if L.idx > 1:
                    out.append((ln + ' is the line sum', iv(L.get(ln)) == LI[f](r, g, b - 1)))
            out.append(('moments keeps its length', iv(c.fname(s, 'moments').n) == N))
            if L.idx > 0:
                a = L.get('area2')
                out.append(('area2 keeps its length', iv(a.n if isinstance(a, SVec) else len(a.e)) == 33))
            return out

        def cur(L):
            i = L.cursor()
            if L.idx == 0:
                return i, G_, B_
            if L.idx == 1:
                return iv(L.get('r')), i, B_
            return iv(L.get('r')), iv(L.get('g')), i

        def at(L):
            r, g, b = cur(L)
            return [(r, g, b), (r - 1, g, b)] if L.idx == 2 else []

        def facts(L):
            return sum([defs(f, *cur(L)) for f, _, _ in FIELDS], [])
        c.loops[('QuantizerWu', None, 'compute_moments')] = Spec(j, inv, forall=(R_, G_, B_), at=at, facts=facts, unroll=False)
        outs = j.execute(c, j.fn('QuantizerWu', 'compute_moments'), [ref], pre, st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            s = c.load(o.st, ref)
            for f, _, _ in FIELDS:
                j.claim(c, o.st, f + ': every cell holds the cumulative sum', z3.Implies(z3.And(R_ >= 1, G_ >= 1, B_ >= 1, in32(R_, G_, B_)), c.fname(s, f).arr[idx(R_, G_, B_)] == M[f](R_, G_, B_)))
    add('compute_moments', moments, 300)

    def prefix(j):
        # the inclusion-exclusion of the prefix sums is the box sum: additive, and a unit box is a cell
        c = j.ctx()
        j.functions.add('prefix sums (specification)')
        f = 'weights'
        m, ar, li = M[f], AR[f], LI[f]
        r, g, b = z3.Ints('r g b')
        st = State()
        rec = []
        for dg in (0, 1):
            for db in (0, 1):
                rec.append(m(r, g - dg, b - db) == m(r - 1, g - dg, b - db) + ar(r, g - dg, b - db))
        for db in (0, 1):
            rec.append(ar(r, g, b - db) == ar(r, g - 1, b - db) + li(r, g, b - db))
        rec.append(li(r, g, b) == li(r, g, b - 1) + H[f](r, g, b))
        st.pc = tuple(rec)
        x = dict(r0=r - 1, r1=r, g0=g - 1, g1=g, b0=b - 1, b1=b)
        j.claim(c, st, 'a unit box holds its cell', V(m, x) == H[f](r, g, b))
        y = {k: z3.Int(k) for k in ('r0', 'r1', 'g0', 'g1', 'b0', 'b1')}
        p = z3.Int('p')
        for d in 'rgb':
            lo, hi = dict(y), dict(y)
            lo[d + '1'] = p
            hi[d + '0'] = p
            j.claim(c, State(), 'splitting a box in direction %s splits its sum' % d, V(m, y) == V(m, lo) + V(m, hi))
            e = dict(y)
            e[d + '1'] = e[d + '0']
            j.claim(c, State(), 'a box that is empty in direction %s holds nothing' % d, V(m, e) == 0)
        # zero planes, by induction: base and step
        for nm, hyp, goal in (('area at blue 0', [ar(r, g - 1, 0) == 0, li(r, g, 0) == 0, ar(r, g, 0) == ar(r, g - 1, 0) + li(r, g, 0)], ar(r, g, 0) == 0),
                              ('sum at blue 0', [m(r - 1, g, 0) == 0, ar(r, g, 0) == 0, m(r, g, 0) == m(r - 1, g, 0) + ar(r, g, 0)], m(r, g, 0) == 0),
                              ('sum at green 0', [m(r - 1, 0, b) == 0, ar(r, 0, b) == 0, m(r, 0, b) == m(r - 1, 0, b) + ar(r, 0, b)], m(r, 0, b) == 0)):
            st = State()
            st.pc = tuple(hyp)
            j.claim(c, st, 'zero planes, induction step: ' + nm, goal)
        # box sums of non-negative cells are not negative (so they grow with the box and are at most the whole): induction steps
        un = lambda b_: dict(r0=r - 1, r1=r, g0=g - 1, g1=g, b0=y['b0'], b1=b_)
        st = State()
        st.pc = tuple(rec) + (V(m, un(b - 1)) >= 0, H[f](r, g, b) >= 0)
        j.claim(c, st, 'not negative, induction step in blue', V(m, un(b)) >= 0)
        ro = lambda g0, g1: dict(r0=r - 1, r1=r, g0=g0, g1=g1, b0=y['b0'], b1=y['b1'])
        st = State()
        st.pc = (V(m, ro(y['g0'], g)) >= 0, V(m, ro(g, g + 1)) >= 0)
        j.claim(c, st, 'not negative, induction step in green', V(m, ro(y['g0'], g + 1)) >= 0)
        pl = lambda r0, r1: dict(y, r0=r0, r1=r1)
        st = State()
        st.pc = (V(m, pl(y['r0'], r)) >= 0, V(m, pl(r, r + 1)) >= 0)
        j.claim(c, st, 'not negative, induction step in red', V(m, pl(y['r0'], r + 1)) >= 0)
        full = {k: z3.IntVal(32 if k[1] == '1' else 0) for k in y}
        zero = [m(*[z3.IntVal(v) for v in t]) == 0 for t in ((32, 32, 0), (32, 0, 32), (32, 0, 0), (0, 32, 32), (0, 32, 0), (0, 0, 32), (0, 0, 0))]
        st = State()
        st.pc = tuple(zero)
        j.claim(c, st, 'the whole table is the last prefix sum', V(m, full) == m(z3.IntVal(32), z3.IntVal(32), z3.IntVal(32)))
        # a box around a cell holds at least the cell: cut it down in six steps
        box_, steps, hyp = dict(y), [], []
        for d, q in zip('rgb', (r, g, b)):
            for e, pos in (('1', q), ('0', q - 1)):
                rest, keep = dict(box_), dict(box_)
                rest[d + ('0' if e == '1' else '1')] = pos
                keep[d + e] = pos
                hyp.append(V(m, rest) >= 0)
                box_ = keep
        st = State()
        st.pc = tuple(rec) + tuple(hyp)
        j.claim(c, st, 'a box holds at least each of its cells', V(m, y) >= H[f](r, g, b))
    add('prefix sums', prefix)

    def arr(c, name='moment'):
        return SVec(z3.IntVal(N), z3.Const(name, AI), 'i64', eb=(0, T))

    def vol(j):
        c = base(j)
        v, pre = box(c, 'cube')
        a = arr(c)
        outs = j.execute(c, j.fn('QuantizerWu', 'volume'), [v, a], pre)
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'inclusion-exclusion of the cumulative table', iv(o.val) == V(lambda r, g, b: a.arr[idx(r, g, b)], coords(c, v)))
    add('volume', vol)

    DIRS = {'Red': 'r', 'Green': 'g', 'Blue': 'b'}

    def halves(j, d):
        c = base(j)
        v, pre = box(c, 'cube')
        a = arr(c)
        m = lambda r, g, b: a.arr[idx(r, g, b)]
        x = coords(c, v)
        p = c.mk('i64', 'position')
        ds = c.P.enums.get('Direction')
        if ds is None or d not in ds:
            raise Undecided('lost anchor: no direction ' + d)
        dv = En('Direction', list(ds).index(d))
        outs = j.execute(c, j.fn('QuantizerWu', 'bottom'), [v, dv, a], pre)
        j.no_panic(c, outs)
        for o in returns(outs):
            pre2 = [p >= 0, p <= 32]
            st = o.st
            for q in pre2:
                st = st.assume(q)
            os2 = j.execute(c, j.fn('QuantizerWu', 'top'), [v, dv, p, a], (), st=st)
            j.no_panic(c, os2)
            lo = dict(x)
            lo[DIRS[d] + '1'] = p
            for o2 in returns(os2):
                j.claim(c, o2.st, 'bottom and top give the sum of the part below the position', iv(o.val) + iv(o2.val) == V(m, lo))
    for d in DIRS:
        js.append(Job('bottom and top ' + d, 'QuantizerWu::bottom, top', lambda j, d=d: halves(j, d)))

    def sq(j):
        c = j.ctx(fmode='round')
        x = [c.mk('i64', n) for n in 'rgb']
        b = 2 ** 45
        outs = j.execute(c, j.fn('QuantizerWu', 'squared_norm'), x, [z3.And(y >= -b, y <= b) for y in x])
        j.no_panic(c, outs)
        t = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
        for o in returns(outs):
            v = R(o.val)
            j.claim(c, o.st, 'not negative', v >= 0)
            j.claim(c, o.st, 'at least 1 unless all sums are 0', z3.Implies(z3.Or([y != 0 for y in x]), v >= R(0.5)))
            j.claim(c, o.st, 'the sum of squares, rounded', within(v, z3.ToReal(t), R(2.0 ** -52) * z3.ToReal(t)))
    add('squared_norm', sq)

    def c_sq(ctx, st, args, callee):
        b = 2 ** 45
        if not ctx.valid(st, z3.And([z3.And(iv(a) >= -b, iv(a) <= b) for a in args])):
            raise Undecided('precondition of squared_norm')
        v = ctx.app('squared_norm', [iv(a) for a in args], 'f64')
        return [Out(st.assume(real(v) >= 0), 'return', v)]

    def c_volume(ctx, st, args, callee):
        x = coords(ctx, deref(ctx, st, args[0]))
        a = deref(ctx, st, args[1])
        if not ctx.valid(st, z3.And(in32(*x.values()), x['r0'] <= x['r1'], x['g0'] <= x['g1'], x['b0'] <= x['b1'])):
            raise Undecided('precondition of volume: a box inside the table')
        v = V(lambda r, g, b: a.arr[idx(r, g, b)], x)
        return [Out(st.assume(z3.And(v >= 0, v <= T)), 'return', v)]

    def fields(c):
        return {n: arr(c, 'wu.' + n) for n, _, _ in FIELDS}

    def maxi(j, d):
        c = base(j)
        c.contracts[('QuantizerWu', None, 'squared_norm')] = c_sq
        st = State()
        fs = fields(c)
        ref, wv = wu(c, st, **fs)
        v, pre = box(c, 'cube')
        x = coords(c, v)
        first, last = x[DIRS[d] + '0'] + 1, x[DIRS[d] + '1']
        whole = [c.mk('i64', 'whole_' + n) for n in 'rgbw']
        pre += [z3.And(w >= 0, w <= T) for w in whole]
        ds = list(c.P.enums.get('Direction') or ())
        if d not in ds:
            raise Undecided('lost anchor: no direction ' + d)
        part = lambda f, p: V(lambda r, g, b: fs[f].arr[idx(r, g, b)], dict(x, **{DIRS[d] + '1': p}))
        ok = lambda k: z3.And(k >= first, k < last, part('weights', k) != 0, whole[3] - part('weights', k) != 0)

        SC = uf('score of the plane ' + d, z3.IntSort(), z3.RealSort())
        K = z3.Int('K')
        order = ('moments_r', 'moments_g', 'moments_b')

        def score(k):
            lo = c.app('squared_norm', [part(f, k) for f in order], 'f64')
            hi = c.app('squared_norm', [whole[i] - part(f, k) for i, f in enumerate(order)], 'f64')
            q = lambda x, w: ctx_div(c, x, w)
            return real(fadd(c, q(lo, part('weights', k)), q(hi, whole[3] - part('weights', k))))

        def inv(L):
            cut, mx = iv(L.get('cut')), real(L.get('max'))
            return [('no cut yet, or a cut inside the box that separates pixels', z3.Or(z3.And(cut == -1, mx == 0), z3.And(mx > 0, ok(cut)))),
                    ('the maximum is the score of the cut', z3.Implies(cut >= 0, SC(cut) == mx)),
                    ('no plane so far scores higher', z3.Implies(z3.And(ok(K), K < L.cursor()), SC(K) <= mx))]

        def facts(L):
            i = L.cursor()
            return [SC(i) == score(i)]
        c.loops[('QuantizerWu', None, 'maximize')] = Spec(j, inv, forall=(K,), facts=facts)
        outs = j.execute(c, j.fn('QuantizerWu', 'maximize'), [ref, v, En('Direction', ds.index(d)), first, last] + whole, pre, st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            k, mx = iv(c.fname(o.val, 'cut_location')), real(c.fname(o.val, 'maximum'))
            j.claim(c, o.st, 'no cut, or a cut inside the box that separates pixels', z3.Or(z3.And(k == -1, mx == 0), z3.And(mx > 0, ok(k))))
            j.claim(c, o.st, 'the maximum is the score of the cut', z3.Implies(k >= 0, SC(k) == mx))
            j.claim(c, o.st, 'no plane with pixels on both sides scores higher', z3.Implies(ok(K), SC(K) <= mx))
    for d in DIRS:
        js.append(Job('maximize ' + d, 'QuantizerWu::maximize', lambda j, d=d: maxi(j, d)))

    def valid(c, t, vol=False):
        x = coords(c, t)
        f = z3.And(in32(*x.values()), x['r0'] <= x['r1'], x['g0'] <= x['g1'], x['b0'] <= x['b1'])
        return f

    def volume_of(x):
        return (x['r1'] - x['r0']) * (x['g1'] - x['g0']) * (x['b1'] - x['b0'])

    def inside(c, t, p):
        x = coords(c, t)
        return z3.And([z3.And(p[i] > x[d + '0'], p[i] <= x[d + '1']) for i, d in enumerate('rgb')])

    PT = z3.Ints('Pr Pg Pb')
    AO = z3.ArraySort(z3.IntSort(), Obj)

    def cubes(c, n):
        c.project.add('WuBox')
        return SVec(n, z3.Const('cubes', AO), 'WuBox')

    def at_(c, a, k):
        return c.wrap('WuBox', z3.Select(a, k))

    def splits(c, old, one, two):
        x, y, z = coords(c, old), coords(c, one), coords(c, two)
        alts = []
        for d in 'rgb':
            alts.append(z3.And([y[k] == x[k] for k in x if k != d + '1'] + [z[k] == x[k] for k in x if k != d + '0'] + [y[d + '1'] == z[d + '0'], y[d + '1'] > x[d + '0'], y[d + '1'] < x[d + '1']]))
        return z3.Or(alts)

    LOC = {d: uf('best plane ' + d, Obj, z3.IntSort()) for d in 'rgb'}
    MAXI = {d: uf('best score ' + d, Obj, z3.RealSort()) for d in 'rgb'}
    VAR = uf('variance of the box', Obj, z3.RealSort())

    def no_plane(b):
        return z3.And([MAXI[d](b) == 0 for d in 'rgb'])

    def best_split(c, old, b, one, two):
        """split at the plane of the highest score in the direction of the highest score"""
        x, y, z = coords(c, old), coords(c, one), coords(c, two)
        alts = []
        for d in 'rgb':
            alts.append(z3.And([y[k] == x[k] for k in x if k != d + '1'] + [z[k] == x[k] for k in x if k != d + '0'] + [y[d + '1'] == LOC[d](b), z[d + '0'] == LOC[d](b)] + [MAXI[d](b) >= MAXI[e](b) for e in 'rgb'] + [MAXI[d](b) > 0]))
        return z3.Or(alts)

    def cut(j):
        c = base(j)
        c.contracts[('QuantizerWu', None, 'volume')] = c_volume
        st = State()
        n = c.mk('i64', 'n')
        cv = cubes(c, n)
        ref, wv = wu(c, st, cubes=cv, **fields(c))
        one, two, K = c.mk('usize', 'one'), c.mk('usize', 'two'), z3.Int('K')
        old = at_(c, cv.arr, one)

        def mx(ctx, s, args, callee):
            x = coords(ctx, deref(ctx, s, args[1]))
            d = args[2]
            first, last = iv(args[3]), iv(args[4])
            if not isinstance(d.tag, int):
                raise Undecided('maximize in an unknown direction')
            k = DIRS[list(ctx.P.enums['Direction'])[d.tag]]
            pre = z3.And(valid(ctx, deref(ctx, s, args[1])), first == x[k + '0'] + 1, last == x[k + '1'], *[z3.And(iv(w) >= 0, iv(w) <= T) for w in args[5:]])
            if not ctx.valid(s, pre):
                raise Undecided('precondition of maximize')
            if not ctx.valid(s, ctx.term(deref(ctx, s, args[1]), s) == cv.arr[one]):
                raise Undecided('maximize of another box')
            l, m = LOC[k](cv.arr[one]), MAXI[k](cv.arr[one])
            v = with_fields(ctx, ctx.mk('MaximizeResult', str(l)), cut_location=l, maximum=SF(m))
            return [Out(s.assume(z3.Or(z3.And(l == -1, m == 0), z3.And(m > 0, l >= first, l < last))), 'return', v)]
        c.contracts[('QuantizerWu', None, 'maximize')] = mx
        outs = j.execute(c, j.fn('QuantizerWu', 'cut'), [ref, one, two], [n >= 1, n < 2 ** 40, one >= 0, one < n, two >= 0, two < n, one != two, valid(c, old)], st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            a = c.fname(c.load(o.st, ref), 'cubes')
            ok = bv(o.val)
            j.claim(c, o.st, 'no cut: the boxes are unchanged', z3.Implies(z3.Not(ok), a.arr[K] == cv.arr[K]))
            y, z = at_(c, a.arr, one), at_(c, a.arr, two)
            j.claim(c, o.st, 'a cut splits the box in two across one direction', z3.Implies(ok, splits(c, old, y, z)))
            j.claim(c, o.st, 'the cut is the best plane of all three directions', z3.Implies(ok, best_split(c, old, cv.arr[one], y, z)))
            j.claim(c, o.st, 'no cut only if no plane in any direction has pixels on both sides', z3.Implies(z3.Not(ok), no_plane(cv.arr[one])))
            for w, t in (('first', y), ('second', z)):
                j.claim(c, o.st, 'size of the %s part' % w, z3.Implies(ok, iv(c.fname(t, 'vol')) == volume_of(coords(c, t))))
            j.claim(c, o.st, 'other boxes are unchanged', z3.Implies(z3.And(K != one, K != two), a.arr[K] == cv.arr[K]))
            j.claim(c, o.st, 'as many boxes as before', iv(a.n) == n)
    add('cut', cut)

    def split_lemma(j):
        c = j.ctx()
        j.functions.add('splitting a box (specification)')
        old, one, two = (box(c, n)[0] for n in ('old', 'one', 'two'))
        st = State()
        st.pc = (valid(c, old), splits(c, old, one, two))
        j.claim(c, st, 'the parts are boxes', z3.And(valid(c, one), valid(c, two)))
        j.claim(c, st, 'the parts are disjoint and make up the box', z3.And(inside(c, old, PT) == z3.Or(inside(c, one, PT), inside(c, two, PT)), z3.Not(z3.And(inside(c, one, PT), inside(c, two, PT)))))
        # pixels in two cells of a box lie on two sides of some plane (each part of a box holds at least the cells in it)
        h = uf('cell weight', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        p, q = z3.Ints('p1 p2 p3'), z3.Ints('q1 q2 q3')
        w = uf('weight of the box', *([z3.IntSort()] * 7))
        x = coords(c, old)
        ks = ('r0', 'r1', 'g0', 'g1', 'b0', 'b1')
        st = State()
        hyp, goal = [valid(c, old), inside(c, old, p), inside(c, old, q), h(*p) > 0, h(*q) > 0, z3.Or([a != b for a, b in zip(p, q)])], []
        for i, d in enumerate('rgb'):
            for lo, hi in ((p, q), (q, p)):
                a, b = dict(x), dict(x)
                a[d + '1'] = b[d + '0'] = lo[i]
                for part, cell in ((a, lo), (b, hi)):
                    for k in (p, q):
                        ins = z3.And([z3.And(k[n] > part[e + '0'], k[n] <= part[e + '1']) for n, e in enumerate('rgb')])
                        hyp.append(z3.Implies(ins, w(*(part[e] for e in ks)) >= h(*k)))
                goal.append(z3.And(lo[i] > x[d + '0'], lo[i] < x[d + '1'], w(*(a[e] for e in ks)) > 0, w(*(b[e] for e in ks)) > 0))
        st.pc = tuple(hyp)
        j.claim(c, st, 'pixels in two cells of a box lie on two sides of a plane', z3.Or(goal))
    add('split lemma', split_lemma)

    def boxes(j, greedy):
        c = base(j)
        st = State()
        c.project.add('WuBox')
        ref, wv = wu(c, st, cubes=cubes(c, c.mk('i64', 'n0')), **fields(c))
        n = c.mk('i64', 'max')
        K, K2 = z3.Ints('K K2')
        c.contracts[('QuantizerWu', None, 'variance')] = lambda ctx, s, args, callee: [Out(s, 'return', SF(VAR(ctx.term(deref(ctx, s, args[1]), s))))] if ctx.valid(s, valid(ctx, deref(ctx, s, args[1]))) else bad('precondition of variance')

        def cutc(ctx, s, args, callee):
            a = ctx.fname(ctx.load(s, args[0]), 'cubes')
            one, two = iv(args[1]), iv(args[2])
            old = at_(ctx, a.arr, one)
            if not ctx.valid(s, z3.And(one >= 0, one < a.n, two >= 0, two < a.n, one != two, valid(ctx, old))):
                raise Undecided('precondition of cut')
            x, y = ctx.fresh('part', Obj), ctx.fresh('part', Obj)
            bx, by = ctx.wrap('WuBox', x), ctx.wrap('WuBox', y)
            f = z3.And(valid(ctx, bx), valid(ctx, by)) if greedy else z3.And(splits(ctx, old, bx, by), valid(ctx, bx), valid(ctx, by), inside(ctx, old, PT) == z3.Or(inside(ctx, bx, PT), inside(ctx, by, PT)), z3.Not(z3.And(inside(ctx, bx, PT), inside(ctx, by, PT))))
            s2 = s.fork()
            ctx.store(s2, args[0], with_fields(ctx, ctx.load(s, args[0]), cubes=SVec(a.n, z3.Store(z3.Store(a.arr, one, x), two, y), 'WuBox')))
            return [Out(s.assume(no_plane(z3.Select(a.arr, one))), 'return', False), Out(s2.assume(f), 'return', True)]
        c.contracts[('QuantizerWu', None, 'cut')] = cutc
        rng = z3.And([z3.And(p >= 1, p <= 32) for p in PT])

        def cover(a, cnt):
            k = z3.Int('ex!k')
            return z3.Exists([k], z3.And(k >= 0, k < cnt, inside(c, at_(c, a, k), PT)))

        def cur(L):
            for q in L.chg:
                if q[0] == L.fr and isinstance(L.entry.mem.get(q), It):
                    return L.cursor()
            if not L.chg:
                return L.cursor()
            return iv(L.get('i'))

        el = lambda v, k: v.arr[k] if isinstance(v, SVec) else bad('variances of a fixed number')
        RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
        POS = uf('boxes of positive variance', RA, z3.IntSort())

        def done(A, k):
            return z3.Or(iv(c.fname(at_(c, A, k), 'vol')) <= 1, VAR(A[k]) <= 0, no_plane(A[k]))

        def inv(L):
            if L.idx != 0:
                nx, i = iv(L.get('next')), iv(L.get('i'))
                vv, tmp = L.get('volume_variance'), real(L.get('temp'))
                return [('the next box exists', z3.And(nx >= 0, nx < L.cursor())), ('scans the boxes made', z3.And(L.cursor() >= 1, L.cursor() <= z3.If(i >= 0, i, 0) + 1)),
                        ('the next box has the greatest variance so far', z3.And(el(vv, nx) == tmp, z3.Implies(z3.And(K >= 0, K < L.cursor()), el(vv, K) <= tmp)))]
            a = c.fname(c.load(L.st, ref), 'cubes')
            i = cur(L)
            nx = iv(L.get('next'))
            vv = L.get('volume_variance')
            out = [('scans the numbers up to the maximum', z3.And(i >= 1, i <= z3.If(n >= 1, n, 1)))]
            out += [('as many boxes as asked for', z3.And(iv(a.n) == n, iv(vv.n if isinstance(vv, SVec) else len(vv.e)) == n)),
                   ('the next box exists', z3.And(nx >= 0, nx < i)),
                   ('default count', iv(L.get('generated_color_count')) == n)]
            if isinstance(a, SVec):
                A = a.arr
                out += [('boxes lie in the table', z3.Implies(z3.And(K >= 0, K < n), valid(c, at_(c, A, K))))]
                if not greedy:
                    out += [('boxes are disjoint', z3.Implies(z3.And(K >= 0, K < n, K2 >= 0, K2 < n, K != K2, rng), z3.Not(z3.And(inside(c, at_(c, A, K), PT), inside(c, at_(c, A, K2), PT))))),
                        ('boxes not yet made are empty', z3.Implies(z3.And(K >= i, K < n), z3.Not(inside(c, at_(c, A, K), PT)))),
                        ('boxes cover the table', z3.Implies(rng, cover(A, i)))]
                if greedy:
                    out += [('the variance of every box made is known, or it cannot be split', z3.Implies(z3.And(K >= 0, K < i), z3.Or(i == 1, z3.And(el(vv, K) == 0, done(A, K)), el(vv, K) == VAR(A[K])))),
                        ('the next box is the one of the greatest variance', z3.And(z3.Implies(z3.And(K >= 0, K < i), el(vv, K) <= el(vv, nx)), z3.If(i == 1, el(vv, 0) == 0, el(vv, nx) > 0)))]
            return out

        def positives(a):
            """the number of positive entries, by its definition over updates"""
            pos = lambda t: z3.If(t > 0, 1, 0)
            if z3.is_store(a):
                o, k, x = a.children()
                return positives(o) - pos(o[k]) + pos(x)
            if z3.is_app_of(a, z3.Z3_OP_ITE):
                q, t, f = a.children()
                return z3.If(q, positives(t), positives(f))
            return POS(a)

        def variant(L):
            if L.idx != 0 or not greedy:
                return None
            vv = L.get('volume_variance')
            return 3 * (n - cur(L)) + positives(vv.arr)

        def facts(L):
            if L.idx != 0 or not greedy:
                return []
            v = L.get('volume_variance').arr
            nx, i = iv(L.get('next')), cur(L)
            return [POS(v) >= 0]

        def at(L):
            if L.idx != 0:
                return [(iv(L.get('next')), K2), (z3.IntVal(0), K2), (L.cursor(), K2)]
            nx, i = iv(L.get('next')), cur(L)
            return [(nx, K), (K, nx), (nx, K2), (K2, nx), (nx, i), (i, nx), (i, K), (K2, i)]
        c.loops[('QuantizerWu', None, 'create_boxes')] = Spec(j, inv, forall=(K, K2), at=at, variant=variant, facts=facts)
        outs = j.execute(c, j.fn('QuantizerWu', 'create_boxes'), [ref, n], [n >= 1, n <= 2 ** 31], st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            cnt = iv(c.fname(o.val, 'result_count'))
            a = c.fname(c.load(o.st, ref), 'cubes')
            if greedy:
                j.claim(c, o.st, 'fewer boxes than asked for only if none can be split', z3.Implies(z3.And(cnt < n, K >= 0, K < cnt), done(a.arr, K)))
                continue
            j.claim(c, o.st, 'at least one box and at most as many as asked for', z3.And(cnt >= 1, cnt <= n))
            j.claim(c, o.st, 'the boxes lie in the table', z3.Implies(z3.And(K >= 0, K < cnt), valid(c, at_(c, a.arr, K))))
            j.claim(c, o.st, 'the boxes are disjoint', z3.Implies(z3.And(K >= 0, K < cnt, K2 >= 0, K2 < cnt, K != K2, rng), z3.Not(z3.And(inside(c, at_(c, a.arr, K), PT), inside(c, at_(c, a.arr, K2), PT)))))
            j.claim(c, o.st, 'every cell lies in a box', z3.Implies(rng, cover(a.arr, cnt)))
    js.append(Job('create_boxes partition', 'QuantizerWu::create_boxes', lambda j: boxes(j, False)))
    js.append(Job('create_boxes greedy', 'QuantizerWu::create_boxes', lambda j: boxes(j, True)))

    def var(j):
        c = base(j)
        c.div0 = 'havoc'
        c.contracts[('QuantizerWu', None, 'squared_norm')] = c_sq
        c.contracts[('QuantizerWu', None, 'volume')] = c_volume
        st = State()
        ref, wv = wu(c, st, **fields(c))
        v, pre = box(c, 'cube')
        outs = j.execute(c, j.fn('QuantizerWu', 'variance'), [ref, v], pre, st=st)
        j.no_panic(c, outs)
        # its value over the reals
        c = j.ctx(fmode='exact', definite=False)
        c.contracts[('QuantizerWu', None, 'get_index')] = c_index
        c.contracts[('QuantizerWu', None, 'volume')] = c_volume

        def sqx(ctx, s, args, callee):
            x = [z3.ToReal(iv(a)) for a in args]
            return [Out(s, 'return', SF(sum((y * y for y in x[1:]), x[0] * x[0])))]
        c.contracts[('QuantizerWu', None, 'squared_norm')] = sqx
        st = State()
        fs = fields(c)
        ref, wv = wu(c, st, **fs)
        v, pre = box(c, 'cube')
        x = coords(c, v)
        Vf = lambda f: V(lambda r, g, b: fs[f].arr[idx(r, g, b)], x)
        w = Vf('weights')
        outs = j.execute(c, j.fn('QuantizerWu', 'variance'), [ref, v], pre + [w > 0], st=st)
        m2 = c.fname(wv, 'moments').arr
        sq = [z3.ToReal(Vf(f)) for f in ('moments_r', 'moments_g', 'moments_b')]
        for o in returns(outs):
            j.claim(c, o.st, 'sum of squares less the squared norm of the sums over the weight', R(o.val) == V(lambda r, g, b: m2[idx(r, g, b)], x) - (sq[0] * sq[0] + sq[1] * sq[1] + sq[2] * sq[2]) / z3.ToReal(w))
    add('variance', var)

    def mean(x, w, m):
        """the channel value x is the mean m/w, rounded"""
        return z3.And(x >= 0, x <= 255, 100 * (x * w - m) <= 51 * w, 100 * (m - x * w) <= 51 * w)

    MEAN = uf('mean colour of the box', z3.IntSort(), Obj, z3.BoolSort())
    VOL = {n: uf('box sum ' + n, Obj, z3.IntSort()) for n, _, _ in FIELDS}

    def result(j):
        c = j.ctx(fmode='round', definite=False)
        st = State()
        fs = {n: SVec(z3.IntVal(N), z3.Const('wu.' + n, AI), 'i64') for n, _, _ in FIELDS}
        n, cnt, K = c.mk('i64', 'n'), c.mk('i64', 'color_count'), z3.Int('K')
        cv = cubes(c, n)
        ref, wv = wu(c, st, cubes=cv, **fs)
        cur = []

        def volc(ctx, s, args, callee):
            b, a = deref(ctx, s, args[0]), deref(ctx, s, args[1])
            f = [k for k in fs if a.arr.eq(fs[k].arr)]
            o = ctx.term(b, s)
            if len(f) != 1:
                raise Undecided('volume of an unknown table')
            cur[:] = [o]
            w, m = VOL['weights'](o), VOL[f[0]](o)
            return [Out(s.assume(z3.And(w >= 0, w <= 2 ** 31, m >= 0, m <= 255 * w)), 'return', m)]
        c.contracts[('QuantizerWu', None, 'volume')] = volc

        def argb(ctx, s, args, callee):
            o = cur[0]
            w = VOL['weights'](o)
            if not ctx.valid(s, w > 0):
                raise Undecided('a colour for an empty box')
            for a, f in zip(args, ('moments_r', 'moments_g', 'moments_b')):
                if not ctx.valid(s, mean(iv(a), w, VOL[f](o))):
                    raise Undecided('the channel is not the rounded mean of ' + f)
            v = ctx.app('argb_from_rgb', [iv(a) for a in args], 'i64')
            return [Out(s.assume(z3.And(v >= 0xFF000000, v <= 0xFFFFFFFF, MEAN(v, o))), 'return', v)]
        c.contracts[('ColorUtils', None, 'argb_from_rgb')] = argb
        k = z3.Int('ex!k')

        def from_box(x, i):
            return z3.Exists([k], z3.And(k >= 0, k < i, VOL['weights'](cv.arr[k]) > 0, MEAN(x, cv.arr[k])), patterns=[cv.arr[k]])

        def has(cs, b):
            return z3.Exists([k], z3.And(k >= 0, k < iv(cs.n), MEAN(cs.arr[k], b)))

        def facts_of(cs, i):
            return [('at most one colour per box', z3.And(iv(cs.n) >= 0, iv(cs.n) <= i)),
                    ('every colour is opaque and the rounded mean of a box with pixels', z3.Implies(z3.And(K >= 0, K < iv(cs.n)), z3.And(cs.arr[K] >= 0xFF000000, cs.arr[K] <= 0xFFFFFFFF, from_box(cs.arr[K], i)))),
                    ('every box with pixels has a colour', z3.Implies(z3.And(K >= 0, K < i, VOL['weights'](cv.arr[K]) > 0), has(cs, cv.arr[K])))]

        def inv(L):
            cs = L.get('colors')
            i = L.cursor()
            if not isinstance(cs, SVec):
                return [('no colours yet', i == 0)] if not cs.e else bad('colours of a fixed number')
            return facts_of(cs, i)
        c.loops[('QuantizerWu', None, 'create_result')] = Spec(j, inv, forall=(K,))
        outs = j.execute(c, j.fn('QuantizerWu', 'create_result'), [ref, cnt], [n >= 1, n <= 2 ** 31, cnt >= 1, cnt <= n], st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            for nm, f in facts_of(o.val, cnt):
                j.claim(c, o.st, nm, f)
    add('create_result', result)

    def quant(j):
        c = j.ctx(fmode='uf', definite=False)
        st = State()
        ref, wv = wu(c, st, cubes=cubes(c, c.mk('i64', 'n0')))
        pix = SVec(c.mk('i64', 'pixels#'), z3.Const('pixels', AI), 'i64')
        n, K = c.mk('i64', 'color_count'), z3.Int('K')
        fresh = lambda s: AI if s != 'moments' else z3.ArraySort(z3.IntSort(), z3.RealSort())
        hm = HM('i64', 'i64', z3.Const('cnt@has', z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const('cnt@val', AI), c.mk('i64', 'cnt#'))

        def mapq(ctx, s, args, callee):
            a = deref(ctx, s, args[1])
            if not (isinstance(a, SVec) and a.arr.eq(pix.arr)):
                raise Undecided('counts other pixels')
            return [Out(s, 'return', with_fields(ctx, ctx.mk('QuantizerResult', 'counts'), color_to_count=hm))]
        c.contracts[('QuantizerMap', 'Quantizer', 'quantize')] = mapq
        step = {}

        def staged(nm, want, check=None, ret=None):
            def f(ctx, s, args, callee):
                v = ctx.load(s, args[0])
                have = ctx.fname(v, 'weights').arr
                if not have.eq(want()):
                    raise Undecided(nm + ': the tables are not those of the step before')
                if check:
                    check(ctx, s, args)
                s2 = s.fork()
                step[nm] = z3.Const(nm + '.weights', AI)
                if nm in ('construct_histogram', 'compute_moments'):
                    ctx.store(s2, args[0], with_fields(ctx, v, weights=SVec(z3.IntVal(N), step[nm], 'i64')))
                return ret(ctx, s2, args) if ret else [Out(s2, 'return', ())]
            c.contracts[('QuantizerWu', None, nm)] = f

        def counts(ctx, s, args):
            if not (isinstance(args[1], HM) and args[1].has.eq(hm.has) and args[1].val.eq(hm.val)):
                raise Undecided('histogram of something else than the counts')
        staged('construct_histogram', lambda: z3.Const('wu.weights', AI), counts)
        staged('compute_moments', lambda: z3.Const('construct_histogram.weights', AI))
        cnt = c.mk('i64', 'result_count')

        def cb(ctx, s, args):
            if not ctx.valid(s, iv(args[1]) == n):
                raise Undecided('another number of boxes than asked for')
            a = SVec(n, z3.Const('boxes', AO), 'WuBox')
            s2 = s.fork()
            ctx.store(s2, args[0], with_fields(ctx, ctx.load(s, args[0]), cubes=a))
            return [Out(s2.assume(z3.And(cnt >= 1, cnt <= n)), 'return', with_fields(ctx, ctx.mk('CreateBoxesResult', 'boxes'), result_count=cnt))]
        staged('create_boxes', lambda: z3.Const('compute_moments.weights', AI), ret=cb)
        colors = SVec(c.mk('i64', 'colors#'), z3.Const('colors', AI), 'i64')

        def cr(ctx, s, args):
            if not ctx.valid(s, iv(args[1]) == cnt):
                raise Undecided('colours of another number of boxes')
            a = ctx.fname(ctx.load(s, args[0]), 'cubes')
            if not a.arr.eq(z3.Const('boxes', AO)):
                raise Undecided('colours of other boxes')
            return [Out(s.assume(z3.And(iv(colors.n) >= 0, iv(colors.n) <= cnt)), 'return', colors)]
        staged('create_result', lambda: z3.Const('compute_moments.weights', AI), ret=cr)
        outs = j.execute(c, j.fn('QuantizerWu', 'quantize', 'Quantizer'), [ref, pix, n, c.mk('Option<bool>', 'flag')], [n >= 1, n <= 2 ** 31], st=st)
        j.no_panic(c, outs)
        k = z3.Int('ex!k')
        for o in returns(outs):
            m = c.fname(o.val, 'color_to_count')
            j.claim(c, o.st, 'the keys are the colours of the boxes', z3.And(z3.Implies(z3.And(K >= 0, K < iv(colors.n)), m.has[colors.arr[K]]), z3.Implies(m.has[K], z3.Exists([k], z3.And(k >= 0, k < iv(colors.n), colors.arr[k] == K)))))
            j.claim(c, o.st, 'at most as many keys as colours asked for', z3.And(iv(m.n) >= 0, iv(m.n) <= n))
    add('quantize', quant)
    return js


def bad(why):
    raise Undecided(why)
