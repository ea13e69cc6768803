"""Celebi: the Wu colours, sorted (so the order of the hash map does not matter), start the k-means
search over the same pixels with the same maximum.  K-means: all sixteen loops of
QuantizerWsmeans::quantize under invariants, against contracts of the point provider (proved in the
jobs `distance` and `points`).  The populations are tracked as prefix sums, the counting of distinct
pixels as a sum over listed keys (the inductions behind both are the job `sums`), "every cluster with
pixels has its colour listed" and its converse by witness functions."""
from .common import *
from ..loops import Spec
from ..stdmodel import some

SCOPE = 'part'
PROVED = 'Celebi starts k-means with exactly the colours found by Wu in strictly ascending order, over the same pixels and maximum, five iterations and the caller\'s choice about the pixel map; the k-means search itself, for any pixel list, starting clusters, maximum and number of iterations of at least one: no panic, between one and the maximum number of colours and at most the number of distinct pixels, opaque colours, each with a positive population, populations summing to at most the number of pixels (exactly, if no two clusters with pixels share a colour), every pixel mapped to a returned colour if asked for and none otherwise, no hash map enumerated, random numbers from a constant seed and the clock unused; the Lab distance is symmetric, not negative and zero between equal points; points have three coordinates'
BOUNDED = 'the defaults of the optional arguments and the result as a whole on generated pixel lists, including equal results of repeated runs'
ASSUMPTIONS = ['HashMap behaves as a finite map whose iteration visits every key once, in any order', 'slice::sort sorts', 'fewer than 2^31 pixels (a count of moved points is an i32)', 'drawing random indices until a new one comes terminates', 'the number of distinct pixels is the length of a list without repetition of exactly the pixels (cardinality)', 'the four options are given (Some)']

AI = z3.ArraySort(z3.IntSort(), z3.IntSort())


def jobs(P):
    js = []

    def celebi(j):
        c = j.ctx(fmode='uf', definite=False)
        st = State()
        pix = SVec(c.mk('i64', 'pixels#'), z3.Const('pixels', AI), 'i64')
        mx = c.mk('i64', 'max')
        flag = c.mk('Option<bool>', 'flag')
        m = HM('i64', 'i64', z3.Const('wu@has', z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const('wu@val', AI), c.mk('i64', 'wu#'))
        seen = []

        def same(ctx, s, a, what):
            a = deref(ctx, s, a)
            if not (isinstance(a, SVec) and a.arr.eq(pix.arr) and ctx.valid(s, iv(a.n) == iv(pix.n))):
                raise Undecided(what + ': other pixels')

        def wuq(ctx, s, args, callee):
            same(ctx, s, args[1], 'wu')
            if not ctx.valid(s, iv(args[2]) == mx):
                raise Undecided('wu: another maximum')
            return [Out(s, 'return', with_fields(ctx, ctx.mk('QuantizerResult', 'wu'), color_to_count=m))]
        c.contracts[('QuantizerWu', 'Quantizer', 'quantize')] = wuq

        def wsq(ctx, s, args, callee):
            same(ctx, s, args[0], 'k-means')
            v = ctx.mk('QuantizerResult', 'kmeans')
            seen.append((s, args, v))
            return [Out(s, 'return', v)]
        c.contracts[('QuantizerWsmeans', None, 'quantize')] = wsq
        outs = j.execute(c, j.fn('QuantizerCelebi', 'quantize', 'Quantizer'), [c.mk('&mut QuantizerCelebi', 'q'), pix, mx, flag], [], st=st)
        j.no_panic(c, outs)
        K, A, B = z3.Ints('K A B')
        k = z3.Int('ex!k')
        for s, args, v in seen:
            j.claim(c, s, 'the same maximum', iv(args[1]) == mx)
            sc = args[2]
            v0 = deref(c, s, c.payload(sc, 'Some', 0, None)) if isinstance(sc.tag, int) and sc.tag == 1 else None
            if not isinstance(v0, SVec):
                raise Undecided('starting clusters')
            j.claim(c, s, 'starting clusters are exactly the colours found by Wu', z3.And(z3.Implies(z3.And(A >= 0, A < iv(v0.n)), z3.Select(m.has, v0.arr[A])), z3.Implies(z3.Select(m.has, K), z3.Exists([k], z3.And(k >= 0, k < iv(v0.n), v0.arr[k] == K)))))
            d = [d for d in c.sorts if d['out'].arr.eq(v0.arr)]
            if not d or d[0]['cmp'] is not None:
                raise Undecided('starting clusters are not sorted by value')
            a, b = v0.arr[A], v0.arr[B]
            s2 = s.assume(z3.And(A >= 0, A < B, B < iv(v0.n))).assume(a <= b)   # slice::sort
            j.claim(c, s2, 'in strictly ascending order', a < b)
            fl = args[5]
            want = z3.And(iv(flag.tag) == 1, bv(c.payload(flag, 'Some', 0, 'bool')))
            j.claim(c, s, 'the choice of the caller about the pixel map', (bv(c.payload(fl, 'Some', 0, 'bool')) == want) if isinstance(fl.tag, int) and fl.tag == 1 else False)
            it = args[4]
            j.claim(c, s, 'the default number of iterations', isinstance(it.tag, int) and it.tag == 0)
        for o in returns(outs):
            j.claim(c, o.st, 'the result is the k-means result', any(o.val is v or c.term(o.val).eq(c.term(v)) for _, _, v in seen))
    js.append(Job('celebi', 'QuantizerCelebi::quantize', celebi))

    def dist(j):
        c = j.ctx(fmode='round')
        both = [[fin(n + x, -1e4, 1e4) for x in 'lab'] for n in 'pq']
        one, two = ([x for x, _ in ps] for ps in both)
        pre = [p for ps in both for _, p in ps]
        f = j.fn('PointProviderLab', 'distance', 'PointProvider')
        rec = c.mk('&PointProviderLab', 'p')
        outs = j.execute(c, f, [rec, Vc(one), Vc(two)], pre)
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'not negative', real(o.val) >= 0)
            j.claim(c, o.st, 'zero between equal points', z3.Implies(z3.And([real(x) == real(y) for x, y in zip(one, two)]), real(o.val) == 0))
        c = j.ctx(fmode='exact')
        outs = j.execute(c, f, [rec, Vc(one), Vc(two)], pre)
        for o in returns(outs):
            t = sum((real(x) - real(y)) * (real(x) - real(y)) for x, y in zip(one, two))
            j.claim(c, o.st, 'the squared distance (real arithmetic)', real(o.val) == t)
    js.append(Job('distance', 'PointProviderLab::distance', dist))

    def points(j):
        c = j.ctx(fmode='uf', definite=False)
        a = c.mk('i64', 'argb')
        f = [SF(z3.Real('lab%d' % i)) for i in range(3)]
        c.contracts[('ColorUtils', None, 'lab_from_argb')] = lambda ctx, s, args, cl: [Out(s, 'return', Vc(f))] if ctx.valid(s, iv(args[0]) == a) else bad('another colour')
        outs = j.execute(c, j.fn('PointProviderLab', 'from_int', 'PointProvider'), [c.mk('&PointProviderLab', 'p'), a], [])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'the L*a*b* coordinates', z3.And([real(x) == real(y) for x, y in zip(o.val.e, f)]) if len(o.val.e) == 3 else False)
        c = j.ctx(fmode='uf', definite=False)
        v = c.mk('i64', 'argb')
        c.contracts[('ColorUtils', None, 'argb_from_lab')] = lambda ctx, s, args, cl: [Out(s, 'return', v)] if ctx.valid(s, z3.And([real(x) == real(y) for x, y in zip(args, f)])) else bad('other coordinates')
        outs = j.execute(c, j.fn('PointProviderLab', 'to_int', 'PointProvider'), [c.mk('&PointProviderLab', 'p'), Vc(f)], [])
        j.no_panic(c, outs)
        for o in returns(outs):
            j.claim(c, o.st, 'the colour of the coordinates', iv(o.val) == v)
    js.append(Job('points', 'PointProviderLab::from_int, to_int', points))

    def kmeans(j):
        c = j.ctx(fmode='uf', definite=False)
        st = State()
        PP = 'PointProviderLab'
        LAB = [uf('lab %d' % i, z3.IntSort(), z3.RealSort()) for i in range(3)]
        DIST = uf('distance', Obj, Obj, z3.RealSort())
        TOINT = uf('colour of the point', Obj, z3.IntSort())
        pt = lambda ctx, s, v: ctx.inject('Vec<f64>', deref(ctx, s, v), s)

        def three(ctx, s, v, what):
            v = deref(ctx, s, v)
            if not ctx.valid(s, iv(len(v.e) if isinstance(v, Vc) else v.n) >= 3):
                raise Undecided('precondition of %s: a point of three coordinates' % what)
            return ctx.inject('Vec<f64>', v, s)

        def from_int(ctx, s, args, callee):
            a = iv(deref(ctx, s, args[1]))
            return [Out(s, 'return', Vc([SF(f(a)) for f in LAB]))]

        def distance(ctx, s, args, callee):
            t = DIST(*(three(ctx, s, a, 'distance') for a in args[1:]))
            return [Out(s.assume(t >= 0), 'return', SF(t))]

        def to_int(ctx, s, args, callee):
            t = TOINT(three(ctx, s, args[1], 'to_int'))
            return [Out(s.assume(z3.And(t >= 0xFF000000, t <= 0xFFFFFFFF)), 'return', t)]
        for nm, f in (('from_int', from_int), ('distance', distance), ('to_int', to_int)):
            c.contracts[(PP, 'PointProvider', nm)] = f
        pix = SVec(c.mk('i64', 'pixels#'), z3.Const('pixels', AI), 'i64')
        start = SVec(c.mk('i64', 'starting#'), z3.Const('starting', AI), 'i64')
        mx, its = c.mk('i64', 'max'), c.mk('i64', 'iterations')
        N = iv(pix.n)

        K, K2, Q = z3.Ints('K K2 Q')
        CNT = uf('pixels so far equal to', z3.IntSort(), z3.IntSort(), z3.IntSort())
        LEN = uf('of#len:Vec<f64>', Obj, z3.IntSort())
        n_ = lambda v: iv(v.n) if isinstance(v, SVec) else z3.IntVal(len(v.e))
        at_ = lambda L, v, k: v.arr[k] if isinstance(v, SVec) else (z3.IntVal(0) if not v.e else c.term(c.elem(L.st, v, k)))
        G = uf('sum of the values at the listed keys', AI, AI, z3.IntSort(), z3.IntSort())
        DISTINCT = z3.Int('number of distinct pixels')
        PRE = uf('prefix sum', AI, z3.IntSort(), z3.IntSort())

        def pre(a, m):
            """prefix sum of the first m elements, by its definition over updates"""
            if isinstance(a, Vc):
                return z3.IntVal(0) if not a.e else bad('sum of a fixed number')
            a = a.arr if isinstance(a, SVec) else a
            if z3.is_store(a):
                o, k, x = a.children()
                return pre(o, m) + z3.If(rng(k, m), x - o[k], 0)
            return z3.If(m <= 0, 0, PRE(a, m))

        def psum(a, m):
            """definition of the prefix sums of an array at m"""
            return [] if isinstance(a, Vc) or not z3.is_const(a.arr) else [PRE(a.arr, m + 1) == PRE(a.arr, m) + a.arr[m], PRE(a.arr, 0) == 0]
        rng = lambda k, n: z3.And(k >= 0, k < n)
        ex = z3.Int('ex!k')

        def rows3(L, v):
            if isinstance(v, Vc):
                return z3.BoolVal(True) if not v.e else bad('points of a fixed number')
            return z3.Implies(rng(K, n_(v)), LEN(v.arr[K]) == 3)

        def distinct(L):
            m, px, pts = L.get('pixel_to_count'), L.get('pixels'), L.get('points')
            return m, px, pts, n_(px)

        def setup(L):
            """facts about the distinct pixels that later loops do not change"""
            m, px, pts, n = distinct(L)
            out = [('as many points as pixels', z3.And(n_(pts) == n, iv(L.get('point_count')) == n)), ('points have three coordinates', rows3(L, pts))]
            return out

        def inv(L):
            i = L.cursor() if L.idx not in (4,) else None
            if L.idx == 0:
                m, px, pts, n = distinct(L)
                a = lambda k: at_(L, px, k)
                return setup(L) + [('at least one distinct pixel and at most as many as pixels', z3.And(n >= z3.If(i > 0, 1, 0), n <= i)),
                        ('the map counts the pixels so far', z3.And(m.has[Q] == (CNT(i, Q) >= 1), z3.Implies(m.has[Q], z3.And(m.val[Q] == CNT(i, Q), m.val[Q] >= 1, m.val[Q] <= i)))),
                        ('distinct pixels are in the map', z3.Implies(rng(K, n), m.has[a(K)])),
                        ('no pixel twice', z3.Implies(z3.And(rng(K, n), rng(K2, n), K != K2), a(K) != a(K2))),
                        ('pixels so far are in the map', z3.Implies(rng(K, i), m.has[pix.arr[K]])),
                        ('the counts sum to the number of pixels so far', z3.BoolVal(True) if isinstance(px, Vc) else G(m.val, px.arr, n) == i),
                        ('every key is listed', z3.Implies(m.has[Q], z3.Exists([ex], z3.And(rng(ex, n), a(ex) == Q))))]
            if L.idx == 1:
                m, px, pts, n = distinct(L)
                cs = L.get('counts')
                return [('counts of the distinct pixels so far', z3.And(n_(cs) == n, z3.Implies(rng(K, i), z3.And(at_(L, cs, K) == m.val[px.arr[K]], at_(L, cs, K) >= 1, at_(L, cs, K) <= N)))),
                        ('the counts so far sum to those of the map', pre(cs, i) == z3.If(i <= 0, 0, G(m.val, px.arr, i)))]
            n = iv(L.get('point_count'))
            cc = z3.If(mx <= n, mx, n)
            if L.idx == 2:
                ix = L.get('indices')
                return [('indices of points', z3.And(n_(ix) == i, z3.Implies(rng(K, i), rng(at_(L, ix, K), n))))]
            if L.idx == 4:
                return [('index of a point', rng(iv(L.get('index')), n))]
            cl = L.get('clusters')
            if L.idx == 3:
                return [('one more cluster for each index', n_(cl) == n_(start) + i), ('clusters have three coordinates', rows3(L, cl))]
            ci, sm = L.get('cluster_indices'), L.get('pixel_count_sums')
            im, dm = L.get('index_matrix'), L.get('distance_to_index_matrix')
            shape = [('at least as many clusters as wanted', n_(cl) >= cc), ('clusters have three coordinates', rows3(L, cl)),
                     ('the matrices are square', z3.And(n_(im) == cc, n_(dm) == cc, z3.Implies(rng(K, cc), z3.And(uf('of#len:Vec<i64>', Obj, z3.IntSort())(im.arr[K]) == cc, uf('of#len:Vec<DistanceAndIndex>', Obj, z3.IntSort())(dm.arr[K]) == cc))))]
            assigned = [('every point has a cluster', z3.And(n_(ci) == n, z3.Implies(rng(K, n), rng(ci.arr[K], cc))))]
            def populated(started):
                return [('clusters of points are not empty', z3.Implies(z3.And(started, rng(K, n)), sm.arr[ci.arr[K]] >= 1)),
                        ('populations are not negative', z3.Implies(z3.And(started, rng(K, cc)), z3.And(sm.arr[K] >= 0, sm.arr[K] <= 2 ** 62))),
                        ('populations sum to the number of pixels', z3.Implies(started, pre(sm, cc) == N))]
            if L.idx == 5:
                return shape + assigned + [('a population per cluster', n_(sm) == cc)] + populated(i > 0)
            if L.idx == 8:
                ar, pp = L.get('cluster_argbs'), L.get('cluster_populations')
                if isinstance(ar, Vc) or isinstance(pp, Vc):
                    return [('no colours yet', z3.And(i == 0, not (ar.e or pp.e)))]
                k1, k2 = z3.Ints('nd!a nd!b')
                T = lambda k: TOINT(cl.arr[k])
                nodup = z3.ForAll([k1, k2], z3.Implies(z3.And(k1 >= 0, k1 < k2, k2 < cc, sm.arr[k1] != 0, sm.arr[k2] != 0), T(k1) != T(k2)), patterns=[z3.MultiPattern(T(k1), T(k2))])
                m = n_(ar)
                return [('a population for each colour', z3.And(n_(pp) == m, m >= 0, m <= i)),
                        ('populations are positive and colours opaque', z3.Implies(rng(K, m), z3.And(pp.arr[K] >= 1, ar.arr[K] >= 0xFF000000, ar.arr[K] <= 0xFFFFFFFF))),
                        ('no colour twice', z3.Implies(z3.And(rng(K, m), rng(K2, m), K != K2), ar.arr[K] != ar.arr[K2])),
                        ('every colour is that of a cluster', z3.Implies(rng(K, m), L.exists('of', K, lambda t: z3.And(rng(t, i), sm.arr[t] != 0, T(t) == ar.arr[K]), [i - 1]))),
                        ('every cluster with pixels so far has its colour listed', z3.Implies(z3.And(rng(K, i), sm.arr[K] != 0), L.exists('listed', K, lambda t: z3.And(rng(t, m), ar.arr[t] == T(K)), [m - 1] + c.found_at))),
                        ('populations sum to at most those of the clusters so far', pre(pp, m) <= pre(sm, i)),
                        ('and to exactly those if no two clusters share a colour', z3.Implies(nodup, pre(pp, m) == pre(sm, i)))]
            if L.idx == 14:
                mm, px = L.get('input_pixel_to_cluster_pixel'), L.get('pixels')
                return [('pixels so far map to the colour of their cluster', z3.Implies(rng(K, i), z3.And(mm.has[px.arr[K]], mm.val[px.arr[K]] == TOINT(cl.arr[ci.arr[K]])))),
                        ('only pixels are mapped', z3.Implies(mm.has[Q], z3.Exists([ex], z3.And(rng(ex, i), px.arr[ex] == Q))))]
            if L.idx in (7, 11, 13):
                return shape[2:]
            if L.idx == 10:
                pm = iv(L.get('points_moved'))
                return assigned + [('no point moved: the clusters are as before', z3.And(pm >= 0, pm <= i, z3.Implies(pm == 0, z3.Implies(rng(K, n), ci.arr[K] == L.old('cluster_indices').arr[K]))))]
            if L.idx == 15:
                nc = iv(L.get('new_cluster_index'))
                return [('no better cluster, or one of the clusters', z3.Or(nc == -1, rng(nc, cc)))]
            if L.idx == 16:
                return [('a population per cluster', n_(sm) == cc), ('populations are reset', z3.Implies(rng(K, i), sm.arr[K] == 0)), ('and sum to nothing', pre(sm, i) == 0)]
            if L.idx == 17:
                abc = [L.get('component_%s_sums' % x) for x in 'abc']
                return [('a population per cluster', z3.And([n_(sm) == cc] + [n_(v) == cc for v in abc])),
                        ('populations are within bounds', z3.Implies(rng(K, cc), z3.And(sm.arr[K] >= 0, sm.arr[K] <= i * 2 ** 31))),
                        ('populations sum to the counts so far', pre(sm, cc) == pre(L.get('counts'), i)),
                        ('clusters of points so far are not empty', z3.Implies(rng(K, i), sm.arr[ci.arr[K]] >= 1))]
            if L.idx == 18:
                return shape[:2]
            return []

        def facts(L):
            i = L.cursor() if L.idx not in (4,) else None
            if L.idx == 0:
                p = pix.arr[i]
                m, px, pts, n = distinct(L)
                out = []
                if isinstance(px, SVec):
                    # one more: by the lemma on sums over listed keys
                    out = [z3.Implies(m.has[p], G(z3.Store(m.val, p, m.val[p] + 1), px.arr, n) == G(m.val, px.arr, n) + 1),
                           z3.Implies(z3.Not(m.has[p]), G(z3.Store(m.val, p, 1), z3.Store(px.arr, n, p), n + 1) == G(m.val, px.arr, n) + 1)]
                return out + [z3.And(CNT(i + 1, q) == CNT(i, q) + z3.If(p == q, 1, 0), CNT(0, q) == 0, CNT(i, q) >= 0, CNT(i, q) <= i) for q in (Q, p)]
            if L.idx == 1:
                m, px, pts, n = distinct(L)
                # cardinality: the listed pixels are pairwise distinct and are exactly those that occur (invariants of the first loop)
                return psum(L.get('counts'), i) + [iv(L.get('point_count')) == DISTINCT, G(m.val, px.arr, i + 1) == G(m.val, px.arr, i) + m.val[px.arr[i]], G(m.val, px.arr, 0) == 0]
            if L.idx in (16, 8):
                out = psum(L.get('pixel_count_sums'), i)
                if L.idx == 8:
                    pp = L.get('cluster_populations')
                    out += psum(pp, n_(pp))
                return out
            if L.idx == 17:
                return psum(L.get('counts'), i)
            return []

        def at(L):
            if L.idx == 0:
                p = pix.arr[L.cursor()]
                return [(K, K2, p), (K2, K, p), (n_(L.get('pixels')), K2, Q)]
            return []
        c.axiom(CNT(0, Q) == 0)
        c.loops[('QuantizerWsmeans', None, 'quantize')] = Spec(j, inv, forall=(K, K2, Q), at=at, facts=facts, quant=lambda i, n: True)
        c.qf_prune = True
        c.prune_ms, c.qf_ms = 50, 50
        req = [N >= 1, N < 2 ** 31, n_(start) >= 0, n_(start) <= 2 ** 31, mx >= 1, mx <= 2 ** 31, its >= 1]
        want = c.mk('bool', 'flag')
        opts = [some(start), some(c.mk('&PointProviderLab', 'pp')), some(its), some(want)]
        outs = j.execute(c, j.fn('QuantizerWsmeans', 'quantize'), [pix, mx] + opts, req, st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            m, mm = c.fname(o.val, 'color_to_count'), c.fname(o.val, 'input_pixel_to_cluster_pixel')
            j.claim(c, o.st, 'at least one colour and at most the maximum', z3.And(iv(m.n) >= 1, iv(m.n) <= mx))
            j.claim(c, o.st, 'at most as many colours as distinct pixels', iv(m.n) <= DISTINCT)
            j.claim(c, o.st, 'colours are opaque and have positive populations', z3.Implies(m.has[Q], z3.And(Q >= 0xFF000000, Q <= 0xFFFFFFFF, m.val[Q] >= 1)))
            col = [x for x in c.collects if x[0].eq(m.has)]
            if len(col) != 1:
                raise Undecided('populations')
            _, q, k, x, n = col[0]
            if not (z3.is_select(x) and x.arg(1).eq(q) or z3.is_select(x)):
                raise Undecided('populations')
            j.claim(c, o.st, 'populations sum to at most the number of pixels', pre(x.arg(0), n) <= N)
            j.claim(c, o.st, 'every pixel is mapped to a colour returned, if asked for', z3.Implies(z3.And(want, rng(K, N)), z3.And(mm.has[pix.arr[K]], m.has[mm.val[pix.arr[K]]])))
            j.claim(c, o.st, 'no pixel is mapped otherwise', z3.Implies(z3.Not(want), z3.Not(mm.has[Q])))
            # equal results for equal inputs: the calls are functions of their arguments; hash maps are never
            # enumerated, seeds are constants and the clock (modelled as an unusable value) reaches nothing
            j.claim(c, o.st, 'no hash map is enumerated', all(e[0] == 'collect' for e in c.enums if isinstance(e[0], str)) and not any(isinstance(e[0], HM) for e in c.enums))
            j.claim(c, o.st, 'random numbers start at a constant', all(z3.is_int_value(x) for x in c.seeds))
    js.append(Job('kmeans', 'QuantizerWsmeans::quantize', kmeans, 600))

    def lemma(j):
        """sums over listed keys: base and step of each induction"""
        c = j.ctx(fmode='uf', definite=False)
        st = State()
        G = uf('sum of the values at the listed keys', AI, AI, z3.IntSort(), z3.IntSort())
        v, px = z3.Const('val', AI), z3.Const('px', AI)
        p, x, m, n, k = z3.Ints('p x m n k')
        define = lambda a, b, i: z3.And(G(a, b, 0) == 0, z3.Implies(i >= 0, G(a, b, i + 1) == G(a, b, i) + a[b[i]]))
        w, px2 = z3.Store(v, p, x), z3.Store(px, n, p)
        d = z3.And([define(a, b, m) for a in (v, w) for b in (px, px2)])
        diff = lambda b, i: G(w, b, i) - G(v, b, i)

        def induct(name, hyp, pre):
            j.claim(c, st, name + ': base', z3.Implies(z3.And(d, pre), hyp(z3.IntVal(0))))
            j.claim(c, st, name + ': step', z3.Implies(z3.And(d, pre, m >= 0, hyp(m)), hyp(m + 1)))
        # p listed at k only (px[m] = p exactly for m = k): the sum grows by the change, from k on
        once = z3.And(k >= 0, px[k] == p, (px[m] == p) == (m == k))
        induct('a key listed once', lambda i: diff(px, i) == z3.If(i > k, x - v[p], 0), once)
        # p not listed before n: no change up to n
        induct('a key not listed', lambda i: z3.Implies(i <= n, diff(px, i) == 0), z3.Implies(m < n, px[m] != p))
        induct('a longer list', lambda i: z3.Implies(i <= n, G(w, px2, i) == G(w, px, i)), n >= 0)
        # prefix sums of an array with one element changed
        PRE = uf('prefix sum', AI, z3.IntSort(), z3.IntSort())
        e, e2 = z3.Const('elems', AI), z3.Store(z3.Const('elems', AI), k, x)
        d = z3.And([z3.And(PRE(a, 0) == 0, z3.Implies(m >= 0, PRE(a, m + 1) == PRE(a, m) + a[m])) for a in (e, e2)])
        induct('one element changed', lambda i: PRE(e2, i) == PRE(e, i) + z3.If(z3.And(k >= 0, k < i), x - e[k], 0), z3.BoolVal(True))
        d = z3.And([define(a, b, m) for a in (v, w) for b in (px, px2)])
        # together: appending p with the value x adds x
        j.claim(c, st, 'a key appended', z3.Implies(z3.And(n >= 0, m == n, d, diff(px, n) == 0, G(w, px2, n) == G(w, px, n)), G(w, px2, n + 1) == G(v, px, n) + x))
    js.append(Job('sums', 'QuantizerWsmeans::quantize', lemma))
    return js


def bad(why):
    raise Undecided(why)
