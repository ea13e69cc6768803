"""Score: contracts of the conversions, loop invariants over the sorted entries, the scored list and the
greedy choice: a chosen colour is an eligible input colour, chosen hues are pairwise apart by the current
spacing, every scored colour passed over is close to a chosen one, the first scored colour is chosen."""
from .common import *
from ..floats import uf
from ..values import rv
from ..loops import Spec

SCOPE = 'part'
PROVED = 'for every population map with positive counts (sum at most 2^62), desired count, fallback and filter: score never panics; it returns between 1 and desired colours, exactly the fallback (only when no colour is eligible) or eligible input colours (filter on: chroma at least 5 and proportion above 0.01), every eligible input colour is scored, hues of returned colours are at least 15 degrees apart, scores descend, the first colour has the maximum score, and when fewer than desired are returned every scored colour equals or is closer than 15 degrees to a returned one; the entries of the map are sorted before use; partial_cmp puts the higher score first'
BOUNDED = 'the numeric value of the proportion (the share of neighbouring hues, floating-point sums) and of the score; that the spacing is the largest that yields the desired number; all clauses on the compiled code as well'
ASSUMPTIONS = ['Hct::from_int keeps the colour (to_int gives it back), hue in [0,360), chroma >= 0 (C10, C26)', 'sanitize_degrees_int is the residue modulo 360 (C03)', 'slice::sort orders by PartialOrd::lt, here partial_cmp', 'HashMap iteration visits every entry once', 'float arithmetic is a function of its operands; scores are finite']

AI = z3.ArraySort(z3.IntSort(), z3.IntSort())


def bad(why):
    raise Undecided(why)


def fa(vs, body, patterns=()):
    """universally quantified; the patterns are used where the vectors are plain (hypotheses)"""
    ok = all(x.arg(0).num_args() == 0 and z3.is_app(x.arg(0)) for p in patterns for x in (p if isinstance(p, tuple) else (p,)))
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in patterns] if ok else [])


def sel(a, k):
    """element of an array; writes are spelled out, so that quantified formulas match the old elements"""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        b, i, v = a.children()
        if isinstance(k, int):
            k = z3.IntVal(k)
        return v if k.eq(i) else z3.If(k == i, v, sel(b, k))
    return z3.Select(a, k)


def consts(fs):
    seen, out, todo = set(), [], list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0:
            out.append(x)
        todo += x.children() if not z3.is_quantifier(x) else [x.body()]
    return out


def jobs(P):
    js = []

    def order(j):
        c = j.ctx(fmode='uf')
        a, b = (c.mk('&_ScoredHCT', n) for n in 'ab')
        st = State()
        sa, sb = (real(c.fname(c.load(st, r), 'score')) for r in (a, b))
        outs = j.execute(c, j.fn('_ScoredHCT', 'partial_cmp', 'PartialOrd'), [a, b], [])
        j.no_panic(c, outs)
        for o in returns(outs):
            v = o.val
            t = c.payload(v, 'Some', 0, 'Ordering') if isinstance(v.tag, int) and v.tag == 1 else None
            j.claim(c, o.st, 'the colour with the higher score comes first', z3.And((iv(t.tag) == -1) == (sa > sb), (iv(t.tag) == 0) == (sa == sb)) if t is not None else False)
    js.append(Job('order', '_ScoredHCT::partial_cmp', order))

    HUE, CHROMA = uf('hue', Obj, z3.RealSort()), uf('chroma', Obj, z3.RealSort())
    ARGB, OF = uf('argb of', Obj, z3.IntSort()), uf('hct of', z3.IntSort(), Obj)
    DIFF = uf('hue difference', z3.RealSort(), z3.RealSort(), z3.RealSort())

    def score(j):
        c = j.ctx(fmode='uf', definite=False)
        c.project.add('_ScoredHCT')
        c.qf_prune = c.merge = True
        st = State()
        m = HM('i64', 'i64', z3.Const('pop@has', z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const('pop@val', AI), c.mk('i64', 'pop#'))
        ref = c.new_cell(st, m)
        des, fb, fl = c.mk('Option<i64>', 'desired'), c.mk('Option<i64>', 'fallback'), c.mk('Option<bool>', 'filter')
        k = z3.Int('q!k')
        K, K2, J = z3.Ints('K K2 J')
        opt = lambda o, d: z3.If(iv(o.tag) == 1, iv(c.payload(o, 'Some', 0, 'i64')), z3.IntVal(d))
        want, fall = opt(des, 4), opt(fb, 0xff4285f4)
        filt = z3.If(iv(fl.tag) == 1, bv(c.payload(fl, 'Some', 0, 'bool')), z3.BoolVal(True))
        SUM = uf('population of the first entries', z3.IntSort(), z3.IntSort())

        def hct(o):
            return c.term(o)

        def from_int(ctx, s, args, callee):
            a = iv(args[0])
            o = OF(a)
            return [Out(s.assume(z3.And(ARGB(o) == a, HUE(o) >= 0, HUE(o) < 360, CHROMA(o) >= 0)), 'return', ctx.wrap('Hct', o))]
        c.contracts[('Hct', None, 'from_int')] = from_int
        for nm, f in (('get_hue', HUE), ('get_chroma', CHROMA)):
            def g(ctx, s, args, callee, f=f, nm=nm):
                o = ctx.term(deref(ctx, s, args[0]), s)
                lo, hi = (0.0, 360.0) if nm == 'get_hue' else (0.0, None)
                return [Out(s.assume(z3.And(HUE(o) >= 0, HUE(o) < 360, CHROMA(o) >= 0)), 'return', SF(f(o), lo, hi))]
            c.contracts[('Hct', None, nm)] = g
        c.contracts[('Hct', None, 'to_int')] = lambda ctx, s, args, callee: [Out(s, 'return', ARGB(ctx.term(deref(ctx, s, args[0]), s)))]
        c.contracts[('Hct', 'Clone', 'clone')] = lambda ctx, s, args, callee: [Out(s, 'return', deref(ctx, s, args[0]))]

        c.contracts[('MathUtils', None, 'sanitize_degrees_int')] = lambda ctx, s, args, callee: [Out(s, 'return', iv(args[0]) % 360)]
        c.contracts[('MathUtils', None, 'difference_degrees')] = lambda ctx, s, args, callee: [Out(s, 'return', SF(DIFF(real(args[0]), real(args[1]))))]
        cap = {}
        x, y, w, w2 = z3.Ints('q!x q!y q!w q!w2')
        KEY, VAL = uf('of.0:(&i64, &i64)', Obj, z3.IntSort()), uf('of.1:(&i64, &i64)', Obj, z3.IntSort())

        def arr(v, e):
            """length and array of a vector, also when it is still of known length"""
            if isinstance(v, SVec):
                return iv(v.n), v.arr
            if not isinstance(v, Vc):
                raise Undecided('lost anchor: a vector')
            t = c.inject('Vec<%s>' % e, v, State())
            return z3.IntVal(len(v.e)), t.arg(1)

        def sh(A, k):
            return c.term(c.fname(c.wrap('_ScoredHCT', sel(A, k)), 'hct'))

        def sc(A, k):
            return real(c.fname(c.wrap('_ScoredHCT', sel(A, k)), 'score'))

        def seq(L):
            """the vector the loop runs over"""
            for cell in sorted((x for x in L.chg if x[0] == L.fr and isinstance(x[1], int)), key=lambda x: x[1]):
                it = L.st.mem.get(cell)
                if isinstance(it, It) and it.kind in ('seq', 'seqval'):
                    return c.load(L.st, it.a[0])
            raise Undecided('lost anchor: the vector a loop runs over')

        def chosen_ok(C, n, S, i, dd):
            """the greedy choice among the first i scored colours, at least dd degrees apart"""
            return [('at most one chosen colour per scored colour', z3.And(n >= 0, n <= i)),
                    ('the first scored colour is chosen', z3.Implies(i > 0, z3.And(n >= 1, sel(C, 0) == sh(S, z3.IntVal(0))))),
                    ('chosen colours are scored colours', fa([x], z3.Implies(z3.And(x >= 0, x < n), z3.Exists([w], z3.And(w >= 0, w < i, sh(S, w) == sel(C, x)))), patterns=[z3.Select(C, x)])),
                    ('chosen hues are apart', fa([x, y], z3.Implies(z3.And(x >= 0, x < y, y < n), DIFF(HUE(sel(C, y)), HUE(sel(C, x))) >= z3.ToReal(dd)), patterns=[(z3.Select(C, x), z3.Select(C, y))])),
                    ('chosen colours keep the order of the scored ones', fa([x, y], z3.Implies(z3.And(x >= 0, x < y, y < n), z3.Exists([w, w2], z3.And(w >= 0, w <= w2, w2 < i, sh(S, w) == sel(C, x), sh(S, w2) == sel(C, y)))), patterns=[(z3.Select(C, x), z3.Select(C, y))])),
                    ('a colour passed over is close to a chosen one', fa([w], z3.Implies(z3.And(w >= 0, w < i), z3.Exists([x], z3.And(x >= 0, x < n, z3.Or(sh(S, w) == sel(C, x), DIFF(HUE(sh(S, w)), HUE(sel(C, x))) < z3.ToReal(dd))))), patterns=[z3.Select(S, w)]))]

        def inv(L):
            if not L.chg:
                from ..loops import NoCursor
                raise NoCursor()
            names = {nm for nm, ps in L.fn.debug.items() for p in ps if p.startswith('_') and p[1:].isdigit() and (L.fr, int(p[1:])) in L.chg}
            if 'population_sum' in names:
                i = L.cursor()
                E = seq(L).arr
                n, C = arr(L.get('colors_hct'), 'Hct')
                hp = L.get('hue_population')
                return [('the sum of the populations so far', iv(L.get('population_sum')) == SUM(i)),
                        ('one colour per entry', n == i),
                        ('colours of the entries', fa([x], z3.Implies(z3.And(x >= 0, x < i), sel(C, x) == OF(KEY(sel(E, x)))), patterns=[z3.Select(C, x)])),
                        ('360 hue populations', iv(hp.n) == 360),
                        ('hue populations are at most the sum', fa([x], z3.Implies(z3.And(x >= 0, x < 360), z3.And(sel(hp.arr, x) >= 0, sel(hp.arr, x) <= SUM(i))), patterns=[z3.Select(hp.arr, x)]))]
            if 'hue_excited_proportions' in names:
                out = [('360 proportions', iv(L.get('hue_excited_proportions').n) == 360)]
                if 'hue' in names:
                    return out + [('hue in range', z3.And(iv(L.get('hue')) >= 0, iv(L.get('hue')) <= 360))]
                return out + [('neighbour in range', z3.And(iv(L.get('i')) >= iv(L.get('hue')) - 14, iv(L.get('i')) <= iv(L.get('hue')) + 16))]
            if 'scored_hcts' in names:
                i = L.cursor()
                cap['colors'] = C = seq(L).arr
                n, S = arr(L.get('scored_hcts'), '_ScoredHCT')
                cap['ex'] = ex = L.get('hue_excited_proportions')
                return [('at most one score per colour', z3.And(n >= 0, n <= i)),
                        ('scored colours are eligible colours', fa([x], z3.Implies(z3.And(x >= 0, x < n), z3.And(elig(ex, sh(S, x)), z3.Exists([w], z3.And(w >= 0, w < i, sel(C, w) == sh(S, x))))), patterns=[z3.Select(S, x)])),
                        ('eligible colours are scored', fa([w], z3.Implies(z3.And(w >= 0, w < i, elig(ex, sel(C, w))), z3.Exists([x], z3.And(x >= 0, x < n, sh(S, x) == sel(C, w)))), patterns=[z3.Select(C, w)]))]
            if 'chosen_colors' in names:
                n, C = arr(L.get('chosen_colors'), '&Hct')
                S = L.get('scored_hcts')
                if not isinstance(S, SVec):
                    raise Undecided('scored colours of a fixed number')
                dd = iv(L.get('difference_degrees'))
                if 'difference_degrees' in names:
                    full = z3.And([f for _, f in chosen_ok(C, n, S.arr, iv(S.n), dd + 1)])
                    return [('the spacing is between 15 and 90 degrees', z3.And(dd >= 14, dd <= 90)), ('fewer than desired so far', n < want), ('nothing chosen, or the choice for one degree more', z3.Or(dd == 90, full))]
                return [('fewer than desired so far', n < want)] + chosen_ok(C, n, S.arr, L.cursor(), dd)
            if 'colors' in names:
                cs = seq(L)
                n, A = arr(L.get('colors'), 'i64')
                return [('as many colours as chosen', n == L.cursor() + z3.If(iv(cs.n) == 0, 1, 0)),
                        ('the colours of the chosen', fa([x], z3.Implies(z3.And(x >= 0, x < n), sel(A, x) == z3.If(iv(cs.n) == 0, fall, ARGB(sel(cs.arr, x)))), patterns=[z3.Select(A, x)]))]
            raise Undecided('lost anchor: a loop of score')

        def elig(ex, o):
            i = z3.ToInt(HUE(o) + rv(0.5)) % 360
            return z3.Implies(filt, z3.And(CHROMA(o) >= 5, z3.Select(ex.arr, i) > rv(0.01)))

        def facts(L):
            names = {nm for nm, ps in L.fn.debug.items() for p in ps if p.startswith('_') and p[1:].isdigit() and (L.fr, int(p[1:])) in L.chg}
            if 'population_sum' not in names:
                return []
            i = L.cursor()
            v = VAL(z3.Select(seq(L).arr, i))
            return [SUM(0) == 0, SUM(i) >= 0, SUM(i) <= 2 ** 62, z3.Implies(i < iv(seq(L).n), z3.And(v >= 1, SUM(i + 1) == SUM(i) + v, SUM(i + 1) <= 2 ** 62))]
        c.axiom(SUM(0) == 0)
        c.loops[('Score', None, 'score')] = Spec(j, inv, facts=facts)
        outs = j.execute(c, j.fn('Score', 'score'), [ref, des, fb, fl], [want >= 1, iv(m.n) < 2 ** 31], st=st)
        j.no_panic(c, outs)
        for o in returns(outs):
            n, A = arr(o.val, 'i64')
            col = lambda k: OF(z3.Select(A, k))
            ds = [d for d in c.sorts if d['out'].ety == '_ScoredHCT' and any(d['out'].arr.eq(t) for t in consts(o.st.pc))]
            es = [d for d in c.sorts if d['out'].ety.startswith('(') and any(d['out'].arr.eq(t) for t in consts(o.st.pc))]
            if len(ds) != 1 or not cap.get('ex'):
                raise Undecided('lost anchor: one sort of the scored colours')
            S, N, ex = ds[0]['out'].arr, iv(ds[0]['out'].n), cap['ex']
            kap = z3.Int('kappa')
            s = o.st.assume(fa([x, y], z3.Implies(z3.And(x >= 0, x <= y, y < N), sc(S, x) >= sc(S, y)), patterns=[(z3.Select(S, x), z3.Select(S, y))]))   # slice::sort, by the contract of partial_cmp
            s = s.assume(fa([x], ARGB(OF(x)) == x, patterns=[OF(x)]))
            rng = z3.And(K >= 0, K < n)
            pair = z3.And(K >= 0, K < K2, K2 < n)
            fallback = z3.And(n == 1, z3.Select(A, 0) == fall, N == 0)
            j.claim(c, s, 'between one and the desired number of colours', z3.And(n >= 1, n <= want))
            j.claim(c, s, 'exactly the fallback, or a scored colour', z3.Or(fallback, z3.Implies(rng, z3.And(N > 0, z3.Exists([w], z3.And(w >= 0, w < N, sh(S, w) == col(K)))))))
            j.claim(c, s, 'exactly the fallback, or an input colour', z3.Or(fallback, z3.Implies(rng, z3.Select(m.has, z3.Select(A, K)))))
            j.claim(c, s, 'exactly the fallback, or passes the filter', z3.Or(fallback, z3.Implies(rng, elig(ex, col(K)))))
            j.claim(c, s, 'hues at least 15 degrees apart', z3.Implies(pair, DIFF(HUE(col(K2)), HUE(col(K))) >= 15))
            j.claim(c, s, 'in descending order of score', z3.Implies(pair, z3.Exists([w, w2], z3.And(w >= 0, w <= w2, w2 < N, sh(S, w) == col(K), sh(S, w2) == col(K2), sc(S, w) >= sc(S, w2)))))
            j.claim(c, s, 'the first colour has the maximum score', z3.Implies(z3.And(J >= 0, J < N), z3.And(col(z3.IntVal(0)) == sh(S, z3.IntVal(0)), sc(S, z3.IntVal(0)) >= sc(S, J))))
            j.claim(c, s, 'fewer than desired only when the others are close', z3.Implies(z3.And(n < want, J >= 0, J < N), z3.Exists([x], z3.And(x >= 0, x < n, z3.Or(sh(S, J) == col(x), DIFF(HUE(sh(S, J)), HUE(col(x))) < 15)))))
            j.claim(c, s, 'the entries are put in order first', z3.BoolVal(len(es) == 1))
            if es:
                d = es[0]
                (_, ks, pos, _) = c.enums[0]
                e0, e1, e2, e3 = c.fresh('e', z3.IntSort()), c.fresh('e', Obj), c.fresh('e', Obj), c.fresh('e', Obj)
                src = d['src'].arr
                s2 = s.assume(z3.Select(m.has, kap)).assume(z3.And(e0 == d['inv'](pos(kap)), e1 == z3.Select(src, pos(kap)), e2 == z3.Select(d['out'].arr, e0), e3 == z3.Select(cap['colors'], e0)))
                s2.pc = tuple(f for f in s2.pc if 'hue difference' not in f.sexpr())      # not needed here
                j.claim(c, s2, 'every eligible input colour is scored', z3.Implies(elig(ex, OF(kap)), z3.And(N > 0, z3.Exists([w], z3.And(w >= 0, w < N, sh(S, w) == OF(kap))))))
    js.append(Job('score', 'Score::score', score, 300))
    return js
