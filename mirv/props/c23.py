"""Representation invariant of the temperature cache: each lazily computed part is absent or is the
specified one (wheel: the colours at hues 0..360 with the input's chroma and tone; temperatures: the
raw temperature of every wheel colour and of the input; ranking: wheel and input sorted by
temperature).  Every query is verified from any state satisfying it against the contracts of the
queries it calls.  Hct::from and the raw temperature are functions of their arguments; the sort
returns a permutation ordered by its comparison (std), and that the comparison is the order of the
raw temperatures and never panics is an obligation."""
from .common import *
from ..loops import Spec
from ..stdmodel import compare

SCOPE = 'part'
PROVED = 'for every state of the cache and every input colour: the wheel holds the colours at hues 0..360 in order; every wheel colour and the input has its raw temperature in the map; coldest and warmest have the minimum and maximum raw temperature of all of them and are among them; relative temperatures of these lie in [0,1]; nothing panics; analogous returns exactly count colours with the input at index floor((count-1)/2) and wheel colours elsewhere (count, divisions >= 1); the complement is a wheel colour; is_between for all angles; the raw temperature formula; the complement is the colour of the opposite arc with the closest relative temperature (when temperatures differ)'
BOUNDED = 'that the analogous colours are equal steps of accumulated temperature apart; all clauses on the compiled code as well'
ASSUMPTIONS = ['Hct::from is a function of its arguments; hue of an Hct in [0,360) (C13); Hct equality and hash depend on the integer colour only (C12)', 'L*a*b* components of a colour lie in [-200,200]', 'slice::sort_by returns a permutation ordered by its comparison when that is a total preorder', 'the public field input is not assigned between queries']


def obj(c, t):
    return c.wrap('Hct', t)


def argb(c, t):
    return iv(c.fname(obj(c, t), '_argb'))


class W:
    """the specified world of a cache"""

    def __init__(self, j, c, contracts=(), need=None):
        self.c = c
        c.key_field['Hct'] = '_argb'
        AI = z3.ArraySort(z3.IntSort(), Obj)
        self.inp = c.mk('Hct', 'input')
        self.I = self.inp.base
        self.WA, self.SA = z3.Const('wheel', AI), z3.Const('ranking', AI)
        self.HAS, self.TA = z3.Const('temps@has', z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const('temps@val', z3.ArraySort(z3.IntSort(), z3.RealSort()))
        self.n1, self.n2, self.n3 = z3.Ints('n1 n2 n3')
        self.T = uf('raw temperature', z3.IntSort(), z3.RealSort())
        h, k = z3.Int('q!h'), z3.Int('q!k')
        self.hue, self.chroma, self.tone = (c.fname(self.inp, f) for f in ('_hue', '_chroma', '_tone'))
        self.rel = c.mk('f64', 'relative')
        self.REL = z3.Real('relative temperature of the input')
        self.comp = c.mk('Option<Hct>', 'complement')
        rng = lambda x: z3.And(x >= 0, x <= 360)
        w = lambda x: z3.Select(self.WA, x)
        self.wheel_at = lambda x: w(x) == c.term(c.app('Hct::from', [SF(z3.ToReal(x)), self.chroma, self.tone], 'Hct'))
        hueok = lambda t: z3.And(real(c.fname(obj(c, t), '_hue')) >= 0, real(c.fname(obj(c, t), '_hue')) < 360)
        self.cold, self.warm = z3.Select(self.SA, z3.IntVal(0)), z3.Select(self.SA, z3.IntVal(361))
        Ta = lambda t: self.T(argb(c, t))
        self.Ta = Ta
        fa = lambda f, p: z3.ForAll([h], f, patterns=[p])
        self.facts = dict(
            wheel=[fa(z3.Implies(rng(h), z3.And(self.wheel_at(h), hueok(w(h)))), w(h)), hueok(self.I)],
            temps=[fa(z3.Implies(rng(h), self.HAS[argb(c, w(h))]), w(h)), self.HAS[argb(c, self.I)], z3.ForAll([k], z3.Implies(self.HAS[k], self.TA[k] == self.T(k)), patterns=[self.TA[k]]),
                   z3.ForAll([k], z3.And(self.T(k) <= 1000, self.T(k) >= -1000), patterns=[self.T(k)])],
            rank=[fa(z3.Implies(rng(h), z3.And(Ta(self.cold) <= Ta(w(h)), Ta(w(h)) <= Ta(self.warm))), w(h)), Ta(self.cold) <= Ta(self.I), Ta(self.I) <= Ta(self.warm),
                  self.HAS[argb(c, self.cold)], self.HAS[argb(c, self.warm)], hueok(self.cold), hueok(self.warm)])
        self.rep = lambda n1, n2, n3: z3.And(z3.Or(n1 == 0, n1 == 361), n2 >= 0, z3.Or(n3 == 0, n3 == 362), z3.Implies(n2 > 0, n1 == 361), z3.Implies(n3 > 0, n2 > 0))
        self.facts['haswheel'] = self.facts['temps'][:2] + [z3.ForAll([k], z3.And(self.TA[k] <= 1000, self.TA[k] >= -1000), patterns=[self.TA[k]])]
        self.facts['hues'] = [hueok(self.cold), hueok(self.warm), self.HAS[argb(c, self.cold)], self.HAS[argb(c, self.warm)]]
        self.pre = [self.rep(self.n1, self.n2, self.n3)] + sum([self.facts[k2] for k2 in (need or ('wheel', 'temps', 'rank'))], [])
        self.none = z3.K(z3.IntSort(), z3.BoolVal(False))
        self.st = State()
        self.ref = c.new_cell(self.st, self.value(self.n1, self.n2, self.n3, self.rel, self.comp))
        c.contracts[('Hct', None, 'from')] = uf_contract('Hct::from', 'Hct')
        tl = lambda ctx, st, args, callee: [Out(st, 'return', SF(self.T(iv(ctx.fname(deref(ctx, st, args[0]), '_argb'))), -1000.0, 1000.0))]
        c.contracts[('TemperatureCache', None, 'raw_temperature')] = tl
        C = ('wheel', 'temps', 'rank', 'ends', 'relative', 'inputrel')
        for x in contracts:
            getattr(self, 'c_' + x)()

    def value(self, n1, n2, n3, rel, comp):
        v = self.c.mk('TemperatureCache', 'cache')
        return with_fields(self.c, v, input=self.inp, _hcts_by_hue=SVec(n1, self.WA, 'Hct'), _hcts_by_temp=SVec(n3, self.SA, 'Hct'),
                           _temps_by_hct=HM('Hct', 'f64', z3.If(n2 > 0, self.HAS, self.none), self.TA, n2), _input_relative_temperature=rel, _complement=comp)

    def set(self, st, r, **kw):
        st = st.fork()
        self.c.store(st, r, with_fields(self.c, self.c.load(st, r), **kw))
        return st

    def full(self, st, r, *parts):
        kw = dict(_hcts_by_hue=SVec(z3.IntVal(361), self.WA, 'Hct'))
        if 'temps' in parts or 'rank' in parts:
            m = self.c.fname(self.c.load(st, r), '_temps_by_hct')
            n = self.c.fresh('temps#', z3.IntSort())
            st = st.assume(z3.And(n > 0, z3.Implies(iv(m.n) > 0, n == iv(m.n))))
            kw['_temps_by_hct'] = HM('Hct', 'f64', self.HAS, self.TA, n)
        if 'rank' in parts:
            kw['_hcts_by_temp'] = SVec(z3.IntVal(362), self.SA, 'Hct')
        return self.set(st, r, **kw)

    def on(self, fn, h):
        self.c.contracts[('TemperatureCache', None, fn)] = h

    def c_wheel(self):
        self.on('get_hcts_by_hue', lambda ctx, st, a, cl: [Out(self.full(st, a[0]), 'return', SVec(z3.IntVal(361), self.WA, 'Hct'))])

    def c_temps(self):
        def h(ctx, st, a, cl):
            s = self.full(st, a[0], 'temps')
            return [Out(s, 'return', ctx.fname(ctx.load(s, a[0]), '_temps_by_hct'))]
        self.on('get_temps_by_hct', h)

    def c_rank(self):
        self.on('get_hcts_by_temp', lambda ctx, st, a, cl: [Out(self.full(st, a[0], 'rank'), 'return', SVec(z3.IntVal(362), self.SA, 'Hct'))])

    def c_ends(self):
        self.on('get_coldest', lambda ctx, st, a, cl: [Out(self.full(st, a[0], 'rank'), 'return', obj(ctx, self.cold))])
        self.on('get_warmest', lambda ctx, st, a, cl: [Out(self.full(st, a[0], 'rank'), 'return', obj(ctx, self.warm))])

    def c_relative(self):
        def h(ctx, st, a, cl):
            v = ctx.fresh('rel', z3.RealSort())
            s = self.full(st, a[0], 'rank').assume(z3.And(v >= 0, v <= 1))
            # precondition: the colour has a temperature
            k = iv(ctx.fname(deref(ctx, st, a[1]), '_argb'))
            outs = [Out(s.assume(self.HAS[k]), 'return', SF(v, 0.0, 1.0))]
            if not ctx.valid(st, self.HAS[k]):
                outs.append(Out(st.assume(z3.Not(self.HAS[k])), 'panic', 'colour without temperature'))
            return outs
        self.on('relative_temperature', h)

        def g(ctx, st, a, cl):
            v = self.REL
            s = self.full(st, a[0], 'rank').assume(z3.And(v >= 0, v <= 1))
            s = self.set(s, a[0], _input_relative_temperature=SF(v, 0.0, 1.0))
            return [Out(s, 'return', SF(v, 0.0, 1.0))]
        self.on('get_input_relative_temperature', g)

    def kept(self, j, o, what, rel=None, comp=False):
        """the representation invariant and the frame after a query"""
        c = self.c
        v = c.load(o.st, self.ref)
        K = z3.Int('K')
        h, m, t = c.fname(v, '_hcts_by_hue'), c.fname(v, '_temps_by_hct'), c.fname(v, '_hcts_by_temp')
        ln = lambda x: iv(len(x.e) if isinstance(x, Vc) else x.n)
        j.claim(c, o.st, what + ': the parts present are as the invariant allows', self.rep(ln(h), iv(m.n), ln(t)))
        j.claim(c, o.st, what + ': the input colour is kept', c.same(c.fname(v, 'input'), self.inp))
        r, k = real(c.fname(v, '_input_relative_temperature')), c.fname(v, '_complement')
        j.claim(c, o.st, what + ': the temperature kept for the input is as before or that of the input', z3.Or(r == self.rel.t, r == (self.REL if rel is None else rel)))
        if not comp:
            j.claim(c, o.st, what + ': the complement kept is as before', c.same(k, self.comp))
        return h, m, t


def elem(c, v, k):
    """element term of a vector at a symbolic index (arbitrary when out of range)"""
    if isinstance(v, Vc):
        r = z3.Const('outside', Obj)
        for i, x in enumerate(v.e):
            r = z3.If(k == i, c.term(x), r)
        return r
    return z3.Select(v.arr, k)


def ln(v):
    return iv(len(v.e)) if isinstance(v, Vc) else iv(v.n)


def jobs(P):
    js = []
    K = z3.Int('K')
    q = ('TemperatureCache', None)

    def wheel(j):
        c = j.ctx(definite=True)
        w = W(j, c)

        def inv(L):
            v = L.any('hcts', (Vc, SVec))
            return [('one colour per hue so far', z3.And(ln(v) == L.cursor(), L.cursor() <= 361)),
                    ('each is the colour at its hue', z3.Implies(z3.And(K >= 0, K < L.cursor()), elem(c, v, K) == c.term(c.app('Hct::from', [SF(z3.ToReal(K)), w.chroma, w.tone], 'Hct'))))]
        c.loops[q + ('get_hcts_by_hue',)] = Spec(j, inv, variant=lambda L: 361 - L.cursor())
        outs = j.execute(c, j.fn('TemperatureCache', 'get_hcts_by_hue'), [w.ref], w.pre + [w.wheel_at(K)], w.st)
        j.no_panic(c, outs)
        want = c.term(c.app('Hct::from', [SF(z3.ToReal(K)), w.chroma, w.tone], 'Hct'))
        for o in returns(outs):
            h, m, t = w.kept(j, o, 'wheel')
            for nm, v in (('result', o.val), ('cached wheel', h)):
                j.claim(c, o.st, nm + ' has 361 colours', ln(v) == 361)
                j.claim(c, o.st, nm + ' holds the colour of each whole-degree hue in order', z3.Implies(z3.And(K >= 0, K <= 360), elem(c, v, K) == want))
            j.claim(c, o.st, 'temperatures and ranking are unchanged', z3.And(iv(m.n) == w.n2, ln(t) == w.n3))
    js.append(Job('get_hcts_by_hue', 'TemperatureCache::get_hcts_by_hue', wheel))

    def temps(j):
        c = j.ctx(definite=True)
        w = W(j, c, ['wheel'])
        src = {}

        def inv(L):
            m = L.any('temperatures_by_hct', HM)
            its = [i for i in L.iters() if i.kind in ('seq', 'seqval')]
            if not its:
                raise Undecided('lost anchor: no iterator')
            v = c.load(L.st, its[0].a[0])
            i = L.cursor()
            return [('cursor within the list', z3.And(i >= 0, i <= ln(v))),
                    ('every colour before the cursor has a temperature', z3.Implies(z3.And(K >= 0, K < i), m.has[argb(c, elem(c, v, K))])),
                    ('the list is the wheel and the input', z3.And(ln(v) == 362, z3.Implies(z3.And(K >= 0, K <= 360), elem(c, v, K) == w.WA[K]), elem(c, v, z3.IntVal(361)) == w.I)),
                    ('temperatures are raw temperatures', z3.Implies(m.has[K], m.val[K] == w.T(K))),
                    ('the map is not empty after the first colour', z3.And(iv(m.n) >= 0, z3.Implies(i > 0, iv(m.n) > 0), z3.Implies(m.has[K], iv(m.n) > 0)))]
        k = z3.Int('k')
        c.loops[q + ('get_temps_by_hct',)] = Spec(j, inv, forall=[K], at=lambda L: [(L.cursor(),), (argb(c, elem(c, c.load(L.st, [i for i in L.iters() if i.kind in ('seq', 'seqval')][0].a[0]), L.cursor())),)])
        for nm in ('get_temps_by_hct',):
            outs = j.execute(c, j.fn('TemperatureCache', nm), [w.ref], w.pre, w.st)
        j.no_panic(c, outs)
        for o in returns(outs):
            h, m, t = w.kept(j, o, 'temperatures')
            for n2, v in (('result', o.val), ('cached map', m)):
                j.claim(c, o.st, n2 + ' has every wheel colour', z3.Implies(z3.And(K >= 0, K <= 360), v.has[argb(c, w.WA[K])]))
                j.claim(c, o.st, n2 + ' has raw temperatures', z3.Implies(v.has[K], v.val[K] == w.T(K)))
            j.claim(c, o.st, 'the map is not empty', iv(m.n) > 0)
            # the index 361 of the list is the input
            s = o.st.assume(K == 361)
            j.claim(c, s, 'the input has a temperature', o.val.has[argb(c, w.I)])
    js.append(Job('get_temps_by_hct', 'TemperatureCache::get_temps_by_hct', temps))

    def rank(j):
        c = j.ctx(definite=True)
        w = W(j, c, ['wheel', 'temps'])

        def inv(L):
            v = L.any('hcts_by_temp', (Vc, SVec))
            return [('copied so far', z3.And(ln(v) == L.cursor(), L.cursor() <= w.n3, L.cursor() >= 0)), ('copied in order', z3.Implies(z3.And(K >= 0, K < L.cursor()), elem(c, v, K) == w.SA[K]))]
        c.loops[q + ('get_hcts_by_temp',)] = Spec(j, inv)
        outs = j.execute(c, j.fn('TemperatureCache', 'get_hcts_by_temp'), [w.ref], w.pre, w.st)
        j.no_panic(c, outs)
        for o in returns(outs):
            h, m, t = w.kept(j, o, 'ranking')
            j.claim(c, o.st, 'the ranking has 362 colours', z3.And(ln(o.val) == 362, ln(t) == 362))
            j.claim(c, o.st, 'the cached ranking is returned', z3.Implies(z3.And(K >= 0, K <= 361), elem(c, o.val, K) == elem(c, t, K)))
            j.claim(c, o.st, 'wheel and temperatures are present', z3.And(ln(h) == 361, iv(m.n) > 0))
            srt = [d for d in c.sorts if isinstance(o.val, SVec) and o.val.arr is not None and (o.val.arr.eq(d['out'].arr))]
            if not srt:
                j.claim(c, o.st, 'a ranking already present is returned', z3.Implies(z3.And(K >= 0, K <= 361), elem(c, o.val, K) == w.SA[K]))
                j.claim(c, o.st, 'only when present', w.n3 == 362)
                continue
            d = srt[0]
            j.claim(c, o.st, 'the sorted list is the wheel and the input', z3.And(ln(d['src']) == 362, elem(c, d['src'], z3.IntVal(361)) == w.I, z3.Implies(z3.And(K >= 0, K <= 360), elem(c, d['src'], K) == w.WA[K])))
            p, r = z3.Ints('p r')
            s = d['st'].assume(z3.And(p >= 0, p < ln(d['src']), r >= 0, r < ln(d['src'])))
            x, y = elem(c, d['src'], p), elem(c, d['src'], r)
            # case split: wheel colour or input
            for pn, pc_ in (('wheel', p <= 360), ('input', p == 361)):
                for rn, rc in (('wheel', r <= 360), ('input', r == 361)):
                    s2 = s.assume(z3.And(pc_, rc, x == (w.WA[p] if pn == 'wheel' else w.I), y == (w.WA[r] if rn == 'wheel' else w.I)))
                    s2.mem.update({k2: v2 for k2, v2 in o.st.mem.items() if k2 not in s2.mem})
                    for q2 in compare(c, s2, d, obj(c, x), obj(c, y)):
                        if q2.kind != 'return':
                            j.claim(c, q2.st, 'the comparison does not panic (%s, %s)' % (pn, rn), False)
                            continue
                        tx, ty = w.T(argb(c, x)), w.T(argb(c, y))
                        j.claim(c, q2.st, 'the comparison is the order of raw temperatures (%s, %s)' % (pn, rn), z3.And((q2.val < 0) == (tx < ty), (q2.val == 0) == (tx == ty)))
    js.append(Job('get_hcts_by_temp', 'TemperatureCache::get_hcts_by_temp', rank))

    def ranklemma(j):
        # from the sort: what the contract of the ranking says about its ends
        c = j.ctx(definite=True)
        w = W(j, c)
        n = 362
        pm, qv = uf('perm', z3.IntSort(), z3.IntSort()), uf('perminv', z3.IntSort(), z3.IntSort())
        src = lambda k: z3.If(k == 361, w.I, w.WA[k])
        k = z3.Int('q!k2')
        st = State()
        st.pc = tuple(w.facts['wheel'] + w.facts['temps'] + [z3.Implies(z3.And(x >= 0, x < n), z3.And(pm(x) >= 0, pm(x) < n, w.SA[x] == src(pm(x)), qv(x) >= 0, qv(x) < n, src(x) == w.SA[qv(x)])) for x in (K, z3.IntVal(0), z3.IntVal(361))])
        order = lambda a, b: z3.Implies(z3.And(a >= 0, a <= b, b < n), w.Ta(w.SA[a]) <= w.Ta(w.SA[b]))
        st.pc += (order(z3.IntVal(0), qv(K)), order(qv(K), z3.IntVal(361)), order(z3.IntVal(0), qv(z3.IntVal(361))), order(qv(z3.IntVal(361)), z3.IntVal(361)))
        j.functions.add('TemperatureCache::get_hcts_by_temp')
        j.claim(c, st, 'the first is the coldest and the last the warmest of the wheel', z3.Implies(z3.And(K >= 0, K <= 360), z3.And(w.Ta(w.cold) <= w.Ta(w.WA[K]), w.Ta(w.WA[K]) <= w.Ta(w.warm))))
        j.claim(c, st, 'and of the input', z3.And(w.Ta(w.cold) <= w.Ta(w.I), w.Ta(w.I) <= w.Ta(w.warm)))
        j.claim(c, st, 'both have a temperature', z3.And(w.HAS[argb(c, w.cold)], w.HAS[argb(c, w.warm)]))
        j.claim(c, st, 'both have a hue in [0,360)', z3.And([z3.And(real(c.fname(obj(c, t), '_hue')) >= 0, real(c.fname(obj(c, t), '_hue')) < 360) for t in (w.cold, w.warm)]))
    js.append(Job('ends of the ranking', 'TemperatureCache::get_hcts_by_temp', ranklemma))

    def ends(j):
        for nm, at in (('get_coldest', 0), ('get_warmest', 361)):
            c = j.ctx(definite=True)
            w = W(j, c, ['rank'])
            outs = j.execute(c, j.fn('TemperatureCache', nm), [w.ref], w.pre, w.st)
            j.no_panic(c, outs)
            for o in returns(outs):
                w.kept(j, o, nm)
                j.claim(c, o.st, nm + ' is the %s of the ranking' % ('first' if at == 0 else 'last'), c.term(o.val) == w.SA[at])
    js.append(Job('coldest and warmest', 'TemperatureCache::get_coldest', ends))

    def relative(j):
        for nm in ('relative_temperature', 'get_input_relative_temperature'):
            c = j.ctx(definite=True)
            c.anchors |= {0.0, 0.5, 1.0}
            c.mono = True
            w = W(j, c, ['temps', 'ends'])
            inp = nm != 'relative_temperature'
            x = w.inp if inp else c.mk('Hct', 'x')
            st = w.st
            a = [w.ref] if inp else [w.ref, c.new_cell(st, x)]
            k = iv(c.fname(x, '_argb'))
            # a wheel colour (arbitrary index) or the input
            pre = [] if inp else [z3.Or(z3.And(K >= 0, K <= 360, x.base == w.WA[K]), x.base == w.I)]
            lo, hi, t = w.Ta(w.cold), w.Ta(w.warm), w.T(k)
            spec = z3.If(hi == lo, z3.RealVal('1/2'), ufr('spec', t, lo, hi))
            if inp:
                pre.append(z3.Or(w.rel.t < 0, z3.And(w.rel.t <= 1)))
            outs = j.execute(c, j.fn('TemperatureCache', nm), a, w.pre + pre, st)
            j.no_panic(c, outs)
            for o in returns(outs):
                v = real(o.val)
                w.kept(j, o, nm, rel=v if inp else None)
                j.claim(c, o.st, nm + ' lies in [0,1]', z3.And(v >= 0, v <= 1))
                old = z3.And(w.rel.t >= 0, v == w.rel.t) if inp else False
                j.claim(c, o.st, nm + ' is one half when all temperatures are equal', z3.Or(bv(old), z3.Implies(hi == lo, v == z3.RealVal('1/2'))))
                j.claim(c, o.st, nm + ' is the position between coldest and warmest', z3.Or(bv(old), z3.Implies(hi > lo, within(v * (hi - lo), t - lo, R(1e-9)))))
    js.append(Job('relative temperature', 'TemperatureCache::relative_temperature', relative))

    def raw(j):
        c = j.ctx(fmode='uf', definite=True)
        lab = lambda ctx, a: [SF(ufr_i('lab%d' % i, a), -200.0, 200.0) for i in range(3)]
        c.contracts[('ColorUtils', None, 'lab_from_argb')] = lambda ctx, st, a, cl: [Out(st, 'return', Vc(lab(ctx, iv(a[0]))))]
        c.contracts[SANITIZE] = lambda ctx, st, a, cl: [Out(st, 'return', SF(ufr('sanitize', real(a[0])), 0.0, 360.0))]
        r = c.mk('&Hct', 'x')
        a = iv(c.fname(c.load(State(), r), '_argb'))
        outs = j.execute(c, j.fn('TemperatureCache', 'raw_temperature'), [r])
        j.no_panic(c, outs)
        st = State()
        L = lab(c, a)
        op = lambda o, x, y: c.fl.binop(st, o, x, y)
        import math
        hue = SF(ufr('sanitize', real(op('Div', op('Mul', c.fl.call(st, 'atan2', (L[2], L[1])), 180.0), math.pi))))
        ch = c.fl.call(st, 'sqrt', (op('Add', op('Mul', L[1], L[1]), op('Mul', L[2], L[2])),))
        ang = op('Div', op('Mul', SF(ufr('sanitize', real(op('Sub', hue, 50.0)))), math.pi), 180.0)
        want = op('Add', op('Mul', op('Mul', 0.02, c.fl.call(st, 'powf', (ch, 1.07))), c.fl.call(st, 'cos', (ang,))), -0.5)
        for o in returns(outs):
            j.claim(c, o.st, 'raw temperature is -0.5 + 0.02 C^1.07 cos(h - 50) of the L*a*b* chroma and hue', real(o.val) == real(want))
        # magnitude
        c = j.ctx(definite=True)

        def powf(ops, st, args):
            r = ufr('fl_powf', real(args[0]), real(args[1]))
            ops.ctx.axiom(z3.Implies(z3.And(real(args[0]) >= 0, real(args[0]) <= 300), z3.And(r >= 0, r <= 500)), (r,))
            ops.ctx.assume_note('libm powf(x, 1.07) lies in [0,500] for x in [0,300]')
            return SF(r, 0.0, 500.0)
        c.libm = dict(c.libm, powf=powf)
        c.contracts[('ColorUtils', None, 'lab_from_argb')] = lambda ctx, st, a, cl: [Out(st.assume(z3.And([z3.And(x.t <= 200, x.t >= -200) for x in lab(ctx, iv(a[0]))])), 'return', Vc(lab(ctx, iv(a[0]))))]
        c.contracts[SANITIZE] = c_sanitize
        c.libm['atan2'] = lambda ops, st, args: SF(ufr('fl_atan2', real(args[0]), real(args[1])), -4.0, 4.0)
        r = c.mk('&Hct', 'x')
        for o in j.execute(c, j.fn('TemperatureCache', 'raw_temperature'), [r]):
            if o.kind == 'return':
                lo, hi = bounds(o.val)
                j.claim(c, o.st, 'raw temperatures are finite, at most 1000 in magnitude', z3.And(real(o.val) <= 1000, real(o.val) >= -1000) if not (lo is not None and lo >= -1000 and hi <= 1000) else True)
    js.append(Job('raw_temperature', 'TemperatureCache::raw_temperature', raw))

    def between(j):
        c = j.ctx(definite=True)
        x, px = fin('x', 0, 360)
        a, pa = fin('a', 0, 360)
        b, pb = fin('b', 0, 360)
        outs = j.execute(c, j.fn('TemperatureCache', 'is_between'), [x, a, b], [px, pa, pb, x.t < 360, a.t < 360, b.t < 360, a.t != b.t])
        ins = dict(x=x, a=a, b=b)
        rp = ('between', args_f('x', 'a', 'b'))
        j.no_panic(c, outs, ins, rp)
        arc = lambda u, v: z3.If(v >= u, v - u, v - u + 360)
        for o in returns(outs):
            j.claim(c, o.st, 'between a and b exactly on the increasing arc from a to b', bv(o.val) == (arc(a.t, x.t) <= arc(a.t, b.t)), ins, rp)
    js.append(Job('is_between', 'TemperatureCache::is_between', between))

    def complement(j):
        c = j.ctx(definite=True)
        c.div0 = 'havoc'
        w = W(j, c, ['temps', 'ends', 'relative'], need=('haswheel', 'hues'))
        c.contracts[SANITIZE] = c_sanitize
        h = z3.Int('q!c')
        onwheel = lambda t: z3.Exists([h], z3.And(h >= 0, h <= 360, t == w.WA[h]))

        def inv(L):
            return [('the answer so far is a wheel colour', onwheel(c.term(L.get('answer'))))]
        c.loops[q + ('get_complement',)] = Spec(j, inv)
        cp = c.term(c.payload(w.comp, 'Some', 0, None))
        outs = j.execute(c, j.fn('TemperatureCache', 'get_complement'), [w.ref], w.pre + [z3.Implies(iv(w.comp.tag) == 1, onwheel(cp)), w.hue.t >= 0, w.hue.t < 360], w.st)
        j.no_panic(c, outs)
        for o in returns(outs):
            w.kept(j, o, 'complement', comp=True)
            j.claim(c, o.st, 'the complement is a wheel colour', onwheel(c.term(o.val)))
            v = c.fname(c.load(o.st, w.ref), '_complement')
            j.claim(c, o.st, 'the complement is kept for the next query', z3.And(iv(v.tag) == 1, c.term(c.payload(v, 'Some', 0, None)) == c.term(o.val)))
            j.claim(c, o.st, 'a complement already present is returned', z3.Implies(iv(w.comp.tag) == 1, c.term(o.val) == cp))
    js.append(Job('get_complement', 'TemperatureCache::get_complement', complement))

    def closest(j):
        # which colour: floats uninterpreted (same operations, same values), temperatures not all equal
        c = j.ctx(fmode='uf', definite=True)
        w = W(j, c, ['temps', 'ends', 'relative'], need=('haswheel', 'hues'))
        c.contracts[SANITIZE] = lambda ctx, st, a, cl: [Out(st.assume(z3.And(ufr('sanitize', real(a[0])) >= 0, ufr('sanitize', real(a[0])) < 360)), 'return', SF(ufr('sanitize', real(a[0])), 0.0, 360.0))]
        irel = ufr_i('input relative temperature', argb(c, w.I))

        def g(ctx, st, a, cl):
            return [Out(w.full(st, a[0], 'rank').assume(z3.And(irel >= 0, irel <= 1)), 'return', SF(irel, 0.0, 1.0))]
        w.on('get_input_relative_temperature', g)
        hue = lambda t: real(c.fname(obj(c, t), '_hue'))
        isb = lambda x, a, b: z3.If(a < b, z3.And(a <= x, x <= b), z3.Or(a <= x, x <= b))
        mid = isb(w.hue.t, hue(w.cold), hue(w.warm))
        start, end = z3.If(mid, hue(w.warm), hue(w.cold)), z3.If(mid, hue(w.cold), hue(w.warm))
        st0 = State()
        F = lambda op, a, b: real(c.fl.binop(st0, op, SF(a), SF(b) if is_z3(b) else b))

        def at(k, start=None):
            # the same float operations as the code, on either of the two starting hues
            res = []
            for cond, s0, e0 in ((mid, hue(w.warm), hue(w.cold)), (z3.Not(mid), hue(w.cold), hue(w.warm))):
                x = ufr('sanitize', real(c.fl.binop(st0, 'Add', SF(s0), SF(z3.ToReal(k)))))
                ix = z3.ToInt(x + z3.RealVal('1/2'))
                el = w.WA[ix]
                t = F('Div', F('Sub', w.TA[argb(c, el)], w.TA[argb(c, w.cold)]), F('Sub', w.TA[argb(c, w.warm)], w.TA[argb(c, w.cold)]))
                err = F('Sub', real(c.fl.binop(st0, 'Sub', 1.0, SF(irel))), t)
                res.append((cond, isb(x, s0, e0), el, z3.If(err >= 0, err, -err)))
            return res
        h = z3.Int('q!c')

        def inv(L):
            ans, sm, i = c.term(L.get('answer')), real(L.get('smallest_error')), L.cursor()
            init = w.WA[z3.ToInt(w.hue.t + z3.RealVal('1/2'))]
            best = [z3.Implies(z3.And(cond, K >= 0, K < i, e), sm <= er) for cond, e, el, er in at(K)]
            got = [z3.Exists([h], z3.And(h >= 0, h < i, cond, e, ans == el, sm == er)) for cond, e, el, er in at(h)]
            return [('cursor in range', z3.And(i >= 0, i <= 360)), ('no colour on the arc before the cursor is closer', z3.And(best)),
                    ('the answer is a colour on the arc with the smallest difference so far', z3.Or([z3.And(ans == init, sm == 1000)] + got))]
        c.loops[q + ('get_complement',)] = Spec(j, inv, forall=[K], at=lambda L: [(L.cursor(),)])
        outs = j.execute(c, j.fn('TemperatureCache', 'get_complement'), [w.ref], w.pre + [iv(w.comp.tag) == 0, w.hue.t >= 0, w.hue.t < 360, w.TA[argb(c, w.warm)] != w.TA[argb(c, w.cold)]], w.st)
        for o in returns(outs):
            ans = c.term(o.val)
            best = [z3.Implies(z3.And(cond, K >= 0, K < 360, e), er < 1000) for cond, e, el, er in at(K)]
            got = [z3.Exists([h], z3.And(h >= 0, h < 360, cond, e, ans == el, z3.And([z3.Implies(z3.And(c2, K >= 0, K < 360, e2), er <= er2) for c2, e2, el2, er2 in at(K)]))) for cond, e, el, er in at(h)]
            j.claim(c, o.st, 'the complement is the colour of the opposite arc with the closest relative temperature', z3.Or([z3.And([z3.Implies(z3.And(cond, K >= 0, K < 360, e), er >= 1000) for cond, e, el, er in at(K)])] + got))
    def analogous(j):
        c = j.ctx(fmode='exact', definite=True)
        j.notes.add('analogous: machine arithmetic treated as mathematical (count at most 2^52)')
        w = W(j, c, ['wheel', 'relative'], need=('haswheel',))
        h = z3.Int('q!h')
        wp = uf('is a wheel colour', Obj, z3.BoolSort())
        pre = [z3.ForAll([h], z3.Implies(z3.And(h >= 0, h <= 360), wp(w.WA[h])), patterns=[w.WA[h]])]

        def san(ctx, st, a, cl):
            v = ctx.fresh('sanint', z3.IntSort())
            return [Out(st.assume(z3.And(v >= 0, v < 360, (iv(a[0]) - v) % 360 == 0)), 'return', v)]
        c.contracts[('MathUtils', None, 'sanitize_degrees_int')] = san
        cnt, div = c.mk('Option<i64>', 'count'), c.mk('Option<i64>', 'divisions')
        N = z3.If(iv(cnt.tag) == 1, c.payload(cnt, 'Some', 0, None), 5)
        D = z3.If(iv(div.tag) == 1, c.payload(div, 'Some', 0, None), 12)
        pre += [N >= 1, N <= 2 ** 52, D >= 1, D <= 2 ** 60, w.hue.t >= 0, w.hue.t < 360]
        mid = (N - 1) / 2

        def allwheel(v, but=None):
            k = z3.Int('q!e')
            if isinstance(v, Vc):
                return z3.And([z3.BoolVal(True)] + [wp(c.term(x)) for i, x in enumerate(v.e)])
            return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n) if but is None else z3.And(k >= 0, k < v.n, k != but), wp(z3.Select(v.arr, k))), patterns=[z3.Select(v.arr, k)] if z3.is_const(v.arr) else [])

        def inv(L):
            def cell(n):
                for k in L._loc(n):
                    if (L.fr, k) in L.st.mem:
                        yield (L.fr, k), L.st.mem[(L.fr, k)]

            def cur(n):
                # the local of that name this loop changes, or else the latest one
                cs = list(cell(n))
                ch = [v for k, v in cs if k in L.chg]
                return ch[0] if ch else None
            A, ans = (next((v for k, v in cell(n) if not isinstance(v, Unk)), None) for n in ('all_colors', 'answers'))
            out = []
            if A is not None:
                out += [('at least one colour and no more than the divisions', z3.And(ln(A) >= 1, z3.Or(ln(A) <= D, ln(A) == 1))), ('every colour is a wheel colour', allwheel(A))]
            ix = cur('index')
            if ix is not None:
                out.append(('index bounded', z3.And(iv(ix) >= -2 ** 61, iv(ix) <= 2 ** 61)))
            ha = cur('hue_addend')
            if ha is not None:
                out.append(('hue addend within a turn', z3.And(iv(ha) >= 1, iv(ha) <= 360)))
            else:
                ia = cur('index_addend')
                if ia is not None and A is not None:
                    out.append(('no more repetitions than colours', z3.And(iv(ia) >= 1, iv(ia) <= ln(A))))
            if ans is not None:
                p = z3.If(ln(ans) <= mid, ln(ans) - 1, mid)
                out += [('the input is where it belongs', elem(c, ans, p) == w.I), ('at least the input, at most count', z3.And(ln(ans) >= 1, ln(ans) <= N))]
                if isinstance(ans, SVec):
                    out.append(('the other answers are wheel colours', allwheel(ans, p)))
                for k in L.chg:
                    it = L.st.mem.get(k)
                    if isinstance(it, It) and it.kind == 'range':
                        out.append(('one answer per step', ln(ans) - ln(L.old('answers')) == iv(it.a[0]) - iv(L.entry.mem[k].a[0])))
            return out
        c.loops[q + ('analogous',)] = Spec(j, inv)
        outs = j.execute(c, j.fn('TemperatureCache', 'analogous'), [w.ref, cnt, div], w.pre + pre, w.st)
        j.no_panic(c, outs)
        for o in returns(outs):
            w.kept(j, o, 'analogous')
            j.claim(c, o.st, 'exactly count colours', ln(o.val) == N)
            j.claim(c, o.st, 'the input is at index floor((count-1)/2)', elem(c, o.val, mid) == w.I)
            j.claim(c, o.st, 'every other colour is a wheel colour', z3.Implies(z3.And(K >= 0, K < N, K != mid), wp(elem(c, o.val, K))))
    js.append(Job('analogous', 'TemperatureCache::analogous', analogous))
    js.append(Job('complement is closest', 'TemperatureCache::get_complement', closest))
    return js
