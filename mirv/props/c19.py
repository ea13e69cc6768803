"""Loop invariant over the pixel list with a recursively specified prefix count: after i pixels the map
holds exactly the opaque pixels among the first i with their number of occurrences.  The invariant is
stated for an arbitrary key, so it covers every key; length and pixels are unbounded symbolic."""
from .common import *
from ..loops import Spec

SCOPE = 'whole'
PROVED = 'every clause, for pixel lists of every length and any 64-bit integers as pixels; independence of order and of the maximum follows because the result is the count function, which depends on neither'
BOUNDED = '-'
ASSUMPTIONS = ['HashMap behaves as a finite map', 'lists have fewer than 2^62 pixels', 'count(k,i) is the specification function of the number of occurrences of k among the first i pixels, counting only pixels whose bits 24 to 31 are all set']


def jobs(P):
    def body(j):
        c = j.ctx(definite=True)
        st = State()
        n, a = z3.Int('n'), z3.Array('pixels', z3.IntSort(), z3.IntSort())
        mx = c.mk('i64', 'max')
        r = c.new_cell(st, SVec(n, a, 'i64', eb=(-2 ** 63, 2 ** 63 - 1)))
        K = z3.Int('K')
        cnt = uf('count', z3.IntSort(), z3.IntSort(), z3.IntSort())
        opaque = lambda p: (p / 2 ** 24) % 256 == 255

        def unfold(k, i):
            return [z3.And(cnt(k, 0) == 0, cnt(k, i) >= 0, cnt(k, i) <= i, cnt(k, i + 1) == cnt(k, i) + z3.If(z3.And(z3.Select(a, i) == k, opaque(k)), 1, 0))]

        def inv(L):
            i, m = L.cursor(), L.any('count_by_color', HM)
            return [('cursor within the list', z3.And(i >= 0, i <= n)),
                    ('a key is present exactly when it occurred', m.has[K] == (cnt(K, i) > 0)),
                    ('its value is the number of occurrences', z3.Implies(m.has[K], m.val[K] == cnt(K, i)))]
        facts = lambda L: unfold(K, L.cursor()) + unfold(z3.Select(a, L.cursor()), L.cursor())
        c.loops[('QuantizerMap', 'Quantizer', 'quantize')] = Spec(j, inv, forall=[K], at=lambda L: [(z3.Select(a, L.cursor()),)], facts=facts, variant=lambda L: n - L.cursor())
        for x in unfold(K, z3.IntVal(0)):
            c.axiom(x)
        outs = j.execute(c, j.fn('QuantizerMap', 'quantize', 'Quantizer'), [c.mk('&mut QuantizerMap', 'q'), r, mx, c.mk('Option<bool>', 'ret')], [n >= 0, n < 2 ** 62], st)
        j.no_panic(c, outs)
        for o in returns(outs):
            m = c.fname(o.val, 'color_to_count')
            j.claim(c, o.st, 'keys are exactly the opaque pixels that occur', m.has[K] == (cnt(K, n) > 0))
            j.claim(c, o.st, 'values are the numbers of occurrences', z3.Implies(m.has[K], m.val[K] == cnt(K, n)))
    return [Job('quantize', 'QuantizerMap::quantize', body)]
