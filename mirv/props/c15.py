"""Loop invariant over the breakpoint table: no interval before the cursor contains the hue (stated
for an arbitrary index K, so it covers every index).  Lengths, breakpoints and rotations are
symbolic; sanitize_degrees_double is replaced by its contract (C03)."""
from .common import *
from ..loops import Spec

SCOPE = 'whole'
PROVED = 'every clause, for tables of every length, hues in [0,360) and rotations within +-1e6 degrees (result within 1e-6 degrees modulo 360)'
BOUNDED = '-'
ASSUMPTIONS = ['contract of sanitize_degrees_double (proved in C03)', 'source hue in [0,360) (C13); table entries within +-1e6']


def indices(st, arr):
    """index terms at which the path reads the array"""
    seen, out, stack = set(), [], list(st.pc)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(0).eq(arr):
            out.append(x.arg(1))
        stack.extend(x.children())
    return out


def consts(st, prefix):
    seen, out, stack = set(), [], list(st.pc)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name().startswith(prefix):
            out.append(x)
        stack.extend(x.children())
    return out


def jobs(P):
    def setup(j):
        c = j.ctx(definite=True)
        c.contracts[SANITIZE] = c_sanitize
        s, p = hct_in(c, 'src')
        st = State()
        rs = c.new_cell(st, s)
        n1, n2 = z3.Int('n1'), z3.Int('n2')
        ha, ra = z3.Array('hues', z3.IntSort(), z3.RealSort()), z3.Array('rots', z3.IntSort(), z3.RealSort())
        rh, rr = c.new_cell(st, SVec(n1, ha, 'f64', eb=(-10 ** 6, 10 ** 6))), c.new_cell(st, SVec(n2, ra, 'f64', eb=(-10 ** 6, 10 ** 6)))
        h = real(c.fname(s, '_hue'))
        inside = lambda k: z3.And(k >= 0, k <= n1 - 2, z3.Select(ha, k) < h, h < z3.Select(ha, k + 1))
        return c, st, [rs, rh, rr], [p, n1 >= 0, n2 >= 0, n1 < 2 ** 40, n2 < 2 ** 40], n1, n2, ha, ra, h, inside

    def body(j):
        c, st, args, pre, n1, n2, ha, ra, h, inside = setup(j)
        K = z3.Int('K')
        c.loops[('DynamicScheme', None, 'get_rotated_hue')] = Spec(j, lambda L: [('cursor not negative', L.cursor() >= 0), ('no interval before the cursor contains the hue', z3.Implies(z3.And(K >= 0, K < L.cursor()), z3.Not(inside(K))))], variant=lambda L: n1 - L.cursor())
        f = j.fn('DynamicScheme', 'get_rotated_hue')
        outs = j.execute(c, f, args, pre, st)
        j.no_panic(c, outs, allowed=lambda o: n1 != n2)
        near = lambda a, b, m: within(a, b + 360 * z3.ToReal(m), R(1e-6))
        for o in returns(outs):
            r = real(o.val)
            ix = [i for a in (ha, ra) for i in indices(o.st, a)]
            none_at = z3.And([z3.Not(inside(i)) for i in ix] + [z3.Not(inside(i - 1)) for i in ix])
            first = z3.And([inside(K)] + [z3.Implies(i < K, z3.Not(inside(i))) for i in ix])
            ms = [z3.IntVal(0)]
            for k in consts(o.st, 'san_k!'):
                ms += [k, -k]
            cong = lambda k: z3.Or([near(r, h + z3.Select(ra, k), x) for x in ms])
            j.claim(c, o.st, 'lengths agree', n1 == n2)
            j.claim(c, o.st, 'a single rotation is always applied', z3.Implies(n2 == 1, cong(z3.IntVal(0))))
            j.claim(c, o.st, 'the rotation of the first interval containing the hue', z3.Implies(z3.And(n2 != 1, first), cong(K)))
            j.claim(c, o.st, 'unchanged when no interval contains the hue', z3.Implies(z3.And(n2 != 1, none_at), r == h))
            j.claim(c, o.st, 'result in [0,360)', z3.And(r >= 0, r < 360))
    return [Job('get_rotated_hue', 'DynamicScheme::get_rotated_hue', body)]
