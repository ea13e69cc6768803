"""Loop invariants.  A loop with a specification is cut at its head: the memory the body can change
(found by running the body until no new location changes) is replaced by arbitrary values, the
invariant is assumed, the body is run once, and the invariant is claimed on entry and at every back
edge.  Iterators carry an automatic invariant: a range iterator is inside its range, a slice iterator
inside the slice."""
import z3
from .values import *
from .engine import SCALAR, INT, gen_args
from .mirparse import norm_ty
from .floats import uf


class NoCursor(Exception):
    pass


class Loop:
    """what an invariant sees: the current state, the state on entry, locals by their source name"""

    def __init__(self, ctx, fn, fr, st, entry, idx, chg=()):
        self.ctx, self.fn, self.fr, self.st, self.entry, self.idx, self.chg = ctx, fn, fr, st, entry, idx, chg

    head = None         # the loop head this state belongs to (for witnesses)
    assuming = False

    def exists(self, name, key, body, cands):
        """some t with body(t): assumed with a witness function of the key; claimed for one of the candidates or
        the witness assumed at the head"""
        w = uf('w:%s:%s' % (name, self.head), z3.IntSort(), z3.IntSort())(key)
        if self.assuming:
            return body(w)
        return z3.Or([body(t) for t in [w] + list(cands)])

    def _loc(self, name):
        for p in self.fn.debug.get(name, []):
            if p.startswith('_') and p[1:].isdigit():
                yield int(p[1:])

    def get(self, name, st=None):
        st = st or self.st
        for n in self._loc(name):
            if (self.fr, n) in st.mem:
                v = st.mem[(self.fr, n)]
                while isinstance(v, Ref):
                    v = self.ctx.load(st, v)
                return v
        raise Undecided('lost anchor: no local %s in %s' % (name, self.fn.name))

    def any(self, name, cls):
        """the local of that name, or else the only local of that class the loop changes"""
        try:
            v = self.get(name)
            if isinstance(v, cls):
                return v
        except Undecided:
            pass
        vs = [v for v in (self.st.mem.get(c) for c in self.chg if c[0] == self.fr) if isinstance(v, cls)]
        if len(vs) == 1:
            return vs[0]
        if not self.chg:
            raise NoCursor()
        raise Undecided('lost anchor: no local %s in %s' % (name, self.fn.name))

    def cursor(self):
        """the index the loop advances: an integer local it changes, or the position of its iterator"""
        if not self.chg:
            raise NoCursor()
        its, ints = [], []
        for c in sorted((c for c in self.chg if c[0] == self.fr and isinstance(c[1], int)), key=lambda c: c[1]):
            v = self.st.mem.get(c)
            if isinstance(v, It):
                if self.entry is not None and not isinstance(self.entry.mem.get(c), It):
                    continue        # the iterator of an inner loop
                try:
                    its.append(cursor(v))
                except Undecided:
                    pass
            elif is_int(v):
                ints.append((c, v))
        if its:
            return its[0]
        named = {n for ps in self.fn.debug.values() for p in ps if p.startswith('_') and p[1:].isdigit() for n in [int(p[1:])]}
        for c, v in ints:
            if c[1] in named:
                return iv(v)
        raise Undecided('lost anchor: no loop cursor in ' + self.fn.name)

    def old(self, name):
        return self.get(name, self.entry)

    def iters(self):
        """iterator values of the frame, in order of their locals"""
        return [v for (c, v) in sorted(((k, v) for k, v in self.st.mem.items() if k[0] == self.fr and isinstance(v, It)), key=lambda kv: kv[0][1])]


class Spec:
    """inv(L) -> [(name, formula)]; heads: indices of the loops cut (None: all); bounds: {local: (lo, hi)} of float locals"""

    def __init__(self, j=None, inv=None, heads=None, bounds=None, claim=None, variant=None, forall=(), at=None, facts=None, unroll=True, quant=False):
        # quant: after the loop the invariant is known for all values of the forall constants
        self.quant = quant
        # forall: constants the invariant is universally quantified over (it is claimed for them as arbitrary
        # constants); at(L) -> tuples of terms at which it is instantiated at the head.
        # facts(L): definitional facts of specification functions, assumed at the head
        self.forall, self.at, self.facts = tuple(forall), at, facts
        self.variant, self.unroll = variant, unroll
        self.j, self.inv, self.heads, self.bounds, self.kw = j, inv, heads, bounds or {}, claim or {}

    def wants(self, idx):
        return self.heads is None or idx in self.heads

    def assumed(self, L):
        inv = self.formulas(L)
        out = list(inv)
        if self.forall and self.at is not None:
            for ts in self.at(L):
                out += [(n, z3.substitute(bv(f), *zip(self.forall, ts))) for n, f in inv]
        if self.facts is not None:
            out += [('fact', f) for f in self.facts(L)]
        return out

    def formulas(self, L):
        out = []
        for n, (lo, hi) in self.bounds.items():
            try:
                v = L.get(n)
            except Undecided:
                continue
            if is_float(v):
                out.append(('%s in [%g,%g]' % (n, lo, hi), z3.And(real(v) >= rv(float(lo)), real(v) <= rv(float(hi)))))
        if self.inv is not None:
            out += list(self.inv(L) or [])
        return out


def same(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isinstance(a, (int, float, bool)):
        return a == b
    if isinstance(a, SF):
        return a.t.eq(b.t)
    if is_z3(a):
        return a.eq(b)
    if isinstance(a, St):
        return a.ty == b.ty and (a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base))) and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, En):
        return same(a.tag, b.tag) and (a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base))) and set(a.pay) == set(b.pay) and all(set(a.pay[k]) == set(b.pay[k]) and all(same(a.pay[k][i], b.pay[k][i]) for i in a.pay[k]) for k in a.pay)
    if isinstance(a, Vc):
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, SVec):
        return same(a.n, b.n) and ((a.arr is None and b.arr is None and a.base.eq(b.base)) or (a.arr is not None and b.arr is not None and a.arr.eq(b.arr)))
    if isinstance(a, HM):
        return a.has.eq(b.has) and a.val.eq(b.val)
    if isinstance(a, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(p[0] == q[0] and (same(p[1], q[1]) if not isinstance(p[1], (str, tuple)) else p[1] == q[1]) for p, q in zip(a.path, b.path))
    if isinstance(a, Str):
        return a.s == b.s and (a.s is not None or a.t.eq(b.t))
    if isinstance(a, AbsFn):
        return a.base.eq(b.base)
    if isinstance(a, It):
        return a.kind == b.kind and len(a.a) == len(b.a) and all((same(x, y) if not (isinstance(x, str) or x is None) else x == y) if not isinstance(x, tuple) else (len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))) for x, y in zip(a.a, b.a))
    if isinstance(a, Unk):
        return True
    return False


def ety_of(v):
    if is_float(v):
        return 'f64'
    if is_bool(v):
        return 'bool'
    if is_int(v):
        return 'i64'
    if isinstance(v, (St, En)):
        return v.ty
    return None


def havoc(ctx, a, b, ty, nm, facts, vb=None):
    """arbitrary value covering a (at the head) and b (at a back edge)"""
    if same(a, b):
        return a
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk('changed by the loop')
    if is_float(a) and is_float(b):
        t = ctx.fresh(nm, z3.RealSort())
        if vb:
            facts.append(z3.And(t >= rv(float(vb[0])), t <= rv(float(vb[1]))))
            return SF(t, float(vb[0]), float(vb[1]))
        return SF(t)
    if is_bool(a) and is_bool(b):
        return ctx.fresh(nm, z3.BoolSort())
    if is_int(a) and is_int(b):
        t = ctx.fresh(nm, z3.IntSort())
        if ty in INT:
            facts.append(z3.And(t >= INT[ty][0], t <= INT[ty][1]))
        return t
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind:
        return havoc_it(ctx, a, b, nm, facts)
    if isinstance(a, St) and isinstance(b, St) and a.ty == b.ty:
        fs = ctx.P.structs.get(a.ty.split('<')[0])
        if a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base)):
            f = {}
            for i in set(a.f) | set(b.f):
                fty = fs[i][1] if fs is not None else None
                if i in a.f and i in b.f:
                    x, y = a.f[i], b.f[i]
                elif fs is not None:
                    x, y = ctx.field(a, i, fty), ctx.field(b, i, fty)
                else:
                    f[i] = Unk('changed by the loop')
                    continue
                f[i] = havoc(ctx, x, y, norm_ty(fty) if fty else None, '%s.%d' % (nm, i), facts)
            return St(a.ty, f, a.base)
        if fs is not None:
            return ctx.from_maker(norm_ty(a.ty), lambda sort, suf='': ctx.fresh(nm + suf, sort))
    if isinstance(a, (St, En)) and ty and not ty.startswith(('{', '&')):
        memo = {}

        def mk(sort, suf=''):
            if suf not in memo:
                memo[suf] = ctx.fresh(nm + suf, sort)
            return memo[suf]
        return ctx.from_maker(ty, mk)
    if isinstance(a, Vc) and isinstance(b, Vc) and len(a.e) == len(b.e):
        return Vc([havoc(ctx, x, y, None, nm, facts) for x, y in zip(a.e, b.e)])
    if isinstance(a, (Vc, SVec)) and isinstance(b, (Vc, SVec)):
        e = None
        if ty:
            g = gen_args(ty)
            if g[0] == 'Vec' and g[1]:
                e = norm_ty(g[1][0])
        for x in (a, b):
            if e is None and isinstance(x, SVec):
                e = x.ety
            if e is None and isinstance(x, Vc) and x.e:
                e = ety_of(x.e[0])
        if e is None or ctx.elem_sort(e) is None and e.startswith('&'):
            return Unk('vector changed by the loop')
        memo = {}

        def mk(sort, suf=''):
            if suf not in memo:
                memo[suf] = ctx.fresh(nm + suf, sort)
            return memo[suf]
        return ctx.svec(e, mk)
    if isinstance(a, HM) and isinstance(b, HM):
        n = ctx.fresh(nm + '#', z3.IntSort())
        facts.append(n >= 0)
        return HM(a.kty, a.vty, ctx.fresh(nm + '@has', a.has.sort()), ctx.fresh(nm + '@val', a.val.sort()), n)
    return Unk('changed by the loop')


def havoc_it(ctx, a, b, nm, facts):
    if same(a, b):
        return a
    if a.kind == 'range':
        i = ctx.fresh(nm + '.i', z3.IntSort())
        lo, hi = iv(a.a[0]), iv(a.a[1])
        end = hi + 1 if a.a[2] else hi
        facts.append(z3.And(i >= lo, z3.Or(i <= end, i == lo)))
        return It('range', i, a.a[1], a.a[2])
    if a.kind in ('seq', 'seqval'):
        i = ctx.fresh(nm + '.i', z3.IntSort())
        facts.append(i >= iv(a.a[1]))
        n = getattr(ctx.load(ctx.cut_st, a.a[0]), 'n', None)
        if n is not None:
            facts.append(z3.Or(i <= n, i == iv(a.a[1])))
        return It(a.kind, a.a[0], i)
    if a.kind == 'enumerate':
        f2 = []
        j = havoc_it(ctx, a.a[0], b.a[0], nm, f2)
        facts += f2
        # the counter runs with the iterator
        return It('enumerate', j, iv(a.a[1]) + (cursor(j) - cursor(a.a[0])))
    if a.kind in ('map',):
        return It('map', havoc_it(ctx, a.a[0], b.a[0], nm, facts), a.a[1])
    if a.kind == 'hm':
        return It('hm', havoc_it(ctx, a.a[0], b.a[0], nm, facts), *a.a[1:])
    if a.kind == 'cloned':
        return It('cloned', havoc_it(ctx, a.a[0], b.a[0], nm, facts))
    raise Undecided('loop over iterator ' + a.kind)


def concrete(it):
    if not isinstance(it, It):
        return False
    if it.kind == 'list':
        return True
    if it.kind == 'range':
        return isinstance(it.a[0], int) and isinstance(it.a[1], int) and it.a[1] - it.a[0] <= 16
    return any(concrete(x) for x in it.a if isinstance(x, It))


def cursor(it):
    if it.kind == 'range':
        return iv(it.a[0])
    if it.kind in ('seq', 'seqval'):
        return iv(it.a[1])
    if it.kind == 'enumerate':
        return cursor(it.a[0])
    if it.kind in ('map', 'cloned', 'hm'):
        return cursor(it.a[0])
    raise Undecided('cursor of iterator ' + it.kind)


def cut(ctx, fn, fr, st, head, info, spec):
    idx, body = info
    entry = st
    names = {}
    for nm, ps in fn.debug.items():
        for p in ps:
            if p.startswith('_') and p[1:].isdigit():
                names.setdefault(int(p[1:]), nm)
    changed = {}
    mark = ctx.n
    for rnd in range(12):
        h = st.fork()
        h.visits = {k: v for k, v in h.visits.items() if k[0] != fr}
        facts = []
        ctx.cut_st = st
        for c, b in changed.items():
            ty = norm_ty(fn.locals.get(c[1], '')) if c[0] == fr and isinstance(c[1], int) else None
            nm = names.get(c[1]) if c[0] == fr else None
            a = ctx.cell_get(st, c)
            v = a
            for x in b:
                v = havoc(ctx, v, x, ty, 'h_%s' % (nm or 'x'), facts, spec.bounds.get(nm))
            h.mem[c] = v
        L = Loop(ctx, fn, fr, h, entry, idx, changed)
        L.head, L.assuming = '%d.%d.%d' % (head, ctx.n, rnd), True
        ctx.n += 1
        for f in facts:
            h.pc = h.pc + (f,)
        try:
            inv = spec.assumed(L)
        except NoCursor:
            inv = []
        for n, f in inv:
            h.pc = h.pc + (bv(f),)
        if spec.quant and spec.forall and inv:
            h = quantify(h, closure(spec, [(n, f) for n, f in spec.formulas(L) if spec.quant is True or spec.quant(idx, n)]))
        start = h.fork()
        nobs = len(spec.j.obs) if spec.j is not None else 0
        outs, back, exits = ctx.explore(fn, fr, [(h.fork(), head)], spec, (head, body))
        new = False
        for b in back:
            for c, v in start.mem.items():
                if c in b.mem and not same(v, b.mem[c]):
                    cur = ctx.cell_get(st, c)
                    if c not in changed:
                        changed[c] = [b.mem[c]]
                        new = True
                    elif not covers(mark, v, b.mem[c]):
                        changed[c].append(b.mem[c])
                        new = True
            for c, v in b.mem.items():
                # symbolic cells the body writes for the first time
                if c not in start.mem and c in ctx.cells and not same(ctx.cells[c], v):
                    changed[c] = [v]
                    new = True
        if rnd == 0 and (not back or spec.unroll and any(concrete(ctx.cell_get(st, c)) for c in changed if c in st.mem)):
            if spec.j is not None:
                spec.j.drop(nobs)
            return None                     # over a collection of known length: unrolled
        if not new:
            break
        if spec.j is not None:
            # obligations met while the frame was not yet known
            spec.j.drop(nobs)
    else:
        raise Undecided('loop in %s: no stable frame' % fn.name)
    # a failed proof may only mean that the invariant no longer fits the way the loop is written
    ctx.definite = False
    if spec.j is not None and (spec.inv is not None or spec.bounds):
        L0 = Loop(ctx, fn, fr, st, entry, idx, changed)
        L0.head = L.head
        for n, f in spec.formulas(L0):
            spec.j.claim(ctx, st, 'loop %d of %s: %s on entry' % (idx, fn.name.split('::')[-1], n), bv(f), **spec.kw)
        for b in back:
            Lb = Loop(ctx, fn, fr, b, entry, idx, changed)
            Lb.head = L.head
            for n, f in spec.formulas(Lb):
                spec.j.claim(ctx, b, 'loop %d of %s: %s is preserved' % (idx, fn.name.split('::')[-1], n), bv(f), **spec.kw)
    if spec.j is not None and spec.variant is not None:
        v0 = spec.variant(L)
        if v0 is not None:
            for b in back:
                v1 = spec.variant(Loop(ctx, fn, fr, b, entry, idx, changed))
                spec.j.claim(ctx, b, 'loop %d of %s: terminates (the variant decreases and is bounded)' % (idx, fn.name.split('::')[-1]), z3.And(v1 < v0, v0 >= 0), **spec.kw)
    if not back and not exits and not outs:
        raise Undecided('loop in %s: no path' % fn.name)
    return outs, exits


def closure(spec, inv):
    out = []
    for n, f in inv:
        f = bv(f)
        vs = [v for v in spec.forall if occurs(v, f)]
        if vs:
            bs = [z3.Const('q!' + str(v), v.sort()) for v in vs]
            out.append(z3.ForAll(bs, z3.substitute(f, *zip(vs, bs))))
    return out


def occurs(v, f):
    seen, stack = set(), [f]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(v):
            return True
        stack += t.children()
    return False


def quantify(s, qs):
    s = s.fork()
    s.pc = s.pc + tuple(qs)
    return s


def covers(mark, h, b):
    """the havocked head value h already stands for anything b can be (same shape, h fresh)"""
    if isinstance(h, Unk):
        return True
    if is_float(h) and isinstance(h, SF) and is_float(b):
        return is_fresh(h.t, mark)
    if is_z3(h) and (is_int(b) or is_bool(b)):
        return is_fresh(h, mark)
    if isinstance(h, It) and isinstance(b, It):
        if h.kind != b.kind:
            return False
        if h.kind == 'enumerate':
            return covers(mark, h.a[0], b.a[0])
        if h.kind in ('map', 'cloned', 'hm'):
            return covers(mark, h.a[0], b.a[0])
        return h.kind in ('range', 'seq', 'seqval') and is_fresh(cursor(h), mark)
    if isinstance(h, St) and isinstance(b, St) and h.ty == b.ty:
        if h.base is not None and is_fresh(h.base, mark) and not h.f:
            return True
        if not (h.base is b.base or (h.base is not None and b.base is not None and h.base.eq(b.base))):
            return False
        return all(i in h.f and (i not in b.f or same(h.f[i], b.f[i]) or covers(mark, h.f[i], b.f[i])) for i in set(h.f) | set(b.f))
    if isinstance(h, En):
        return h.base is not None and is_fresh(h.base, mark)
    if isinstance(h, SVec):
        return is_fresh(h.n, mark)
    if isinstance(h, HM):
        return is_fresh(h.has, mark)
    if isinstance(h, Vc) and isinstance(b, Vc):
        return len(h.e) == len(b.e) and all(same(x, y) or covers(mark, x, y) for x, y in zip(h.e, b.e))
    return False


def is_fresh(t, mark):
    n = str(t.decl().name()) if z3.is_const(t) else ''
    return '!' in n and int(n.rsplit('!', 1)[1]) > mark
