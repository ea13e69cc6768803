"""Symbolic execution of MIR, function by function.

A call is replaced by the callee's registered contract when there is one, by
the model of the std function when it is one, and otherwise inlined.  Every
path is explored; loops over collections of known length are unrolled, other
loops need an invariant (see loops.py); anything the engine does not know
raises Undecided -- never an alarm.
"""
import re, time
import z3
from . import mirparse
from .mirparse import norm_ty, parse_rvalue, split_top, scan_to
from .values import *
from .floats import FloatOps, uf

INT = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
       'isize': (-2**63, 2**63 - 1), 'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
       'usize': (0, 2**64 - 1)}
SCALAR = {'f64': z3.RealSort(), 'f32': z3.RealSort(), 'bool': z3.BoolSort()}
for _k in INT:
    SCALAR[_k] = z3.IntSort()
INT_CONST = re.compile(r'^(?:(?:std|core)::(?:num::)?)?(?:<impl )?([iu](?:8|16|32|64|128|size))>?::(MIN|MAX|BITS)$')
F64_CONSTS = {'PI': math.pi, 'TAU': math.tau, 'E': math.e, 'FRAC_PI_2': math.pi / 2, 'FRAC_PI_3': math.pi / 3, 'FRAC_PI_4': math.pi / 4, 'FRAC_PI_6': math.pi / 6, 'FRAC_PI_8': math.pi / 8,
              'FRAC_1_PI': 0.318309886183790671537767526745028724, 'FRAC_2_PI': 0.636619772367581343075535053490057448, 'SQRT_2': math.sqrt(2), 'LN_2': math.log(2), 'LN_10': math.log(10)}
STD_ENUMS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Ordering': ['Less', 'Equal', 'Greater']}


class State:
    __slots__ = ('mem', 'pc', 'trace', 'eff', 'visits')

    def __init__(self):
        self.mem, self.pc, self.trace, self.eff, self.visits = {}, (), (), (), {}

    def fork(self):
        s = State()
        s.mem, s.pc, s.trace, s.eff, s.visits = dict(self.mem), self.pc, self.trace, self.eff, dict(self.visits)
        return s

    def assume(self, c):
        s = self.fork()
        s.pc = s.pc + (c,)
        return s


class Out:
    """outcome of a path: kind 'return' | 'panic'"""
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val):
        self.st, self.kind, self.val = st, kind, val


def gen_args(t):
    """'HashMap<i64, Vec<f64>>' -> ('HashMap', ['i64', 'Vec<f64>'])"""
    k = t.find('<')
    if k < 0:
        return t, []
    return t[:k], split_top(t[k + 1:-1])


class Ctx:
    def __init__(self, prog, fmode='round', deadline=None):
        self.P = prog
        self.fmode = fmode
        self.fl = FloatOps(self)
        self.axioms = []
        self._sub = {}             # id -> (formula, ids of its subterms)
        self.anchors = set()
        self.fl_done = set()
        self.keep = []
        self.contracts = {}        # (Self, trait, fn) -> handler(ctx, st, args, callee) -> [Out]
        self.libm = {}
        self.affine = False
        self.atom_b = {}
        self.antisym = False
        self.atom_g = {}
        self.forms = {}
        self.notes = set()
        self.n = 0
        self.cells = {}            # initial values of symbolic cells
        self.bits = {}             # z3 id -> (lo bit, hi bit) of values known to be bit fields
        self.mono = False
        self._mono = []
        self.solver_s = 0.0
        self.loop_limit = 70
        self.key_field = {}        # struct type -> integer field its equality and hash depend on (map keys)
        self.sorts = []            # sorted vectors: see stdmodel.m_sort
        self.ivcmp = False         # comparisons decided by interval bounds where they are disjoint
        self.overflow = None       # 'havoc': a float operation without proved bounds gives an arbitrary float
        self.div0 = None           # 'havoc': a possible division by zero gives an arbitrary float
        self.project, self._projected = set(), set()    # struct types whose built terms carry projection axioms
        self.seeds = []            # seeds of random number generators
        self.enums = []            # enumerations of hash maps: (map, keys, position)
        self.found_at = []         # positions found by contains
        self.collects = []         # maps collected from sequences of unknown length: (has, index, key, value, length)
        self.qf_prune, self._quant = False, {}
        self.merge = False         # options of scalars are merged instead of split
        self.founds = []           # searches over sequences of unknown length
        self.loops = {}            # (Self, trait, fn) -> LoopSpec list
        self.inlined = set()
        self.deadline = deadline
        self.int_mode = 'int'
        self.alt_types = {}
        self.prune_ms = 1500
        self.qf_ms = 1000
        self.default_uf = False
        self.hooks = {}
        self.definite = False      # a counterexample over the contracts alone is reported even when no failing input is found

    # ---------- logic
    def axiom(self, a, about=(), heavy=False):
        """a fact; used in a query only when every term of `about` occurs in it; heavy facts are left out of a first attempt"""
        self.axioms.append((a, tuple(t.get_id() for t in about), heavy))
        self.keep.extend(about)

    def subterms(self, f):
        """ids of all subterms (cached per formula)"""
        k = f.get_id()
        r = self._sub.get(k)
        if r is not None:
            return r[1]
        seen = {k}
        stack = [f]
        while stack:
            for y in stack.pop().children():
                i = y.get_id()
                if i in seen:
                    continue
                r = self._sub.get(i)
                if r is not None:
                    seen |= r[1]
                    continue
                seen.add(i)
                stack.append(y)
        self._sub[k] = (f, seen)
        return seen

    def relevant(self, formulas, heavy=True):
        seen = set()
        for f in formulas:
            seen |= self.subterms(f)
        out = []
        todo = [x for x in self.axioms if heavy or not x[2]]
        again = True
        while again:
            again = False
            rest = []
            for x in todo:
                if all(i in seen for i in x[1]):
                    out.append(x[0])
                    n = len(seen)
                    seen |= self.subterms(x[0])
                    if len(seen) != n:
                        again = True
                else:
                    rest.append(x)
            todo = rest
        return out

    def assume_note(self, s):
        self.notes.add(s)

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def mono_instance(self, op, x, y, t, r):
        if not self.mono:
            return
        for (t2, r2) in self._mono[-20:]:
            self.axiom(z3.And(z3.Implies(t <= t2, r <= r2), z3.Implies(t2 <= t, r2 <= r)), (r, r2))
        self._mono.append((t, r))

    def check(self, st, extra, ms, qf=False):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget exhausted')
        s = z3.Solver()
        s.set('timeout', ms)
        pc = tuple(c for c in st.pc if not self.quantified(c)) if qf else st.pc
        s.add(*[a for a in self.relevant(tuple(pc) + tuple(extra)) if not (qf and self.quantified(a))])
        for c in pc:
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        return r

    def quantified(self, f):
        k = f.get_id()
        if k not in self._quant:
            seen, todo, q = set(), [f], False
            while todo and not q:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                q = z3.is_quantifier(x)
                todo += x.children()
            self._quant[k] = (f, q)
        return self._quant[k][1]

    def feasible(self, st):
        """pruning of paths; with qf_prune quantified facts are left out (fewer paths are pruned)"""
        return self.check(st, (), self.prune_ms, self.qf_prune) != z3.unsat

    def valid(self, st, c, ms=4000):
        c = bv(c)
        if z3.is_true(z3.simplify(c)):
            return True
        if self.qf_prune and self.check(st, (z3.Not(c),), min(ms, self.qf_ms), True) == z3.unsat:
            return True
        return self.check(st, (z3.Not(c),), ms) == z3.unsat

    def int_bounds(self, st, i):
        """cheap bounds of an integer term as floats (None if unknown)"""
        for b in (256, 1 << 16, 1 << 33):
            if self.valid(st, z3.And(i <= b, i >= -b), 1000):
                return (-float(b), float(b))
        return (-2.0 ** 53, 2.0 ** 53)

    # ---------- symbolic values by type
    def mk(self, ty, name):
        return self.from_maker(norm_ty(ty), lambda sort, suf='': z3.Const(name + suf, sort))

    def app(self, fname, args, ty):
        """value of type ty: uninterpreted function of the argument terms"""
        ts = [self.term(a) for a in args]
        return self.from_maker(norm_ty(ty), lambda sort, suf='': uf(fname + suf, *([t.sort() for t in ts] + [sort]))(*ts) if ts else z3.Const(fname + suf, sort))

    def from_maker(self, ty, mk):
        ty = ty.strip()
        if ty in ('f64', 'f32'):
            return HFV if self.fmode == 'havoc' else SF(mk(z3.RealSort()))
        if ty == 'bool':
            return mk(z3.BoolSort())
        if ty in INT:
            t = mk(z3.IntSort())
            k = ('rng', t.get_id())
            if k not in self.fl_done:
                self.fl_done.add(k)
                self.keep.append(t)
                self.axiom(z3.And(t >= INT[ty][0], t <= INT[ty][1]))
            return t
        if ty == '()':
            return UNIT
        if ty.startswith('&'):
            inner = re.sub(r'^&(mut )?', '', ty).strip()
            if inner == 'str':
                return Str(t=mk(Obj, ''))
            v = self.from_maker(inner, mk)
            t = mk(z3.IntSort(), '&')
            cell = ('sym', t.get_id())
            self.keep.append(t)
            if cell not in self.cells:
                self.cells[cell] = v
            return Ref(cell)
        if ty == 'String' or ty == 'str':
            return Str(t=mk(Obj))
        if ty.startswith('(') and ty.endswith(')'):
            parts = split_top(ty[1:-1])
            return St('()', {i: self.from_maker(p, (lambda i: lambda sort, suf='': mk(sort, '.%d%s' % (i, suf)))(i)) for i, p in enumerate(parts)})
        if ty.startswith('['):
            inner = ty[1:-1]
            k = scan_to(inner, 0, ';')
            if k < len(inner):
                n = int(inner[k + 1:].replace('_usize', ''))
                return Vc([self.from_maker(inner[:k].strip(), (lambda i: lambda sort, suf='': mk(sort, '[%d]%s' % (i, suf)))(i)) for i in range(n)])
            return self.svec(inner, mk)
        b, a = gen_args(ty)
        if b == 'Vec':
            return self.svec(a[0], mk)
        if b == 'Box' and a:
            if a[0].startswith('Fn'):
                return AbsFn(mk(Obj), a[0].split('->', 1)[1].strip())
            return self.from_maker(a[0], mk)
        if b == 'HashMap':
            ks, vs = self.key_sort(a[0]), self.sort_of(a[1])
            n = mk(z3.IntSort(), '#')
            self.axiom(n >= 0)
            return HM(a[0], a[1], mk(z3.ArraySort(ks, z3.BoolSort()), '@has'), mk(z3.ArraySort(ks, vs), '@val'), n)
        if b in STD_ENUMS or b in self.P.enums:
            vs = STD_ENUMS.get(b) or self.P.enums[b]
            o = mk(Obj)
            tag = mk(z3.IntSort(), '#tag')
            lo = -1 if b == 'Ordering' else 0
            self.axiom(z3.And(tag >= lo, tag < lo + len(vs)))
            return En(ty, tag, {}, o)
        return St(ty, {}, mk(Obj))

    def svec(self, ety, mk):
        n = mk(z3.IntSort(), '#len')
        self.axiom(z3.And(n >= 0, n < 2 ** 40))
        if ety in SCALAR:
            return SVec(n, mk(z3.ArraySort(z3.IntSort(), SCALAR[ety])), ety)
        es = self.elem_sort(ety)
        if es is not None:
            return SVec(n, mk(z3.ArraySort(z3.IntSort(), es)), ety)
        return SVec(n, None, ety, mk(Obj))

    def elem_sort(self, ety):
        """sort of the elements of a vector (None: elements are not represented one by one).  A shared
        reference is represented by what it refers to"""
        ety = ety.strip()
        if ety in SCALAR:
            return SCALAR[ety]
        if ety in self.P.structs:
            return Obj
        if ety.startswith('&') and not ety.startswith('&mut'):
            return self.elem_sort(ety[1:])
        if ety.startswith('(') and ety.endswith(')'):
            return Obj if all(self.elem_sort(p) is not None for p in split_top(ety[1:-1])) else None
        if ety.startswith('Vec<'):
            return Obj if self.elem_sort(gen_args(ety)[1][0]) is not None else None
        return None

    def inject(self, ety, v, st):
        """term of a value stored as an element of a vector, with its parts recoverable"""
        ety = ety.strip()
        if ety.startswith('&'):
            while isinstance(v, Ref):
                v = self.load(st, v)
            return self.inject(ety[1:], v, st)
        if ety.startswith('(') and isinstance(v, St):
            ps = split_top(ety[1:-1])
            ts = [self.inject(p, v.f[i], st) for i, p in enumerate(ps)]
            t = uf('mk:' + ety, *([x.sort() for x in ts] + [Obj]))(*ts)
            if t.get_id() not in self._projected:
                self._projected.add(t.get_id())
                self.keep.append(t)
                for i, x in enumerate(ts):
                    self.axiom(uf('of.%d:%s' % (i, ety), Obj, x.sort())(t) == x, (t,))
            return t
        if ety.startswith('Vec<') and isinstance(v, (Vc, SVec)):
            e = gen_args(ety)[1][0]
            if isinstance(v, Vc):
                es = self.elem_sort(e)
                a = z3.K(z3.IntSort(), z3.Const('nil:' + str(es), es))
                for i, x in enumerate(v.e):
                    a = z3.Store(a, i, self.inject(e, x, st))
                n = z3.IntVal(len(v.e))
            else:
                n, a = iv(v.n), v.arr
                if a is None:
                    raise Undecided('vector of vectors')
                if z3.is_app(a) and a.num_args() == 1 and str(a.decl().name()) == 'of:' + ety and z3.is_app(n) and n.num_args() == 1 and n.arg(0).eq(a.arg(0)):
                    return a.arg(0)
            t = uf('mk:' + ety, z3.IntSort(), a.sort(), Obj)(n, a)
            if t.get_id() not in self._projected:
                self._projected.add(t.get_id())
                self.keep.append(t)
                self.axiom(z3.And(uf('of#len:' + ety, Obj, z3.IntSort())(t) == n, uf('of:' + ety, Obj, a.sort())(t) == a), (t,))
            return t
        return self.term(v, st)

    def sort_of(self, ty):
        return SCALAR.get(ty.strip().lstrip('&'), Obj)

    def key_sort(self, ty):
        ty = ty.strip().lstrip('&')
        return z3.IntSort() if ty in self.key_field else self.sort_of(ty)

    def wrap(self, ty, t):
        """value of type ty from a z3 term (scalar or Obj)"""
        ty = ty.strip()
        if ty in ('f64', 'f32'):
            return SF(t)
        if ty in SCALAR:
            return t
        return self.from_maker(ty, lambda sort, suf='': t if suf == '' and t.sort() == sort else uf('of' + suf + ':' + ty, t.sort(), sort)(t))

    def field(self, v, i, ty):
        """field i (of type ty) of a struct value"""
        if isinstance(v, (SVec, Vc, HM)) and i == 0:
            return v
        if isinstance(v, AbsFn):
            return v
        if isinstance(v, Unk):
            return v
        if not isinstance(v, St):
            raise Undecided('field %s of %r' % (i, v))
        if i in v.f:
            return v.f[i]
        if v.base is None:
            raise Undecided('uninitialised field %s of %s' % (i, v.ty))
        lab = '%s.%d' % (re.sub(r'<.*', '', v.ty), i)
        b = v.base
        return self.from_maker(norm_ty(ty), lambda sort, suf='': uf(lab + suf, Obj, sort)(b))

    def fname(self, v, name):
        """field by name; loads through nothing (v must be a struct value)"""
        fs = self.P.structs.get(re.sub(r'<.*', '', v.ty))
        if fs is None:
            raise Undecided('unknown struct ' + v.ty)
        for i, (n, t) in enumerate(fs):
            if n == name:
                return self.field(v, i, t)
        raise Undecided('lost anchor: no field %s in %s' % (name, v.ty))

    def payload(self, v, var, i, ty):
        if var in v.pay and i in v.pay[var]:
            return v.pay[var][i]
        if v.base is None:
            raise Undecided('payload %s of %r' % (var, v))
        lab = '%s::%s.%d' % (re.sub(r'<.*', '', v.ty), var, i)
        b = v.base
        if ty is None:
            bn, a = gen_args(v.ty)
            if bn == 'Option':
                ty = a[0]
            else:
                raise Undecided('payload type')
        return self.from_maker(norm_ty(ty), lambda sort, suf='': uf(lab + suf, Obj, sort)(b))

    def term(self, v, st=None):
        """z3 term standing for a value (argument of an uninterpreted function)"""
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return rv(v)
        if isinstance(v, SF):
            return v.t
        if is_z3(v):
            return v
        if isinstance(v, St):
            if v.base is not None and not v.f:
                return v.base
            fs = self.P.structs.get(re.sub(r'<.*', '', v.ty))
            if fs is not None:
                parts = [self.term(self.field(v, i, t), st) for i, (n, t) in enumerate(fs)]
            else:
                parts = [self.term(v.f[i], st) for i in sorted(v.f)]
                if v.base is not None:
                    parts.append(v.base)
            nm = 'mk:' + v.ty
            t = uf(nm, *([p.sort() for p in parts] + [Obj]))(*parts) if parts else z3.Const(nm, Obj)
            if v.ty in self.project and t.get_id() not in self._projected:
                # the fields of a built value
                self._projected.add(t.get_id())
                self.keep.append(t)
                for i, p in enumerate(parts):
                    self.axiom(uf('%s.%d' % (v.ty, i), Obj, p.sort())(t) == p, (t,))
            return t
        if isinstance(v, En):
            if v.base is not None and not v.pay:
                return v.base
            if isinstance(v.tag, int):
                names = self.variants(v.ty)
                off = -1 if v.ty.startswith('Ordering') else 0
                nm = names[v.tag - off]
                parts = [self.term(x, st) for _, x in sorted(v.pay.get(nm, {}).items())]
                return uf('mk:%s::%s' % (gen_args(v.ty)[0], nm), *([p.sort() for p in parts] + [Obj]))(*parts) if parts else z3.Const('mk:%s::%s' % (gen_args(v.ty)[0], nm), Obj)
            raise Undecided('term of symbolic enum')
        if isinstance(v, Str):
            return v.t if v.s is None else z3.Const('str:' + v.s, Obj)
        if isinstance(v, AbsFn):
            return v.base
        if isinstance(v, Vc):
            parts = [self.term(x, st) for x in v.e]
            return uf('vec%d' % len(parts), *([p.sort() for p in parts] + [Obj]))(*parts) if parts else z3.Const('vec0', Obj)
        if isinstance(v, SVec):
            if v.base is not None:
                return v.base
            return uf('mkvec:' + v.ety, z3.IntSort(), v.arr.sort(), Obj)(v.n, v.arr)
        if isinstance(v, HM):
            return uf('mkmap', v.has.sort(), v.val.sort(), Obj)(v.has, v.val)
        if isinstance(v, Ref):
            if st is None:
                raise Undecided('reference as a term without a state')
            return self.term(self.load(st, v), st)
        raise Undecided('term of %r' % (v,))

    def variants(self, ty):
        b = gen_args(ty)[0]
        vs = STD_ENUMS.get(b) or self.P.enums.get(b)
        if vs is None:
            raise Undecided('unknown enum ' + ty)
        return vs

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if is_float(a):
            (al, ah), (bl, bh) = bounds(a), bounds(b)
            return SF(z3.If(c, real(a), real(b)), min(al, bl) if None not in (al, bl) else None, max(ah, bh) if None not in (ah, bh) else None)
        if is_int(a):
            return z3.If(c, iv(a), iv(b))
        if is_bool(a):
            return z3.If(c, bv(a), bv(b))
        raise Undecided('merge of %r' % (a,))

    def same(self, a, b, st=None):
        """deep equality of two values as a formula"""
        if is_float(a) and is_float(b):
            return real(a) == real(b)
        if is_int(a) and is_int(b):
            return iv(a) == iv(b)
        if is_bool(a) and is_bool(b):
            return bv(a) == bv(b)
        if isinstance(a, St) and isinstance(b, St):
            if a.base is not None and b.base is not None and not a.f and not b.f and a.base.eq(b.base):
                return z3.BoolVal(True)
            fs = self.P.structs.get(re.sub(r'<.*', '', a.ty))
            if fs is not None:
                c = z3.And([self.same(self.field(a, i, t), self.field(b, i, t), st) for i, (n, t) in enumerate(fs)])
            elif a.ty == b.ty:
                c = z3.And([self.same(a.f[i], b.f[i], st) for i in a.f])
            else:
                return z3.BoolVal(False)
            if a.base is not None and b.base is not None and not a.f and not b.f:
                return z3.Or(a.base == b.base, c)
            return c
        if isinstance(a, Vc) and isinstance(b, Vc):
            if len(a.e) != len(b.e):
                return z3.BoolVal(False)
            return z3.And([self.same(x, y, st) for x, y in zip(a.e, b.e)])
        if isinstance(a, HM) and isinstance(b, HM):
            return z3.And(a.has == b.has, a.val == b.val)
        if isinstance(a, En) and isinstance(b, En):
            if a.base is not None and b.base is not None and not a.pay and not b.pay and a.base.eq(b.base):
                return z3.BoolVal(True)
            cs = [iv(a.tag) == iv(b.tag)]
            for nm in set(a.pay) | set(b.pay):
                idx = self.variants(a.ty).index(nm)
                for i in set(a.pay.get(nm, {})) | set(b.pay.get(nm, {})):
                    try:
                        cs.append(z3.Implies(iv(a.tag) == idx, self.same(self.payload(a, nm, i, None), self.payload(b, nm, i, None), st)))
                    except Undecided:
                        if isinstance(a.tag, int) and isinstance(b.tag, int) and a.tag != b.tag:
                            return z3.BoolVal(False)
                        raise
            return z3.And(cs)
        if isinstance(a, Ref) and isinstance(b, Ref) and st is not None:
            return self.same(self.load(st, a), self.load(st, b), st)
        if isinstance(a, Str) and isinstance(b, Str):
            if a.s is not None and b.s is not None:
                return z3.BoolVal(a.s == b.s)
            return self.term(a) == self.term(b)
        if isinstance(a, AbsFn) and isinstance(b, AbsFn):
            return a.base == b.base
        return self.term(a, st) == self.term(b, st)

    # ---------- memory
    def cell_get(self, st, cell):
        if cell in st.mem:
            return st.mem[cell]
        if cell in self.cells:
            return self.cells[cell]
        raise Undecided('uninitialised cell %s' % (cell,))

    def new_cell(self, st, v):
        self.n += 1
        c = ('c', self.n)
        st.mem[c] = v
        return Ref(c)

    def load(self, st, ref):
        v = self.cell_get(st, ref.cell)
        for p in ref.path:
            v = self.step(st, v, p)
        return v

    def step(self, st, v, p):
        k = p[0]
        if isinstance(v, Unk):
            return v
        if k == 'f':
            if isinstance(v, En) and len(p) > 3:
                return self.payload(v, p[3], p[1], p[2])
            return self.field(v, p[1], p[2])
        if k == 'i':
            return self.elem(st, v, p[1])
        if k == 'mapval':
            return self.wrap(v.vty, z3.Select(v.val, p[1]))
        if k == 'some':
            return self.payload(v, 'Some', 0, None)
        raise Undecided('path step %s' % k)

    def elem(self, st, v, i):
        if isinstance(v, Vc):
            if isinstance(i, int):
                if 0 <= i < len(v.e):
                    return v.e[i]
                raise Undecided('index out of range')
            r = v.e[-1]
            for j in range(len(v.e) - 2, -1, -1):
                r = self.ite(i == j, v.e[j], r)
            return r
        if isinstance(v, SVec):
            if v.arr is not None:
                t = z3.Select(v.arr, iv(i))
                if v.eb is not None:
                    # element bounds, a precondition on every element
                    self.axiom(z3.And(t >= v.eb[0], t <= v.eb[1]), (t,))
                    if v.ety == 'f64':
                        return SF(t, float(v.eb[0]), float(v.eb[1]))
                return self.wrap(v.ety, t)
            return self.from_maker(v.ety, lambda sort, suf='': uf('elem' + suf + ':' + v.ety, Obj, z3.IntSort(), sort)(v.base, iv(i)))
        raise Undecided('index of %r' % (v,))

    def store(self, st, ref, val):
        if not ref.path:
            st.mem[ref.cell] = val
            return
        st.mem[ref.cell] = self.upd(st, self.cell_get(st, ref.cell), ref.path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(v, Unk):
            return v
        new = val if len(path) == 1 else self.upd(st, self.step(st, v, p), path[1:], val)
        if p[0] == 'f':
            if isinstance(v, En):
                pay = {k: dict(x) for k, x in v.pay.items()}
                pay.setdefault(p[3], {})[p[1]] = new
                return En(v.ty, v.tag, pay, v.base)
            if isinstance(v, St):
                f = dict(v.f)
                f[p[1]] = new
                return St(v.ty, f, v.base)
        if p[0] == 'i':
            if isinstance(v, Vc):
                if isinstance(p[1], int):
                    e = list(v.e)
                    e[p[1]] = new
                    return Vc(e)
                return Vc([self.ite(p[1] == j, new, x) for j, x in enumerate(v.e)])
            if isinstance(v, SVec) and v.arr is not None:
                return SVec(v.n, z3.Store(v.arr, iv(p[1]), self.inject(v.ety, new, st)), v.ety, v.base)
        if p[0] == 'mapval':
            return HM(v.kty, v.vty, v.has, z3.Store(v.val, p[1], self.term(new)), v.n)
        if p[0] == 'some' and isinstance(v, En):
            return En(v.ty, v.tag, {'Some': {0: new}}, v.base)
        raise Undecided('store to %r at %s' % (v, p[0]))

    # ---------- places
    def place_ref(self, st, fr, place):
        local, proj = place
        cur = Ref((fr, local))
        var = None
        for p in proj:
            if p[0] == 'deref':
                v = self.load(st, cur)
                if isinstance(v, Ref):
                    cur = v
                elif isinstance(v, (Unk,)):
                    raise Undecided('deref of untracked value (%s)' % v.why)
                else:
                    pass        # Box<T> is represented by its content
            elif p[0] == 'f':
                if var is not None:
                    cur = Ref(cur.cell, cur.path + (('f', p[1], p[2], var),))
                    var = None
                else:
                    cur = Ref(cur.cell, cur.path + (('f', p[1], p[2]),))
            elif p[0] == 'v':
                var = p[1]
            elif p[0] == 'idx':
                i = self.load(st, Ref((fr, p[1])))
                cur = Ref(cur.cell, cur.path + (('i', i),))
            elif p[0] == 'cidx':
                if p[2]:
                    v = self.load(st, cur)
                    cur = Ref(cur.cell, cur.path + (('i', len(v.e) - p[1]),))
                else:
                    cur = Ref(cur.cell, cur.path + (('i', p[1]),))
        return cur

    def operand(self, st, fr, op):
        if op[0] == 'const':
            return self.const(st, op[1])
        place = op[1]
        if not place[1]:
            return self.cell_get(st, (fr, place[0]))
        return self.load(st, self.place_ref(st, fr, place))

    def const(self, st, s):
        m = re.match(r'^(-?[0-9.]+(?:E[+-]?\d+)?)f64$', s)
        if m:
            return float(m.group(1))
        m = re.match(r'^(-?\d+)_([iu](?:8|16|32|64|128|size))$', s)
        if m:
            return int(m.group(1))
        if s in ('true', 'false'):
            return s == 'true'
        if s == '()':
            return UNIT
        if s.startswith('"'):
            return Str(_unescape(s[1:-1]))
        if s.startswith('b"'):
            return Str(_unescape(s[2:-1]))
        if s.startswith("'"):
            return ord(_unescape(s[1:-1]))
        m = INT_CONST.match(s)
        if m:
            t = m.group(1)
            return {'MIN': INT[t][0], 'MAX': INT[t][1], 'BITS': (INT[t][1] - INT[t][0]).bit_length()}[m.group(2)]
        m = re.match(r'^(?:std|core)::f64::consts::([A-Z0-9_]+)$', s)
        if m and m.group(1) in F64_CONSTS:
            return F64_CONSTS[m.group(1)]
        m = re.match(r'^(?:(?:std|core)::(?:num::)?)?(?:f64::)?(?:<impl f64>::)?([A-Z_]+)$', s)
        if m and 'f64' in s and m.group(1) in ('MAX', 'MIN', 'EPSILON', 'MIN_POSITIVE'):
            return {'MAX': 1.7976931348623157e308, 'MIN': -1.7976931348623157e308, 'EPSILON': 2.220446049250313e-16, 'MIN_POSITIVE': 2.2250738585072014e-308}[m.group(1)]
        # promoted and associated constants
        c = self.find_const(s)
        if c is not None:
            return self.eval_const(st, c)
        m = re.match(r'^([A-Za-z_:<>]+)::([A-Z][A-Za-z0-9_]*)$', s)
        return Unk('const ' + s)

    def find_const(self, s):
        m = re.match(r'(?:.*::)?([A-Za-z_0-9]+)::([A-Za-z_0-9]+(?:::\{closure#\d+\})*(?:::promoted\[\d+\])?)$', s)
        P = self.P
        tr = None
        m2 = re.match(r'<(.*) as (.*)>::(.*)$', s)
        if m2:
            key = (norm_ty(m2.group(1)), m2.group(3))
            tr = norm_ty(m2.group(2))
        else:
            # a::b::Type::fn::promoted[0]  /  a::b::fn::promoted[0] / Type::CONST
            parts = split_path(s)
            tail = 1
            if parts[-1].startswith('promoted['):
                tail = 2
                while parts[-tail].startswith('{closure#'):
                    tail += 1
            nm = '::'.join(parts[-tail:])
            ty = parts[-tail - 1] if len(parts) > tail else None
            if ty == 'Box' and 'quantizer_wu' in s:
                ty = 'WuBox'
            key = (re.sub(r'<.*', '', ty) if ty else None, nm)
            if key not in P.const_by_key:
                key = (None, nm)
        r = P.const_by_key.get(key)
        if not r:
            return None
        if tr is None:
            for t, f in r:
                if t is None:
                    return f
        for t, f in r:
            if t == tr:
                return f
        return r[0][1] if len(r) == 1 else None

    def eval_const(self, st, f):
        key = ('const', f.name)
        if key in self.cells:
            return self.cells[key]
        if f.raw is not None and f.is_const and hasattr(f, 'raw') and 'single' in f.raw:
            v = self.const(st, f.raw['single'])
        else:
            s0 = State()
            outs = self.run(f, [], s0)
            if len(outs) != 1 or outs[0].kind != 'return':
                raise Undecided('constant ' + f.name)
            v = outs[0].val
            for c, x in outs[0].st.mem.items():
                self.cells.setdefault(c, x)
        self.cells[key] = v
        return v

    # ---------- rvalues
    def rvalue(self, st, fr, fn, dest, s):
        r = parse_rvalue(s)
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            return self.place_ref(st, fr, r[1])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), lambda: self.op_ty(fn, r[2]) or self.op_ty(fn, r[3]))
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if isinstance(a, Unk):
                return a
            if r[1] == 'Not':
                if is_bool(a):
                    return (not a) if isinstance(a, bool) else z3.Not(a)
                if isinstance(a, int):
                    return ~a
                return -a - 1
            if r[1] == 'Neg':
                return self.fl.neg(a) if is_float(a) else -a
            if r[1] == 'PtrMetadata':
                v = self.load(st, a)
                return len(v.e) if isinstance(v, Vc) else v.n
        if k == 'discr':
            v = self.load(st, self.place_ref(st, fr, r[1]))
            if isinstance(v, En):
                return v.tag
            raise Undecided('discriminant of %r' % (v,))
        if k == 'len':
            v = self.load(st, self.place_ref(st, fr, r[1]))
            return len(v.e) if isinstance(v, Vc) else v.n
        if k == 'cast':
            return self.cast(st, self.operand(st, fr, r[1]), norm_ty(r[2]), r[3], lambda: self.op_ty(fn, r[1]))
        if k == 'array':
            return Vc([self.operand(st, fr, o) for o in r[1]])
        if k == 'repeat':
            m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', r[2])
            if not m:
                c = self.find_const(re.sub('^const ', '', r[2]))
                n = self.eval_const(st, c) if c else None
            else:
                n = int(m.group(1))
            if not isinstance(n, int):
                raise Undecided('repeat count')
            v = self.operand(st, fr, r[1])
            if n > 100 and (is_int(v) or is_float(v)):
                t = norm_ty(fn.locals.get(dest[0], '')) if not dest[1] else ''
                e = split_top(t[1:-1], ';')[0].strip() if t.startswith('[') else ('f64' if is_float(v) else None)
                if e in SCALAR:
                    return SVec(z3.IntVal(n), z3.K(z3.IntSort(), self.term(v)), e)
            return Vc([v] * n)
        if k == 'tuple':
            return St('()', {i: self.operand(st, fr, o) for i, o in enumerate(r[1])})
        if k == 'closure':
            return St(r[1], {i: self.operand(st, fr, o) for i, o in enumerate(r[2])})
        if k == 'adt':
            return self.adt(st, fr, fn, dest, r)
        raise Undecided('rvalue ' + s)

    def adt(self, st, fr, fn, dest, r):
        name = re.sub(r'\bquantizer_wu::Box\b', 'WuBox', r[1])
        ops = [self.operand(st, fr, o) for o in r[3]]
        parts = split_path(name)
        last = re.sub(r'<.*', '', parts[-1])
        prev = None
        for p in reversed(parts[:-1]):
            if not p.startswith('<'):
                prev = re.sub(r'<.*', '', p)
                break
        P = self.P
        full = {p: 1 for p in parts}
        if prev in STD_ENUMS or prev in P.enums:
            vs = STD_ENUMS.get(prev) or P.enums[prev]
            if last in vs:
                ty = norm_ty(fn.locals.get(dest[0], prev)) if not dest[1] else prev
                if not ty.startswith(prev):
                    ty = prev
                off = -1 if prev == 'Ordering' else 0
                return En(ty, vs.index(last) + off, {last: {i: o for i, o in enumerate(ops)}} if ops else {})
        if last in ('Less', 'Equal', 'Greater') and not ops:
            return En('Ordering', ('Less', 'Equal', 'Greater').index(last) - 1)
        if last in ('None', 'Some'):
            return En('Option', 0 if last == 'None' else 1, {'Some': {0: ops[0]}} if ops else {})
        # enum variant printed without its type (e.g. `Nearer`)
        tyn = re.sub(r'<.*', '', norm_ty(re.sub(r'\bquantizer_wu::Box\b', 'WuBox', name)))
        if tyn in P.structs:
            if r[2] is not None:
                names = [n for n, _ in P.structs[tyn]]
                f = {}
                for n, o in zip(r[2], ops):
                    if n not in names:
                        raise Undecided('field %s of %s' % (n, tyn))
                    f[names.index(n)] = o
                return St(tyn, f)
            return St(tyn, {i: o for i, o in enumerate(ops)})
        for en, vs in P.enums.items():
            if last in vs and tyn in (en, last):
                return En(en, vs.index(last), {last: {i: o for i, o in enumerate(ops)}} if ops else {})
        if tyn in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo'):
            return St(tyn, {i: o for i, o in enumerate(ops)})
        return St(norm_ty(name), {i: o for i, o in enumerate(ops)})

    def op_ty(self, fn, op):
        if op[0] == 'const':
            m = re.match(r'^-?\d+_([iu](?:8|16|32|64|128|size))$', op[1])
            if m:
                return m.group(1)
            m = INT_CONST.match(op[1])
            if m:
                return 'u32' if m.group(2) == 'BITS' else m.group(1)
            c = self.find_const(op[1])
            return norm_ty(c.ret) if c is not None else None
        l, pr = op[1]
        t = norm_ty(fn.locals.get(l, '')) if l in fn.locals else (norm_ty(fn.ret) if l == 0 else '')
        for p in pr:
            if p[0] == 'deref':
                t = re.sub(r'^&(mut )?', '', t)
                if t.startswith('Box<'):
                    t = gen_args(t)[1][0]
            elif p[0] == 'f':
                t = norm_ty(p[2])
            elif p[0] in ('idx', 'cidx'):
                b, a = gen_args(t)
                t = a[0] if a else (split_top(t[1:-1], ';')[0] if t.startswith('[') else t)
        return t if t in SCALAR else None

    def binop(self, st, op, a, b, ty):
        if isinstance(a, Unk) or isinstance(b, Unk):
            if op.endswith('WithOverflow'):
                return St('()', {0: Unk(), 1: Unk()})
            return a if isinstance(a, Unk) else b
        if is_float(a) and is_float(b):
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
                return self.fl.binop(st, op, a, b)
            return self.fl.cmp(op, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ('Eq', 'Ne') and isinstance(a, Ref) and isinstance(b, Ref):
                raise Undecided('pointer comparison')
            raise Undecided('pointer arithmetic')
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'Eq': a == b, 'Ne': a != b, 'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            x, y = bv(a), bv(b)
            return {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'BitAnd': lambda: z3.And(x, y), 'BitOr': lambda: z3.Or(x, y), 'BitXor': lambda: z3.Xor(x, y)}[op]()
        if not (is_int(a) and is_int(b)):
            raise Undecided('binop %s on %r, %r' % (op, a, b))
        t = ty()
        if t is None:
            raise Undecided('type of integer operation ' + op)
        return self.iop(st, op, a, b, t)

    def wrapint(self, x, t):
        lo, hi = INT[t]
        m = hi - lo + 1
        if isinstance(x, int):
            return (x - lo) % m + lo
        return (x - lo) % m + lo

    def iop(self, st, op, a, b, t):
        lo, hi = INT[t]
        conc = isinstance(a, int) and isinstance(b, int)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        if op == 'Cmp':
            tag = (a > b) - (a < b) if conc else z3.If(iv(a) < iv(b), z3.IntVal(-1), z3.If(iv(a) == iv(b), z3.IntVal(0), z3.IntVal(1)))
            return En('Ordering', tag)
        if op.endswith('WithOverflow'):
            o = op[:3]
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[o]()
            ov = not (lo <= r <= hi) if conc else z3.Not(z3.And(r >= lo, r <= hi))
            self._bits_add(op, a, b, r)
            if o == 'Mul' and not isinstance(a, int) and not isinstance(b, int) and not z3.is_int_value(a) and not z3.is_int_value(b):
                # product of two unknowns: bound the factors, then the product (a tautology, given to the solver)
                A, B = (self.int_bounds(st, x)[1] for x in (a, b))
                if A * B <= hi and A < 2.0 ** 53 and B < 2.0 ** 53:
                    A, B = int(A), int(B)
                    self.axiom(z3.Implies(z3.And(a <= A, a >= -A, b <= B, b >= -B), z3.And(r <= A * B, r >= -A * B)), (r,))
                    if lo <= -A * B:
                        ov = False
            return St('()', {0: r, 1: ov})
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op[:3]]()
            return self.wrapint(r, t)
        if op in ('Div', 'Rem'):
            if conc:
                if b == 0:
                    raise Undecided('division by zero')
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                return q if op == 'Div' else a - b * q
            x, y = iv(a), iv(b)
            # z3 div rounds so that the remainder is >= 0; Rust truncates
            if isinstance(b, int) and b > 0:
                q = z3.If(x >= 0, x / y, -((-x) / y))
            else:
                q = z3.If(x >= 0, x / y, -((-x) / y))
            return q if op == 'Div' else x - y * q
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if not isinstance(b, int):
                raise Undecided('shift by a symbolic amount')
            nb = (hi - lo + 1).bit_length() - 1
            if not 0 <= b < nb:
                raise Undecided('shift amount')
            if op.startswith('Shr'):
                return a >> b if conc else iv(a) / z3.IntVal(2 ** b)
            if conc:
                return self.wrapint(a << b, t)
            r = a * (2 ** b)
            bt = self.bits.get(a.get_id())
            if bt and bt[1] + b < nb:
                self._setbits(r, bt[0] + b, bt[1] + b)
                return r
            return self.wrapint(r, t)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if conc:
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            if isinstance(a, int):
                a, b = b, a
            if op == 'BitAnd' and isinstance(b, int) and b >= 0:
                if b == 0:
                    return 0
                s = (b & -b).bit_length() - 1
                m = b >> s
                if m & (m + 1) == 0:
                    k = m.bit_length()
                    r = iv(a) % z3.IntVal(2 ** k) if s == 0 else ((iv(a) / z3.IntVal(2 ** s)) % z3.IntVal(2 ** k)) * (2 ** s)
                    self._setbits(r, s, s + k)
                    return r
            if op == 'BitAnd' and isinstance(b, int) and b < 0 and (~b) & (~b + 1) == 0:
                # clears the low bits
                k = (~b).bit_length()
                return (iv(a) / z3.IntVal(2 ** k)) * (2 ** k)
            if op in ('BitOr', 'BitXor'):
                ba, bb = self._getbits(a), self._getbits(b)
                if ba and bb and (ba[1] <= bb[0] or bb[1] <= ba[0]):
                    r = iv(a) + iv(b)
                    self._setbits(r, min(ba[0], bb[0]), max(ba[1], bb[1]))
                    return r
            # general case through bit-vectors
            n = 64 if hi > 2 ** 32 else 32
            x, y = z3.Int2BV(iv(a), n), z3.Int2BV(iv(b), n)
            r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
            return z3.BV2Int(r, is_signed=lo < 0)
        raise Undecided('integer op ' + op)

    def _setbits(self, r, lo, hi):
        self.bits[r.get_id()] = (lo, hi)
        self.keep.append(r)

    def _getbits(self, a):
        if isinstance(a, int):
            if a < 0:
                return None
            if a == 0:
                return (0, 0)
            return ((a & -a).bit_length() - 1, a.bit_length())
        return self.bits.get(a.get_id())

    def _bits_add(self, op, a, b, r):
        if op.startswith('Add') and is_z3(r):
            ba, bb = self._getbits(a), self._getbits(b)
            if ba and bb and (ba[1] <= bb[0] or bb[1] <= ba[0]):
                self._setbits(r, min(ba[0], bb[0]), max(ba[1], bb[1]))

    def cast(self, st, v, ty, kind, srcty):
        if isinstance(v, Unk):
            return v
        if kind == 'IntToInt':
            if is_bool(v):
                return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            lo, hi = INT[ty]
            if isinstance(v, int):
                return self.wrapint(v, ty)
            if isinstance(v, En):
                return v.tag
            s = srcty()
            if s in INT and INT[s][0] >= lo and INT[s][1] <= hi:
                return v
            b = self.bits.get(v.get_id())
            if b and 2 ** b[1] - 1 <= hi:
                return v
            if self.valid(st, z3.And(v >= lo, v <= hi), 2000):
                return v
            if lo == 0 and (hi + 1) & hi == 0:
                r = iv(v) % z3.IntVal(hi + 1)
                self._setbits(r, 0, hi.bit_length())
                return r
            return self.wrapint(v, ty)
        if kind == 'IntToFloat':
            return self.fl.from_int(st, v)
        if kind == 'FloatToInt':
            lo, hi = INT[ty]
            return self.fl.to_int(st, v, lo, hi)
        if kind == 'FloatToFloat':
            raise Undecided('f32')
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'BoxDerefTransmute'):
            return v
        if kind == 'Transmute':
            if isinstance(v, Ref) and ty in INT:
                return Unk('address')
            return v
        return Unk('cast ' + kind)

    # ---------- execution
    def run(self, fn, args, st):
        """all outcomes of fn on args"""
        self.n += 1
        fr = 'f%d' % self.n
        if len(args) != len(fn.params):
            raise Undecided('arity of ' + fn.name)
        st = st.fork()
        for p, a in zip(fn.params, args):
            st.mem[(fr, p)] = a
        spec = None
        for k, f in self.P.by_key.items():
            if f is fn:
                spec = self.loops.get(k)
                break
        if spec is None:
            spec = self.loops.get(fn.name)
        outs, _, _ = self.explore(fn, fr, [(st, 0)], spec)
        return outs

    def explore(self, fn, fr, work, spec, loop=None):
        """run the work list; with loop=(head, body): stop at the head (back edges) and outside of the body (exits)"""
        outs, back, exits = [], [], []
        heads = loop_heads(self.P, fn) if spec is not None else {}
        first = True
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time budget exhausted')
            if len(outs) + len(work) > 4000:
                raise Undecided('too many paths')
            st, bb = work.pop()
            if loop is not None:
                if bb == loop[0] and not first:
                    back.append(st)
                    continue
                if bb not in loop[1]:
                    exits.append((st, bb))
                    continue
            if bb in heads and not (loop is not None and bb == loop[0]) and spec.wants(heads[bb][0]):
                from . import loops
                r = loops.cut(self, fn, fr, st, bb, heads[bb], spec)
                if r is not None:
                    outs += r[0]
                    work += r[1]
                    continue
            first = False
            vk = (fr, bb)
            n = st.visits.get(vk, 0) + 1
            if n > self.loop_limit:
                raise Undecided('loop without invariant in ' + fn.name)
            st.visits[vk] = n
            for s in self.P.block(fn, bb):
                k = s[0]
                if k == 'assign':
                    v = self.rvalue(st, fr, fn, s[1], s[2])
                    self.store(st, self.place_ref(st, fr, s[1]), v)
                elif k == 'Tgoto':
                    work.append((st, s[1]))
                elif k == 'Treturn':
                    outs.append(Out(st, 'return', st.mem.get((fr, 0), UNIT)))
                elif k == 'Tswitch':
                    self.switch(st, fr, s, work)
                elif k == 'Tassert':
                    c = self.operand(st, fr, s[1])
                    if isinstance(c, Unk):
                        raise Undecided('assert on untracked value: ' + s[3])
                    if not s[2]:
                        c = (not c) if isinstance(c, bool) else z3.Not(c)
                    if isinstance(c, bool):
                        if c:
                            work.append((st, s[4]))
                        else:
                            outs.append(Out(st, 'panic', '%s in %s' % (s[3], fn.name)))
                    elif self.valid(st, c):
                        # implied: keep as a fact, it helps later queries
                        work.append((st.assume(c), s[4]))
                    else:
                        s2 = st.assume(z3.Not(c))
                        if self.feasible(s2):
                            outs.append(Out(s2, 'panic', '%s in %s' % (s[3], fn.name)))
                        s3 = st.assume(c)
                        if self.feasible(s3):
                            work.append((s3, s[4]))
                elif k == 'Tdrop':
                    work.append((st, s[2]))
                elif k == 'Tcall':
                    args2 = [self.operand(st, fr, o) for o in s[3]]
                    dest = s[1]
                    retty = norm_ty(fn.locals.get(dest[0], fn.ret if dest[0] == 0 else '')) if not dest[1] else None
                    for o in self.call(st, s[2], args2, retty):
                        if o.kind != 'return':
                            outs.append(o)
                            continue
                        if s[4] is None:
                            continue
                        self.store(o.st, self.place_ref(o.st, fr, dest), o.val)
                        work.append((o.st, s[4]))
                elif k == 'Tunreachable':
                    pass
                elif k == 'Tresume':
                    outs.append(Out(st, 'panic', 'unwind'))
        return outs, back, exits

    def switch(self, st, fr, s, work):
        v = self.operand(st, fr, s[1])
        if isinstance(v, Unk):
            raise Undecided('branch on untracked value (%s)' % v.why)
        arms, other = s[2], s[3]
        if isinstance(v, (bool, int)):
            v = int(v)
            for a, b in arms:
                if a == v or (v < 0 and a == v % 2 ** 64) or (v < 0 and a == v % 256):
                    work.append((st, b))
                    return
            if other is not None:
                work.append((st, other))
            return
        if is_bool(v):
            sv = z3.simplify(v)       # only to test for constants: simplified terms would not match the facts
            if z3.is_true(sv) or z3.is_false(sv):
                tv = 1 if z3.is_true(sv) else 0
                for a, b in arms:
                    if a == tv:
                        work.append((st, b))
                        return
                work.append((st, other))
                return
            conds = [(z3.Not(v) if a == 0 else v, b) for a, b in arms]
            rest = v if arms[0][0] == 0 else z3.Not(v)
            if other is not None and len(arms) == 1:
                conds.append((rest, other))
        else:
            sv = [(a - 2 ** 64 if a > 2 ** 63 else a) for a, _ in arms]
            conds = [(iv(v) == a, b) for a, (_, b) in zip(sv, arms)]
            if other is not None:
                conds.append((z3.And([iv(v) != a for a in sv]), other))
        live = []
        for c, b in conds:
            s2 = st.assume(c)
            if self.feasible(s2):
                live.append((s2, b))
        if len(live) == 1 and len(conds) == 2:
            pass
        work.extend(live)

    def call_fn(self, f, args, st):
        self.inlined.add(f.name)
        return self.run(f, args, st)

    def call_value(self, st, f, args):
        """call a closure / Fn value with a list of arguments"""
        if isinstance(f, Ref):
            f2 = self.load(st, f)
            if isinstance(f2, Ref):
                return self.call_value(st, f2, args)
            if isinstance(f2, St) and f2.ty.startswith('{closure@'):
                fn = self.P.by_closure.get(f2.ty)
                if fn is None:
                    raise Undecided('closure body ' + f2.ty)
                by_ref = fn.locals[fn.params[0]].startswith('&')
                return self.call_fn(fn, [f if by_ref else f2] + list(args), st)
            return self.call_value(st, f2, args)
        if isinstance(f, St) and f.ty.startswith('{closure@'):
            st = st.fork()
            r = self.new_cell(st, f)
            return self.call_value(st, r, args)
        if isinstance(f, AbsFn):
            h = self.hooks.get('absfn')
            if h is not None:
                r = h(self, st, f, args)
                if r is not None:
                    return r
            ts = [self.term(a, st) for a in args]
            nm = 'call:' + f.ret
            v = self.from_maker(norm_ty(f.ret), lambda sort, suf='': uf(nm + suf, *([Obj] + [t.sort() for t in ts] + [sort]))(f.base, *ts))
            return [Out(st, 'return', v)]
        if isinstance(f, FnItem):
            return self.call(st, f.name, list(args), None)
        raise Undecided('call of %r' % (f,))

    def call(self, st, callee, args, retty):
        from . import stdmodel
        ty, tr, name = split_callee(callee)
        P = self.P
        key = None
        for k in ((ty, tr, name), (ty, None, name) if tr is None else None, (None, None, name) if ty is None else None):
            if k and (k in P.by_key or k in self.contracts):
                key = k
                break
        if key is not None:
            h = self.contracts.get(key)
            if h is not None:
                return h(self, st, args, callee)
            if key in P.derived and key[1] == 'Clone':
                return [Out(st, 'return', self.load(st, args[0]))]
            if key in P.by_key:
                if key in P.derived and key[1] == 'PartialEq':
                    a, b = self.load(st, args[0]), self.load(st, args[1])
                    if isinstance(a, En) and isinstance(b, En):
                        if isinstance(a.tag, int) and isinstance(b.tag, int):
                            return [Out(st, 'return', (a.tag == b.tag) == (name == 'eq'))]
                        c = iv(a.tag) == iv(b.tag)
                        return [Out(st, 'return', c if name == 'eq' else z3.Not(c))]
                if key not in P.derived or name not in ('fmt',):
                    return self.call_fn(P.by_key[key], args, st)
        if tr == 'PartialEq' and name == 'ne' and (ty, tr, 'eq') in P.by_key:
            outs = []
            for o in self.call(st, callee.replace('::ne', '::eq'), args, 'bool'):
                if o.kind == 'return':
                    o = Out(o.st, 'return', (not o.val) if isinstance(o.val, bool) else z3.Not(o.val))
                outs.append(o)
            return outs
        # generic code over a trait of this crate: Self is known from the value
        return stdmodel.call(self, st, callee, ty, tr, name, args, retty)


_HEADS = {}


def loop_heads(P, fn):
    """head block -> (index in program order, natural loop body) of every loop of the function"""
    if fn.name in _HEADS and _HEADS[fn.name][0] is fn:
        return _HEADS[fn.name][1]
    succ = {}
    todo, seen = [0], {0}
    while todo:
        b = todo.pop()
        out = []
        for s in P.block(fn, b):
            k = s[0]
            if k == 'Tgoto':
                out.append(s[1])
            elif k == 'Tswitch':
                out += [t for _, t in s[2]] + ([s[3]] if s[3] is not None else [])
            elif k == 'Tassert':
                out.append(s[4])
            elif k == 'Tdrop':
                out.append(s[2])
            elif k == 'Tcall' and s[4] is not None:
                out.append(s[4])
        succ[b] = out
        for t in out:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    pred = {b: [] for b in succ}
    for b, ts in succ.items():
        for t in ts:
            pred[t].append(b)
    # dominators
    dom = {b: set(succ) for b in succ}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in succ:
            if b == 0:
                continue
            n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    heads = {}
    for b, ts in succ.items():
        for t in ts:
            if t in dom[b]:
                body = heads.setdefault(t, {t})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
    r = {}
    for i, h in enumerate(sorted(heads, key=lambda h: (len(dom[h]), h))):
        r[h] = (i, heads[h])
    _HEADS[fn.name] = (fn, r)
    return r


class FnItem:
    def __init__(self, name):
        self.name = name


def split_path(s):
    """split at '::' outside of <> () {}"""
    out, i, d, cur = [], 0, 0, ''
    while i < len(s):
        c = s[i]
        if c in '<({[':
            d += 1
        elif c in ')}]' or (c == '>' and s[i - 1] != '-'):
            d -= 1
        if d == 0 and s.startswith('::', i):
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


def split_callee(c):
    """-> (type base name or None, trait base name or None, method)"""
    c = c.strip()
    parts = split_path(c)
    if parts[-1].startswith('<'):
        parts = parts[:-1]
    name = parts[-1]
    pre = parts[:-1]
    if not pre:
        return None, None, name
    p = pre[-1]
    if p.startswith('<') and len(pre) > 1 and not p.startswith('<impl'):
        p = pre[-2] + p
    if p.startswith('<impl '):
        return norm_ty(p[6:-1]), None, name
    if p.startswith('<'):
        inner = p[1:-1]
        k = _top_as(inner)
        if k is not None:
            t, tr = inner[:k], inner[k + 4:]
            t = re.sub(r'\bquantizer_wu::Box\b', 'WuBox', t)
            tn = norm_ty(t)
            tr = re.sub(r'<.*', '', norm_ty(tr))
            return (tn if tn.startswith(('&', '[', '(')) else re.sub(r'<.*', '', tn)), tr, name
    if p == 'Box' and 'quantizer_wu' in c:
        p = 'WuBox'
    return re.sub(r'<.*', '', norm_ty(p)), None, name


def _top_as(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in '<([{':
            d += 1
        elif ch in ')]}' or (ch == '>' and s[i - 1] != '-'):
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
    return None


def _unescape(s):
    def f(m):
        if m.group(1):
            return chr(int(m.group(1), 16))
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(2), m.group(2))
    return re.sub(r'\\(?:x([0-9a-fA-F]{2})|(.))', f, s)
