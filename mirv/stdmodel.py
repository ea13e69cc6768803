"""Models (assumed contracts) of the std functions the crate calls."""
import re
import z3
from .values import *
from .engine import Out, gen_args, INT, SCALAR, STD_ENUMS
from .mirparse import norm_ty, split_top
from .floats import uf

F64 = {'abs', 'max', 'min', 'clamp', 'round', 'floor', 'ceil', 'trunc', 'sqrt', 'powf', 'powi', 'cbrt', 'exp', 'ln', 'log10', 'log2', 'sin', 'cos', 'tan', 'atan', 'atan2',
       'hypot', 'asin', 'acos', 'exp_m1', 'ln_1p', 'signum', 'is_nan', 'is_finite', 'is_infinite', 'to_degrees', 'to_radians', 'mul_add', 'rem_euclid'}


def ret(st, v):
    return [Out(st, 'return', v)]


def panic(st, msg):
    return [Out(st, 'panic', msg)]


def deref(ctx, st, v):
    while isinstance(v, Ref):
        v = ctx.load(st, v)
    return v


def some(v, ty='Option'):
    return En(ty, 1, {'Some': {0: v}})


NONE = En('Option', 0)


def vlen(v):
    return len(v.e) if isinstance(v, Vc) else v.n


def branch(ctx, st, c):
    """[(state, bool)] for a condition"""
    if isinstance(c, bool):
        return [(st, c)]
    sc = z3.simplify(c)
    if z3.is_true(sc):
        return [(st, True)]
    if z3.is_false(sc):
        return [(st, False)]
    out = []
    for cc, b in ((c, True), (z3.Not(c), False)):
        s = st.assume(cc)
        if ctx.feasible(s):
            out.append((s, b))
    return out


def bounds_check(ctx, st, i, n, what):
    """-> (ok state or None, [panic outs])"""
    if isinstance(i, int) and isinstance(n, int):
        return (st, []) if 0 <= i < n else (None, panic(st, 'index out of bounds in ' + what))
    c = z3.And(iv(i) >= 0, iv(i) < iv(n))
    if ctx.valid(st, c):
        return st, []
    outs = []
    s2 = st.assume(z3.Not(c))
    if ctx.feasible(s2):
        outs = panic(s2, 'index out of bounds in ' + what)
    s3 = st.assume(c)
    return (s3 if ctx.feasible(s3) else None), outs


def mapkey(ctx, st, k):
    v = deref(ctx, st, k)
    if isinstance(v, St) and v.ty in ctx.key_field:
        return iv(ctx.fname(v, ctx.key_field[v.ty]))
    return ctx.term(v, st)


def call(ctx, st, callee, ty, tr, name, args, retty):
    d = lambda i: deref(ctx, st, args[i])
    if ty in ('f64',) and name in F64 and tr is None:
        return ret(st, ctx.fl.call(st, name, tuple(deref(ctx, st, a) for a in args)))
    if ty == 'f64' and name in ('to_ne_bytes', 'to_be_bytes', 'to_le_bytes', 'to_bits'):
        x = d(0)
        if isinstance(x, SF):
            # the bit pattern is a function of the value and, at zero, of its sign
            neg = z3.And(x.t == 0, z3.Bool('negzero:' + x.t.sexpr())) if x.nz else z3.BoolVal(False)
            return ret(st, ctx.app('f64::bits', [x, neg], 'i64'))
        import struct
        return ret(st, struct.unpack('>q', struct.pack('>d', x))[0])
    if tr == 'Clone' and name == 'clone' or name in ('to_owned', 'cloned', 'copied') and tr is None and ty != 'Option':
        v = args[0]
        return ret(st, ctx.load(st, v) if isinstance(v, Ref) else v)
    if name == 'clone_from' and tr == 'Clone':
        s2 = st.fork()
        ctx.store(s2, args[0], d(1))
        return ret(s2, UNIT)
    h = TABLE.get((ty, name))
    if h is None and ty is not None:
        h = TABLE.get((re.sub(r'<.*', '', ty.lstrip('&').replace('mut ', '')), name))
    if h is None and ty is not None and ty.startswith('['):
        h = TABLE.get(('slice', name))
    if h is None and tr is not None:
        h = TABLE.get((tr, name))
    if h is None:
        h = TABLE.get((None, name))
    if h is None:
        raise Undecided('no contract or model for ' + callee[:160])
    r = h(ctx, st, args, callee, retty)
    return r


TABLE = {}


def model(*keys):
    def deco(f):
        for k in keys:
            TABLE[k] = f
        return f
    return deco


# ---- comparisons
@model(('PartialEq', 'eq'), ('PartialEq', 'ne'))
def m_eq(ctx, st, args, callee, retty):
    a, b = deref(ctx, st, args[0]), deref(ctx, st, args[1])
    if is_float(a):
        c = ctx.fl.cmp('Eq', a, b)
    elif isinstance(a, En) and isinstance(b, En) and not a.pay and not b.pay:
        c = a.tag == b.tag if isinstance(a.tag, int) and isinstance(b.tag, int) else iv(a.tag) == iv(b.tag)
    else:
        c = ctx.same(a, b, st)
    if is_z3(c):
        sc = z3.simplify(c)
        if z3.is_true(sc) or z3.is_false(sc):
            c = z3.is_true(sc)
    if callee.endswith('::ne'):
        c = (not c) if isinstance(c, bool) else z3.Not(c)
    return ret(st, c)


def _pcmp(op):
    def f(ctx, st, args, callee, retty):
        a, b = deref(ctx, st, args[0]), deref(ctx, st, args[1])
        if is_float(a):
            return ret(st, ctx.fl.cmp(op, a, b))
        return ret(st, ctx.iop(st, op, a, b, 'i64'))
    return f


for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    TABLE[('PartialOrd', _n)] = _pcmp(_o)


@model(('PartialOrd', 'partial_cmp'), ('f64', 'partial_cmp'), ('f64', 'total_cmp'), ('Ord', 'cmp'), ('i64', 'cmp'))
def m_cmp(ctx, st, args, callee, retty):
    a, b = deref(ctx, st, args[0]), deref(ctx, st, args[1])
    x, y = (real(a), real(b)) if is_float(a) else (iv(a), iv(b))
    o = En('Ordering', z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1))))
    return ret(st, o if callee.endswith(('total_cmp', '::cmp')) else some(o, 'Option<Ordering>'))


@model(('Ord', 'max'), ('Ord', 'min'), ('i64', 'max'), ('i64', 'min'), (None, 'max'), (None, 'min'))
def m_maxmin(ctx, st, args, callee, retty):
    a, b = args
    c = iv(a) >= iv(b)
    r = z3.If(c, iv(a), iv(b)) if 'max' in callee else z3.If(c, iv(b), iv(a))
    sr = z3.simplify(r)
    return ret(st, sr.as_long() if z3.is_int_value(sr) else r)


@model(('i64', 'clamp'), ('Ord', 'clamp'))
def m_clamp(ctx, st, args, callee, retty):
    a, lo, hi = [iv(x) for x in args]
    return ret(st, z3.If(a < lo, lo, z3.If(a > hi, hi, a)))


@model(('i64', 'abs'))
def m_iabs(ctx, st, args, callee, retty):
    a = iv(args[0])
    return ret(st, z3.If(a >= 0, a, -a))


@model(('i64', 'rem_euclid'))
def m_irem(ctx, st, args, callee, retty):
    return ret(st, iv(args[0]) % iv(args[1]))


@model((None, 'discriminant'), ('mem', 'discriminant'))
def m_discr(ctx, st, args, callee, retty):
    return ret(st, deref(ctx, st, args[0]).tag)


@model((None, 'swap'), ('mem', 'swap'))
def m_swap(ctx, st, args, callee, retty):
    s = st.fork()
    a, b = ctx.load(st, args[0]), ctx.load(st, args[1])
    ctx.store(s, args[0], b)
    ctx.store(s, args[1], a)
    return ret(s, UNIT)


@model((None, 'replace'), ('mem', 'replace'))
def m_replace(ctx, st, args, callee, retty):
    s = st.fork()
    a = ctx.load(st, args[0])
    ctx.store(s, args[0], args[1])
    return ret(s, a)


# ---- panics
@model((None, 'panic'), (None, 'panic_fmt'), (None, 'panic_display'), (None, 'assert_failed'), (None, 'unreachable_display'), (None, 'panic_cold_explicit'), ('panicking', 'panic'), ('panicking', 'panic_fmt'),
       (None, 'begin_panic'), (None, 'panic_explicit'), (None, 'unwrap_failed'), (None, 'expect_failed'))
def m_panic(ctx, st, args, callee, retty):
    return panic(st, 'panic: %r' % (args[:1],))


# ---- formatting: text of known length with symbolic characters; anything else is not tracked
def codes(v):
    if isinstance(v, CS):
        return v.c
    if isinstance(v, Str) and v.s is not None:
        return tuple(ord(x) for x in v.s)
    return None


@model(('Argument', 'new_display'), ('Argument', 'new_debug'), ('Argument', 'new_lower_hex'), ('Argument', 'new_upper_hex'))
def m_fmtarg(ctx, st, args, callee, retty):
    k = re.search(r'::(new_\w+)', callee).group(1)
    return ret(st, St('FmtArg', {0: k, 1: deref(ctx, st, args[0])}))


def hexdigits(ctx, st, v, width, zero, base):
    """[(state, codes)] of a non-negative integer below 16^4"""
    if isinstance(v, int):
        t = '%x' % v
        t = t.rjust(width, '0' if zero else ' ')
        return [(st, tuple(ord(x) if x.isdigit() or x == ' ' else ord(x) - 97 + base for x in t))]
    d = lambda n: z3.If(n < 10, 48 + n, base + n - 10)
    dig = [(v / 16 ** i) % 16 for i in range(4)]
    if zero and 1 <= width <= 4 and ctx.valid(st, z3.And(v >= 0, v < 16 ** width)):
        return [(st, tuple(d(dig[i]) for i in reversed(range(width))))]
    if not ctx.valid(st, z3.And(v >= 0, v < 16 ** 4)):
        raise Undecided('hexadecimal text of an unbounded number')
    out = []
    for n in range(1, 5):
        s = st.assume(z3.And(v >= (16 ** (n - 1) if n > 1 else 0), v < 16 ** n))
        if ctx.feasible(s):
            out.append((s, tuple([48 if zero else 32] * max(0, width - n)) + tuple(d(dig[i]) for i in reversed(range(n)))))
    return out


@model(('Arguments', 'new'))
def m_fmtargs(ctx, st, args, callee, retty):
    t, a = deref(ctx, st, args[0]), deref(ctx, st, args[1])
    if not isinstance(t, Str) or t.s is None or not isinstance(a, Vc):
        return ret(st, Unk('formatted text'))
    t, i, k = [ord(x) for x in t.s], 0, 0
    alts = [(st, ())]
    le = lambda n: sum(t[i + q] << 8 * q for q in range(n))
    while True:
        n = t[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            alts = [(s, c + tuple(t[i:i + n])) for s, c in alts]
            i += n
            continue
        if n < 0xc0:
            return ret(st, Unk('formatted text'))
        flags, width = 0, 0
        if n & 1:
            flags = le(4)
            i += 4
        if n & 2:
            width = le(2)
            i += 2
        if n & 4 or n & ~0xcf:
            return ret(st, Unk('formatted text'))
        if n & 8:
            k = le(2)
            i += 2
        x = a.e[k]
        k += 1
        if flags & ((1 << 21) | (1 << 22) | (1 << 23) | (1 << 25) | (1 << 26) | (1 << 28)):
            return ret(st, Unk('formatted text'))
        kind, v = x.f[0], x.f[1]
        if kind in ('new_lower_hex', 'new_upper_hex') and (isinstance(v, int) or z3.is_expr(v)):
            alts = [(s2, c + h) for s, c in alts for s2, h in hexdigits(ctx, s, v, width, bool(flags & (1 << 24)), 97 if kind == 'new_lower_hex' else 65)]
        elif kind == 'new_display' and codes(v) is not None and not width:
            alts = [(s, c + codes(v)) for s, c in alts]
        else:
            return ret(st, Unk('formatted text'))
    return [Out(s, 'return', CS(c)) for s, c in alts]


@model((None, 'format'), (None, 'must_use'), ('fmt', 'format'), ('Arguments', 'from_str'))
def m_fmt(ctx, st, args, callee, retty):
    v = deref(ctx, st, args[0])
    c = codes(v)
    return ret(st, CS(c) if c is not None else v if isinstance(v, Unk) else Unk('formatted text'))


@model(('Arguments', 'new_v1'), ('Arguments', 'new_const'))
def m_fmt_old(ctx, st, args, callee, retty):
    return ret(st, Unk('formatted text'))


@model(('str', 'to_uppercase'), ('str', 'to_lowercase'), ('str', 'to_ascii_uppercase'), ('str', 'to_ascii_lowercase'))
def m_case(ctx, st, args, callee, retty):
    c = codes(deref(ctx, st, args[0]))
    if c is None:
        return ret(st, Unk('text'))
    upper = 'upper' in callee
    lo, hi, d = (97, 122, -32) if upper else (65, 90, 32)
    out = []
    for x in c:
        if isinstance(x, int):
            if x > 127 and 'ascii' not in callee:
                raise Undecided('case of a non-ASCII character')
            out.append(x + d if lo <= x <= hi else x)
        else:
            if 'ascii' not in callee and not ctx.valid(st, z3.And(x >= 0, x < 128)):
                raise Undecided('case of a non-ASCII character')
            out.append(z3.If(z3.And(x >= lo, x <= hi), x + d, x))
    return ret(st, CS(out))


def pattern(ctx, st, p):
    p = deref(ctx, st, p)
    if isinstance(p, int):
        return (p,)
    c = codes(p)
    if c is None:
        raise Undecided('text pattern')
    return c


def prefix(c, p):
    """condition that the text starts with the pattern"""
    if len(c) < len(p):
        return z3.BoolVal(False)
    return z3.And([iv(x) == iv(y) for x, y in zip(c, p)] + [z3.BoolVal(True)])


@model(('str', 'trim_start_matches'))
def m_trim_start(ctx, st, args, callee, retty):
    c = codes(deref(ctx, st, args[0]))
    p = pattern(ctx, st, args[1])
    if c is None:
        return ret(st, ctx.app('str::trim_start_matches', [deref(ctx, st, args[0]), z3.StringVal(''.join(map(chr, p)))], 'String'))
    if not p:
        raise Undecided('empty pattern')
    outs = []
    while True:
        h = prefix(c, p)
        s = st.assume(z3.Not(h))
        if ctx.feasible(s):
            outs.append(Out(s, 'return', CS(c)))
        st = st.assume(h)
        if len(c) < len(p) or not ctx.feasible(st):
            return outs
        c = c[len(p):]


@model(('str', 'strip_prefix'))
def m_strip_prefix(ctx, st, args, callee, retty):
    c = codes(deref(ctx, st, args[0]))
    p = pattern(ctx, st, args[1])
    if c is None:
        raise Undecided('prefix of unknown text')
    outs = []
    for s, b in branch(ctx, st, prefix(c, p)):
        outs.append(Out(s, 'return', some(CS(c[len(p):])) if b else NONE))
    return outs


@model(('str', 'starts_with'))
def m_starts_with(ctx, st, args, callee, retty):
    c = codes(deref(ctx, st, args[0]))
    if c is None:
        raise Undecided('prefix of unknown text')
    return ret(st, prefix(c, pattern(ctx, st, args[1])))


def digitval(ctx, x):
    """value of a digit character, as a named function with its definition"""
    d = uf('digit', z3.IntSort(), z3.IntSort())(iv(x))
    if ('digit', d.get_id()) not in ctx.fl_done:
        ctx.fl_done.add(('digit', d.get_id()))
        ctx.keep.append(d)
        t = z3.If(x <= 57, x - 48, z3.If(x <= 90, x - 55, x - 87))
        ctx.axiom(d == t, (d,), True)
        for lo, hi, b in ((48, 57, 0), (65, 70, 10), (97, 102, 10)):
            ctx.axiom(z3.Implies(z3.And(x >= lo, x <= hi), z3.And(d >= b, d <= b + hi - lo)), (d,))
    return d


@model(('i64', 'from_str_radix'), ('u64', 'from_str_radix'), ('i32', 'from_str_radix'), ('u32', 'from_str_radix'))
def m_radix(ctx, st, args, callee, retty):
    v, r = deref(ctx, st, args[0]), args[1]
    ty = re.search(r'impl (\w+)>::from_str_radix|(\w+)::from_str_radix', callee)
    ty = ty.group(1) or ty.group(2)
    if not isinstance(r, int) or not 2 <= r <= 36:
        raise Undecided('radix')
    ok = lambda x: En('Result', 0, {'Ok': {0: x}})
    err = En('Result', 1, {'Err': {0: Unk('ParseIntError')}})
    c = codes(v)
    if c is None:
        t = ctx.term(v, st)
        g = uf('from_str_radix:ok', t.sort(), z3.IntSort(), z3.BoolSort())(t, z3.IntVal(r))
        x = uf('from_str_radix', t.sort(), z3.IntSort(), z3.IntSort())(t, z3.IntVal(r))
        return [Out(s, 'return', ok(x) if b else err) for s, b in branch(ctx, st, g)]
    c = [iv(x) for x in c]
    outs = []

    def digits(st, cs, neg):
        if not cs:
            outs.append(Out(st, 'return', err))
            return
        n = min(r, 10)
        good = z3.And([z3.Or(z3.And(x >= 48, x < 48 + n), z3.And(x >= 65, x < 55 + r), z3.And(x >= 97, x < 87 + r)) for x in cs])
        val = z3.IntVal(0)
        for x in cs:
            val = val * r + digitval(ctx, x)
        val = -val if neg else val
        fits = z3.And(val >= INT[ty][0], val <= INT[ty][1])
        for s, b in branch(ctx, st, z3.And(good, fits)):
            outs.append(Out(s, 'return', ok(val) if b else err))
    if not c:
        return ret(st, err)
    for s, b in branch(ctx, st, c[0] == 43):
        if b:
            digits(s, c[1:], False)
        elif INT[ty][0] < 0:
            for s2, m in branch(ctx, s, c[0] == 45):
                digits(s2, c[1:] if m else c, m)
        else:
            digits(s, c, False)
    return outs


@model(('Result', 'ok'))
def m_result_ok(ctx, st, args, callee, retty):
    v = deref(ctx, st, args[0])
    if not isinstance(v, En) or not isinstance(v.tag, int):
        raise Undecided('result of unknown variant')
    return ret(st, some(v.pay['Ok'][0]) if v.tag == 0 else NONE)


@model((None, '_print'), ('io', '_print'))
def m_print(ctx, st, args, callee, retty):
    return ret(st, UNIT)


# ---- strings
@model(('ToString', 'to_string'), ('String', 'from'), ('From', 'from'), ('str', 'to_string'), ('Into', 'into'), ('String', 'as_str'), ('String', 'deref'), ('Deref', 'deref'), ('DerefMut', 'deref_mut'), ('AsRef', 'as_ref'), ('str', 'into'),
       ('Borrow', 'borrow'))
def m_tostring(ctx, st, args, callee, retty):
    v = deref(ctx, st, args[0])
    if isinstance(v, (Str, CS)):
        return ret(st, v)
    if isinstance(v, Unk):
        return ret(st, v)
    if 'deref' in callee or 'as_ref' in callee or 'borrow' in callee:
        return ret(st, args[0])
    return ret(st, Unk('text'))


# ---- Box
@model(('Box', 'new'), ('Rc', 'new'), ('Arc', 'new'))
def m_box(ctx, st, args, callee, retty):
    return ret(st, args[0])


@model(('Box', 'new_uninit'))
def m_uninit(ctx, st, args, callee, retty):
    s = st.fork()
    m = re.search(r'<(\[.*\])>::new_uninit', callee)
    r = ctx.new_cell(s, St('MaybeUninit', {1: St('ManuallyDrop', {})}))
    return ret(s, St('Box', {0: r}))


@model(('boxed', 'box_assume_init_into_vec_unsafe'), (None, 'box_assume_init_into_vec_unsafe'))
def m_intovec(ctx, st, args, callee, retty):
    v = args[0]
    c = ctx.load(st, v.f[0])
    return ret(st, c.f[1].f[0])


@model(('slice', 'into_vec'))
def m_intovec2(ctx, st, args, callee, retty):
    return ret(st, deref(ctx, st, args[0]))


# ---- Option
def opt(ctx, st, o):
    """[(state, None or payload value)]"""
    out = []
    if not isinstance(o, En):
        raise Undecided('option %r' % (o,))
    for s, b in branch(ctx, st, (o.tag == 1) if isinstance(o.tag, int) else iv(o.tag) == 1):
        out.append((s, ctx.payload(o, 'Some', 0, None) if b else None))
    return out


@model(('Option', 'unwrap_or'))
def m_unwrap_or(ctx, st, args, callee, retty):
    o = args[0]
    if ctx.merge and isinstance(o, En) and not isinstance(o.tag, int) and retty in ('i64', 'bool', 'usize'):
        v = ctx.payload(o, 'Some', 0, retty)
        return ret(st, ctx.ite(iv(o.tag) == 1, v, args[1]))
    return [Out(s, 'return', args[1] if v is None else v) for s, v in opt(ctx, st, args[0])]


@model(('Option', 'unwrap_or_default'))
def m_unwrap_or_default(ctx, st, args, callee, retty):
    dv = {'f64': 0.0, 'bool': False}.get(retty, 0)
    return [Out(s, 'return', dv if v is None else v) for s, v in opt(ctx, st, args[0])]


@model(('Option', 'unwrap_or_else'))
def m_unwrap_or_else(ctx, st, args, callee, retty):
    outs = []
    for s, v in opt(ctx, st, args[0]):
        if v is None:
            outs += ctx.call_value(s, args[1], [])
        else:
            outs.append(Out(s, 'return', v))
    return outs


@model(('Option', 'map'), ('Option', 'and_then'))
def m_optmap(ctx, st, args, callee, retty):
    outs = []
    for s, v in opt(ctx, st, args[0]):
        if v is None:
            outs.append(Out(s, 'return', En(retty or 'Option', 0)))
        else:
            for o in ctx.call_value(s, args[1], [v]):
                if o.kind == 'return' and '::map' in callee:
                    o = Out(o.st, 'return', some(o.val, retty or 'Option'))
                outs.append(o)
    return outs


@model(('Option', 'map_or'))
def m_optmapor(ctx, st, args, callee, retty):
    outs = []
    for s, v in opt(ctx, st, args[0]):
        if v is None:
            outs.append(Out(s, 'return', args[1]))
        else:
            outs += ctx.call_value(s, args[2], [v])
    return outs


@model(('Option', 'unwrap'), ('Option', 'expect'))
def m_unwrap(ctx, st, args, callee, retty):
    return [Out(s, 'panic', 'unwrap of None') if v is None else Out(s, 'return', v) for s, v in opt(ctx, st, args[0])]


@model(('Option', 'is_some'), ('Option', 'is_none'))
def m_is_some(ctx, st, args, callee, retty):
    o = deref(ctx, st, args[0])
    c = o.tag == 1 if isinstance(o.tag, int) else iv(o.tag) == 1
    if 'is_none' in callee:
        c = (not c) if isinstance(c, bool) else z3.Not(c)
    return ret(st, c)


@model(('Option', 'as_ref'), ('Option', 'as_mut'), ('Option', 'as_deref'))
def m_as_ref(ctx, st, args, callee, retty):
    r = args[0]
    o = deref(ctx, st, r)
    if isinstance(o.tag, int):
        return ret(st, some(Ref(r.cell, r.path + (('some',),)), retty or 'Option') if o.tag == 1 else En(retty or 'Option', 0))
    return ret(st, En(retty or 'Option', o.tag, {'Some': {0: Ref(r.cell, r.path + (('some',),))}}))


@model(('Option', 'cloned'), ('Option', 'copied'))
def m_optcloned(ctx, st, args, callee, retty):
    o = args[0]
    if isinstance(o.tag, int) and o.tag == 0:
        return ret(st, En(retty or 'Option', 0))
    v = ctx.payload(o, 'Some', 0, None)
    return ret(st, En(retty or 'Option', o.tag, {'Some': {0: deref(ctx, st, v)}}))


@model(('Option', 'take'))
def m_opttake(ctx, st, args, callee, retty):
    o = ctx.load(st, args[0])
    s = st.fork()
    ctx.store(s, args[0], En(o.ty, 0))
    return ret(s, o)


@model(('Option', 'or'))
def m_optor(ctx, st, args, callee, retty):
    return [Out(s, 'return', args[1] if v is None else args[0]) for s, v in opt(ctx, st, args[0])]


# ---- closures
@model(('Box', 'call'), ('Fn', 'call'), ('FnMut', 'call_mut'), ('FnOnce', 'call_once'), ('Box', 'call_mut'), ('Box', 'call_once'))
def m_call(ctx, st, args, callee, retty):
    tup = args[1]
    return ctx.call_value(st, args[0], [tup.f[i] for i in sorted(tup.f)])


# ---- Vec and slices
@model(('Vec', 'new'), ('Vec', 'with_capacity'))
def m_vecnew(ctx, st, args, callee, retty):
    return ret(st, Vc([]))


@model(('Vec', 'len'), ('slice', 'len'), ('Vec', 'is_empty'), ('slice', 'is_empty'))
def m_len(ctx, st, args, callee, retty):
    v = deref(ctx, st, args[0])
    if not isinstance(v, (Vc, SVec)):
        raise Undecided('len of %r' % (v,))
    n = vlen(v)
    if callee.endswith('is_empty'):
        return ret(st, n == 0 if isinstance(n, int) else n == 0)
    return ret(st, n)


@model(('Vec', 'index'), ('Vec', 'index_mut'), ('slice', 'index'), ('slice', 'index_mut'))
def m_index(ctx, st, args, callee, retty):
    r = args[0]
    while isinstance(ctx.load(st, r), Ref):
        r = ctx.load(st, r)
    v = ctx.load(st, r)
    i = args[1]
    if not isinstance(v, (Vc, SVec)):
        raise Undecided('index of %r' % (v,))
    if isinstance(i, St) and i.ty.startswith('Range'):
        if 'index_mut' in callee:
            raise Undecided('mutable range index')
        return subslice(ctx, st, v, i)
    if not is_int(i):
        raise Undecided('index by %r' % (i,))
    s, outs = bounds_check(ctx, st, i, vlen(v), callee[:40])
    if s is not None:
        outs = outs + ret(s, Ref(r.cell, r.path + (('i', i),)))
    return outs


def range_of(i, n):
    k = i.ty.split('<')[0]
    if k == 'RangeFull':
        return 0, n
    if k == 'RangeFrom':
        return i.f[0], n
    if k == 'RangeTo':
        return 0, i.f[0]
    if k == 'RangeToInclusive':
        return 0, i.f[0] + 1
    return i.f[0], i.f[1] + 1 if k == 'RangeInclusive' else i.f[1]


def subslice(ctx, st, v, rng):
    lo, hi = range_of(rng, vlen(v))
    n = vlen(v)
    c = z3.And(iv(lo) >= 0, iv(lo) <= iv(hi), iv(hi) <= iv(n))
    outs = []
    for s, b in branch(ctx, st, c):
        if not b:
            outs += panic(s, 'slice index out of range')
            continue
        s = s.fork()
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 2000:
            w = Vc(v.e[lo:hi]) if isinstance(v, Vc) else Vc([ctx.elem(s, v, k) for k in range(lo, hi)])
        elif isinstance(v, SVec) and v.arr is not None:
            k = z3.Int('lam!k')
            w = SVec(iv(hi) - iv(lo), z3.Lambda([k], z3.Select(v.arr, k + iv(lo))), v.ety, eb=v.eb)
        else:
            raise Undecided('range index')
        outs += ret(s, ctx.new_cell(s, w))
    return outs


@model(('Vec', 'insert'))
def m_insert(ctx, st, args, callee, retty):
    v, i = ctx.load(st, args[0]), args[1]
    outs = []
    if isinstance(v, Vc) and isinstance(i, int):
        if i > len(v.e):
            return panic(st, 'insert out of bounds')
        s = st.fork()
        ctx.store(s, args[0], Vc(v.e[:i] + (args[2],) + v.e[i:]))
        return ret(s, UNIT)
    if isinstance(v, SVec) and v.arr is not None:
        k = z3.Int('lam!k')
        for s, b in branch(ctx, st, z3.And(iv(i) >= 0, iv(i) <= v.n)):
            if not b:
                outs += panic(s, 'insert out of bounds')
                continue
            s = s.fork()
            ctx.store(s, args[0], SVec(v.n + 1, z3.Lambda([k], z3.If(k < iv(i), z3.Select(v.arr, k), z3.If(k == iv(i), ctx.term(args[2], st), z3.Select(v.arr, k - 1)))), v.ety))
            outs += ret(s, UNIT)
        return outs
    raise Undecided('insert')


@model(('Vec', 'clear'), ('Vec', 'truncate'))
def m_truncate(ctx, st, args, callee, retty):
    v = ctx.load(st, args[0])
    n = 0 if callee.endswith('clear') else args[1]
    s = st.fork()
    if n == 0 if isinstance(n, int) else False:
        ctx.store(s, args[0], Vc([]))
    elif isinstance(v, Vc) and isinstance(n, int):
        ctx.store(s, args[0], Vc(v.e[:n]))
    elif isinstance(v, SVec):
        ctx.store(s, args[0], SVec(z3.If(iv(n) < v.n, iv(n), v.n), v.arr, v.ety, v.base, v.eb))
    else:
        raise Undecided('truncate')
    return ret(s, UNIT)


@model(('Vec', 'pop'))
def m_pop(ctx, st, args, callee, retty):
    v = ctx.load(st, args[0])
    if isinstance(v, Vc):
        s = st.fork()
        if not v.e:
            return ret(s, En(retty or 'Option', 0))
        ctx.store(s, args[0], Vc(v.e[:-1]))
        return ret(s, some(v.e[-1], retty or 'Option'))
    raise Undecided('pop')


@model(('slice', 'get'), ('Vec', 'get'))
def m_get(ctx, st, args, callee, retty):
    r = args[0]
    v = ctx.load(st, r)
    i = args[1]
    outs = []
    n = vlen(v)
    for s, b in branch(ctx, st, (0 <= i < n) if isinstance(i, int) and isinstance(n, int) else z3.And(iv(i) >= 0, iv(i) < iv(n))):
        outs.append(Out(s, 'return', some(Ref(r.cell, r.path + (('i', i),)), retty or 'Option') if b else En(retty or 'Option', 0)))
    return outs


@model(('Vec', 'push'))
def m_push(ctx, st, args, callee, retty):
    s = st.fork()
    v = ctx.load(st, args[0])
    if isinstance(v, Vc):
        ctx.store(s, args[0], Vc(v.e + (args[1],)))
    elif isinstance(v, SVec) and v.arr is not None:
        ctx.store(s, args[0], SVec(v.n + 1, z3.Store(v.arr, v.n, ctx.inject(v.ety, args[1], st)), v.ety))
    else:
        raise Undecided('push')
    return ret(s, UNIT)


@model(('slice', 'to_vec'), ('Vec', 'to_vec'))
def m_tovec(ctx, st, args, callee, retty):
    return ret(st, deref(ctx, st, args[0]))


@model(('vec', 'from_elem'), (None, 'from_elem'))
def m_from_elem(ctx, st, args, callee, retty):
    if isinstance(args[1], int) and args[1] <= 2000:
        return ret(st, Vc([args[0]] * args[1]))
    v = args[0]
    t = ctx.term(v)
    ety = gen_args(retty)[1][0] if retty else 'i64'
    if ety in SCALAR:
        return ret(st, SVec(iv(args[1]), z3.K(z3.IntSort(), t), ety))
    raise Undecided('from_elem')


@model(('slice', 'last'), ('slice', 'first'))
def m_last(ctx, st, args, callee, retty):
    r = args[0]
    v = ctx.load(st, r)
    n = vlen(v)
    outs = []
    for s, b in branch(ctx, st, n > 0 if isinstance(n, int) else n > 0):
        i = 0 if callee.endswith('first') else n - 1
        outs.append(Out(s, 'return', some(Ref(r.cell, r.path + (('i', i),)), retty or 'Option') if b else En(retty or 'Option', 0)))
    return outs


@model(('Vec', 'extend'), ('Vec', 'extend_from_slice'), ('Vec', 'append'), ('Extend', 'extend'))
def m_extend(ctx, st, args, callee, retty):
    v = ctx.load(st, args[0])
    src = args[1]
    w = deref(ctx, st, src) if not isinstance(src, It) else src
    outs = []
    if isinstance(w, (Vc,)):
        s = st.fork()
        if not isinstance(v, Vc):
            raise Undecided('extend')
        ctx.store(s, args[0], Vc(v.e + tuple(deref(ctx, st, x) if isinstance(x, Ref) else x for x in w.e)))
        if callee.endswith('append'):
            ctx.store(s, src, Vc([]))
        return ret(s, UNIT)
    if isinstance(w, It):
        for s, items in drain(ctx, st, w):
            s = s.fork()
            vv = ctx.load(s, args[0])
            ctx.store(s, args[0], Vc(vv.e + tuple(deref(ctx, s, x) for x in items)))
            outs.append(Out(s, 'return', UNIT))
        return outs
    raise Undecided('extend')


@model(('slice', 'concat'))
def m_concat(ctx, st, args, callee, retty):
    v = deref(ctx, st, args[0])
    e = []
    for x in v.e:
        e += list(deref(ctx, st, x).e)
    return ret(st, Vc(e))


@model(('slice', 'sort_by'), ('slice', 'sort'), ('slice', 'sort_unstable'), ('slice', 'sort_unstable_by'), ('Vec', 'sort_by'), ('Vec', 'sort'))
def m_sort(ctx, st, args, callee, retty):
    """the result is a permutation; the order of two positions is instantiated by sorted_pair.  That the
    comparison is a total preorder and does not panic is an obligation of the caller's proof (ctx.sorts)"""
    r = args[0]
    while isinstance(ctx.load(st, r), Ref):
        r = ctx.load(st, r)
    v = ctx.load(st, r)
    if isinstance(v, Vc):
        if len(v.e) <= 1:
            return ret(st, UNIT)
        if all(isinstance(x, int) for x in v.e) and len(args) == 1:
            s = st.fork()
            ctx.store(s, r, Vc(sorted(v.e)))
            return ret(s, UNIT)
        raise Undecided('sort of a concrete vector')
    if not (isinstance(v, SVec) and v.arr is not None):
        raise Undecided('sort')
    s = st.fork()
    if z3.is_quantifier(v.arr):
        a, k = ctx.fresh('unsorted', v.arr.sort()), z3.Int('srt!k')
        s = s.assume(z3.ForAll([k], z3.Select(a, k) == z3.Select(v.arr, k), patterns=[z3.Select(a, k)]))
        v = SVec(v.n, a, v.ety, eb=v.eb)
    out = SVec(v.n, ctx.fresh('sorted', v.arr.sort()), v.ety, eb=v.eb)
    p, q = uf(str(ctx.fresh('perm', z3.IntSort())), z3.IntSort(), z3.IntSort()), uf(str(ctx.fresh('perminv', z3.IntSort())), z3.IntSort(), z3.IntSort())
    f = ctx.new_cell(s, args[1]) if len(args) > 1 else None
    d = dict(src=v, out=out, perm=p, inv=q, cmp=f, st=st)
    k = z3.Int('srt!k')
    s = s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.And(p(k) >= 0, p(k) < v.n, q(p(k)) == k, z3.Select(out.arr, k) == z3.Select(v.arr, p(k)))), patterns=[z3.Select(out.arr, k)]))
    s = s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.And(q(k) >= 0, q(k) < v.n, p(q(k)) == k, z3.Select(v.arr, k) == z3.Select(out.arr, q(k)))), patterns=[z3.Select(v.arr, k)]))
    ctx.store(s, r, out)
    ctx.sorts.append(d)
    return ret(s, UNIT)


def compare(ctx, st, d, x, y):
    """outcomes of comparing two values with the comparison of a sort: [Out], value: integer -1, 0, 1"""
    s = st.fork()
    rx, ry = ctx.new_cell(s, x), ctx.new_cell(s, y)
    if d['cmp'] is None:
        a, b = ctx.term(x), ctx.term(y)
        return [Out(s, 'return', z3.If(a < b, z3.IntVal(-1), z3.If(a == b, z3.IntVal(0), z3.IntVal(1))))]
    return [Out(o.st, o.kind, iv(o.val.tag) if o.kind == 'return' else o.val) for o in ctx.call_value(s, d['cmp'], [rx, ry])]


@model(('slice', 'contains'), ('Vec', 'contains'))
def m_contains(ctx, st, args, callee, retty):
    v, x = deref(ctx, st, args[0]), deref(ctx, st, args[1])
    if isinstance(v, Vc):
        return ret(st, z3.simplify(z3.Or([ctx.same(y, x, st) for y in v.e])) if v.e else False)
    if isinstance(v, SVec) and v.arr is not None and v.ety in INT:
        w, k = ctx.fresh('found', z3.IntSort()), z3.Int('q!k')
        ctx.found_at.append(w)
        n, t = iv(v.n), iv(x)
        s1 = st.assume(z3.And(w >= 0, w < n, z3.Select(v.arr, w) == t))
        s2 = st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(v.arr, k) != t), patterns=[z3.Select(v.arr, k)]))
        return [Out(q, 'return', b) for q, b in ((s1, True), (s2, False)) if ctx.feasible(q)]
    raise Undecided('contains')


# ---- iterators
def seq_iter(ctx, st, r):
    v = ctx.load(st, r) if isinstance(r, Ref) else r
    while isinstance(v, Ref):
        r, v = v, ctx.load(st, v)
    if isinstance(v, It):
        return v
    if isinstance(v, Vc):
        return It('list', tuple(Ref(r.cell, r.path + (('i', i),)) for i in range(len(v.e))))
    if isinstance(v, SVec):
        return It('seq', r, 0)
    raise Undecided('iteration over %r' % (v,))


@model(('slice', 'iter'), ('slice', 'iter_mut'), ('Vec', 'iter'), ('Vec', 'iter_mut'))
def m_iter(ctx, st, args, callee, retty):
    return ret(st, seq_iter(ctx, st, args[0]))


@model(('IntoIterator', 'into_iter'))
def m_into_iter(ctx, st, args, callee, retty):
    v = args[0]
    if isinstance(v, It):
        return ret(st, v)
    if isinstance(v, Ref):
        r = v
        while isinstance(ctx.load(st, r), Ref):
            r = ctx.load(st, r)
        if isinstance(ctx.load(st, r), HM):
            return hm_iter(ctx, st, ctx.load(st, r), 'items', r)
        return ret(st, seq_iter(ctx, st, v))
    if isinstance(v, St) and v.ty.startswith('Range'):
        return ret(st, It('range', v.f[0], v.f[1], v.ty == 'RangeInclusive'))
    if isinstance(v, Vc):
        return ret(st, It('list', v.e))
    if isinstance(v, SVec):
        s = st.fork()
        r = ctx.new_cell(s, v)
        return ret(s, It('seqval', r, 0))
    if isinstance(v, HM):
        return hm_iter(ctx, st, v, 'items')
    raise Undecided('into_iter of %r' % (v,))


def hm_iter(ctx, st, m, what, ref=None):
    """every entry once, in some order: keys k[0..n), pairwise different, exactly those in the map"""
    s = st.fork()
    n = iv(m.n) if m.n is not None else ctx.fresh('maplen', z3.IntSort())
    ks = ctx.fresh('keys', z3.ArraySort(z3.IntSort(), m.has.sort().domain()))
    pos = uf(str(ctx.fresh('keypos', z3.IntSort())), m.has.sort().domain(), z3.IntSort())
    i, k = z3.Int('hm!i'), z3.Const('hm!k', m.has.sort().domain())
    s = s.assume(n >= 0)
    s = s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(m.has, ks[i]), pos(ks[i]) == i)), patterns=[ks[i]]))
    s = s.assume(z3.ForAll([k], z3.Implies(z3.Select(m.has, k), z3.And(pos(k) >= 0, pos(k) < n, ks[pos(k)] == k)), patterns=[pos(k)]))
    ctx.enums.append((m, ks, pos, n))
    r = ctx.new_cell(s, SVec(n, ks, m.kty))
    return ret(s, It('hm', It('seqval', r, 0), what, m, ref))


@model(('HashMap', 'keys'), ('HashMap', 'values'), ('HashMap', 'iter'), ('HashMap', 'into_keys'), ('HashMap', 'into_values'))
def m_hmiter(ctx, st, args, callee, retty):
    r = args[0]
    while isinstance(r, Ref) and isinstance(ctx.load(st, r), Ref):
        r = ctx.load(st, r)
    m = ctx.load(st, r) if isinstance(r, Ref) else r
    nm = callee.split('::')[-1]
    return hm_iter(ctx, st, m, {'keys': 'keys', 'into_keys': 'keys', 'values': 'values', 'into_values': 'values', 'iter': 'items'}[nm], r if isinstance(r, Ref) and 'into' not in nm else None)


@model(('RangeInclusive', 'new'))
def m_ri(ctx, st, args, callee, retty):
    return ret(st, St('RangeInclusive', {0: args[0], 1: args[1]}))


def it_next(ctx, st, it):
    """[(state, iterator, item or None)]"""
    k, a = it.kind, it.a
    if k == 'list':
        if not a[0]:
            return [(st, it, None)]
        return [(st, It('list', a[0][1:]), a[0][0])]
    if k == 'range':
        lo, hi, inc = a
        c = (lo <= hi if inc else lo < hi) if isinstance(lo, int) and isinstance(hi, int) else (iv(lo) <= iv(hi) if inc else iv(lo) < iv(hi))
        return [(s, It('range', lo + 1, hi, inc) if b else it, lo if b else None) for s, b in branch(ctx, st, c)]
    if k in ('seq', 'seqval'):
        r, i = a
        v = ctx.load(st, r)
        out = []
        for s, b in branch(ctx, st, iv(i) < v.n):
            item = None
            if b:
                item = Ref(r.cell, r.path + (('i', i),))
                if k == 'seqval':
                    item = ctx.load(s, item)
            out.append((s, It(k, r, i + 1) if b else it, item))
        return out
    if k == 'hm':
        out = []
        for s, j, x in it_next(ctx, st, a[0]):
            y = None
            if x is not None:
                s = s.fork()
                key, val = x, ctx.wrap(a[2].vty, z3.Select(a[2].val, mapkey(ctx, s, x)))
                if a[3] is not None:
                    key, val = ctx.new_cell(s, key), Ref(a[3].cell, a[3].path + (('mapval', mapkey(ctx, s, x)),))
                y = {'keys': key, 'values': val, 'items': St('()', {0: key, 1: val})}[a[1]]
            out.append((s, It('hm', j, *a[1:]), y))
        return out
    if k == 'enumerate':
        out = []
        for s, j, x in it_next(ctx, st, a[0]):
            out.append((s, It('enumerate', j, a[1] + 1), None if x is None else St('()', {0: a[1], 1: x})))
        return out
    if k == 'map':
        out = []
        for s, j, x in it_next(ctx, st, a[0]):
            if x is None:
                out.append((s, It('map', j, a[1]), None))
            else:
                for o in ctx.call_value(s, a[1], [x]):
                    if o.kind != 'return':
                        raise Undecided('panic in a closure of map')
                    out.append((o.st, It('map', j, a[1]), o.val))
        return out
    if k == 'cloned':
        return [(s, It('cloned', j), None if x is None else deref(ctx, s, x)) for s, j, x in it_next(ctx, st, a[0])]
    if k == 'zip':
        out = []
        for s, j, x in it_next(ctx, st, a[0]):
            if x is None:
                out.append((s, It('zip', j, a[1]), None))
                continue
            for s2, j2, y in it_next(ctx, s, a[1]):
                out.append((s2, It('zip', j, j2), None if y is None else St('()', {0: x, 1: y})))
        return out
    if k == 'chain':
        out = []
        for s, j, x in it_next(ctx, st, a[0]):
            if x is None:
                out += it_next(ctx, s, a[1])
            else:
                out.append((s, It('chain', j, a[1]), x))
        return out
    if k == 'filter':
        out, work = [], [(st, a[0])]
        while work:
            s0, j0 = work.pop()
            for s, j, x in it_next(ctx, s0, j0):
                if x is None:
                    out.append((s, It('filter', j, a[1]), None))
                    continue
                if j.kind in ('seq', 'seqval', 'range') and not (j.kind == 'range' and isinstance(j.a[0], int)):
                    raise Undecided('filter over a sequence of unknown length')
                s = s.fork()
                rx = ctx.new_cell(s, x)
                for o in ctx.call_value(s, a[1], [rx]):
                    if o.kind != 'return':
                        raise Undecided('panic in a closure of filter')
                    for s2, b in branch(ctx, o.st, o.val):
                        if b:
                            out.append((s2, It('filter', j, a[1]), x))
                        else:
                            work.append((s2, j))
        return out
    if k == 'take':
        it, n = a
        out = []
        for s, b in branch(ctx, st, n > 0 if isinstance(n, int) else iv(n) > 0):
            if not b:
                out.append((s, It('take', it, n), None))
            else:
                out += [(s2, It('take', j, n - 1), x) for s2, j, x in it_next(ctx, s, it)]
        return out
    raise Undecided('iterator ' + k)


def drain(ctx, st, it, limit=80):
    """[(state, items)]"""
    work = [(st, it, ())]
    out = []
    while work:
        s, i, acc = work.pop()
        if len(acc) > limit:
            raise Undecided('long iteration')
        for s2, j, x in it_next(ctx, s, i):
            if x is None:
                out.append((s2, acc))
            else:
                work.append((s2, j, acc + (x,)))
    return out


@model(('Iterator', 'next'))
def m_next(ctx, st, args, callee, retty):
    it = ctx.load(st, args[0])
    if not isinstance(it, It):
        raise Undecided('next on %r' % (it,))
    outs = []
    for s, j, x in it_next(ctx, st, it):
        s = s.fork()
        ctx.store(s, args[0], j)
        outs.append(Out(s, 'return', En(retty or 'Option', 0) if x is None else some(x, retty or 'Option')))
    return outs


@model(('Iterator', 'map'))
def m_map(ctx, st, args, callee, retty):
    s = st.fork()
    r = ctx.new_cell(s, args[1])
    return ret(s, It('map', as_it(args[0]), r))


def as_it(v):
    if isinstance(v, It):
        return v
    if isinstance(v, Vc):
        return It('list', v.e)
    if isinstance(v, St) and v.ty.startswith('Range'):
        return It('range', v.f[0], v.f[1], v.ty == 'RangeInclusive')
    raise Undecided('iterator %r' % (v,))


@model(('Iterator', 'enumerate'))
def m_enum(ctx, st, args, callee, retty):
    return ret(st, It('enumerate', as_it(args[0]), 0))


@model(('Iterator', 'cloned'), ('Iterator', 'copied'))
def m_icloned(ctx, st, args, callee, retty):
    return ret(st, It('cloned', as_it(args[0])))


@model(('Iterator', 'zip'))
def m_zip(ctx, st, args, callee, retty):
    b = args[1]
    if isinstance(b, Ref) or isinstance(b, (Vc,)):
        b = seq_iter(ctx, st, b) if isinstance(b, Ref) else It('list', b.e)
    if isinstance(b, SVec):
        st = st.fork()
        b = It('seqval', ctx.new_cell(st, b), 0)
    return ret(st, It('zip', as_it(args[0]), as_it(b)))


@model(('Iterator', 'chain'))
def m_chain(ctx, st, args, callee, retty):
    b = args[1]
    if isinstance(b, Ref):
        b = seq_iter(ctx, st, b)
    elif isinstance(b, Vc):
        b = It('list', b.e)
    return ret(st, It('chain', as_it(args[0]), as_it(b)))


@model(('Iterator', 'rev'))
def m_rev(ctx, st, args, callee, retty):
    it = as_it(args[0])
    if it.kind == 'list':
        return ret(st, It('list', tuple(reversed(it.a[0]))))
    if it.kind == 'range' and isinstance(it.a[0], int) and isinstance(it.a[1], int):
        return ret(st, It('list', tuple(reversed(range(it.a[0], it.a[1] + (1 if it.a[2] else 0))))))
    raise Undecided('rev')


def symbolic_seq(ctx, st, it):
    mark = ctx.n + 1
    r = symbolic_seq_(ctx, st, it)
    if r is not None:
        todo = [r[2]]
        while todo:
            x = todo.pop()
            if is_z3(x):
                pointwise(ctx, mark, r[1], x)
            elif isinstance(x, SF):
                todo.append(x.t)
            elif isinstance(x, St):
                todo += list(x.f.values())
            elif isinstance(x, Vc):
                todo += list(x.e)
    return r


def symbolic_seq_(ctx, st, it):
    """sequence of unknown length without effects: (length, index constant, item at the index, state), or None"""
    q = z3.Int('seq!%d' % ctx.n)
    ctx.n += 1

    def at(it, s):
        k, a = it.kind, it.a
        if k == 'range' and not (isinstance(a[0], int) and isinstance(a[1], int) and a[1] - a[0] <= 64):
            lo, hi = iv(a[0]), iv(a[1]) + (1 if a[2] else 0)
            return z3.If(hi >= lo, hi - lo, z3.IntVal(0)), lo + q, s
        if k in ('seq', 'seqval'):
            v = ctx.load(s, a[0])
            if not isinstance(v, SVec) or v.arr is None:
                return None
            zero = isinstance(a[1], int) and a[1] == 0
            r = Ref(a[0].cell, a[0].path + (('i', q if zero else iv(a[1]) + q),))
            return v.n if zero else v.n - iv(a[1]), r if k == 'seq' else ctx.load(s, r), s
        if k == 'hm':
            x = at(a[0], s)
            if x is None:
                return None
            s = x[2].fork()
            key, val = x[1], ctx.wrap(a[2].vty, z3.Select(a[2].val, mapkey(ctx, s, x[1])))
            if a[3] is not None:
                key, val = ctx.new_cell(s, key), ctx.new_cell(s, val)
            return x[0], {'keys': key, 'values': val, 'items': St('()', {0: key, 1: val})}[a[1]], s
        if k == 'cloned':
            x = at(a[0], s)
            return None if x is None else (x[0], deref(ctx, x[2], x[1]), x[2])
        if k == 'map':
            x = at(a[0], s)
            if x is None:
                return None
            s = x[2].assume(z3.And(q >= 0, q < x[0]))
            outs = ctx.call_value(s, a[1], [x[1]])
            if len(outs) != 1 or outs[0].kind != 'return':
                raise Undecided('closure of map over a sequence of unknown length: branches or panics')
            # effects of the closure on memory are not kept; cells it made are
            o = outs[0]
            if any(c in x[2].mem and o.st.mem.get(c) is not v for c, v in x[2].mem.items()):
                raise Undecided('closure of map with effects')
            keep = x[2].fork()
            for c, v in o.st.mem.items():
                keep.mem.setdefault(c, v)
            return x[0], o.val, keep
        if k == 'zip':
            x = at(a[0], s)
            y = at(a[1], x[2]) if x is not None else None
            if x is None or y is None:
                return None
            return z3.If(x[0] <= y[0], x[0], y[0]), St('()', {0: x[1], 1: y[1]}), y[2]
        return None
    r = at(it, st)
    if r is None:
        return None
    return r[0], q, r[1], r[2]


def collect_map(ctx, st, it, sym, t):
    a = gen_args(t)[1]
    if len(a) < 2 or '_' in a:
        a = ['i64', 'i64']
    ks, vs = ctx.key_sort(a[0]), ctx.sort_of(a[1])
    if sym is None:
        outs = []
        for s, items in drain(ctx, st, it):
            m = HM(a[0], a[1], z3.K(ks, z3.BoolVal(False)), z3.K(ks, z3.Const('nil:' + str(vs), vs)), 0)
            for x in items:
                k = mapkey(ctx, s, x.f[0])
                m = HM(a[0], a[1], z3.Store(m.has, k, z3.BoolVal(True)), z3.Store(m.val, k, ctx.term(x.f[1], s)), z3.If(z3.Select(m.has, k), iv(m.n), iv(m.n) + 1))
            outs += ret(s, m)
        return outs
    n, q, v, s = sym
    k, x = mapkey(ctx, s, v.f[0]), ctx.term(v.f[1], s)
    has, val = ctx.fresh('collected@has', z3.ArraySort(ks, z3.BoolSort())), ctx.fresh('collected@val', z3.ArraySort(ks, vs))
    size = ctx.fresh('collected#', z3.IntSort())
    pos = uf(str(ctx.fresh('collectedpos', z3.IntSort())), ks, z3.IntSort())
    c = z3.Const('col!k', ks)
    at = lambda t, e: z3.substitute(e, (q, t))
    # the last entry with a key decides; the position function picks it
    s = s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(z3.Select(has, k), pos(k) >= q)), patterns=[k] if not k.eq(q) and z3.is_app(k) and k.num_args() else []))
    s = s.assume(z3.ForAll([c], z3.Implies(z3.Select(has, c), z3.And(pos(c) >= 0, pos(c) < n, at(pos(c), k) == c, z3.Select(val, c) == at(pos(c), x))), patterns=[z3.Select(has, c)]))
    s = s.assume(z3.And(size >= 0, size <= n, (size > 0) == (n > 0)))
    ctx.enums.append(('collect', has, pos, n))
    ctx.collects.append((has, q, k, x, n))
    return ret(s, HM(a[0], a[1], has, val, size))


@model(('Iterator', 'collect'))
def m_collect(ctx, st, args, callee, retty):
    m = re.search(r'collect::<(.*)>$', callee)
    t = norm_ty(m.group(1)) if m else (retty or 'Vec')
    it = as_it(args[0])
    sym = symbolic_seq(ctx, st, it)
    if t.startswith('HashMap'):
        return collect_map(ctx, st, it, sym, t)
    if not t.startswith('Vec'):
        raise Undecided('collect into ' + t)
    if sym is not None:
        n, q, v, s = sym
        e = gen_args(t)[1]
        e = norm_ty(e[0]) if e and e[0] != '_' else (gen_args(retty)[1][0] if retty and retty.startswith('Vec') else None)
        es = ctx.elem_sort(e) if e is not None else None
        if es is None:
            raise Undecided('collect of a long sequence of ' + str(e))
        if not (e in SCALAR or e in ctx.P.structs):
            a = ctx.fresh('collected', z3.ArraySort(z3.IntSort(), es))

            def parts(e, t, v):
                """facts: the term t stands for the value v of type e"""
                while e.startswith('&'):
                    e, v = e[1:], deref(ctx, s, v)
                if e.startswith('('):
                    ps = split_top(e[1:-1])
                    return [f for i, p in enumerate(ps) for f in parts(p, uf('of.%d:%s' % (i, e), Obj, ctx.elem_sort(p))(t), v.f[i])]
                if e.startswith('Vec<'):
                    w = v if isinstance(v, SVec) else None
                    x = ctx.inject(e, v, s)
                    if w is not None and w.arr is not None:
                        return [uf('of#len:' + e, Obj, z3.IntSort())(t) == iv(w.n), uf('of:' + e, Obj, w.arr.sort())(t) == w.arr]
                    if isinstance(v, Vc):
                        ie = gen_args(e)[1][0]
                        arr = uf('of:' + e, Obj, z3.ArraySort(z3.IntSort(), ctx.elem_sort(ie)))(t)
                        return [uf('of#len:' + e, Obj, z3.IntSort())(t) == len(v.e)] + [arr[i] == ctx.inject(ie, y, s) for i, y in enumerate(v.e)]
                    raise Undecided('collect of vectors')
                return [t == ctx.term(v, s)]
            s = s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(parts(e, z3.Select(a, q), v))), patterns=[z3.Select(a, q)]))
            return ret(s, SVec(n, a, e))
        t = ctx.term(v, s)
        if z3.is_select(t) and t.arg(1).eq(q) and q.get_id() not in ctx.subterms(t.arg(0)):
            return ret(s, SVec(n, t.arg(0), e))         # a copy
        return ret(s, SVec(n, z3.Lambda([q], t), e))
    return [Out(s, 'return', Vc(items)) for s, items in drain(ctx, st, as_it(args[0]))]


@model(('Iterator', 'filter'))
def m_filter(ctx, st, args, callee, retty):
    s = st.fork()
    r = ctx.new_cell(s, args[1])
    return ret(s, It('filter', as_it(args[0]), r))


@model(('Iterator', 'take'))
def m_take(ctx, st, args, callee, retty):
    it = as_it(args[0])
    if it.kind == 'list' and isinstance(args[1], int):
        return ret(st, It('list', it.a[0][:args[1]]))
    return ret(st, It('take', it, args[1]))


@model(('Iterator', 'skip'))
def m_skip(ctx, st, args, callee, retty):
    it, n = as_it(args[0]), args[1]
    if it.kind == 'list' and isinstance(n, int):
        return ret(st, It('list', it.a[0][n:]))
    if it.kind in ('seq', 'seqval'):
        return ret(st, It(it.kind, it.a[0], iv(it.a[1]) + n))
    if it.kind == 'range' and not it.a[2]:
        lo, hi = it.a[0], it.a[1]
        return ret(st, It('range', min(lo + n, max(lo, hi)) if all(isinstance(x, int) for x in (lo, hi, n)) else z3.If(iv(lo) + n <= iv(hi), iv(lo) + n, z3.If(iv(hi) >= iv(lo), iv(hi), iv(lo))), hi, False))
    if it.kind == 'enumerate' and isinstance(n, int):
        o = m_skip(ctx, st, [it.a[0], n], callee, retty)[0]
        if o.val.kind == 'list':
            return ret(st, It('enumerate', o.val, it.a[1] + n))
    raise Undecided('skip')


@model(('Iterator', 'step_by'))
def m_stepby(ctx, st, args, callee, retty):
    it, n = as_it(args[0]), args[1]
    if isinstance(n, int) and n > 0:
        if it.kind == 'list':
            return ret(st, It('list', it.a[0][::n]))
        if it.kind == 'range' and isinstance(it.a[0], int) and isinstance(it.a[1], int):
            return ret(st, It('list', tuple(range(it.a[0], it.a[1] + (1 if it.a[2] else 0), n))))
    raise Undecided('step_by')


def pointwise(ctx, mark, q, t):
    """the term depends on the index q only through q: nothing introduced for this one evaluation occurs in it"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and not x.eq(q) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', str(x.decl().name()))
            if m and int(m.group(1)) > mark:
                raise Undecided('an element of a sequence of unknown length depends on an intermediate result')
        todo += x.children()
    return t


def subst_val(ctx, x, q, w):
    if isinstance(x, Ref):
        return Ref(x.cell, tuple((p[0], z3.substitute(p[1], (q, w))) if p[0] == 'i' and is_z3(p[1]) else p for p in x.path))
    if isinstance(x, SF):
        return SF(z3.substitute(x.t, (q, w)), x.lo, x.hi)
    if is_z3(x):
        return z3.substitute(x, (q, w))
    return Unk('found item')


@model(('Iterator', 'any'), ('Iterator', 'all'), ('Iterator', 'find'), ('Iterator', 'position'))
def m_any(ctx, st, args, callee, retty):
    nm = re.sub(r'::<.*', '', callee.split('Iterator>::')[-1])
    s = st.fork()
    r = ctx.new_cell(s, args[1])
    it = ctx.load(s, args[0]) if isinstance(args[0], Ref) else as_it(args[0])
    sym = symbolic_seq(ctx, s, it)
    if sym is not None:
        # the elements are examined in order; the closure has no effects and does not branch
        n, q, x, s = sym
        s0 = s.assume(z3.And(q >= 0, q < n)).fork()
        mark = ctx.n
        os_ = ctx.call_value(s0, r, [ctx.new_cell(s0, x) if nm == 'find' else x])
        if len(os_) != 1 or os_[0].kind != 'return':
            raise Undecided('closure of %s over a sequence of unknown length: branches or panics' % nm)
        o = os_[0]
        if any(c in s.mem and o.st.mem.get(c) is not v for c, v in s.mem.items()):
            raise Undecided('closure of %s with effects' % nm)
        extra = [f for f in o.st.pc if not any(f.eq(g) for g in s0.pc)]
        p = bv(o.val) if nm != 'all' else z3.Not(bv(o.val))
        for f in [p] + extra:
            pointwise(ctx, mark, q, f)
        w = ctx.fresh('found', z3.IntSort())
        at = lambda t, e: z3.substitute(e, (q, t))
        yes, no = s.fork(), s.fork()
        yes = yes.assume(z3.And(w >= 0, w < n, at(w, p), *[at(w, f) for f in extra]))
        none = z3.Implies(z3.And(q >= 0, q < n), z3.And(z3.Not(p), *extra))
        no = no.assume(z3.ForAll([q], none))
        k = z3.Int('fst!k')
        if nm in ('find', 'position'):
            yes = yes.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w), z3.Not(at(k, p)))))
        ctx.founds.append((w, no, q, none))
        for cc, v in o.st.mem.items():
            yes.mem.setdefault(cc, v)
        val = True if nm == 'any' else False if nm == 'all' else some(subst_val(ctx, x, q, w), retty or 'Option') if nm == 'find' else some(w, retty or 'Option')
        return ret(yes, val) + ret(no, {'any': False, 'all': True}.get(nm, En(retty or 'Option', 0)))
    work, outs = [(s, it, 0)], []
    stop = {'any': True, 'all': False, 'find': True, 'position': True}[nm]
    while work:
        s, it, n = work.pop()
        if n > 80:
            raise Undecided('long iteration')
        for s2, j, x in it_next(ctx, s, it):
            if x is None:
                s3 = s2.fork()
                if isinstance(args[0], Ref):
                    ctx.store(s3, args[0], j)
                outs.append(Out(s3, 'return', {'any': False, 'all': True}[nm] if nm in ('any', 'all') else En(retty or 'Option', 0)))
                continue
            s2 = s2.fork()
            a = ctx.new_cell(s2, x) if nm == 'find' else x
            for o in ctx.call_value(s2, r, [a]):
                if o.kind != 'return':
                    outs.append(o)
                    continue
                for s3, b in branch(ctx, o.st, o.val):
                    if b == stop:
                        s4 = s3.fork()
                        if isinstance(args[0], Ref):
                            ctx.store(s4, args[0], j)
                        outs.append(Out(s4, 'return', (nm == 'any') if nm in ('any', 'all') else some(x if nm == 'find' else n, retty or 'Option')))
                    else:
                        work.append((s3, j, n + 1))
    return outs


@model(('Iterator', 'count'), ('Iterator', 'last'))
def m_count(ctx, st, args, callee, retty):
    lst = callee.endswith('last')
    return [Out(s, 'return', (some(i[-1], retty or 'Option') if i else En(retty or 'Option', 0)) if lst else len(i)) for s, i in drain(ctx, st, as_it(args[0]))]


@model(('slice', 'chunks'), ('slice', 'chunks_exact'), ('slice', 'windows'), ('Vec', 'chunks'), ('Vec', 'chunks_exact'), ('Vec', 'windows'))
def m_chunks(ctx, st, args, callee, retty):
    v, n = deref(ctx, st, args[0]), args[1]
    if not (isinstance(v, Vc) and isinstance(n, int)):
        raise Undecided('chunks')
    if n == 0:
        return panic(st, 'chunk size zero')
    s = st.fork()
    if 'windows' in callee:
        cs = [v.e[i:i + n] for i in range(len(v.e) - n + 1)]
    else:
        cs = [v.e[i:i + n] for i in range(0, len(v.e), n)]
        if 'exact' in callee:
            cs = [c for c in cs if len(c) == n]
    return ret(s, It('list', tuple(ctx.new_cell(s, Vc(c)) for c in cs)))


@model(('Iterator', 'for_each'))
def m_foreach(ctx, st, args, callee, retty):
    s = st.fork()
    r = ctx.new_cell(s, args[1])
    work = [(s, as_it(args[0]))]
    outs = []
    while work:
        s, it = work.pop()
        for s2, j, x in it_next(ctx, s, it):
            if x is None:
                outs.append(Out(s2, 'return', UNIT))
                continue
            for o in ctx.call_value(s2, r, [x]):
                if o.kind == 'return':
                    work.append((o.st, j))
                else:
                    outs.append(o)
    return outs


@model(('Iterator', 'sum'))
def m_sum(ctx, st, args, callee, retty):
    outs = []
    for s, items in drain(ctx, st, as_it(args[0])):
        acc = None
        for x in items:
            x = deref(ctx, s, x)
            if acc is None:
                acc = x if not is_float(x) else x
            else:
                acc = ctx.fl.binop(s, 'Add', acc, x) if is_float(x) else acc + x
        outs.append(Out(s, 'return', 0 if acc is None else acc))
    return outs


@model(('Iterator', 'fold'))
def m_fold(ctx, st, args, callee, retty):
    s = st.fork()
    r = ctx.new_cell(s, args[2])
    work = [(s, as_it(args[0]), args[1])]
    outs = []
    while work:
        s, it, acc = work.pop()
        for s2, j, x in it_next(ctx, s, it):
            if x is None:
                outs.append(Out(s2, 'return', acc))
                continue
            for o in ctx.call_value(s2, r, [acc, x]):
                if o.kind == 'return':
                    work.append((o.st, j, o.val))
                else:
                    outs.append(o)
    return outs


# ---- HashMap
@model(('HashMap', 'new'), ('HashMap', 'default'), ('HashMap', 'with_capacity'))
def m_hmnew(ctx, st, args, callee, retty):
    t = retty if retty and retty.startswith('HashMap') else norm_ty(re.sub(r'::(new|default|with_capacity)$', '', callee).replace('::<', '<'))
    a = gen_args(t)[1]
    if len(a) < 2:
        raise Undecided('HashMap type')
    ks, vs = ctx.key_sort(a[0]), ctx.sort_of(a[1])
    dflt = z3.Const('nil:' + str(vs), vs)
    return ret(st, HM(a[0], a[1], z3.K(ks, z3.BoolVal(False)), z3.K(ks, dflt), 0))


@model(('HashMap', 'insert'))
def m_hmins(ctx, st, args, callee, retty):
    m = ctx.load(st, args[0])
    k = mapkey(ctx, st, args[1])
    s = st.fork()
    was = z3.Select(m.has, k)
    ctx.store(s, args[0], HM(m.kty, m.vty, z3.Store(m.has, k, z3.BoolVal(True)), z3.Store(m.val, k, ctx.term(args[2], st)), None if m.n is None else z3.If(was, iv(m.n), iv(m.n) + 1)))
    return ret(s, En('Option<%s>' % m.vty, z3.If(was, z3.IntVal(1), z3.IntVal(0)), {'Some': {0: ctx.wrap(m.vty, z3.Select(m.val, k))}}))


@model(('HashMap', 'get'), ('HashMap', 'get_mut'))
def m_hmget(ctx, st, args, callee, retty):
    r = args[0]
    m = ctx.load(st, r)
    k = mapkey(ctx, st, args[1])
    tag = z3.simplify(z3.If(z3.Select(m.has, k), z3.IntVal(1), z3.IntVal(0)))
    if z3.is_int_value(tag):
        tag = tag.as_long()
    return ret(st, En('Option<&%s>' % m.vty, tag, {'Some': {0: Ref(r.cell, r.path + (('mapval', k),))}}))


@model(('HashMap', 'contains_key'))
def m_hmhas(ctx, st, args, callee, retty):
    m = deref(ctx, st, args[0])
    return ret(st, z3.Select(m.has, mapkey(ctx, st, args[1])))


@model(('HashMap', 'index'))
def m_hmindex(ctx, st, args, callee, retty):
    r = args[0]
    m = ctx.load(st, r)
    k = mapkey(ctx, st, args[1])
    outs = []
    for s, b in branch(ctx, st, z3.Select(m.has, k)):
        outs.append(Out(s, 'return', Ref(r.cell, r.path + (('mapval', k),))) if b else Out(s, 'panic', 'missing key'))
    return outs


@model(('HashMap', 'len'), ('HashMap', 'is_empty'))
def m_hmlen(ctx, st, args, callee, retty):
    m = deref(ctx, st, args[0])
    n = m.n
    if n is None:
        n = ctx.fresh('maplen', z3.IntSort())
        ctx.axiom(n >= 0)
    return ret(st, n if callee.endswith('len') else (n == 0))


@model(('HashMap', 'clear'))
def m_hmclear(ctx, st, args, callee, retty):
    m = ctx.load(st, args[0])
    s = st.fork()
    ks = m.has.sort().domain()
    ctx.store(s, args[0], HM(m.kty, m.vty, z3.K(ks, z3.BoolVal(False)), m.val, 0))
    return ret(s, UNIT)


@model(('HashMap', 'remove'))
def m_hmrem(ctx, st, args, callee, retty):
    m = ctx.load(st, args[0])
    k = mapkey(ctx, st, args[1])
    s = st.fork()
    was = z3.Select(m.has, k)
    ctx.store(s, args[0], HM(m.kty, m.vty, z3.Store(m.has, k, z3.BoolVal(False)), m.val, None if m.n is None else z3.If(was, iv(m.n) - 1, iv(m.n))))
    return ret(s, En('Option<%s>' % m.vty, z3.If(was, z3.IntVal(1), z3.IntVal(0)), {'Some': {0: ctx.wrap(m.vty, z3.Select(m.val, k))}}))


@model(('HashMap', 'entry'))
def m_entry(ctx, st, args, callee, retty):
    return ret(st, It('entry', args[0], args[1]))


@model(('Entry', 'or_insert_with'), ('Entry', 'or_insert'), ('Entry', 'or_default'))
def m_or_insert(ctx, st, args, callee, retty):
    r, key = args[0].a
    m = ctx.load(st, r)
    k = mapkey(ctx, st, key)
    outs = []
    for s, b in branch(ctx, st, z3.Select(m.has, k)):
        if b:
            outs.append(Out(s, 'return', Ref(r.cell, r.path + (('mapval', k),))))
            continue
        if 'or_insert_with' in callee:
            vals = ctx.call_value(s, args[1], [])
        elif 'or_default' in callee:
            vals = ret(s, 0.0 if m.vty == 'f64' else 0)
        else:
            vals = ret(s, args[1])
        for o in vals:
            if o.kind != 'return':
                outs.append(o)
                continue
            s2 = o.st.fork()
            m2 = ctx.load(s2, r)
            ctx.store(s2, r, HM(m2.kty, m2.vty, z3.Store(m2.has, k, z3.BoolVal(True)), z3.Store(m2.val, k, ctx.term(o.val, s2)), None if m2.n is None else iv(m2.n) + 1))
            outs.append(Out(s2, 'return', Ref(r.cell, r.path + (('mapval', k),))))
    return outs


@model(('Entry', 'and_modify'))
def m_and_modify(ctx, st, args, callee, retty):
    r, key = args[0].a
    m = ctx.load(st, r)
    k = mapkey(ctx, st, key)
    outs = []
    for s, b in branch(ctx, st, z3.Select(m.has, k)):
        if not b:
            outs.append(Out(s, 'return', args[0]))
            continue
        for o in ctx.call_value(s, args[1], [Ref(r.cell, r.path + (('mapval', k),))]):
            outs.append(Out(o.st, 'return', args[0]) if o.kind == 'return' else o)
    return outs


# ---- arithmetic traits on references
def _arith(op):
    def f(ctx, st, args, callee, retty):
        a, b = deref(ctx, st, args[0]), deref(ctx, st, args[1])
        if is_float(a):
            return ret(st, ctx.fl.binop(st, op, a, b))
        t = ctx.iop(st, op + 'WithOverflow' if op in ('Add', 'Sub', 'Mul') else op, a, b, retty if retty in INT else 'i64')
        if op in ('Add', 'Sub', 'Mul'):
            outs = []
            for s, bad in branch(ctx, st, t.f[1]):
                outs.append(Out(s, 'panic', 'overflow') if bad else Out(s, 'return', t.f[0]))
            return outs
        return ret(st, t)
    return f


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
    TABLE[(_o, _n)] = _arith(_o)


@model(('AddAssign', 'add_assign'), ('SubAssign', 'sub_assign'), ('MulAssign', 'mul_assign'))
def m_addassign(ctx, st, args, callee, retty):
    a, b = ctx.load(st, args[0]), deref(ctx, st, args[1])
    op = {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[callee.split('::')[-1][0]]
    if is_float(a):
        s = st.fork()
        ctx.store(s, args[0], ctx.fl.binop(st, op, a, b))
        return ret(s, UNIT)
    t = ctx.iop(st, op + 'WithOverflow', a, b, 'i64')
    outs = []
    for s, bad in branch(ctx, st, t.f[1]):
        if bad:
            outs.append(Out(s, 'panic', 'overflow'))
        else:
            s = s.fork()
            ctx.store(s, args[0], t.f[0])
            outs.append(Out(s, 'return', UNIT))
    return outs


@model(('Neg', 'neg'))
def m_neg(ctx, st, args, callee, retty):
    a = deref(ctx, st, args[0])
    return ret(st, ctx.fl.neg(a) if is_float(a) else -a)


# ---- hashing: the sequence of values fed to the hasher is an effect of the path
@model(('Hash', 'hash'))
def m_hash(ctx, st, args, callee, retty):
    v = deref(ctx, st, args[0])
    s = st.fork()
    s.eff = s.eff + (('hash', v),)
    return ret(s, UNIT)


# ---- seeded random numbers (rand): a deterministic stream of the seed; values in the range asked for
@model(('SeedableRng', 'seed_from_u64'))
def m_seed(ctx, st, args, callee, retty):
    ctx.seeds.append(iv(args[0]))
    return ret(st, St('StdRng', {}, uf('rng seed', z3.IntSort(), Obj)(iv(args[0]))))


@model(('Rng', 'gen_range'))
def m_gen_range(ctx, st, args, callee, retty):
    v, r = ctx.load(st, args[0]), args[1]
    lo, hi = iv(ctx.field(r, 0, 'usize')), iv(ctx.field(r, 1, 'usize'))
    outs = []
    for s, b in branch(ctx, st, lo < hi):
        if not b:
            outs += panic(s, 'gen_range: empty range')
            continue
        s = s.fork()
        t = uf('rng value', Obj, z3.IntSort(), z3.IntSort(), z3.IntSort())(v.base, lo, hi)
        ctx.store(s, args[0], St('StdRng', {}, uf('rng next', Obj, Obj)(v.base)))
        outs.append(Out(s.assume(z3.And(t >= lo, t < hi)), 'return', t))
    return outs


# ---- the clock: any value
@model(('Instant', 'now'), ('Instant', 'elapsed'), ('Duration', 'as_millis'), ('Duration', 'as_micros'), ('Duration', 'as_secs'))
def m_clock(ctx, st, args, callee, retty):
    return ret(st, Unk('clock'))
