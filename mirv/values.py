"""Symbolic values.  Concrete ints, bools and floats are Python values (float
arithmetic on concrete operands is IEEE double arithmetic, as in the code)."""
import math
from fractions import Fraction
import z3

Obj = z3.DeclareSort('Obj')


class Undecided(Exception):
    """the engine cannot decide (unsupported construct, solver limit, lost anchor)"""


class SF:
    """symbolic finite float: real term and an enclosing interval (or None bounds)"""
    __slots__ = ('t', 'lo', 'hi', 'isint', 'ex', 'err', 'nz', 'ef')

    def __init__(self, t, lo=None, hi=None, isint=False, ex=None, err=None):
        self.t, self.lo, self.hi, self.isint = t, lo, hi, isint
        self.ef = None         # error as an affine form (floats._eform)
        self.nz = True         # may be negative zero (matters for the bit pattern only)
        # running error analysis: the value computed in exact arithmetic and a bound of the difference
        self.ex, self.err = (t, 0.0) if ex is None else (ex, err)

    def __repr__(self):
        return 'SF(%s)' % self.t


class HF:
    """havocked float (any of the 2^64 values); mode 'havoc'"""
    __slots__ = ()

    def __repr__(self):
        return 'HF'


HFV = HF()


class St:
    """struct, tuple or closure environment"""
    __slots__ = ('ty', 'f', 'base')

    def __init__(self, ty, f=None, base=None):
        self.ty, self.f, self.base = ty, f or {}, base

    def __repr__(self):
        return '%s{%s%s}' % (self.ty, ', '.join('%s: %r' % kv for kv in self.f.items()), ' ..%s' % self.base if self.base is not None else '')


class En:
    """enum value: tag (int or z3 Int), payload per variant name"""
    __slots__ = ('ty', 'tag', 'pay', 'base')

    def __init__(self, ty, tag, pay=None, base=None):
        self.ty, self.tag, self.pay, self.base = ty, tag, pay or {}, base

    def __repr__(self):
        return '%s#%s%r' % (self.ty, self.tag, self.pay)


class Vc:
    """vector, array or slice of known length"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return 'Vc%r' % (self.e,)


class SVec:
    """vector of symbolic length; scalar elements in a z3 array, others by base"""
    __slots__ = ('n', 'arr', 'ety', 'base', 'eb')

    def __init__(self, n, arr, ety, base=None, eb=None):
        self.n, self.arr, self.ety, self.base, self.eb = n, arr, ety, base, eb

    def __repr__(self):
        return 'SVec(%s)' % self.n


class HM:
    """hash map: membership and value arrays over key terms, size unconstrained"""
    __slots__ = ('kty', 'vty', 'has', 'val', 'n')

    def __init__(self, kty, vty, has, val, n=None):
        self.kty, self.vty, self.has, self.val, self.n = kty, vty, has, val, n


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.cell, self.path)


class Str:
    __slots__ = ('s', 't')

    def __init__(self, s=None, t=None):
        self.s, self.t = s, t

    def __repr__(self):
        return 'Str(%r)' % (self.s if self.s is not None else self.t)


class CS:
    """text of known length; character codes may be symbolic"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(c)

    def __repr__(self):
        return 'CS%r' % (self.c,)


class AbsFn:
    """abstract function value (Box<dyn Fn>)"""
    __slots__ = ('base', 'ret')

    def __init__(self, base, ret):
        self.base, self.ret = base, ret


class It:
    """iterator: kind in list, range, seq, map, enumerate, ..."""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return 'It(%s,%r)' % (self.kind, self.a)


class Unk:
    """value the engine does not track; using it in a decision is Undecided"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


UNIT = St('()')


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_float(x):
    return isinstance(x, (float, SF, HF))


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and x.sort() == z3.IntSort())


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and x.sort() == z3.BoolSort())


def rv(x):
    """exact real term of a concrete float / int / Fraction"""
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Undecided('non-finite constant')
        x = Fraction(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))


def real(x):
    """real term of a float value"""
    if isinstance(x, SF):
        return x.t
    if isinstance(x, (float, Fraction)):
        return rv(x)
    if isinstance(x, int) and not isinstance(x, bool):
        return z3.RealVal(x)
    if is_z3(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    raise Undecided('not a float: %r' % (x,))


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def bv(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def up(x):
    return math.nextafter(x, math.inf)


def dn(x):
    return math.nextafter(x, -math.inf)


def bounds(x):
    if isinstance(x, float):
        return (x, x)
    return (x.lo, x.hi)
