"""Text of known length with symbolic characters: formatting with a width, upper-casing, trimming and
radix parsing of the standard library are modelled character by character (std contracts)."""
from .common import *
from ..stdmodel import some, NONE, codes, digitval

SCOPE = 'whole'
PROVED = 'hex_from_argb for every i64 colour and flag: length, every character, and parsing it back; argb_from_hex for up to 15 hexadecimal digits in either case and up to 17 characters that are not a number, behind up to two #, and for texts of any length the std radix-16 parse of the text without leading #'
BOUNDED = '-'
ASSUMPTIONS = ['contracts of red/green/blue_from_argb (proved in C01)', 'documented behaviour of format!({:02x}), str::to_uppercase (ASCII), trim_start_matches and i64::from_str_radix']


def digit(n):
    return z3.If(n < 10, 48 + n, 55 + n)


CHANNELS = {'red_from_argb': 16, 'green_from_argb': 8, 'blue_from_argb': 0}


def ch(ctx, n, a):
    """contract of the channel accessors (proved in C01): the byte of the colour"""
    v = uf(n, z3.IntSort(), z3.IntSort())(iv(a))
    ctx._setbits(v, 0, 8)
    ctx.axiom(z3.And(v >= 0, v <= 255), (v,))
    ctx.axiom(v == (iv(a) / 2 ** CHANNELS[n]) % 256, (v,), True)
    return v


def jobs(P):
    js = []

    def flags(c):
        b = z3.Bool('flag')
        return (('default', NONE, True), ('with', some(True), True), ('without', some(False), False))

    def make(nm, flag, lead):
        def body(j):
            c = j.ctx(definite=True)
            a = c.mk('i64', 'a')
            ins, rp = dict(a=a), ('hex_any', args_i('a'))
            for n in CHANNELS:
                c.contracts[('ColorUtils', None, n)] = lambda ctx, st, args, callee, n=n: [Out(st, 'return', ch(ctx, n, args[0]))]
            outs = j.execute(c, j.fn('StringUtils', 'hex_from_argb'), [a, flag])
            j.no_panic(c, outs, ins, rp)
            low = a % 2 ** 24
            chan = [ch(c, n, a) for n in CHANNELS]
            for o in returns(outs):
                t = codes(o.val)
                if t is None:
                    raise Undecided('text not tracked')
                j.claim(c, o.st, 'length', z3.BoolVal(len(t) == 6 + lead), ins, rp)
                if lead:
                    j.claim(c, o.st, 'leading #', iv(t[0]) == 35 if t else False, ins, rp)
                for i, x in enumerate(t[lead:][:6]):
                    j.claim(c, o.st, 'digit %d of the channels, upper case' % i, iv(x) == digit(chan[i // 2] % 16 if i % 2 else chan[i // 2] / 16), ins, rp)
            # parsing back: six upper-case digits n0..n5 parse to their value, which is the low 24 bits for the digits above
            d = j.ctx(definite=True)
            ns = [z3.Int('n%d' % i) for i in range(6)]
            back = j.execute(d, j.fn('StringUtils', 'argb_from_hex'), [CS([35] * lead + [digit(n) for n in ns])], [z3.And(n >= 0, n <= 15) for n in ns])
            j.no_panic(d, back, ins, rp)
            tot = sum(n * 16 ** (5 - i) for i, n in enumerate(ns))
            for r in returns(back):
                j.claim(d, r.st, 'six digits parse to their value', iv(r.val.pay['Some'][0]) == tot if r.val.tag == 1 else z3.BoolVal(False))
            x = [z3.Int('x%d' % i) for i in range(7)]
            st = State()
            st.pc = tuple([low == x[6]] + [z3.And(x[i + 1] == x[i] * 16 + ns[i], ns[i] >= 0, ns[i] <= 15) for i in range(6)] + [x[0] == 0, low >= 0])
            r, g, b = ((a / 2 ** q) % 256 for q in (16, 8, 0))
            j.claim(d, State(), 'channels of the low 24 bits (lemma)', low == r * 65536 + g * 256 + b)
            j.claim(d, st, 'digits of the low 24 bits (lemma)', z3.And([low == tot] + [(low / 16 ** (5 - i)) == x[i + 1] for i in range(6)]))
        js.append(Job('hex_from_argb, %s #' % nm, 'StringUtils::hex_from_argb', body))
    for nm, flag, lead in flags(None):
        make(nm, flag, lead)

    hexd = lambda x: z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 70), z3.And(x >= 97, x <= 102))

    def chars(n):
        t = [z3.Int('c%d' % i) for i in range(n)]
        return t, [z3.And(x >= 0, x <= 0x10ffff) for x in t], {'c%d' % i: x for i, x in enumerate(t)}

    def number(n):
        def body(j):
            for k in (0, 1, 2):
                c = j.ctx(definite=True)
                t, pre, ins = chars(n)
                rp = ('parse', lambda m, k=k: ['s:' + ('#' * k + ''.join(chr(m['c%d' % i]) for i in range(n))).encode('utf8').hex()])
                outs = j.execute(c, j.fn('StringUtils', 'argb_from_hex'), [CS([35] * k + t)], pre + [hexd(x) for x in t])
                j.no_panic(c, outs, ins, rp)
                v = z3.IntVal(0)
                for x in t:
                    v = v * 16 + digitval(c, x)
                for o in returns(outs):
                    if o.val.tag == 1:
                        j.claim(c, o.st, '%d leading #: the value' % k, iv(o.val.pay['Some'][0]) == v, ins, rp)
                    else:
                        j.claim(c, o.st, '%d leading #: a number' % k, z3.BoolVal(False), ins, rp)
        js.append(Job('argb_from_hex, %d hexadecimal digits' % n, 'StringUtils::argb_from_hex', body))
    for n in range(1, 16):
        number(n)

    def other(n):
        def body(j):
            for k in (0, 1, 2):
                c = j.ctx(definite=True)
                t, pre, ins = chars(n)
                nn = [t[0] != 35, t[0] != 43, t[0] != 45, z3.Not(z3.And([hexd(x) for x in t]))] if n else []
                outs = j.execute(c, j.fn('StringUtils', 'argb_from_hex'), [CS([35] * k + t)], pre + nn)
                j.no_panic(c, outs)
                for o in returns(outs):
                    j.claim(c, o.st, '%d leading #: nothing' % k, z3.BoolVal(o.val.tag == 0))
        js.append(Job('argb_from_hex, %d characters that are no number' % n, 'StringUtils::argb_from_hex', body))
    for n in range(0, 18):
        other(n)

    def anylen(j):
        c = j.ctx()
        s = c.mk('String', 's')
        outs = j.execute(c, j.fn('StringUtils', 'argb_from_hex'), [s])
        j.no_panic(c, outs)
        t = c.term(c.app('str::trim_start_matches', [s, z3.StringVal('#')], 'String'))
        g = uf('from_str_radix:ok', t.sort(), z3.IntSort(), z3.BoolSort())(t, z3.IntVal(16))
        x = uf('from_str_radix', t.sort(), z3.IntSort(), z3.IntSort())(t, z3.IntVal(16))
        for o in returns(outs):
            j.claim(c, o.st, 'a number exactly when the text without leading # is one', g == z3.BoolVal(o.val.tag == 1))
            if o.val.tag == 1:
                j.claim(c, o.st, 'its value in base 16', iv(o.val.pay['Some'][0]) == x)
    js.append(Job('argb_from_hex, any length', 'StringUtils::argb_from_hex', anylen))
    return js
