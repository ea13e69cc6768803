from .common import *

ASSUMPTIONS = []

SCOPE = 'whole'
PROVED = 'every clause, for every 64-bit integer'
BOUNDED = '-'


def jobs(P):
    js = []

    def acc(name, sh):
        def body(j):
            c = j.ctx()
            f = j.fn('ColorUtils', name)
            x = c.mk('i64', 'argb')
            outs = j.execute(c, f, [x])
            rp = ('unpack', args_i('argb'))
            j.no_panic(c, outs, {'argb': x}, rp)
            spec = (x / 2 ** sh) % 256
            for o in returns(outs):
                j.claim(c, o.st, 'is bits %d-%d' % (sh, sh + 7), iv(o.val) == spec, {'argb': x}, rp)
        return Job(name, 'ColorUtils::' + name, body)
    for n, s in (('alpha_from_argb', 24), ('red_from_argb', 16), ('green_from_argb', 8), ('blue_from_argb', 0)):
        js.append(acc(n, s))

    def opq(j):
        c = j.ctx()
        f = j.fn('ColorUtils', 'is_opaque')
        x = c.mk('i64', 'argb')
        outs = j.execute(c, f, [x])
        rp = ('unpack', args_i('argb'))
        j.no_panic(c, outs, {'argb': x}, rp)
        for o in returns(outs):
            j.claim(c, o.st, 'iff alpha byte is 255', bv(o.val) == ((x / 2 ** 24) % 256 == 255), {'argb': x}, rp)
    js.append(Job('is_opaque', 'ColorUtils::is_opaque', opq))

    def pack(j):
        c = j.ctx()
        f = j.fn('ColorUtils', 'argb_from_rgb')
        r, g, b = [c.mk('i64', n) for n in 'rgb']
        outs = j.execute(c, f, [r, g, b])
        ins = dict(r=r, g=g, b=b)
        rp = ('pack', args_i('r', 'g', 'b'))
        j.no_panic(c, outs, ins, rp)
        for o in returns(outs):
            v = iv(o.val)
            j.claim(c, o.st, 'opaque with the low bytes as channels', v == 255 * 2 ** 24 + (r % 256) * 65536 + (g % 256) * 256 + b % 256, ins, rp)
            j.claim(c, o.st, 'opaque 32-bit colour', z3.And(v >= 0xff000000, v <= 0xffffffff), ins, rp)
    js.append(Job('argb_from_rgb', 'ColorUtils::argb_from_rgb', pack))

    def lemma(j):
        c = j.ctx()
        j.functions.add('ColorUtils::argb_from_rgb')
        x = z3.Int('x')
        ch = lambda s: (x / 2 ** s) % 256
        st = State()
        st.pc = (x >= 0xff000000, x <= 0xffffffff)
        j.claim(c, st, 'packing the channels of an opaque colour gives it back (lemma over the contracts)', 255 * 2 ** 24 + (ch(16) % 256) * 65536 + (ch(8) % 256) * 256 + ch(0) % 256 == x)
    js.append(Job('repack', 'lemma', lemma))
    return js
