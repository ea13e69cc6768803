"""The channel transfer functions by cells: the thresholds between adjacent bytes cut the axis of
linear values into 511 intervals; on each the real code of delinearized is executed on an interval
enclosure and its byte decided; linearized is executed on each of the 256 bytes.  The half-step bound
|linearized(delinearized(c)) - c| <= h(c) and its tangent majorants follow by exact arithmetic."""
from fractions import Fraction as Fr
from .common import *
from .libmx import powf as powx

EPS = 1e-11
K = (0.2126, 0.7152, 0.0722)


def lin(v):
    """the sRGB transfer function of a (fractional) byte"""
    n = v / 255.0
    return 100 * (n / 12.92 if n <= 0.040449936 else ((n + 0.055) / 1.055) ** 2.4)


TAB = [lin(b) for b in range(256)]
CUT = [lin(b + 0.5) for b in range(255)]
LO, HI = -0.0152, 100.41


def cells(lo=LO, hi=HI):
    """(lo, hi, bytes) covering [lo,hi]"""
    out = []
    x = lo
    for b in range(255):
        d = CUT[b] * EPS
        k = 0.31308
        if x < k < CUT[b]:
            # where the branches of the transfer function meet
            out += [(x, k - 1e-6, (b,)), (k - 1e-6, k + 1e-6, (b,))]
            x = k + 1e-6
        out.append((x, CUT[b] - d, (b,)))
        out.append((CUT[b] - d, CUT[b] + d, (b, b + 1)))
        x = CUT[b] + d
    out.append((x, hi, (255,)))
    return out


def half(lo, hi, bs):
    """a bound on |linearized(byte) - c| over the cell (TAB is within 1e-10 of linearized)"""
    return max(abs(TAB[b] - e) for b in bs for e in (lo, hi)) + 1e-9


def majorants(n=48):
    """tangents (alpha, beta, y): half(c) <= alpha + beta c on every cell of [LO,HI], checked exactly"""
    cs = cells()
    H = [(Fr(e), Fr(half(*c))) for c in cs for e in c[:2]]
    out = []
    for k in range(n):
        y = (k + 0.5) / n
        y = 100 * y * y * y
        best = None
        for v in (inv(y), 9.0, 12.0, 15.0, 20.0):
            e = lambda w: (lin(w + 0.5) - lin(w - 0.5)) / 2
            beta = Fr(max(0.0, (e(v + 1) - e(v - 1)) / (lin(v + 1) - lin(v - 1))))
            alpha = max(h - beta * e for e, h in H)
            if best is None or alpha + beta * Fr(y) < best[0] + best[1] * Fr(y):
                best = (alpha, beta)
        alpha, beta = best
        out.append((alpha, beta, y))
    return out


def inv(y):
    y /= 100
    return 255 * (12.92 * y if y <= 0.0031308 else 1.055 * y ** (1 / 2.4) - 0.055)


def jobs_channels(add, part=8, replay=None):
    cs = cells()

    def delin(j, mine):
        for lo, hi, bs in mine:
            c = j.ctx(libm={'powf': powx}, ivcmp=True)
            x, pre = fin('c', lo, hi)
            outs = j.execute(c, j.fn('ColorUtils', 'delinearized'), [x], [pre])
            j.no_panic(c, outs, dict(c=x), replay)
            for o in returns(outs):
                j.claim(c, o.st, 'is the byte %s on [%.12g,%.12g]' % (' or '.join(map(str, bs)), lo, hi), z3.Or([iv(o.val) == b for b in bs]), dict(c=x), replay)
    for k in range(part):
        add('delinearized by cells %d' % k, 'ColorUtils::delinearized', lambda j, k=k: delin(j, cs[k::part]))

    def line(j):
        for b in range(256):
            c = j.ctx(libm={'powf': powx}, ivcmp=True)
            outs = j.execute(c, j.fn('ColorUtils', 'linearized'), [b])
            j.no_panic(c, outs)
            for o in returns(outs):
                j.claim(c, o.st, 'transfer function of the byte within 1e-10', within(R(o.val), R(TAB[b]), R(1e-10)))
    add('linearized on every byte', 'ColorUtils::linearized', line)

    def maj(j):
        j.functions.add('half-step majorants')
        c = j.ctx()
        st = State()
        for a, b, y in majorants():
            ok = all(Fr(half(*q)) <= a + b * Fr(e) for q in cs for e in q[:2])
            j.claim(c, st, 'half step below the tangent at %.4g on every cell' % y, z3.BoolVal(ok))
    add('half-step majorants', 'lemma', maj)


def dot(p):
    return sum((R(k) * real(x) for k, x in zip(K, p)), R(0.0))


def jobs_tone(add, slack):
    """|L*(bytes of c) - t| <= 0.5 for linear RGB c within slack of the luminance of the tone t"""
    # ---- luminance of the bytes
    def lumi(j):
        c = j.ctx(definite=False)
        p = [fin('c%d' % i, LO, HI) for i in range(3)]
        D = lambda x: c.app('delinearized', [x], 'i64')
        c.contracts[('ColorUtils', None, 'delinearized')] = byte_contract('delinearized')

        def linc(ctx, st, args, callee):
            v = ufr_i('linearized', iv(args[0]))
            return [Out(st.assume(z3.And(v >= 0, v <= 100)), 'return', SF(v, 0.0, 100.0))]
        c.contracts[('ColorUtils', None, 'linearized')] = linc
        outs = j.execute(c, j.fn('ColorUtils', 'argb_from_linrgb'), [Vc([v for v, _ in p])], [z for _, z in p])
        j.no_panic(c, outs)
        for o in returns(outs):
            for q in returns(c.run(j.fn('ColorUtils', 'xyz_from_argb'), [o.val], o.st)):
                j.claim(c, q.st, 'luminance of the bytes', within(real(q.val.e[1]), dot([SF(ufr_i('linearized', iv(D(v)))) for v, _ in p]), R(1e-12)))
    add('luminance of argb_from_linrgb', 'ColorUtils::argb_from_linrgb', lumi)

    def halves(j):
        j.functions.add('half-step lemma')
        c = j.ctx()
        st = State()
        s, q = ([z3.Real('%s%d' % (n, i)) for i in range(3)] for n in 'sq')
        a, b = z3.Reals('a b')
        # per channel |q - s| <= a + b s; weights positive, sum 1
        j.claim(c, st, 'weights are positive and sum to one within 1e-15', z3.And([R(k) > 0 for k in K] + [within(sum((R(k) for k in K), R(0.0)), R(1.0), R(1e-15))]))
        up = [a + b * x - (y - x) for x, y in zip(s, q)]
        dn = [a + b * x + (y - x) for x, y in zip(s, q)]
        j.claim(c, st, 'upper sum', sum((R(k) * x for k, x in zip(K, up)), R(0.0)) == a * sum((R(k) for k in K), R(0.0)) + b * dot(s) - (dot(q) - dot(s)))
        j.claim(c, st, 'lower sum', sum((R(k) * x for k, x in zip(K, dn)), R(0.0)) == a * sum((R(k) for k in K), R(0.0)) + b * dot(s) + (dot(q) - dot(s)))
        st = st.assume(z3.And([x >= 0 for x in up + dn]))
        u, w = [z3.Real('u%d' % i) for i in range(3)], None
        s2 = State().assume(z3.And([x >= 0 for x in u]))
        j.claim(c, s2, 'a positive sum', sum((R(k) * x for k, x in zip(K, u)), R(0.0)) >= 0)
    add('half steps add up', 'lemma', halves)

    # ---- L* of the moved luminance
    ms = majorants()
    cells, x = [], 0.0
    while x < 100:
        w = 0.15 if x < 25 else 0.25
        cells.append((x, min(100.0, x + w)))
        x = round(x + w, 6)

    def tone(j, mine):
        for lo, hi in mine:
            c = j.ctx(libm={'powf': powx}, ivcmp=True)
            t, pre = fin('tone', lo, hi)
            outs = j.execute(c, j.fn('ColorUtils', 'y_from_lstar'), [t], [pre])
            j.no_panic(c, outs)
            for o in returns(outs):
                yl, yh = bounds(o.val)
                a, b, _ = min(ms, key=lambda m: m[0] + m[1] * Fr(yh))
                G = float(a) * (1 + 1e-12) + float(b) * (yh + slack) * (1 + 1e-12) + slack
                c2 = j.ctx(libm={'powf': powx}, ivcmp=True, definite=False)
                Y, pY = fin('Y', yl - G, yh + G)
                c2.contracts[('ColorUtils', None, 'xyz_from_argb')] = lambda ctx, st, args, callee: [Out(st.assume(pY), 'return', Vc([HFV, Y, HFV]))]
                for q in returns(j.execute(c2, j.fn('ColorUtils', 'lstar_from_argb'), [c2.mk('i64', 'argb')], [pY])):
                    v = real(q.val)
                    j.claim(c2, q.st, 'L* within 0.5 of the tone, tones in [%g,%g]' % (lo, hi), z3.And(v >= R(hi - 0.5), v <= R(lo + 0.5)))
    for k in range(6):
        add('tone of the moved luminance %d' % k, 'ColorUtils::lstar_from_argb', lambda j, k=k: tone(j, cells[k::6]))
