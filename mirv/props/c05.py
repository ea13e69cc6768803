from .common import *

ASSUMPTIONS = ['callee contract: ColorUtils::y_from_lstar equals the CIE formula within 4e-13 on [0,100] (proved in C04)']
SCOPE = 'whole'
PROVED = 'every clause, for every pair of finite tones'
BOUNDED = '-'


def clampt(t):
    return z3.If(t < 0, R(0.0), z3.If(t > 100, R(100.0), t))


def jobs(P):
    js = []

    def body(j):
        c = j.ctx()
        c.contracts[CLAMP] = c_clamp
        c.mono = True
        c.anchors.add(1.0)
        a, b = c.mk('f64', 'a'), c.mk('f64', 'b')
        ins = dict(a=a, b=b)
        rp = ('ratio', args_f('a', 'b'))
        lum(j, c, ins, rp)
        outs = j.execute(c, j.fn('Contrast', 'ratio_of_tones'), [a, b])
        j.no_panic(c, outs, ins, rp)
        # the spec, for each side of the clamps; the equalities below name the clamped tones
        for o in returns(outs):
            v = R(o.val)
            ta, tb = clampt(a.t), clampt(b.t)
            st = o.st
            x, y = z3.Reals('ya yb')
            st = st.assume(z3.And(x == Yspec(c, ta), y == Yspec(c, tb)))
            d = zmin(x, y) + 5
            j.claim(c, st, 'is (Ylight+5)/(Ydark+5) within 1e-11', z3.And(v * d <= zmax(x, y) + 5 + R(1e-11) * d, v * d >= zmax(x, y) + 5 - R(1e-11) * d), ins, rp)
            j.claim(c, st, 'at least 1', v >= 1, ins, rp)
            j.claim(c, st, 'at most 21 within 1e-9', v <= 21 + R(1e-9), ins, rp)
    js.append(Job('ratio_of_tones', 'Contrast::ratio_of_tones', body))

    def eq(j):
        c = j.ctx()
        c.contracts[CLAMP] = c_clamp
        a = c.mk('f64', 'a')
        ins = dict(a=a)
        rp = ('ratio', args_f('a', 'a'))
        lum(j, c, ins, rp)
        outs = j.execute(c, j.fn('Contrast', 'ratio_of_tones'), [a, a])
        for o in returns(outs):
            j.claim(c, o.st, 'equal tones give exactly 1', R(o.val) == 1, ins, rp)
    js.append(Job('equal tones', 'Contrast::ratio_of_tones', eq))

    def sym(j):
        # symmetric: the spec is symmetric in its arguments
        c = j.ctx()
        c.contracts[CLAMP] = c_clamp
        x, y, v, w = z3.Reals('x y v w')
        st = State()
        d = zmin(x, y) + 5
        st.pc = (x >= 0, y >= 0, x <= 100, y <= 100, v * d <= zmax(x, y) + 5 + R(1e-11) * d, v * d >= zmax(x, y) + 5 - R(1e-11) * d, w * d <= zmax(x, y) + 5 + R(1e-11) * d, w * d >= zmax(x, y) + 5 - R(1e-11) * d)
        j.functions.add('Contrast::ratio_of_tones')
        j.claim(c, st, 'symmetric within 1e-9 (lemma over the contract)', within(v, w, R(1e-9)))
        st2 = State()
        st2.pc = (v * 5 <= 105 + R(1e-11) * 5, v * 5 >= 105 - R(1e-11) * 5)
        j.claim(c, st2, '21 for 0 against 100 (lemma over the contract)', within(v, 21, R(1e-9)))
    js.append(Job('symmetry', 'Contrast::ratio_of_tones', sym))
    return js
