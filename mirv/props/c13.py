"""Data-structure invariant of Hct: hue and chroma are those of Cam16::from_int(argb), tone is
lstar_from_argb(argb).  Every constructor establishes it and every setter re-establishes it from
the solver's colour for the new coordinate and the two current ones; solver, CAM16 and L* are
uninterpreted functions of their arguments."""
from .common import *

SCOPE = 'part'
PROVED = 'for every argument and every history of setter calls: the coordinates of an Hct are the CAM16 hue and chroma and the L* of its integer colour (invariant established by new, from_int and from, re-established by each setter from any state); each setter solves for the new coordinate and the two current ones; getters and to_int return the stored coordinates; the tone lies in [0,100] (by the contract of lstar_from_argb, C04)'
BOUNDED = 'hue in [0,360) and chroma finite and non-negative (numeric ranges of CAM16); solving for the coordinates of an opaque colour gives it back'
ASSUMPTIONS = ['HctSolver::solve_to_int and Cam16::from_int are functions of their arguments (uninterpreted)', 'lstar_from_argb returns a value in [0,100] (proved in C04)']


def hct_contracts(c):
    c.contracts[('HctSolver', None, 'solve_to_int')] = uf_contract('solve_to_int', 'i64')
    c.contracts[('Cam16', None, 'from_int')] = uf_contract('Cam16::from_int', 'Cam16')

    def lst(ctx, st, args, callee):
        v = ctx.app('lstar_from_argb', [deref(ctx, st, args[0])], 'f64')
        return [Out(st.assume(z3.And(v.t >= 0, v.t <= 100)), 'return', v)]
    c.contracts[('ColorUtils', None, 'lstar_from_argb')] = lst


def inv(c, v):
    a = c.fname(v, '_argb')
    cam = c.app('Cam16::from_int', [a], 'Cam16')
    t = c.app('lstar_from_argb', [a], 'f64')
    return z3.And(real(c.fname(v, '_hue')) == real(c.fname(cam, 'hue')), real(c.fname(v, '_chroma')) == real(c.fname(cam, 'chroma')), real(c.fname(v, '_tone')) == t.t,
                  real(c.fname(v, '_tone')) >= 0, real(c.fname(v, '_tone')) <= 100)


def jobs(P):
    js = []

    def made(nm, tys, kind, want):
        def body(j):
            c = j.ctx(definite=True)
            hct_contracts(c)
            args = [c.mk(t, 'x%d' % i) for i, t in enumerate(tys)]
            ins = {'x%d' % i: a for i, a in enumerate(args)}
            enc = args_i('x0') if len(tys) == 1 else args_f('x0', 'x1', 'x2')
            outs = j.execute(c, j.fn('Hct', nm), args)
            j.no_panic(c, outs, ins, (kind, enc))
            for o in returns(outs):
                j.claim(c, o.st, 'coordinates describe the integer colour', inv(c, o.val), ins, (kind, enc))
                j.claim(c, o.st, 'the integer colour is the requested one', iv(c.fname(o.val, '_argb')) == want(c, args), ins, (kind, enc))
        js.append(Job(nm, 'Hct::' + nm, body))
    made('new', ['i64'], 'round_trip', lambda c, a: a[0])
    made('from_int', ['i64'], 'round_trip', lambda c, a: a[0])
    made('from', ['f64'] * 3, 'from', lambda c, a: c.app('solve_to_int', a, 'i64'))

    def setter(nm, k):
        def body(j):
            c = j.ctx(definite=True)
            hct_contracts(c)
            r = c.mk('&mut Hct', 'h')
            v0 = c.load(State(), r)
            x = c.mk('f64', 'x')
            outs = j.execute(c, j.fn('Hct', nm), [r, x], [inv(c, v0)])
            # the replayed history starts from the colour of the counterexample
            ins = dict(a=c.fname(v0, '_argb'), x=x)
            rp = ('setters', lambda m: [fi((m['a'] % 2 ** 24) + 0xff000000), 'I:%d' % k, 'F:' + fenc(float(m['x']))[2:]])
            j.no_panic(c, outs, ins, rp)
            cs = [c.fname(v0, n) for n in ('_hue', '_chroma', '_tone')]
            cs[k] = x
            want = c.app('solve_to_int', cs, 'i64')
            for o in returns(outs):
                v = c.load(o.st, r)
                j.claim(c, o.st, 'coordinates describe the integer colour', inv(c, v), ins, rp)
                j.claim(c, o.st, 'the new colour is solved for the new coordinate and the two current ones', iv(c.fname(v, '_argb')) == want, ins, rp)
        js.append(Job(nm, 'Hct::' + nm, body))
    for k, n in enumerate(('hue', 'chroma', 'tone')):
        setter('set_' + n, k)

    def getters(j):
        for nm, f in (('get_hue', '_hue'), ('get_chroma', '_chroma'), ('get_tone', '_tone'), ('to_int', '_argb')):
            c = j.ctx(definite=True)
            r = c.mk('&Hct', 'h')
            outs = j.execute(c, j.fn('Hct', nm), [r])
            j.no_panic(c, outs)
            for o in returns(outs):
                j.claim(c, o.st, nm + ' returns the stored coordinate', c.same(o.val, c.fname(c.load(State(), r), f)))
    js.append(Job('getters', 'Hct::get_hue', getters))
    return js
