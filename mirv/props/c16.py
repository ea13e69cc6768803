"""Core palettes with create_key_color, Cam16::from_int and Hct::from as uninterpreted functions;
the legacy schemes with TonalPalette::get replaced by its contract: the result is the colour of
(palette, tone) and the palette keeps its hue, chroma and colours (cache invariant, C10)."""
from .common import *

SCOPE = 'whole'
PROVED = 'every clause: hue and chroma of the six palettes of both core-palette forms for every colour (within 1e-9), and palette and tone of each of the 29 roles of light and dark legacy schemes for every core palette, cached or not'
BOUNDED = '-'
ASSUMPTIONS = ['contract of TonalPalette::get (proved in C10): a function of the palette and the tone, whatever was looked up before',
               'Cam16::from_int is a function of its argument with hue in [0,360) and chroma in [0,200] (C26, bounded)']

PAL = ['primary', 'secondary', 'tertiary', 'neutral', 'neutral_variant', 'error']
# role: palette, light tone, dark tone
ROLES = dict(
    primary=(0, 40, 80), on_primary=(0, 100, 20), primary_container=(0, 90, 30), on_primary_container=(0, 10, 90),
    secondary=(1, 40, 80), on_secondary=(1, 100, 20), secondary_container=(1, 90, 30), on_secondary_container=(1, 10, 90),
    tertiary=(2, 40, 80), on_tertiary=(2, 100, 20), tertiary_container=(2, 90, 30), on_tertiary_container=(2, 10, 90),
    error=(5, 40, 80), on_error=(5, 100, 20), error_container=(5, 90, 30), on_error_container=(5, 10, 80),
    background=(3, 99, 10), on_background=(3, 10, 90), surface=(3, 99, 10), on_surface=(3, 10, 90),
    surface_variant=(4, 90, 30), on_surface_variant=(4, 30, 80), outline=(4, 50, 60), outline_variant=(4, 80, 30),
    shadow=(3, 0, 0), scrim=(3, 0, 0), inverse_surface=(3, 20, 90), inverse_on_surface=(3, 95, 20), inverse_primary=(0, 80, 40))


def cam_contract(c):
    """Cam16::from_int with bounded hue and chroma"""
    def h(ctx, st, args, callee):
        x = deref(ctx, st, args[0])
        v = ctx.app('Cam16::from_int', [x], 'Cam16')
        hue, ch = real(ctx.fname(v, 'hue')), real(ctx.fname(v, 'chroma'))
        return [Out(st.assume(z3.And(hue >= 0, hue < 360, ch >= 0, ch <= 200)), 'return', with_fields(ctx, v, hue=SF(hue, 0.0, 360.0), chroma=SF(ch, 0.0, 200.0)))]
    c.contracts[('Cam16', None, 'from_int')] = h


def key_contract(c):
    c.contracts[('TonalPalette', None, 'create_key_color')] = uf_contract('create_key_color', 'Hct')


def pal_get(c):
    """contract of TonalPalette::get: the colour of (palette, tone); the palette's identity is its colours"""
    def h(ctx, st, args, callee):
        p = deref(ctx, st, args[0])
        return [Out(st, 'return', ctx.app('palette colour', [p, args[1]], 'i64'))]
    c.contracts[('TonalPalette', None, 'get')] = h


def jobs(P):
    js = []

    def core(nm, spec):
        def body(j):
            c = j.ctx(definite=True)
            cam_contract(c)
            key_contract(c)
            a = c.mk('i64', 'a')
            rp = ('core_of', lambda m: [fi(m['a'] % 2 ** 24 + 0xff000000)])
            outs = j.execute(c, j.fn('CorePalette', nm), [a])
            j.no_panic(c, outs, dict(a=a), rp)
            cam = c.app('Cam16::from_int', [a], 'Cam16')
            h, ch = real(c.fname(cam, 'hue')), real(c.fname(cam, 'chroma'))
            for o in returns(outs):
                for p, (hh, cc) in zip(PAL, spec(h, ch)):
                    v = c.fname(o.val, p)
                    j.claim(c, o.st, '%s palette' % p, z3.And(within(real(c.fname(v, 'hue')), hh, R(1e-9)), within(real(c.fname(v, 'chroma')), cc, R(1e-9))), dict(a=a), rp)
        js.append(Job('core palette ' + nm, 'CorePalette::' + nm, body))
    core('of', lambda h, c: [(h, zmax(c, R(48))), (h, R(16)), (h + 60, R(24)), (h, R(4)), (h, R(8)), (R(25), R(84))])
    core('content_of', lambda h, c: [(h, c), (h, c / 3), (h + 60, c / 2), (h, zmin(c / 12, R(4))), (h, zmin(c / 6, R(8))), (R(25), R(84))])

    def legacy(nm, dark):
        def body(j):
            c = j.ctx(definite=True)
            pal_get(c)
            cp = c.mk('CorePalette', 'core')
            rp = ('legacy_marked', lambda m: [fi(1)])
            outs = j.execute(c, j.fn('Scheme', nm), [cp])
            j.no_panic(c, outs, {}, rp)
            for o in returns(outs):
                for r, (p, l, d) in ROLES.items():
                    want = c.app('palette colour', [c.fname(cp, PAL[p]), d if dark else l], 'i64')
                    j.claim(c, o.st, '%s is %s %d' % (r, PAL[p], d if dark else l), iv(c.fname(o.val, r)) == want, {}, rp)
        js.append(Job(nm, 'Scheme::' + nm, body))
    legacy('light_from_core_palette', False)
    legacy('dark_from_core_palette', True)

    def entry(nm, core, frm):
        def body(j):
            c = j.ctx(definite=True)
            pal_get(c)
            c.contracts[('CorePalette', None, 'of')] = uf_contract('CorePalette::of', 'CorePalette')
            c.contracts[('CorePalette', None, 'content_of')] = uf_contract('CorePalette::content_of', 'CorePalette')
            a = c.mk('i64', 'a')
            rp = ('legacy', lambda m: [fi(m['a'] % 2 ** 24 + 0xff000000)])
            outs = j.execute(c, j.fn('Scheme', nm), [a])
            j.no_panic(c, outs, dict(a=a), rp)
            cp = c.app('CorePalette::' + core, [a], 'CorePalette')
            for o in returns(outs):
                for r, (p, l, d) in ROLES.items():
                    want = c.app('palette colour', [c.fname(cp, PAL[p]), d if 'dark' in nm else l], 'i64')
                    j.claim(c, o.st, r, iv(c.fname(o.val, r)) == want, dict(a=a), rp)
        js.append(Job(nm, 'Scheme::' + nm, body))
    entry('light', 'of', 0)
    entry('dark', 'of', 1)
    entry('light_content', 'content_of', 0)
    entry('dark_content', 'content_of', 1)
    return js
