"""Contracts of kcorrect.template.SED: set-up, redshifting, interpolator."""
from .common import *
from vcgen import npmodel as NP


def cubic0(w, f):
    """interpolator of flux over wavelength: cubic, zero outside"""
    return NP.interp1d(w, f, kind='cubic', axis=-1, bounds_error=False, fill_value=F(0))


def scaled(a, k, op):
    r = a.reader()
    return mk(a.shape, lambda *ix: op(r(*ix), k), 'f8')


def check_interp(ctx, label, it, w, f):
    """it(q) is the interpolated flux at q, for arbitrary wavelengths q"""
    if not isinstance(it, Inst) or 'call' not in it.ghost:
        ctx.fail(label, 'no interpolator')
        return
    m = dim('nq')
    q = sym_array('query', (m,))
    ctx.refine(label, ctx.outcome(lambda: it.ghost['call'](q), tag=False), ('ok', cubic0(w, f).ghost['call'](q)))


def sed_object(ctx, interp, cls='SED', nsed=None):
    """an object in an arbitrary state: rest-frame arrays, and the arrays and interpolator any history may have left"""
    ip = ctx.ip
    c = ip.module('kcorrect.template').env[cls]
    n, ns = dim('nw', 2), (dim('ns', 1) if nsed is None else nsed)
    o = Inst(c)
    rw, rf = ctx.arr('restframe_wave', (n,)), ctx.arr('restframe_flux', (ns, n))
    hw, hf = ctx.arr('history_wave', (n,)), ctx.arr('history_flux', (ns, n))
    zold = z3.Real('z_before')
    E.assume(zold > -1)
    o.attrs.update(restframe_wave=rw, restframe_flux=rf, wave=hw, flux=hf, redshift=npscalar(zold, 'f8'), nwave=n, nsed=ns, filename=None,
                   interpolate=interp, binimage=False, info=PDict({}))
    o.attrs['interp'] = cubic0(hw, hf) if interp else None
    return o, rw, rf


def scen_set_redshift(interp, cls='SED'):
    """from any state: wave, flux, redshift and interpolator are functions of the rest frame and z alone"""
    def s(ctx):
        o, rw, rf = sed_object(ctx, interp, cls)
        zz = z3.Real('z')
        E.assume(zz > -1)
        got = ctx.outcome(lambda: ctx.ip.call(ctx.ip.getattr(o, 'set_redshift'), (), dict(redshift=npscalar(zz, 'f4'))))
        if not ctx.refine('returns', got, ('ok', None)):
            return
        state(ctx, o, rw, rf, zz, interp)
        ctx.unchanged('history and rest frame arrays')
    return s


def state(ctx, o, rw, rf, zz, interp, prefix=''):
    a = o.attrs
    w, f = scaled(rw, add(1, zz), mul), scaled(rf, add(1, zz), div)
    ctx.same(prefix + 'wave', a.get('wave'), w)
    ctx.same(prefix + 'flux', a.get('flux'), f)
    ctx.same(prefix + 'redshift', a.get('redshift'), zz)
    ctx.same(prefix + 'rest-frame wave', a.get('restframe_wave'), rw)
    ctx.same(prefix + 'rest-frame flux', a.get('restframe_flux'), rf)
    if interp:
        check_interp(ctx, prefix + 'interpolator', a.get('interp'), w, f)
    # the bolometric integral over wavelength is that of the rest frame
    n, ns = rw.shape[0], rf.shape[0]
    gw, gf = a['wave'], a['flux']
    if is_arr(gw) and is_arr(gf) and gw.ndim == 1 and gf.ndim == 2:
        # every trapezoid of the integral is the rest-frame one (their sum is then equal too)
        for ix, h in ctx.index((ns, sub(n, 1))):
            i, k = ix
            cell = lambda ww, ff: mul(sub(ww.read((add(k, 1),)), ww.read((k,))), add(ff.read((i, k)), ff.read((i, add(k, 1)))))
            ctx.goal(prefix + 'bolometric integral', eq(cell(gw, gf), cell(rw, rf)), h)


def scen_sed_init(nd, interp, cls='SED'):
    """a new spectrum is at redshift zero, with one row per spectrum"""
    def s(ctx):
        ip = ctx.ip
        n = dim('nw', 2)
        w = ctx.arr('wave', (n,))
        f = ctx.arr('flux', (n,) if nd == 1 else (dim('ns', 1), n))
        got = ctx.call(ip.module('kcorrect.template').env['SED'], wave=w, flux=f, interpolate=interp)
        if got[0] != 'ok':
            ctx.fail('constructor', got[1].msg)
            return
        o = got[1]
        rf = f
        if nd == 1:
            rd = f.reader()
            rf = mk((1, n), lambda i, k: rd(k), 'f8')
        state(ctx, o, w, rf, F(0), interp, 'new: ')
        ctx.same('nsed', o.attrs.get('nsed'), rf.shape[0])
        ctx.same('nwave', o.attrs.get('nwave'), n)
        zz = z3.Real('z')
        E.assume(zz > -1)
        if interp and ctx.refine('set_redshift', ctx.outcome(lambda: ip.call(ip.getattr(o, 'set_redshift'), (npscalar(zz, 'f4'),))), ('ok', None)):
            state(ctx, o, w, rf, zz, interp, 'redshifted: ')
            if ctx.refine('back', ctx.outcome(lambda: ip.call(ip.getattr(o, 'set_redshift'), (), {})), ('ok', None)):
                state(ctx, o, w, rf, F(0), interp, 'returned: ')
        ctx.unchanged()
    return s


def scen_later_interp(ctx):
    """an interpolator requested after redshifting describes the redshifted spectrum, and is kept up to date"""
    ip = ctx.ip
    o, rw, rf = sed_object(ctx, False)
    zz, z2 = z3.Real('z'), z3.Real('z2')
    E.assume(And(zz > -1, z2 > -1))
    ip.call(ip.getattr(o, 'set_redshift'), (npscalar(zz, 'f8'),))
    if ctx.refine('set_interp', ctx.outcome(lambda: ip.call(ip.getattr(o, 'set_interp'))), ('ok', None)):
        state(ctx, o, rw, rf, zz, True, 'requested: ')
        ctx.outcome(lambda: ip.call(ip.getattr(o, 'set_redshift'), (npscalar(z2, 'f8'),)))
        state(ctx, o, rw, rf, z2, True, 'then redshifted: ')
    ctx.unchanged()
