"""Contract of kcorrect.fitter.Fitter._calc_Amatrix: the design matrix tabulates projections of redshifted templates."""
from .common import *
from . import kc as K
from . import sed as SD
from vcgen import npmodel as NP
from vcgen import arrays as AR


def proj(name, w, row, n):
    """projection on the band called name of the spectrum (w(k), row(k))"""
    e, args = E.opaque('proj', [n], lambda k: [zr(w(k)), zr(row(k))], [('', [NameSort], R)])
    return If(apart(name, w, n), F(0), E.app(e, '', args, [strterm(name)]))


def apart(name, w, n):
    """the bandpass lies outside the wavelengths w(k)"""
    e, args = E.opaque('projo', [n], lambda k: [zr(w(k))], [('', [NameSort], B)])
    return E.app(e, '', args, [strterm(name)])


class CProject:
    """Response.project by contract (its own obligations: specs/proj.py): one value per spectrum, a function of that spectrum and the band;
    a single zero if the bandpass lies outside the spectrum"""

    def applicable(self, ip, f, b):
        return isinstance(b.get('self'), Inst) and 'name' in b['self'].ghost

    def apply(self, ip, b):
        ctx = ip.ctx
        name = SStr(b['self'].ghost['name'])
        sed = b.get('sed')
        if sed is not None:
            w, f, ns = ip.getattr(sed, 'wave'), ip.getattr(sed, 'flux'), ip.getattr(sed, 'nsed')
            it = sed.attrs.get('interp')
            if not isinstance(it, Inst) or 'itp' not in it.ghost:
                raise PyExc('TypeError', 'no interpolator')
            d = it.ghost['itp']
            # precondition: the interpolator describes the spectrum as it is now
            ctx.goal('precondition of project: interpolator kind', d['kind'] == 'cubic' and not it.ghost['err'] and it.ghost['fv'] == 0)
            ctx.same('precondition of project: interpolator wave', d['x'], w)
            ctx.same('precondition of project: interpolator flux', d['y'], f)
        else:
            w, f = b.get('wave'), b.get('flux')
            if not (is_arr(w) and is_arr(f)) or w.ndim != 1:
                raise PyExc('ValueError', 'spectrum')
            if not AR.dims_equal(w.shape[0], f.shape[-1]):
                raise PyExc('ValueError', 'last axis of flux must match wave')
            if f.ndim == 1:
                r1 = f.reader()
                f = mk((1,) + f.shape, lambda i, k: r1(k), f.dtype)
            ns = f.shape[0]
        rw, rf, n = w.reader(), f.reader(), w.shape[0]
        if E.decide(apart(name, rw, n)):
            return F(0)
        val = lambda i: proj(name, rw, lambda k: rf(i, k), n)
        if E.decide(eq(ns, 1)):
            return npscalar(val(0), 'f4')
        return mk((ns,), val, 'f4')


class CLoad:
    """ResponseDict.load_response by contract: afterwards the name is present"""

    def applicable(self, ip, f, b):
        return isinstance(b.get('response'), (str, SStr))

    def apply(self, ip, b):
        d, name = b['self'].data, b['response']
        if b.get('reload') is False and E.decide(NP.symhas(ip, d, name)):
            return
        NP.dset(ip, d, name, K.response_obj(ip, ip.module('kcorrect.response').env['Response'], name))


def scen_grid(interp, cls='Fitter', nsed=None, nbands=None):
    def s(ctx):
        w = K.World(ctx, nt=nsed)
        ip = ctx.ip
        tm = w.templates(interpolate=interp)
        rw, rf = tm.attrs['restframe_wave'], tm.attrs['restframe_flux']
        nw = rw.shape[0]
        ctx.watch('template wavelengths', rw)
        ctx.watch('template fluxes', rf)
        nb = nbands if nbands is not None else dim('nb', 1)
        names = w.names('band', nb)
        nz = dim('nz', 2)
        k = ip.call(ip.module('kcorrect.fitter').env[cls], (), dict(responses=names, templates=tm, redshift_range=w.zrange(), nredshift=nz))
        # redshift grid
        step = div(sub(w.hi, w.lo), sub(nz, 1))
        zs = lambda i: add(w.lo, mul(step, real(i)))
        g = k.attrs.get('redshifts')
        ctx.goal('grid from end to end', And(eq(zs(0), w.lo), eq(zs(sub(nz, 1)), w.hi)))
        ctx.goal('grid increases', gt(step, 0))
        ctx.same('redshift grid', g, mk((nz,), zs, 'f4'))
        got = ctx.outcome(lambda: ip.call(ip.getattr(k, 'set_Amatrix')))
        if got[0] != 'ok':
            ctx.fail('set_Amatrix', '%s %s' % (got[1].kind, got[1].msg))
            return
        nt = w.nt
        a, fr = rw.reader(), rf.reader()
        tab = lambda i, b, t: proj(K.item_name(names, b), lambda q: mul(a(q), add(1, zs(i))), lambda q: div(fr(t, q), add(1, zs(i))), nw)
        A = k.attrs.get('Amatrix')
        if not isinstance(A, Inst) or 'itp' not in A.ghost:
            ctx.fail('Amatrix', 'not an interpolator of a table')
            return
        d = A.ghost['itp']
        ctx.goal('linear interpolation over the first axis', d['kind'] == 'linear' and d['axis'] == 0 and A.ghost['err'] is True)
        ctx.same('grid of the table', d['x'], mk((nz,), zs, 'f4'))
        ctx.same('tabulated projections', d['y'], mk((nz, nb, nt), tab, 'f4'))
        # the templates are back at redshift zero
        SD.state(ctx, tm, rw, rf, F(0), interp, 'templates: ')
        ctx.unchanged()
    return s
