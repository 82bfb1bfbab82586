"""Contract of kcorrect.utils.read_basel, and of the Sun and Vega references of a response."""
from .common import *
from . import kc as K
from . import sed as SD
from . import grid as GR
from vcgen import npmodel as NP
from vcgen import arrays as AR

NWAVE, NHEAD = 1221, 6
HEAD = (('modelno', 0, 'i4'), ('teff', 1, 'f4'), ('logg', 2, 'f4'), ('mh', 3, 'f4'), ('vturb', 4, 'f4'), ('xh', 5, 'f4'))


def content(path):
    """the file of that name: words (symbolic number), each a decimal number; model numbers are integers"""
    words = NP.open_(path).attrs['read'].fn().words
    n = words.n
    E.assume(ge(n, NWAVE))
    E.fact((n,), lambda i: parses_float(words.item(i)))
    units = T.floordiv(sub(n, NWAVE), NWAVE + NHEAD)
    start = lambda u: add(NWAVE, mul(u, NWAVE + NHEAD))
    # a model number is written as an integer, which is also a decimal number
    E.fact((units,), lambda u: And(strpred('isint', words.item(start(u))), eq(parse_float(words.item(start(u))), real(parse_int(words.item(start(u)))))))
    num = lambda i: parse_float(words.item(i))
    info = {}
    for k, j, dt in HEAD:
        info[k] = mk((units,), (lambda u, j=j: parse_int(words.item(start(u)))) if dt == 'i4' else (lambda u, j=j: num(add(start(u), j))), dt)
    wave = mk((NWAVE,), num, 'f4')
    flux = mk((units, NWAVE), lambda u, i: num(add(add(start(u), NHEAD), i)), 'f4')
    return units, info, wave, flux


def scen_read(ctx):
    path = SStr(z3.Const('basel.file', NameSort))
    units, info, wave, flux = content(path)
    got = ctx.call('utils.read_basel', filename=path)
    if got[0] != 'ok':
        ctx.fail('read_basel', '%s %s' % (got[1].kind, got[1].msg))
        return
    r = plist_norm(got[1])
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.fail('result', 'not (info, wave, flux)')
        return
    d = r[0].d if isinstance(r[0], PDict) else {}
    for k, _, dt in HEAD:
        if k not in d:
            ctx.fail('info ' + k, 'absent')
        else:
            ctx.same('info ' + k, d[k], info[k])
    ctx.same('wavelengths', r[1], wave)
    ctx.same('fluxes', r[2], flux)


class CBasel:
    """read_basel by contract (own obligations: scen_read); the bundled files hold one model each"""

    def applicable(self, ip, f, b):
        return isinstance(b.get('filename'), (str, SStr))

    def apply(self, ip, b):
        path = b['filename']
        ip.ctx.read = getattr(ip.ctx, 'read', []) + [path]
        units, info, wave, flux = content(path)
        E.assume(eq(units, 1))
        r = flux.reader()
        return (PDict(dict(info)), wave, mk((1, NWAVE), lambda u, i: r(0, i), 'f4'))


REF = {'response.Response.project': GR.CProject(), 'utils.read_basel': CBasel()}
SUN = ('solar', 'set_solar_magnitude', 'solar_sed', 'solar_magnitude', 'lcbsun.ori', F('6.960e+10'), F(10))
VEGA = ('vega', 'set_vega2ab', 'vega_sed', 'vega2ab', 'lcbvega.ori', F('1.91144e+11'), F('7.68'))
PC, CLIGHT = F('3.086e+18'), F('2.99792e+18')


def scen_reference(spec, fresh=True):
    which, method, sed, mag, file, radius, dist = spec

    def s(ctx):
        ip = ctx.ip
        o = Inst(ip.module('kcorrect.response').env['Response'])
        o.ghost['name'] = z3.Const('band', NameSort)
        n = dim('nr', 4)
        w, r = ctx.arr('wave', (n,)), ctx.arr('response', (n,))
        o.attrs.update(wave=w, response=r, nwave=n, filename=None)
        for a in ('solar_sed', 'solar_magnitude', 'vega_sed', 'vega2ab', 'vega_magnitude', 'interp', 'lambda_eff', 'fwhm', 'fwhm_low', 'fwhm_high'):
            o.attrs[a] = None
        path = str_cat(ip.module('kcorrect').env.get('KCORRECT_DIR'), '/data/basel/', file)
        if fresh:
            units, info, bw, bf = content(path)
            rw, rf = bw.reader(), bf.reader()
            lam = lambda i: mul(rw(i), 10)
            scale = T.power(div(radius, mul(dist, PC)), 2)
            fl = lambda i: mul(div(mul(mul(mul(NP.PI(), 4), rf(0, i)), CLIGHT), mul(lam(i), lam(i))), scale)
            # precondition: the wavelengths of the model are positive
            E.fact((NWAVE,), lambda i: gt(rw(i), 0))
            nw = NWAVE
        else:
            t, trw, trf = SD.sed_object(ctx, True, nsed=1)
            nw = trw.shape[0]
            hw, hf = t.attrs['wave'].reader(), t.attrs['flux'].reader()
            lam, fl = hw, (lambda i: hf(0, i))
            o.attrs[sed] = t
        before = dict(o.attrs)
        got = ctx.outcome(lambda: ip.call(ip.getattr(o, method)))
        if not ctx.refine('returns', got, ('ok', None)):
            return
        g = o.attrs.get(sed)
        if not isinstance(g, Inst):
            ctx.fail(which + ' spectrum', 'not set')
            return
        ctx.same(which + ' wavelengths', g.attrs.get('wave'), mk((nw,), lam, 'f4'))
        ctx.same(which + ' fluxes', g.attrs.get('flux'), mk((1, nw), lambda u, i: fl(i), 'f4'))
        if fresh:
            for k in info:
                d = g.attrs.get('info')
                ctx.same('%s info %s' % (which, k), d.d.get(k) if isinstance(d, PDict) else None, info[k])
        else:
            ctx.goal('the same spectrum', g is t)
        name = SStr(o.ghost['name'])
        out = GR.apart(name, lam, nw)
        p = GR.proj(name, lam, fl, nw)
        if E.decide(gt(p, 0)):
            ctx.same('AB magnitude', o.attrs.get(mag), npscalar(mul(F(-5, 2), logv('log10', p)), 'f8'))
        else:
            ctx.same('no positive projection, no magnitude', o.attrs.get(mag), None)
        for k, v in before.items():
            if k not in (sed, mag):
                if o.attrs.get(k) is v:
                    ctx.goal('frame ' + k, True)
                else:
                    ctx.same('frame ' + k, o.attrs.get(k), v)
        ctx.unchanged()
    return s
