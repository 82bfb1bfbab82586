"""Contracts of saving and restoring: spectra, template sets, responses, K-correction objects."""
from .common import *
from . import sed as SD
from . import kc as K
from . import resp as RS
from vcgen import npmodel as NP
from vcgen import arrays as AR

TATTR = ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000')


def fname():
    return SStr(z3.Const('filename', NameSort))


def restored(ctx, o, rw, rf, interp, prefix):
    """the rest-frame spectrum at redshift zero"""
    SD.state(ctx, o, rw, rf, F(0), interp, prefix)
    ctx.same(prefix + 'number of spectra', o.attrs.get('nsed'), rf.shape[0])
    ctx.same(prefix + 'number of wavelengths', o.attrs.get('nwave'), rw.shape[0])


def scen_sed(binimage, one, interp, how='constructor'):
    def s(ctx):
        ip = ctx.ip
        o, rw, rf = SD.sed_object(ctx, False, nsed=1 if one else None)
        o.attrs['binimage'] = binimage
        fn = fname()
        got = ctx.outcome(lambda: ip.call(ip.getattr(o, 'tofits'), (), dict(filename=fn)))
        if not ctx.refine('tofits', got, ('ok', None)):
            return
        C = ip.module('kcorrect.template').env['SED']
        if how == 'constructor':
            got = ctx.outcome(lambda: ip.call(C, (), dict(filename=fn, interpolate=interp)))
        else:
            def go():
                r = ip.call(C, (), dict(interpolate=interp))
                if how == 'again':       # the object holds another spectrum, at another redshift
                    n2, z2 = dim('nw_before', 2), z3.Real('z_restored_before')
                    w2, f2 = sym_array('wave_before', (n2,)), sym_array('flux_before', (2, n2))
                    r.attrs.update(wave=w2, restframe_wave=sym_array('rwave_before', (n2,)), flux=f2, restframe_flux=sym_array('rflux_before', (2, n2)), nwave=n2, nsed=2,
                                   redshift=npscalar(z2, 'f8'), filename=None, interp=SD.cubic0(w2, f2) if interp else None)
                ip.call(ip.getattr(r, 'fromfits'), (), dict(filename=fn))
                return r
            got = ctx.outcome(go)
        if got[0] != 'ok':
            ctx.fail('restore', '%s %s' % (got[1].kind, got[1].msg))
            return
        restored(ctx, got[1], rw, rf, interp, 'restored: ')
        ctx.goal('restored: layout', eq(T.truth(got[1].attrs['binimage']), binimage))
        ctx.unchanged()
    return s


def template_object(ctx, binimage=False, one=False, m=None):
    o, rw, rf = SD.sed_object(ctx, False, cls='Template', nsed=1 if one else None)
    o.attrs['binimage'] = binimage
    for a in TATTR:
        o.attrs[a] = ctx.arr(a, (rf.shape[0],))
    return o, rw, rf


def scen_template(binimage, one, interp):
    def s(ctx):
        ip = ctx.ip
        o, rw, rf = template_object(ctx, binimage, one)
        fn = fname()
        got = ctx.outcome(lambda: ip.call(ip.getattr(o, 'tofits'), (), dict(filename=fn)))
        if not ctx.refine('tofits', got, ('ok', None)):
            return
        C = ip.module('kcorrect.template').env['Template']
        got = ctx.outcome(lambda: ip.call(C, (), dict(filename=fn, interpolate=interp)))
        if got[0] != 'ok':
            ctx.fail('restore', '%s %s' % (got[1].kind, got[1].msg))
            return
        t = got[1]
        restored(ctx, t, rw, rf, interp, 'restored: ')
        for a in TATTR:
            ctx.same('restored: ' + a, t.attrs.get(a), o.attrs[a])
        ctx.unchanged()
    return s


def scen_response(ctx):
    ip = ctx.ip
    o, w, r, n = RS.curve_object(ctx)
    fn = fname()
    got = ctx.outcome(lambda: ip.call(ip.getattr(o, 'tofits'), (), dict(filename=fn)))
    if not ctx.refine('tofits', got, ('ok', None)):
        return
    C = ip.module('kcorrect.response').env['Response']

    def go():
        q = ip.call(C)
        RS.held_before(ctx, q)
        ip.call(ip.getattr(q, 'fromfits'), (), dict(filename=fn))
        return q
    got = ctx.outcome(go)
    if got[0] != 'ok':
        ctx.fail('restore', '%s %s' % (got[1].kind, got[1].msg))
        return
    q = got[1]
    ctx.same('restored: wavelengths', q.attrs.get('wave'), w)
    ctx.same('restored: response', q.attrs.get('response'), r)
    ctx.same('restored: number of samples', q.attrs.get('nwave'), n)
    # the metadata of equal curves are equal: specs/resp.py
    SD.check_interp(ctx, 'restored: interpolator', q.attrs.get('interp'), q.attrs['wave'], q.attrs['response'])
    ctx.unchanged()


class CMeta:
    """Response._setup by contract: the interpolator of the curve and metadata, functions of the curve (their obligations: specs/resp.py)"""

    def applicable(self, ip, f, b):
        return True

    def apply(self, ip, b):
        o = b['self']
        ip.setattr(o, 'interp', SD.cubic0(ip.getattr(o, 'wave'), ip.getattr(o, 'response')))
        for a in ('lambda_eff', 'solar_magnitude', 'vega2ab', 'fwhm', 'fwhm_low', 'fwhm_high'):
            ip.setattr(o, a, npscalar(E.fresh('meta', R), 'f8'))


META = {'response.Response._setup': CMeta()}


# ---- a K-correction object ------------------------------------------------------------
def table_itp(name, zs, nz, nb, nt):
    """linear interpolator of an arbitrary table over the redshift grid"""
    tab = z3.Function('table.' + name, I, I, I, R)
    o = NP.interp1d(zs, mk((nz, nb, nt), lambda i, b, t: tab(z(i), z(b), z(t)), 'f8'), axis=0)
    return o, tab


def names_same(ctx, label, got, want):
    """two lists of names"""
    got = plist_norm(got)
    if is_arr(got):
        r = got.reader()
        got = SymList(got.shape[0], lambda i: r(i))
    ctx.same(label, got, want)


def scen_kcorrect(out, ab, how, cls='Kcorrect', nb=None, binimage=False):
    """an object in an arbitrary state of the constructor's making, saved and restored"""
    def s(ctx):
        ip = ctx.ip
        w = K.World(ctx)
        ip.disk = lambda p: None
        C = ip.module('kcorrect.kcorrect').env[cls]
        tm, rw, rf = template_object(ctx, binimage)
        nt = rf.shape[0]
        n1 = nb if nb is not None else dim('nb', 1)
        names = w.names('band', n1)
        if out == 'same':
            n2, outn, mapn = n1, names, names
        else:
            n2 = dim('nbo', 1)
            outn = w.names('bandout', n2)
            mf = z3.Function('mapidx', I, I)
            E.fact((n2,), lambda j: And(mf(z(j)) >= 0, lt(mf(z(j)), n1)))
            mapn = SymList(n2, lambda j: K.item_name(names, mf(z(j))))
        nz = dim('nz', 2)
        lo, hi = w.lo, w.hi
        step = div(sub(hi, lo), sub(nz, 1))
        zs = mk((nz,), lambda i: add(lo, mul(step, real(i))), 'f4')
        E.fact((nz, nz), lambda i, j: Implies(lt(i, j), lt(zs.read((i,)), zs.read((j,)))))
        A1, t1 = table_itp('in', zs, nz, n1, nt)
        A2, t2 = table_itp('out', zs, nz, n2, nt) if out != 'same' else (A1, t1)
        A1.ghost['increasing'] = A2.ghost['increasing'] = True
        k = Inst(C)
        k.attrs.update(responses=names, responses_out=outn, responses_map=mapn, templates=tm, nredshift=nz, abcorrect=ab,
                       redshift_range=mk((2,), lambda i: If(eq(i, 0), lo, hi), 'f4'), redshifts=zs, Amatrix=A1, AmatrixOut=A2,
                       imap=mk((n2,), lambda j: z3.Function('imap', I, I)(z(j)), 'i8'), cosmo=ip.getattr(ip.module('astropy.cosmology'), 'Planck18'))
        fn = fname()
        got = ctx.outcome(lambda: ip.call(ip.getattr(k, 'tofits'), (), dict(filename=fn)))
        if not ctx.refine('tofits', got, ('ok', None)):
            return
        if how == 'constructor':
            got = ctx.outcome(lambda: ip.call(C, (), dict(filename=fn)))
        else:
            def go():
                other = Inst(C)
                other.attrs.update(k.attrs)
                other.attrs.update(responses=PList([]), responses_out=PList([]), responses_map=PList([]), templates=None, abcorrect=not ab, imap=None, Amatrix=None, AmatrixOut=None)
                ip.call(ip.getattr(other, 'fromfits'), (), dict(filename=fn))
                return other
            got = ctx.outcome(go)
        if got[0] != 'ok':
            ctx.fail('restore', '%s %s' % (got[1].kind, got[1].msg))
            return
        q = got[1].attrs
        names_same(ctx, 'bands', q.get('responses'), names)
        names_same(ctx, 'output bands', q.get('responses_out'), outn)
        names_same(ctx, 'mapping', q.get('responses_map'), mapn)
        ctx.same('number of redshifts', q.get('nredshift'), nz)
        ctx.same('redshift range', q.get('redshift_range'), k.attrs['redshift_range'])
        ctx.same('redshift grid', q.get('redshifts'), zs)
        ab2 = q.get('abcorrect')
        ab2 = T.truth(ab2.item() if is_arr(ab2) else ab2)
        ctx.goal('abcorrect', ab2 if ab else Not(ab2))
        t = q.get('templates')
        if not isinstance(t, Inst):
            ctx.fail('templates', 'missing')
            return
        restored(ctx, t, rw, rf, False, 'templates: ')
        for a in TATTR:
            ctx.same('templates: ' + a, t.attrs.get(a), tm.attrs[a])
        for nm, A, tab, m in (('Amatrix', q.get('Amatrix'), t1, n1), ('AmatrixOut', q.get('AmatrixOut'), t2, n2)):
            if not isinstance(A, Inst) or 'itp' not in A.ghost:
                ctx.fail(nm, 'not an interpolator of a table')
                continue
            d = A.ghost['itp']
            ctx.goal(nm + ': linear over the redshifts', d['kind'] == 'linear' and d['axis'] == 0 and A.ghost['err'] is True)
            ctx.same(nm + ': grid', d['x'], zs)
            ctx.same(nm + ': table', d['y'], mk((nz, m, nt), lambda i, b, tt: tab(z(i), z(b), z(tt)), 'f8'))
        # the index map is that of the constructor
        im = q.get('imap')
        check_imap(ctx, im, names, mapn, n1, n2)
        # the bands are loaded
        for nm, lst, m in (('input', names, n1), ('output', outn, n2)):
            if is_sym(m):
                for ix, h in ctx.index((m,)):
                    # the place of the name in the lists one after the other
                    h = h + [eq(E.fresh('sk!h'), add(n1, ix[0])), eq(E.fresh('sk!h'), add(n2, ix[0]))]
                    ctx.goal('%s bands are loaded' % nm, NP.symhas(ip, w.rdict.data, K.item_name(lst, ix[0])), h)
            else:
                ctx.goal('%s bands are loaded' % nm, And(*[NP.symhas(ip, w.rdict.data, K.item_name(lst, i)) for i in range(m)]))
        c = q.get('cosmo')
        if how == 'constructor':
            ctx.goal('cosmology', c is k.attrs['cosmo'])
        ctx.unchanged()
    return s


def check_imap(ctx, im, names, mapn, n1, n2):
    """imap[j] is the first input band named by the mapping"""
    if not is_arr(im) or im.ndim != 1:
        ctx.fail('imap', 'not an array')
        return
    ctx.goal('imap: one entry per output band', eq(im.shape[0], n2))
    r = im.reader()
    for ix, h in ctx.index((n2,)):
        i = r(ix[0])
        ctx.goal('imap: in range', And(ge(i, 0), lt(i, n1)), h)
        ctx.goal('imap: names the mapped band', str_eq(K.item_name(names, i), K.item_name(mapn, ix[0])), h + literal_facts())
        sk = E.fresh('sk!first')
        ctx.goal('imap: the first of that name', Not(str_eq(K.item_name(names, sk), K.item_name(mapn, ix[0]))), h + [sk >= 0, lt(sk, i)] + literal_facts())
