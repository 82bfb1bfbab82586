"""Contract of the constructors: bands, mapping, matrices, defaults."""
from .common import *
from . import kc as K
from . import files as FI
from vcgen import npmodel as NP

BANDS = {'KcorrectSDSS': ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0'],
         'KcorrectGST': ['galex_FUV', 'galex_NUV', 'sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0', 'twomass_J', 'twomass_H', 'twomass_Ks']}
ABDEFAULT = {'Kcorrect': False, 'KcorrectSDSS': True, 'KcorrectGST': False}


class CTemplate:
    """Template.__init__ by contract: the template set of a file (its obligations: specs/files.py)"""

    def applicable(self, ip, f, b):
        return True

    def apply(self, ip, b):
        o = b['self']
        t = ip.ctx.world.templates(interpolate=b.get('interpolate'))
        o.attrs.update(t.attrs)
        o.attrs['filename'] = b.get('filename')


CONS = dict(K.CALLEES)
CONS['template.Template.__init__'] = CTemplate()


def scen_cons(cls, out=False, mp=False, explicit=False, nb=None):
    """cls: class; out, mp: output bands and mapping given; explicit: every other setting given"""
    def s(ctx):
        ip = ctx.ip
        w = K.World(ctx)
        ctx.world = w
        C = ip.module('kcorrect.kcorrect').env[cls]
        kw = {}
        own = cls in BANDS and not explicit
        if own:
            names = PList(list(BANDS[cls]))
        else:
            names = kw['responses'] = w.names('band', nb if nb is not None else dim('nb', 1))
        n1 = K.list_len(names)
        outn, mapn = names, names
        if out:
            outn = kw['responses_out'] = w.names('bandout', dim('nbo', 1))
        if mp:
            mapn = kw['responses_map'] = w.names('bandmap', dim('nbm', 1))
        lo, hi, nz, ab = F(0), F(2), 4000, ABDEFAULT[cls]
        cosmo = ip.getattr(ip.module('astropy.cosmology'), 'Planck18')
        tm = None
        if explicit:
            lo, hi, nz, ab = w.lo, w.hi, dim('nz', 2), not ab
            cosmo = ip.getattr(ip.module('astropy.cosmology'), 'WMAP9')
            tm = w.templates()
            kw.update(templates=tm, redshift_range=w.zrange(), nredshift=nz, abcorrect=ab, cosmo=cosmo)
        n2, n3 = K.list_len(outn), K.list_len(mapn)
        bad = Or(Not(eq(n2, n3)), E.exists((n3,), lambda j: Not(E.exists((n1,), lambda i: str_eq(K.item_name(names, i), K.item_name(mapn, j))))) if mp else False)
        want_exc = E.decide(bad) if (out or mp) else False
        got = ctx.outcome(lambda: ip.call(C, (), kw))
        if want_exc:
            ctx.goal('bad mapping raises ValueError', got[0] == 'exc' and exc_isa(got[1].kind, 'ValueError'), detail=str(got[1].msg) if got[0] == 'exc' else 'returned')
            return
        if got[0] != 'ok':
            ctx.fail('constructor', '%s %s' % (got[1].kind, got[1].msg))
            return
        k = got[1]
        q = k.attrs
        FI.names_same(ctx, 'bands', q.get('responses'), names)
        FI.names_same(ctx, 'output bands', q.get('responses_out'), outn)
        FI.names_same(ctx, 'mapping', q.get('responses_map'), mapn)
        FI.check_imap(ctx, q.get('imap'), names, mapn, n1, n2)
        v = q.get('abcorrect')
        v = T.truth(v.item() if is_arr(v) else v)
        ctx.goal('abcorrect', v if ab else Not(v))
        ctx.same('number of redshifts', q.get('nredshift'), nz)
        ctx.same('redshift range', q.get('redshift_range'), mk((2,), lambda i: If(eq(i, 0), lo, hi), 'f4'))
        ctx.same('redshift grid', q.get('redshifts'), mk((nz,), lambda i: add(lo, mul(div(sub(hi, lo), sub(nz, 1)), real(i))), 'f4'))
        ctx.goal('cosmology', q.get('cosmo') is cosmo)
        t = q.get('templates')
        if explicit:
            ctx.goal('templates', t is tm)
        else:
            f = t.attrs.get('filename') if isinstance(t, Inst) else None
            ok = isinstance(f, (str, SStr))
            ctx.goal('version 4 templates', And(NP.endswith(f, '/data/templates/kcorrect-default-v4.fits')) if ok else False)
            ctx.goal('interpolated templates', t.attrs.get('interpolate') is True if ok else False)
        z0 = z3.Real('zq')
        E.assume(And(z0 >= zr(lo), z0 <= zr(hi)))
        for nm, lst, m in (('Amatrix', names, n1), ('AmatrixOut', outn, n2)):
            A = q.get(nm)
            if not isinstance(A, Inst) or 'call' not in A.ghost:
                ctx.fail(nm, 'not a matrix function')
                continue
            ctx.refine(nm, ctx.outcome(lambda: A.ghost['call'](npscalar(z0, 'f8')), tag=False),
                       ('ok', mk((m, w.nt), lambda b, tt: K.AMF(strterm(K.item_name(lst, b)), z0, z(tt)), 'f8')))
    return s
