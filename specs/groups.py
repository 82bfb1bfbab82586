"""Which contracts decide which property: groups of verification scenarios."""
from . import basel as BA
from . import cons as CO
from . import files as FI
from . import grid as GR
from . import kc as K
from . import proj as P
from . import rejects as RJ
from . import resp as RP
from . import sed as SD
from . import utils as U

REC, FIT1, KC, ABS, DER, FITC = ('fitter.Fitter._reconstruct', 'fitter.Fitter._fit_coeffs', 'kcorrect.Kcorrect.kcorrect',
                                 'kcorrect.Kcorrect.absmag', 'kcorrect.Kcorrect.derived', 'fitter.Fitter.fit_coeffs')
ASINH = 'utils.sdss_asinh_to_maggies'


class S:
    """one scenario: a contract of a real function on symbolic arguments"""

    def __init__(self, name, fn, contracts=None, inline=(), need=('ok',), budget=150, func='', dtype='f8'):
        self.dtype = dtype
        self.name, self.fn, self.contracts, self.inline, self.need, self.budget, self.func = name, fn, contracts or {}, inline, need, budget, func


G = {}
OK2 = ('ok', 'exc')
AS = {0: 'scalar', 1: 'array'}

# ---- fitter, kcorrect ---------------------------------------------------------
G['rec'] = [S('reconstruct[%s] %s' % (w, AS[a]), K.scen_reconstruct(a, w), K.only(), need=OK2, func='Fitter._reconstruct')
            for a in (0, 1) for w in ('in', 'out')]
G['rec-fitter'] = [S('Fitter.reconstruct %s' % AS[a], K.scen_reconstruct(a, 'in', cls='Fitter'), K.only(), need=OK2, func='Fitter.reconstruct') for a in (0, 1)]
G['fit1'] = [S('_fit_coeffs', K.scen_fit1(0), K.only(), need=OK2, func='Fitter._fit_coeffs')]
G['fit'] = [S('fit_coeffs scalar', K.scen_fit(0), K.only(FIT1), need=OK2, func='Fitter.fit_coeffs'),
            S('fit_coeffs one-element array', K.scen_fit(1, n=1), K.only(FIT1), need=OK2, func='Fitter.fit_coeffs'),
            S('fit_coeffs array', K.scen_fit(1), K.only(FIT1), need=OK2, func='Fitter.fit_coeffs')]
G['mc1'] = [S('_fit_coeffs realisations', K.scen_fit_mc(0, single=True), K.only(), func='Fitter._fit_coeffs')]
G['mc'] = [S('fit_coeffs realisations scalar', K.scen_fit_mc(0), K.only(FIT1), func='Fitter.fit_coeffs'),
           S('fit_coeffs realisations one-element array', K.scen_fit_mc(1, n=1), K.only(FIT1), func='Fitter.fit_coeffs'),
           S('fit_coeffs realisations array', K.scen_fit_mc(1), K.only(FIT1), func='Fitter.fit_coeffs')]
G['kc'] = [S('kcorrect %s' % AS[a], K.scen_kcorrect(a), K.only(REC), need=OK2, func='Kcorrect.kcorrect') for a in (0, 1)]
G['abs'] = [S('absmag %s%s' % (AS[a], ' distance' if d else ''), K.scen_absmag(a, False, False, False, d), K.only(REC, KC), need=OK2, func='Kcorrect.absmag')
            for a in (0, 1) for d in (0, 1)]
G['abs-all'] = [S('absmag %s reconstruct=%d limit=%d kcorrect=%d%s' % (AS[a], r, l, k, ' distance' if d else ''), K.scen_absmag(a, r, l, k, d), K.only(REC, KC), need=OK2,
                  func='Kcorrect.absmag') for a in (0, 1) for (r, l, k, d) in ((1, 1, 1, 0), (1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 0, 0), (1, 0, 1, 0), (0, 1, 1, 0))]
G['der'] = [S('derived %s%s' % (AS[a], ' distance' if d else ''), K.scen_derived(a, d), K.only(REC), need=OK2, func='Kcorrect.derived')
            for a in (0, 1) for d in (0, 1)]
G['absmc'] = [S('absmag_mc %s reconstruct=%d kcorrect=%d' % (AS[a], r, k), K.scen_absmag_mc(a, r, k, 0), K.only(ABS), need=OK2, func='Kcorrect.absmag_mc')
              for a in (0, 1) for r in (0, 1) for k in (0, 1)]
G['absmc-d'] = [S('absmag_mc %s distance' % AS[a], K.scen_absmag_mc(a, 1, 1, 1), K.only(ABS), need=OK2, func='Kcorrect.absmag_mc') for a in (0, 1)]
G['dermc'] = [S('derived_mc %s%s' % (AS[a], ' distance' if d else ''), K.scen_derived_mc(a, d), K.only(DER), need=OK2, func='Kcorrect.derived_mc', budget=300)
              for a in (0, 1) for d in (0, 1)]
# ---- utils --------------------------------------------------------------------
G['sedab'] = [S('sed_ab', U.scen_sed_ab, func='utils.sed_ab')]
G['sdssab'] = [S('sdss_ab_correct %d-d%s%s' % (n, ' ivar' if v else '', ('', ' own offsets', ' own float32 offsets')[2 if o == 'f4' else o]), U.scen_sdss_ab(n, v, o), func='utils.sdss_ab_correct')
               for n in (1, 2, 3) for v in (0, 1) for o in (0, 1, 'f4')]
G['sdssab-rej'] = [S('sdss_ab_correct rejection', U.scen_sdss_ab_reject, need=('exc',), func='utils.sdss_ab_correct')]
G['floor'] = [S('error_floor one object, 3 bands', U.scen_error_floor(1, 3), func='utils.error_floor'),
              S('error_floor one object', U.scen_error_floor(1, 0), func='utils.error_floor'),
              S('error_floor objects', U.scen_error_floor(2, 0), func='utils.error_floor'),
              S('error_floor one object, integers', U.scen_error_floor(1, 0, 'i8'), func='utils.error_floor'),
              S('error_floor objects, integers', U.scen_error_floor(2, 0, 'i8'), func='utils.error_floor')]
G['floor-rej'] = [S('error_floor rejection', U.scen_error_floor_reject, need=('exc',), func='utils.error_floor')]
G['asinh'] = [S('sdss_asinh_to_maggies %d-d%s%s' % (n, ' error' if e else '', ' extinction' if x else ''), U.scen_asinh(n, e, x), func='utils.sdss_asinh_to_maggies')
              for n in (1, 2, 3) for e in (0, 1) for x in (0, 1)]
G['fit-asinh'] = [S('fit_coeffs_asinh %s%s abcorrect=%s' % (AS[a], ' extinction' if x else '', ab), K.scen_fit_asinh(a, x, ab), K.only(FITC, ASINH), need=OK2, budget=400,
                    func='KcorrectSDSS.fit_coeffs_asinh') for a in (0, 1) for x in (0, 1) for ab in (True, False)]
G['fit-asinh-rej'] = [S('fit_coeffs_asinh rejection', K.scen_fit_asinh_reject, K.only(FITC, ASINH), need=('exc',), func='KcorrectSDSS.fit_coeffs_asinh')]
G['asinh-rej'] = [S('sdss_asinh_to_maggies rejection', U.scen_asinh_reject, need=('exc',), func='utils.sdss_asinh_to_maggies')]
# ---- corrections to AB by class ------------------------------------------------------
CLS = (('Fitter', None), ('Kcorrect', None), ('KcorrectSDSS', 5), ('KcorrectGST', 10))
G['to_ab'] = [S('%s.to_ab %d-d%s' % (c, n, ' ivar' if v else ''), K.scen_to_ab(c, n, v), func='%s.to_ab' % c) for c, _ in CLS for n in (1, 2, 3) for v in (0, 1)]
G['to_ab'] += [S('%s.to_ab %d-d%s integers' % (c, n, ' ivar' if v else ''), K.scen_to_ab(c, n, v, 'i8'), func='%s.to_ab' % c) for c, _ in CLS for n in (1, 2) for v in (0, 1)]
G['fit-ab'] = [S('%s.fit_coeffs %s abcorrect=%s' % (c, AS[a], ab), K.scen_fit(a, cls=c, ab=ab, nb=nb, out='more' if nb else 'same'), K.only(FIT1), need=OK2, budget=500,
                 func='Fitter.fit_coeffs') for c, nb in CLS for ab in (True, False) for a in (0, 1)]
G['abs-ab'] = [S('%s.absmag %s abcorrect=%s' % (c, AS[a], ab), K.scen_absmag(a, 1, 1, 1, 0, cls=c, ab=ab, nb=nb), K.only(REC, KC), need=OK2, budget=500,
                 func='Kcorrect.absmag') for c, nb in CLS[1:] for ab in (True, False) for a in (0, 1)]
# ---- spectra and projection -----------------------------------------------------
AB = {'utils.sed_ab': P.SedAb()}
G['proj'] = [S('project %s' % w, P.scen_project(m, True), AB, budget=300, func='Response.project')
             for m, w in (('sed', 'SED'), ('arrays1', 'one spectrum'), ('arrays2', 'spectra'))]
G['proj-out'] = [S('project %s outside' % w, P.scen_project(m, False), AB, func='Response.project')
                 for m, w in (('sed', 'SED'), ('arrays1', 'one spectrum'), ('arrays2', 'spectra'))]
G['proj-lem'] = [S('project lemmas', P.scen_project_lemmas, AB, budget=300, func='Response.project'),
                 S('project rejection', P.scen_project_reject, AB, need=('exc',), func='Response.project')]
IP = {0: '', 1: ' interpolated'}
G['sed'] = ([S('SED.set_redshift%s' % IP[i], SD.scen_set_redshift(bool(i)), func='SED.set_redshift') for i in (0, 1)]
            + [S('Template.set_redshift%s' % IP[i], SD.scen_set_redshift(bool(i), 'Template'), func='SED.set_redshift') for i in (0, 1)]
            + [S('SED %d-d%s' % (d, IP[i]), SD.scen_sed_init(d, bool(i)), func='SED.__init__') for d in (1, 2) for i in (0, 1)]
            + [S('SED interpolated later', SD.scen_later_interp, func='SED.set_interp')])
GC = {'response.Response.project': GR.CProject(), 'response.ResponseDict.load_response': GR.CLoad()}
G['grid'] = [S('design matrix %s' % ('interpolated' if i else 'in groups'), GR.scen_grid(i), GC, func='Fitter._calc_Amatrix') for i in (True, False)]

C15 = {'response.ResponseDict.load_response': GR.CLoad(), 'utils.sed_ab': U.SedAb()}
G['flambda'] = [S('maggies2flambda %d-d%s' % (n, ' ivar' if v else ''), U.scen_flambda(n, v), C15, func='utils.maggies2flambda') for n in (1, 2) for v in (0, 1)]

# ---- responses: curve, registry, listing ---------------------------------------------
G['resp'] = [S('set_lambda_eff', RP.scen_lambda_eff, func='Response.set_lambda_eff'),
             S('set_fwhm', RP.scen_fwhm, budget=300, func='Response.set_fwhm'),
             S('Response', RP.scen_init, RP.REFS, budget=400, func='Response.__init__')]
G['resp-file'] = ([S('Response.fromdat %s' % h, RP.scen_fromdat(h), FI.META, need=OK2, func='Response.fromdat') for h in ('constructor', 'method', 'again')]
                  + [S('Response.fromfits' + ('', ' again')[a], RP.scen_fromfits(a), FI.META, func='Response.fromfits') for a in (0, 1)])
G['registry'] = [S('load_response reload=%s' % r, RP.scen_load(r), RP.REG, need=OK2, func='ResponseDict.load_response') for r in (None, False, True)]
G['listing'] = [S('all_responses check_validity=%s' % c, RP.scen_listing(c), RP.REG, func='all_responses') for c in (False, True)]
# ---- files ----------------------------------------------------------------------
LAY = {False: 'table', True: 'image'}
G['sed-file'] = ([S('SED saved, restored %s %s%s' % (LAY[b], 'one' if o else 'many', IP[i]), FI.scen_sed(b, o, bool(i)), func='SED.tofits')
                  for b in (False, True) for o in (True, False) for i in (0, 1)]
                 + [S('SED saved, restored by method %s' % LAY[b], FI.scen_sed(b, False, True, 'method'), func='SED.fromfits') for b in (False, True)]
                 + [S('SED saved, restored into a used object %s%s' % (LAY[b], IP[i]), FI.scen_sed(b, False, bool(i), 'again'), func='SED.fromfits') for b in (False, True) for i in (0, 1)])
G['template-file'] = [S('Template saved, restored %s %s%s' % (LAY[b], 'one' if o else 'many', IP[i]), FI.scen_template(b, o, bool(i)), func='Template.tofits')
                      for b in (False, True) for o in (True, False) for i in (0, 1)]
G['response-file'] = [S('Response saved, restored', FI.scen_response, FI.META, func='Response.tofits')]
CL = {'response.ResponseDict.load_response': GR.CLoad()}
G['kc-file'] = ([S('Kcorrect saved, restored by %s out=%s abcorrect=%s' % (h, o, ab), FI.scen_kcorrect(o, ab, h), CL, func='Kcorrect.tofits')
                 for o in ('same', 'more') for ab in (True, False) for h in ('constructor', 'method')]
                + [S('%s saved, restored abcorrect=%s' % (c, ab), FI.scen_kcorrect('more', ab, 'method', cls=c, nb=nb), CL, func='Kcorrect.tofits')
                   for c, nb in (('KcorrectSDSS', 5), ('KcorrectGST', 10)) for ab in (True, False)]
                + [S('Kcorrect saved, restored by %s image layout' % h, FI.scen_kcorrect('more', True, h, binimage=True), CL, func='Kcorrect.tofits')
                   for h in ('constructor', 'method')])
# ---- malformed input, lists ----------------------------------------------------------
_M = {m: '%s.%s' % ('Fitter' if m in ('fit_coeffs', 'reconstruct') else 'Kcorrect', m) for m in RJ.METHODS}
G['reject'] = ([S('%s %s, %s %s rejected' % (m, AS[a], g, h), RJ.scen_reject(m, bool(a), g, h), K.only(), need=('exc',), func=_M[m])
                for m in RJ.METHODS for a in (0, 1) for g in RJ.METHODS[m] for h in RJ.BAD[bool(a)]]
               + [S('%s, redshift %s%s rejected' % (m, h, ' (%s)' % AS[a] if h[0] != 'r' else ''), RJ.scen_redshift(m, h, bool(a)), K.only(), need=('exc',), func=_M[m])
                  for m in RJ.METHODS for h in ('absent', 'none', 'rank 2', 'rank 3') for a in ((0, 1) if h[0] != 'r' else (1,))]
               + [S('KcorrectSDSS.%s %s, %s %s rejected' % (m, AS[a], g, h), RJ.scen_reject(m, bool(a), g, h, 'KcorrectSDSS'), K.only(), need=('exc',), func=_M[m])
                  for m in ('fit_coeffs', 'absmag') for a in (0, 1) for g in ('maggies', 'ivar') for h in RJ.BAD[bool(a)]])
G['lists'] = [S('%s %s, lists' % (m, AS[a]), RJ.scen_lists(m, bool(a)), K.only(*c), need=OK2, func=_M[m]) for a in (0, 1) for m, c in
              (('fit_coeffs', (FIT1,)), ('reconstruct', ()), ('reconstruct_out', ()), ('kcorrect', (REC,)), ('absmag', (REC, KC)), ('derived', (REC,)))]
# ---- rows of array calls -------------------------------------------------------------
G['rows'] = [S('%s: rows are scalar calls%s' % (m, ' (distance)' if d else ''), RJ.scen_rows(m, dist=bool(d)), K.only(*c), budget=300, func=_M[m]) for m, c, ds in
             (('fit_coeffs', (FIT1,), (0,)), ('reconstruct', (), (0,)), ('reconstruct_out', (), (0,)), ('kcorrect', (REC,), (0,)), ('absmag', (REC, KC), (0, 1)),
              ('derived', (REC,), (0, 1))) for d in ds]
G['fit-lem'] = [S('the weighted problem', K.scen_fit_lemmas, K.only(), need=(), func='Fitter._fit_coeffs')]
# ---- Basel spectra -----------------------------------------------------------------
G['basel'] = [S('read_basel', BA.scen_read, func='utils.read_basel')]
G['refs'] = [S('%s%s' % (m[1], '' if f else ' again'), BA.scen_reference(m, f), BA.REF, func='Response.%s' % m[1]) for m in (BA.SUN, BA.VEGA) for f in (True, False)]
# ---- construction ----------------------------------------------------------------
G['cons'] = [S('%s %s' % (c, w), CO.scen_cons(c, **kw), CO.CONS, need=('ok', 'exc') if kw.get('out') or kw.get('mp') else ('ok',), func='%s.__init__' % c)
             for c in ('Kcorrect', 'KcorrectSDSS', 'KcorrectGST')
             for w, kw in (('defaults', {}), ('explicit', dict(explicit=True)), ('output bands', dict(out=True, explicit=True)), ('mapping', dict(mp=True, explicit=True)),
                           ('output bands, mapping', dict(out=True, mp=True)), ('output bands, mapping, explicit', dict(out=True, mp=True, explicit=True)))]


def frames(names):
    """the frame obligations of scenarios, for single and double precision arguments (single precision arrays alias in np.float32)"""
    out = []
    for g in names:
        for s in G[g]:
            for dt in ('f4', 'f8'):
                out.append(S('%s [%s]' % (s.name, {'f4': 'float32', 'f8': 'float64'}[dt]), s.fn, s.contracts, s.inline, s.need, s.budget, s.func, dt))
    return out


FRAMES = ['rec', 'rec-fitter', 'fit1', 'fit', 'mc1', 'mc', 'kc', 'abs-all', 'der', 'absmc', 'dermc', 'sdssab', 'to_ab', 'floor', 'asinh', 'fit-asinh', 'flambda', 'sedab',
          'proj', 'proj-out']
for _g in FRAMES:
    G[_g + '!frame'] = frames([_g])

PROPS = {
    'C01': ['fit1', 'fit', 'fit-lem'],
    'C02': ['rows', 'fit1', 'fit', 'rec', 'kc', 'abs-all', 'der'],
    'C03': ['rec', 'rec-fitter'],
    'C04': ['rec', 'kc'],
    'C05': ['rec', 'kc', 'abs'],
    'C06': ['rec', 'kc', 'abs-all'],
    'C07': ['rec', 'kc', 'abs', 'abs-all', 'der'],
    'C08': ['rec', 'der'],
    'C09': ['rec', 'der'],
    'C10': ['fit1', 'mc1', 'mc'],
    'C11': ['rec', 'kc', 'abs', 'abs-all', 'absmc', 'absmc-d', 'der', 'dermc'],
    'C12': ['sdssab', 'to_ab', 'fit-ab', 'abs-ab'],
    'C13': ['asinh', 'fit-asinh'],
    'C14': ['floor'],
    'C15': ['sedab', 'flambda'],
    'C16': ['proj', 'proj-out', 'proj-lem'],
    'C17': ['sed'],
    'C18': ['grid', 'sed'],
    'C19': ['resp', 'resp-file'],
    'C20': ['registry', 'listing', 'resp-file'],
    'C21': ['kc-file', 'template-file'],
    'C22': ['sed-file', 'template-file', 'response-file'],
    'C23': ['reject', 'lists', 'sdssab-rej', 'floor-rej', 'asinh-rej', 'fit-asinh-rej'],
    'C24': [g + '!frame' for g in FRAMES],
    'C25': ['cons'],
    'C26': ['basel', 'refs'],
}
