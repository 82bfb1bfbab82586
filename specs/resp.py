"""Contracts of kcorrect.response.Response: construction and metadata of a response curve."""
from .common import *
from . import sed as SD
from . import kc as K
from .utils import SedAb
from vcgen import npmodel as NP
from vcgen import arrays as AR


class CRef:
    """Response.set_solar_magnitude / set_vega2ab by contract: attributes of their own only (their obligations: scen_reference)"""

    def __init__(self, sed, mag):
        self.sed, self.mag = sed, mag

    def applicable(self, ip, f, b):
        return True

    def apply(self, ip, b):
        ip.setattr(b['self'], self.sed, Inst(None))
        ip.setattr(b['self'], self.mag, npscalar(E.fresh('ref', R), 'f8'))


class CFwhm:
    """Response.set_fwhm_limits by contract (own obligations: scen_fwhm). Requires a strictly increasing curve with an interpolator that is its
    cubic spline; the limits it sets are functions of that curve, so the ghost names the curve"""

    def applicable(self, ip, f, b):
        a = b['self'].attrs
        w, it = a.get('wave'), a.get('interp')
        if not is_arr(w) or w.ndim != 1 or not isinstance(it, Inst) or 'call' not in it.ghost:
            return False
        n, r = w.shape[0], w.reader()
        i, j = E.fresh('sk!i'), E.fresh('sk!j')
        return E.prove(Implies(And(i >= 0, i < z(j), lt(j, n)), lt(r(i), r(j))))[0] == 'proved'

    def apply(self, ip, b):
        o = b['self']
        vals = [npscalar(E.fresh('fwhm', R), 'f8') for _ in range(3)]
        o.ghost['fwhm'] = (o.attrs['wave'], o.attrs['interp'], vals)
        for k, v in zip(('fwhm_low', 'fwhm_high', 'fwhm'), vals):
            ip.setattr(o, k, v)


REFS = {'response.Response.set_fwhm_limits': CFwhm(), 'response.Response.set_solar_magnitude': CRef('solar_sed', 'solar_magnitude'), 'response.Response.set_vega2ab': CRef('vega_sed', 'vega2ab')}


def distinct_positive(w, n):
    """precondition: wavelengths are positive and no two samples share one"""
    r = w.reader()
    E.fact((n,), lambda i: gt(r(i), 0))
    E.fact((n, n), lambda i, j: Implies(Not(eq(i, j)), Not(eq(r(i), r(j)))))


def sum_nonneg(ctx, label, n, parts, strict=None):
    """induction over a sum: terms >= 0 give a sum >= 0 (> 0 if term `strict` is)"""
    t = lambda i: total(p(i) for p in parts)
    sk = E.fresh('sk!s')
    st = ctx.goal('lemma %s: terms' % label, ge(t(sk), 0), [sk >= 0, lt(sk, n)])
    if st != 'proved':
        return
    s = total(E.sum(n, p) for p in parts)
    E.assume(ge(s, 0))
    if strict is not None and ctx.goal('lemma %s: a positive term' % label, And(ge(strict, 0), lt(strict, n), gt(t(strict), 0))) == 'proved':
        E.assume(gt(s, 0))


def total(it):
    r = F(0)
    for x in it:
        r = add(r, x)
    return r


def metadata(ctx, o, w, r, n, prefix=''):
    """postcondition of _setup for the stored curve (w, r), strictly increasing"""
    ip = ctx.ip
    a = o.attrs
    rw, rr = w.reader(), r.reader()
    SD.check_interp(ctx, prefix + 'interpolator', a.get('interp'), w, r)
    # effective wavelength
    lw = lambda k: logv('ln', rw(k))
    cell = lambda f: (lambda k: mul(div(sub(rw(add(k, 1)), rw(k)), 2), add(f(add(k, 1)), f(k))))
    m = sub(n, 1)
    num = E.sum(m, cell(lambda k: div(mul(lw(k), rr(k)), rw(k))))
    den = E.sum(m, cell(lambda k: div(rr(k), rw(k))))
    leff = a.get('lambda_eff')
    ctx.same(prefix + 'effective wavelength', leff, npscalar(T.expv(div(num, den)), 'f8'))


def increasing_facts(w, n):
    E.assume(And(lt(w.read((0,)), w.read((1,))), lt(w.read((sub(n, 2),)), w.read((sub(n, 1),))), lt(w.read((0,)), w.read((sub(n, 1),)))))


def stored(ctx, got, w, r, n, prefix=''):
    """the samples, sorted by wavelength"""
    ix = NP.argsort(w)
    want_w, want_r = AR.getitem(w, ix), AR.getitem(r, ix)
    ctx.same(prefix + 'stored wavelengths', got.attrs.get('wave'), want_w)
    ctx.same(prefix + 'stored response', got.attrs.get('response'), want_r)
    ctx.same(prefix + 'number of samples', got.attrs.get('nwave'), n)
    gw, gr = got.attrs.get('wave'), got.attrs.get('response')
    if not is_arr(gw) or not is_arr(gr) or gw.ndim != 1 or gr.ndim != 1:
        ctx.fail(prefix + 'stored curve', 'not arrays')
        return None
    a, b = gw.reader(), gr.reader()
    rw, rr = w.reader(), r.reader()
    ctx.lemma(prefix + 'stored wavelengths increase', (n, n), lambda i, j: Implies(lt(i, j), lt(a(i), a(j))))
    e, args = NP.sortentry(w)
    pos = lambda i: E.app(e, 'r', args, [i])
    sk = E.fresh('sk!p')
    ctx.goal(prefix + 'every sample is kept with its own value', And(ge(pos(sk), 0), lt(pos(sk), n), eq(a(pos(sk)), rw(sk)), eq(b(pos(sk)), rr(sk))), [sk >= 0, lt(sk, n)])
    return gw, gr


def scen_init(ctx):
    ip = ctx.ip
    n = dim('nr', 4)
    w, r = ctx.arr('wave', (n,)), ctx.arr('response', (n,))
    distinct_positive(w, n)
    # precondition: the curve is positive somewhere
    ix = NP.argsort(w)
    sw, sr = AR.getitem(w, ix), AR.getitem(r, ix)
    it = SD.cubic0(sw, sr).ghost['call']
    v = it(sw)
    mx = NP.extreme(1)(v).item()
    E.assume(gt(mx, 0))
    rv = v.reader()
    got = ctx.call('response.Response', wave=w, response=r)
    if got[0] != 'ok':
        ctx.fail('constructor', '%s %s' % (got[1].kind, got[1].msg))
        return
    o = got[1]
    c = stored(ctx, o, w, r, n)
    if c is not None:
        metadata(ctx, o, c[0], c[1], n)
        if 'fwhm' in o.ghost:      # set by contract: for the stored curve, and not overwritten
            gw, gi, vals = o.ghost['fwhm']
            ctx.same('limits of the stored curve: wavelengths', gw, c[0])
            SD.check_interp(ctx, 'limits of the stored curve: interpolator', gi, c[0], c[1])
            for k, v in zip(('fwhm_low', 'fwhm_high', 'fwhm'), vals):
                ctx.same('limits: ' + k, o.attrs.get(k), v)
        else:
            fwhm_goals(ctx, o, sw, n, it, mx, lambda k: div(rv(k), mx))
    ctx.unchanged()


def curve_object(ctx, nonneg=False):
    """a response with a strictly increasing curve"""
    o = Inst(ctx.ip.module('kcorrect.response').env['Response'])
    n = dim('nr', 4)
    w, r = ctx.arr('wave', (n,)), ctx.arr('response', (n,))
    rw, rr = w.reader(), r.reader()
    E.fact((n,), lambda i: gt(rw(i), 0))
    E.fact((n, n), lambda i, j: Implies(lt(i, j), lt(rw(i), rw(j))))
    increasing_facts(w, n)
    if nonneg:
        E.fact((n,), lambda i: ge(rr(i), 0))
    o.attrs.update(wave=w, response=r, nwave=n, filename=None)
    o.attrs['interp'] = SD.cubic0(w, r)
    for a in ('solar_sed', 'solar_magnitude', 'vega_sed', 'vega_magnitude', 'lambda_eff', 'fwhm', 'fwhm_low', 'fwhm_high'):
        o.attrs[a] = None
    return o, w, r, n


def frame_attrs(ctx, o, before, but):
    """the call set no attribute other than its own"""
    for k, v in before.items():
        if k in but:
            continue
        w = o.attrs.get(k)
        if k == 'interp' and w is not v:
            SD.check_interp(ctx, 'frame interp', w, before['wave'], before['response'])
        elif w is not v:
            ctx.same('frame ' + k, w, v)
        else:
            ctx.goal('frame ' + k, True)


def scen_lambda_eff(ctx):
    """the effective wavelength of a nonnegative curve lies inside its wavelength range"""
    o, w, r, n = curve_object(ctx, nonneg=True)
    rw, rr = w.reader(), r.reader()
    j = z3.Int('jpos')
    E.assume(And(j >= 0, lt(j, n), gt(rr(j), 0)))
    before = dict(o.attrs)
    got = ctx.outcome(lambda: ctx.ip.call(ctx.ip.getattr(o, 'set_lambda_eff')))
    if not ctx.refine('returns', got, ('ok', None)):
        return
    m = sub(n, 1)
    lw = lambda k: logv('ln', rw(k))
    q = lambda k: div(rr(k), rw(k))
    dw = lambda k: div(sub(rw(add(k, 1)), rw(k)), 2)
    L, H = lw(0), lw(sub(n, 1))
    ctx.lemma('smallest and largest logarithm', (n,), lambda k: And(le(L, lw(k)), le(lw(k), H)))
    ctx.lemma('weights', (n,), lambda k: ge(q(k), 0))
    ctx.lemma('steps', (m,), lambda k: gt(dw(k), 0))
    cell = lambda f: (lambda k: mul(dw(k), add(f(add(k, 1)), f(k))))
    num = E.sum(m, cell(lambda k: mul(lw(k), q(k))))
    den = E.sum(m, cell(q))
    sum_nonneg(ctx, 'denominator', m, [cell(q)], strict=If(lt(j, m), j, sub(m, 1)))
    # the two halves of each trapezoid, times a constant
    half = lambda c: [lambda k: mul(c, mul(dw(k), q(add(k, 1)))), lambda k: mul(c, mul(dw(k), q(k)))]
    sum_nonneg(ctx, 'above the low end', m, [cell(lambda k: mul(lw(k), q(k)))] + half(neg(L)))
    sum_nonneg(ctx, 'below the high end', m, [cell(lambda k: neg(mul(lw(k), q(k))))] + half(H))
    x = div(num, den)
    ctx.same('effective wavelength', o.attrs['lambda_eff'], npscalar(T.expv(x), 'f8'))
    ctx.goal('its logarithm is inside the range', And(le(mul(L, den), num), le(num, mul(H, den))))
    frame_attrs(ctx, o, before, ('lambda_eff',))
    ctx.unchanged()


def scen_fwhm(ctx):
    ip = ctx.ip
    o, w, r, n = curve_object(ctx)
    rw = w.reader()
    it = o.attrs['interp'].ghost['call']
    v = it(w)
    mx = NP.extreme(1)(v).item()
    E.assume(gt(mx, 0))
    rv = v.reader()
    norm = lambda k: div(rv(k), mx)
    before = dict(o.attrs)
    got = ctx.outcome(lambda: ip.call(ip.getattr(o, 'set_fwhm_limits')))
    if not ctx.refine('returns', got, ('ok', None)):
        return
    fwhm_goals(ctx, o, w, n, it, mx, norm)
    frame_attrs(ctx, o, before, ('fwhm', 'fwhm_low', 'fwhm_high'))
    ctx.unchanged()


def fwhm_goals(ctx, o, w, n, it, mx, norm):
    rw = w.reader()
    half = F(1, 2)
    at = lambda x: div(it(npscalar(x, 'f8')).item(), mx)
    lo, hi, wd = [val(o.attrs.get(k)) for k in ('fwhm_low', 'fwhm_high', 'fwhm')]
    if lo is None or hi is None or wd is None:
        ctx.fail('limits set', '')
        return
    above = AR.make_sel(mk((n,), lambda k: gt(norm(k), half), 'b'))
    i0 = above.pos(0)[0]
    ctx.goal('some sample is above half the maximum', gt(above.cnt, 0))
    ctx.goal('low limit at the end of the curve', Implies(eq(i0, 0), eq(lo, rw(0))))
    ctx.goal('low limit in the first rising interval', Implies(gt(i0, 0), And(ge(lo, rw(sub(i0, 1))), le(lo, rw(i0)))))
    ctx.goal('low limit at half the maximum', Implies(gt(i0, 0), eq(at(lo), half)))
    ctx.lemma('nothing above half before it', (n,), lambda k: Implies(lt(k, i0), le(norm(k), half)))
    atl = AR.make_sel(mk((n,), lambda k: ge(norm(k), half), 'b'))
    i1 = atl.pos(sub(atl.cnt, 1))[0]
    last = sub(n, 1)
    ctx.goal('high limit at the end of the curve', Implies(eq(i1, last), eq(hi, rw(last))))
    ctx.goal('high limit in the last falling interval', Implies(lt(i1, last), And(ge(hi, rw(i1)), le(hi, rw(add(i1, 1))))))
    ctx.goal('high limit at half the maximum', Implies(lt(i1, last), eq(at(hi), half)))
    ctx.lemma('nothing at half after it', (n,), lambda k: Implies(gt(k, i1), lt(norm(k), half)))
    ctx.goal('width is the difference', eq(wd, sub(hi, lo)))


def val(x):
    return x.item() if is_arr(x) and x.ndim == 0 else (x if is_num(x) else None)


# ---- files ---------------------------------------------------------------------------
def dat_path(ip, name):
    """where fromdat looks: absolute names as they are, others in the responses directory"""
    d = ip.module('kcorrect').env.get('KCORRECT_DIR')
    if E.decide(NP.isabs_(name)):
        return name
    return str_cat(d, '/data/responses/', name)


def held_before(ctx, o):
    """the object held another curve"""
    n = dim('nr_before', 4)
    w, r = sym_array('wave_before', (n,)), sym_array('response_before', (n,))
    o.attrs.update(wave=w, response=r, nwave=n, lambda_eff=npscalar(z3.Real('leff_before'), 'f8'), interp=SD.cubic0(w, r), filename=None)
    for a in ('fwhm', 'fwhm_low', 'fwhm_high', 'solar_magnitude', 'vega2ab'):
        o.attrs[a] = npscalar(z3.Real(a + '_before'), 'f8')


def scen_fromdat(how):
    """a response read from a file in any order"""
    def s(ctx):
        ip = ctx.ip
        n = dim('nr', 4)
        w, r = ctx.arr('wave', (n,)), ctx.arr('response', (n,))
        distinct_positive(w, n)
        fn = SStr(z3.Const('filename', NameSort))
        path = dat_path(ip, fn)
        seen = []

        def readtable(p, fmt):
            seen.append((p, fmt))
            return NP.Rec(n, {'lambda': w, 'pass': r})
        ip.readtable = readtable
        C = ip.module('kcorrect.response').env['Response']
        there = E.decide(ip.fs('exists', path))

        def go():
            if how == 'constructor':
                return ip.call(C, (), dict(filename=fn))
            o = ip.call(C)
            if how == 'again':
                held_before(ctx, o)
            ip.call(ip.getattr(o, 'fromdat'), (), dict(filename=fn))
            return o
        got = ctx.outcome(go)
        if not there:
            ctx.goal('missing file raises ValueError', got[0] == 'exc' and exc_isa(got[1].kind, 'ValueError'))
            ctx.goal('nothing read', not seen)
            return
        if got[0] != 'ok':
            ctx.fail('fromdat', '%s %s' % (got[1].kind, got[1].msg))
            return
        ctx.goal('one file read', len(seen) == 1)
        ctx.goal('fixed width table', seen[0][1] in ('fixed_width', 'ascii.fixed_width') if seen else False)
        ctx.goal('the file of that name', str_eq(seen[0][0], path) if seen else False)
        c = stored(ctx, got[1], w, r, n)
        if c is not None:
            SD.check_interp(ctx, 'interpolator', got[1].attrs.get('interp'), c[0], c[1])
        ctx.unchanged()
    return s


def scen_fromfits(again):
    """a response read from a FITS table in any order, into a new object or one in use"""
    def s(ctx):
        from vcgen import fitsmodel as FM
        ip = ctx.ip
        n = dim('nr', 4)
        w, r = ctx.arr('wave', (n,)), ctx.arr('response', (n,))
        distinct_positive(w, n)
        a, b = w.reader(), r.reader()
        fn = SStr(z3.Const('filename', NameSort))
        rec = NP.Rec(1, {'wave': mk((1, n), lambda i, k: a(k), 'f8'), 'response': mk((1, n), lambda i, k: b(k), 'f8')})
        ip.disk = lambda p: [FM.H('primary', 'PRIMARY'), FM.H('table', '', rec)] if str_eq(p, fn) is True else None
        C = ip.module('kcorrect.response').env['Response']

        def go():
            o = ip.call(C)
            if again:
                held_before(ctx, o)
            ip.call(ip.getattr(o, 'fromfits'), (), dict(filename=fn))
            return o
        got = ctx.outcome(go)
        if got[0] != 'ok':
            ctx.fail('fromfits', '%s %s' % (got[1].kind, got[1].msg))
            return
        c = stored(ctx, got[1], w, r, n)
        if c is not None:
            SD.check_interp(ctx, 'interpolator', got[1].attrs.get('interp'), c[0], c[1])
        ctx.unchanged()
    return s


# ---- registry ---------------------------------------------------------------------
class CFromdat:
    """Response.fromdat by contract (own obligations: scen_fromdat): reads the named file, or raises"""

    def applicable(self, ip, f, b):
        return isinstance(b.get('filename'), (str, SStr))

    def apply(self, ip, b):
        fn, o = b['filename'], b['self']
        if not E.decide(strpred('there', fn)):
            raise PyExc('ValueError', 'No response file')
        if not E.decide(strpred('readable', fn)):
            raise PyExc('KeyError', 'lambda')
        self.fill(ip, o, fn)

    def fill(self, ip, o, fn):
        o.ghost['path'] = fn
        o.ghost['bykey'] = lambda k: Inst(o.cls)
        for a in ('wave', 'response', 'interp', 'lambda_eff', 'nwave', 'fwhm'):
            ip.setattr(o, a, Inst(None))


REG = {'response.Response.fromdat': CFromdat()}


def registry(ctx):
    """a registry after any history: which names are loaded and which object each name has are arbitrary"""
    ip = ctx.ip
    M = ip.module('kcorrect.response')
    C = M.env['ResponseDict']
    d = ip.call(C)
    objs = {}

    def get(k):
        t = strterm(k).sexpr()
        if t not in objs:
            o = objs[t] = Inst(M.env['Response'])
            o.ghost['entry'] = k
            o.ghost['bykey'] = get
        return objs[t]
    d.data = SymDict(lambda k: strpred('loaded', k), get)
    return C, d, get


def scen_load(reload):
    def s(ctx):
        ip = ctx.ip
        C, d, get = registry(ctx)
        name, other = SStr(z3.Const('name', NameSort)), SStr(z3.Const('other', NameSort))
        E.assume(Not(str_eq(name, other)))
        had = E.decide(strpred('loaded', name))
        had2 = E.decide(strpred('loaded', other))
        fn = str_cat(name, '.dat')
        ok = E.decide(And(strpred('there', fn), strpred('readable', fn)))
        h = ip.call(C)
        kw = dict(response=name)
        if reload is not None:
            kw['reload'] = reload
        got = ctx.outcome(lambda: ip.call(ip.getattr(h, 'load_response'), (), kw))
        d2 = ip.call(C)
        ctx.goal('one registry', d2 is d and h is d)
        load = not had or reload is True
        has = NP.symhas(ip, d.data, name)
        if load and not ok:
            ctx.goal('a failed load raises', got[0] == 'exc')
            ctx.goal('a failed load leaves the entry as it was', has if had else Not(has))
            if had:
                ctx.goal('a failed reload keeps the object', NP.symget(ip, d.data, name) is get(name))
        elif got[0] != 'ok':
            ctx.fail('load', '%s %s' % (got[1].kind, got[1].msg))
            return
        else:
            ctx.goal('returns nothing', got[1] is None)
            ctx.goal('present after loading', has)
            if E.known(has) is not False:
                o = NP.symget(ip, d.data, name, None)
                if load:
                    ctx.goal('a new object of the file of that name', isinstance(o, Inst) and o is not get(name) and 'path' in o.ghost and o.cls is not None and o.cls.name == 'Response')
                    ctx.goal('the data of its file', str_eq(o.ghost['path'], fn) if isinstance(o, Inst) and 'path' in o.ghost else False)
                else:
                    ctx.goal('the same object as before', o is get(name))
        has2 = NP.symhas(ip, d.data, other)
        ctx.goal('other entries stay', has2 if had2 else Not(has2))
        if had2:
            ctx.goal('other entries keep their object', NP.symget(ip, d.data, other, None) is get(other))
    return s


def scen_listing(check):
    def s(ctx):
        ip = ctx.ip
        C, d, get = registry(ctx)
        rdir = SStr(z3.Const('directory', NameSort))
        other = SStr(z3.Const('other', NameSort))
        had2 = E.decide(strpred('loaded', other))
        f = ctx.fn('response.all_responses')
        kw = dict(response_dir=rdir)
        if check:
            kw['check_validity'] = True
        got = ctx.outcome(lambda: ip.call(f, (), kw))
        if got[0] != 'ok':
            ctx.fail('listing', '%s %s' % (got[1].kind, got[1].msg))
            return
        files = NP.listdir(rdir)
        path = lambda i: NP.path_join(rdir, files.item(i))

        def keep(i):
            c = And(ip.fs('isfile', path(i)), NP.endswith(files.item(i), '.dat'))
            if check:
                p = NP.path_abspath(path(i))
                c = And(c, strpred('there', p), strpred('readable', p))
            return c
        lst = plist_norm(got[1])
        if isinstance(lst, (tuple, PList)):
            ctx.goal('one place per file', len(lst if isinstance(lst, tuple) else lst.items) == 0 and True)
            ctx.goal('no file, no name', le(files.n, 0))
            return
        if lst.keep is None:
            raise Unsupported('form of the listing')
        ctx.goal('one place per file', eq(lst.n, files.n))
        for ix, h in ctx.index((files.n,)):
            i = ix[0]
            a, b = T.truth(lst.keep(i)), keep(i)
            ctx.goal('exactly the .dat files%s' % (' that load' if check else ''), And(Implies(a, b), Implies(b, a)), h)
            ctx.goal('listed by name', str_eq(lst.item(i), NP.stem(files.item(i), '.dat')), h + [b])
        has2 = NP.symhas(ip, d.data, other)
        if had2:
            ctx.goal('entries stay', has2)
            ctx.goal('entries keep their object', NP.symget(ip, d.data, other, None) is get(other))
    return s
