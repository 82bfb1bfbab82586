"""Contract of kcorrect.response.Response.project: photon-weighted flux ratio to the AB source."""
from .common import *
from .utils import spec_sed_ab, SedAb
from . import sed as SD
from vcgen import npmodel as NP
from vcgen import arrays as AR


def increasing(a, n):
    """precondition: strictly increasing, positive samples"""
    E.fact((n, n), lambda i, j: Implies(lt(i, j), lt(a.read((i,)), a.read((j,)))))
    E.fact((n,), lambda i: gt(a.read((i,)), 0))
    # instances of the first fact (n >= 2)
    E.assume(And(lt(a.read((0,)), a.read((1,))), lt(a.read((sub(n, 2),)), a.read((sub(n, 1),))), lt(a.read((0,)), a.read((sub(n, 1),)))))


def response_object(ctx, m=None):
    """a response with an arbitrary sorted curve and the interpolator of that curve"""
    ip = ctx.ip
    m = dim('nr', 2) if m is None else m
    o = Inst(ip.module('kcorrect.response').env['Response'])
    rw, rr = ctx.arr('rwave', (m,)), ctx.arr('rresponse', (m,))
    increasing(rw, m)
    o.attrs.update(wave=rw, response=rr, nwave=m, filename=None)
    o.attrs['interp'] = SD.cubic0(rw, rr)
    return o, rw, rr, m


def covers(w, n, lo, hi):
    """the samples of the spectrum that cover the bandpass"""
    r = w.reader()

    def k(i):
        wi = r(i)
        return Or(And(ge(wi, lo), le(wi, hi)),
                  And(lt(wi, lo), lt(add(i, 1), n), ge(r(add(i, 1)), lo)),
                  And(gt(wi, hi), ge(i, 1), le(r(sub(i, 1)), hi)))
    return mk((n,), k, 'b')


def band_lemmas(ctx, w, n, lo, hi):
    """ghost: where the samples in and above the bandpass lie in a sorted spectrum"""
    r = w.reader()
    inband = AR.make_sel(mk((n,), lambda i: And(ge(r(i), lo), le(r(i), hi)), 'b'))
    c, first, last = inband.cnt, inband.pos(0)[0], inband.pos(sub(inband.cnt, 1))[0]
    out = Or(lt(r(sub(n, 1)), lo), gt(r(0), hi))
    ctx.lemma('no sample in a band outside', (), lambda: Implies(out, eq(c, 0)))
    E.assume(ge(c, 0))
    ctx.lemma('first and last in band', (), lambda: Implies(gt(c, 0), And(ge(first, 0), lt(first, n), ge(last, 0), lt(last, n), ge(r(first), lo), le(r(first), hi), ge(r(last), lo), le(r(last), hi))))
    ctx.lemma('below the first', (n,), lambda i: Implies(And(gt(c, 0), lt(i, first)), lt(r(i), lo)))
    ctx.lemma('above the last', (n,), lambda i: Implies(And(gt(c, 0), gt(i, last)), gt(r(i), hi)))
    ctx.lemma('between', (n,), lambda i: Implies(And(gt(c, 0), ge(i, first), le(i, last)), And(ge(r(i), lo), le(r(i), hi))))
    ctx.lemma('none in band', (n,), lambda i: Implies(eq(c, 0), Or(lt(r(i), lo), gt(r(i), hi))))
    above = AR.make_sel(mk((n,), lambda i: gt(r(i), hi), 'b'))
    ca, fa = above.cnt, above.pos(0)[0]
    E.assume(ge(ca, 0))
    ctx.lemma('some above', (), lambda: Implies(gt(r(sub(n, 1)), hi), gt(ca, 0)))
    ctx.lemma('first above', (), lambda: Implies(gt(ca, 0), And(ge(fa, 0), lt(fa, n), gt(r(fa), hi))))
    ctx.lemma('none above', (n,), lambda i: Implies(eq(ca, 0), le(r(i), hi)))
    ctx.lemma('below the first above', (n,), lambda i: Implies(And(gt(ca, 0), lt(i, fa)), le(r(i), hi)))
    ctx.lemma('from the first above', (n,), lambda i: Implies(And(gt(ca, 0), ge(i, fa)), gt(r(i), hi)))


def spec_project(ctx, rw, rr, m, w, f, n, ns, ghost=None):
    """one value per row of f, where the bandpass meets the spectrum"""
    lo, hi = rw.read((0,)), rw.read((sub(m, 1),))
    # the four ways the samples can cover the band
    inb = AR.make_sel(mk((n,), lambda i: And(ge(w.read((i,)), lo), le(w.read((i,)), hi)), 'b'))
    if not E.decide(eq(inb.cnt, 0)):
        E.decide(gt(inb.pos(0)[0], 0))
        E.decide(lt(inb.pos(sub(inb.cnt, 1))[0], sub(n, 1)))
    cov = AR.getitem(w, covers(w, n, lo, hi))
    grid = NP.unique(NP.append(cov, rw))
    ctx.lemma('the grid has two wavelengths', (), lambda: ge(grid.shape[0], 2))
    s = NP.itp_call(SD.cubic0(w, f), grid)          # (ns, grid)
    t = NP.itp_call(SD.cubic0(rw, rr), grid)
    ab = spec_sed_ab(grid)
    num = AR.trapezoid(AR.ew(mul, AR.ew(mul, s, t), grid), grid)
    den = AR.trapezoid(AR.ew(mul, AR.ew(mul, ab, t), grid), grid)
    rn = num.reader()
    if ghost is not None:
        ghost['den'], ghost['num'] = den.item(), rn
    return mk((ns,), lambda i: div(rn(i), den.item()), 'f8')


def check(ctx, label, got, want, ns):
    if got[0] != 'ok':
        ctx.fail(label + ' returns', str(got[1].msg))
        return
    v = got[1]
    if want is None:
        if is_num(v):
            ctx.goal(label + ': zero outside', eq(v, 0))
        elif is_arr(v):
            r = v.reader()
            for ix, h in ctx.index(v.shape):
                ctx.goal(label + ': zero outside', eq(r(*ix), 0), h)
        else:
            ctx.fail(label + ': zero outside', 'not a number')
        return
    one = E.decide(eq(ns, 1))
    ctx.same(label, v, npscalar(want.read((0,)), 'f8') if one else want)


def scen_project(mode, overlap):
    """mode: 'sed' (an SED object), 'arrays1', 'arrays2'; overlap: whether the bandpass meets the spectrum"""
    def s(ctx):
        o, rw, rr, m = response_object(ctx)
        n = dim('nw', 2)
        ns = 1 if mode == 'arrays1' else dim('ns', 1)
        w = ctx.arr('wave', (n,), 'f4')
        f = ctx.arr('flux', (n,) if mode == 'arrays1' else (ns, n), 'f4')
        increasing(w, n)
        rd = f.reader()
        f2 = mk((1, n), lambda i, k: rd(k), 'f4') if mode == 'arrays1' else f
        lo, hi = rw.read((0,)), rw.read((sub(m, 1),))
        band_lemmas(ctx, w, n, lo, hi)
        outside = Or(lt(w.read((sub(n, 1),)), lo), gt(w.read((0,)), hi))
        E.assume(outside if not overlap else Not(outside))
        want = spec_project(ctx, rw, rr, m, w, f2, n, ns) if overlap else None
        def other():
            w2, f2 = sym_array('earlier_wave', (n,), 'f4'), sym_array('earlier_flux', f.shape, 'f4')
            increasing(w2, n)
            if mode == 'sed':
                q = Inst(ctx.ip.module('kcorrect.template').env['SED'])
                q.attrs.update(wave=w2, flux=f2, nsed=ns, nwave=n, interp=SD.cubic0(w2, f2), redshift=F(0), interpolate=True)
                return (), dict(sed=q)
            return (), dict(wave=w2, flux=f2)
        if mode == 'sed':
            sed = Inst(ctx.ip.module('kcorrect.template').env['SED'])
            sed.attrs.update(wave=w, flux=f, nsed=ns, nwave=n, interp=SD.cubic0(w, f), redshift=F(0), interpolate=True)
            got = ctx.pure(ctx.ip.getattr(o, 'project'), (), dict(sed=sed), other)
        else:
            got = ctx.pure(ctx.ip.getattr(o, 'project'), (), dict(wave=w, flux=f), other)
        check(ctx, 'projection', got, want, ns)
        ctx.unchanged()
    return s


def scen_project_lemmas(ctx):
    """what follows from the contract: linear in the flux, rows independent, 1 for a source equal to AB on the grid"""
    o, rw, rr, m = response_object(ctx)
    n, ns = dim('nw', 2), dim('ns', 1)
    w = ctx.arr('wave', (n,), 'f4')
    increasing(w, n)
    lo, hi = rw.read((0,)), rw.read((sub(m, 1),))
    band_lemmas(ctx, w, n, lo, hi)
    E.assume(Not(Or(lt(w.read((sub(n, 1),)), lo), gt(w.read((0,)), hi))))
    f, g = ctx.arr('f', (ns, n)), ctx.arr('g', (ns, n))
    a, b = z3.Real('a'), z3.Real('b')
    rf, rg = f.reader(), g.reader()
    gh = {}
    P = lambda x, k: spec_project(ctx, rw, rr, m, w, x, n, k, gh)
    h = mk((ns, n), lambda i, k: add(mul(a, rf(i, k)), mul(b, rg(i, k))), 'f8')
    pf = P(f, ns)
    nf, df = gh['num'], gh['den']
    P(g, ns)
    ng = gh['num']
    P(h, ns)
    nh, dh = gh['num'], gh['den']
    i0 = E.fresh('sk!row')
    E.assume(And(i0 >= 0, i0 < ns))
    ctx.goal('numerator linear in the flux', eq(nh(i0), add(mul(a, nf(i0)), mul(b, ng(i0)))))
    ctx.goal('denominator independent of the flux', eq(dh, df))
    one = mk((1, n), lambda i, k: rf(i0, k), 'f8')
    ctx.goal('row by row', eq(pf.read((i0,)), P(one, 1).read((0,))))
    cov = AR.getitem(w, covers(w, n, lo, hi))
    grid = NP.unique(NP.append(cov, rw))
    s, ab = NP.itp_call(SD.cubic0(w, f), grid), spec_sed_ab(grid)
    t = NP.itp_call(SD.cubic0(rw, rr), grid)
    cell = lambda y, k: mul(sub(grid.read((add(k, 1),)), grid.read((k,))), add(y(k), y(add(k, 1))))
    num = lambda k: mul(mul(s.read((i0, k)), t.read((k,))), grid.read((k,)))
    den = lambda k: mul(mul(ab.read((k,)), t.read((k,))), grid.read((k,)))
    for ix, h in ctx.index((sub(grid.shape[0], 1),)):
        k = ix[0]
        # a source equal to the AB source on the grid has the cells of the AB integral, hence projection 1
        src = [eq(s.read((i0, x)), ab.read((x,))) for x in (k, add(k, 1))]
        ctx.goal('AB source', Implies(And(*src), eq(cell(num, k), cell(den, k))), h)
    ctx.outcomes.add('ok')


def scen_project_reject(ctx):
    o, rw, rr, m = response_object(ctx)
    n, k = dim('nw', 2), dim('k', 1)
    p = ctx.ip.getattr(o, 'project')
    w, f, f2, w2 = ctx.arr('wave', (n,)), ctx.arr('flux', (k,)), ctx.arr('flux2', (n, k)), ctx.arr('wave2', (n, k))
    reject(ctx, 'nothing given', p)
    reject(ctx, 'flux missing', p, wave=w)
    reject(ctx, 'wave missing', p, flux=f)
    reject(ctx, 'wave not 1-d', p, wave=w2, flux=f2)
    E.assume(Not(eq(n, k)))
    reject(ctx, 'lengths differ', p, wave=w, flux=f)
    reject(ctx, 'lengths differ, rows', p, wave=w, flux=f2)
