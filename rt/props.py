"""Contracts evaluated on the real code, one function per property."""
import copy
import itertools
import math
import os

import numpy as np

from lib import *

PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


# ---- inputs ---------------------------------------------------------------------------
def sizes(rec, repo, base=(1, 2, 5)):
    ints, _ = source_literals(repo)
    extra = sorted(i for i in ints if 5 < i <= 64)
    return list(base) + extra


# Calls form a history: a draw sometimes repeats, permutes or nearly repeats the one before it, so that a result
# kept from an earlier call under too coarse a key shows.
LAST = {}


def coeffs(rng, nt, n=None, zero=0.15):
    last = LAST.get(('c', nt, n))
    u = rng.rand()
    if last is not None and u < .12:
        new = last.copy()
        if n is not None and u < .04:
            new = last[rng.permutation(n)]
        elif u < .06:
            new = last * rng.uniform(.5, 1.5, last.shape)
        elif u < .09:
            new = last[..., rng.permutation(nt)]
        if (np.asarray(new).sum(-1) > 0).all():
            return new
    new = fresh_coeffs(rng, nt, n, zero)
    LAST['c', nt, n] = np.array(new)
    return new


def fresh_coeffs(rng, nt, n=None, zero=0.15):
    one = lambda: np.zeros(nt) if rng.rand() < zero else rng.uniform(0., 2., nt) * (rng.rand(nt) < 0.7) * 10. ** rng.uniform(-3, 3)
    def some():
        c = one()
        return c if c.sum() > 0 or rng.rand() < 0.5 else np.eye(nt)[rng.randint(nt)] * rng.uniform(.5, 2.)
    return some() if n is None else np.array([some() for _ in range(n)])


def redshifts(rng, m, n=None, outside=0.):
    last = LAST.get(('z', id(m), n, outside > 0))
    if last is not None and n != 0:
        u = rng.rand()
        new = None
        if u < .12:
            new = np.array(last)                             # the same values again
        elif u < .3:
            new = np.array(last) + rng.uniform(1e-4, 6e-4)   # nearly the same
        elif u < .37 and n is not None and n > 1:
            new = np.array(last)[rng.permutation(n)]
        elif u < .55 and n is not None and n > 2:
            new = same_ends(rng, last)
        if new is not None and np.all((new > max(m.lo, 0.02)) & (new < m.hi - 1e-4)):
            LAST['z', id(m), n, outside > 0] = np.array(new)
            return float(new) if n is None else new
    new = fresh_redshifts(rng, m, n, outside)
    if n is not None and n > 2 and rng.rand() < .3:      # objects at one redshift
        i, j = rng.permutation(n)[:2]
        new[i] = new[j]
    LAST['z', id(m), n, outside > 0] = np.array(new)
    return new


def same_ends(rng, z):
    """values between the lowest and the highest redrawn"""
    z = np.array(z)
    inner = np.setdiff1d(np.arange(len(z)), [0, len(z) - 1, z.argmin(), z.argmax()])
    z[inner] = rng.uniform(z.min(), z.max(), len(inner))
    return z


def fresh_redshifts(rng, m, n=None, outside=0.):
    def one():
        u = rng.rand()
        if u < outside:
            return m.hi + rng.uniform(.01, 2.) if rng.rand() < .5 else m.lo - rng.uniform(.01, .5)
        if u < outside + 0.15:
            inner = [float(q) for q in m.grid[1:-1] if not 0.02 > q > -0.02]
            return inner[rng.randint(len(inner))] if inner else 0.5 * (m.lo + m.hi)
        return rng.uniform(max(m.lo, 0.02) + 1e-3, m.hi - 1e-3)
    return one() if n is None else np.array([one() for _ in range(n)])


def photometry(rng, m, z, c, n=None, allneg=False):
    """maggies near the model with noise, some negative or zero; ivar with zeros"""
    def one(zz, cc):
        r = m.recon(zz, cc) if m.inside(zz) and np.sum(cc) > 0 else np.full(m.nb, 1.) * 10. ** rng.uniform(-2, 2)
        mag = r * (1. + 0.2 * rng.randn(m.nb))
        u = rng.rand(m.nb)
        mag = np.where(u < 0.1, -mag, np.where(u < 0.15, 0., mag))
        iv = (rng.uniform(2., 40., m.nb) / np.maximum(np.abs(r), 1e-30)) ** 2
        iv = np.where(rng.rand(m.nb) < 0.2, 0., iv)
        if rng.rand() < .15 and iv.max() > 0:       # a very faint object: nothing depends on the unit of flux
            f = math.sqrt(iv.max() / 10. ** rng.uniform(26., 34.))
            mag, iv = mag * f, iv / f ** 2
        return mag, iv
    if n is None:
        return one(z, c)
    a = [one(z[i], c[i]) for i in range(n)]
    return np.array([x[0] for x in a]), np.array([x[1] for x in a])


def bandshift(rng, m):
    """a band shift inside the grid"""
    u = rng.rand()
    last = LAST.get(('b', id(m)))
    if last is not None and u < .12:
        return last + 3e-4 if .04 < u and last > 0 and last + 4e-4 < min(m.hi, .5) else last
    LAST['b', id(m)] = b = fresh_bandshift(rng, m)
    return b


def fresh_bandshift(rng, m):
    u = rng.rand()
    if u < 0.3:
        return 0.
    return float(rng.uniform(max(m.lo, -.4) + 1e-3, min(m.hi, .5) - 1e-3)) if u < 0.9 else float(np.float32(m.grid[len(m.grid) // 2]))


def bkw(rng, bs):
    """the band shift as an argument, or left to its default when it is zero"""
    return {} if bs == 0. and rng.rand() < .7 else {'band_shift': bs}


def typed(rng, *xs):
    """the same values as float32/float64 arrays or lists; an array object may be one of an earlier case, refilled"""
    k = rng.randint(4)
    reuse = rng.rand() < .5
    def conv(x, pos):
        a = plain(x)
        if not isinstance(a, np.ndarray) or a.ndim == 0 or not reuse:
            return a
        key = ('buffer', pos, a.shape, a.dtype, a.strides)
        old = LAST.get(key)
        if old is None or old[1] == CASE[0]:
            LAST.setdefault(key, (a, CASE[0]))
            return a
        old[0][...] = a
        LAST[key] = (old[0], CASE[0])
        return old[0]
    def plain(x):
        if x is None:
            return None
        a = np.asarray(x)
        if k == 0:
            return np.float32(a) if a.ndim == 0 else a.astype(np.float32)
        if k == 1:
            return float(a) if a.ndim == 0 else a.astype(np.float64)
        if k == 2:
            return a.tolist()
        return np.float64(a) if a.ndim == 0 else np.asfortranarray(a.astype(np.float64))
    return [conv(x, i) for i, x in enumerate(xs)]


def other_cosmology(rng, m):
    """the cosmology is read at each call"""
    import astropy.cosmology as ac
    if rng.rand() < .3:
        m.k.cosmo = m.cosmo = [ac.Planck18, ac.WMAP7, ac.FlatLambdaCDM(H0=90., Om0=.1)][rng.randint(3)]


def models(rec, rng, kc, which=('same', 'out', 'one', 'perm', 'more')):
    w = World(rng, kc, rec)
    d = {
        'same': lambda: w.make(),
        'out': lambda: w.make(names=('syn_g', 'syn_u', 'syn_r', 'syn_i'), out=('syn_z', 'syn_r', 'syn_n'), mp=('syn_i', 'syn_g', 'syn_u'), zr=(-.3, 1.1), nz=13),
        'one': lambda: w.make(names=('syn_r',), out=('syn_i',), mp=('syn_r',), zr=(0., .7), nz=7),
        'perm': lambda: w.make(names=('syn_u', 'syn_g', 'syn_r'), out=('syn_r', 'syn_u', 'syn_g'), mp=('syn_r', 'syn_u', 'syn_g'), zr=(-.1, 1.), nz=8),
        'more': lambda: w.make(names=('syn_g', 'syn_r'), out=('syn_u', 'syn_g', 'syn_r', 'syn_n', 'syn_i'), mp=('syn_g', 'syn_g', 'syn_r', 'syn_g', 'syn_r'), zr=(0., 1.), nz=6),
        'map': lambda: w.make(names=('syn_u', 'syn_g', 'syn_r'), mp=('syn_g', 'syn_g', 'syn_u'), out=('syn_u', 'syn_g', 'syn_r'), zr=(0., 1.), nz=6),
        'sdss': lambda: w.make('KcorrectSDSS', names=['sdss_%s0' % x for x in 'ugriz'], nz=5),
        'sdss0': lambda: w.make('KcorrectSDSS', names=['sdss_%s0' % x for x in 'ugriz'], nz=5, ab=False),
        'gst1': lambda: w.make('KcorrectGST', names=GSTN, nz=4, ab=True),
        'gst0': lambda: w.make('KcorrectGST', names=GSTN, nz=4),
        'base1': lambda: w.make(names=('syn_u', 'syn_g', 'syn_r', 'syn_i', 'syn_z'), nz=5, ab=True),
    }
    # an object that was used, then restored from the file of another with other templates, bands and grid
    d['restored'] = lambda: restored(rec, rng, kc, w)
    return w, [(x, d[x]()) for x in which]


def restored(rec, rng, kc, w):
    m = w.make(names=('syn_r', 'syn_u', 'syn_i'), out=('syn_i', 'syn_g', 'syn_r'), mp=('syn_i', 'syn_u', 'syn_r'), zr=(-.2, 1.), nz=7)
    t = kc.template.Template(filename=make_templates(rng, w.tm.nt, 200, tmpname()).path, interpolate=True)
    k = rec.call('construction', kc.kcorrect.Kcorrect, responses=['syn_g', 'syn_z', 'syn_u'], responses_out=['syn_n', 'syn_u', 'syn_z'], responses_map=['syn_g', 'syn_u', 'syn_z'], templates=t, redshift_range=[-.1, 1.], nredshift=6)
    for n in (None, 3):
        z, c = redshifts(rng, m, n), coeffs(rng, m.nt, n, zero=0.)
        mag, iv = photometry(rng, m, z, c, n)
        kw = dict(redshift=z, coeffs=c, band_shift=.1)
        rec.case(model='restored', use='before it is restored', **kw)
        for f in (k.kcorrect, k.derived):
            rec.call(f.__name__, f, **kw)
        for f in (k.reconstruct_out, k.reconstruct):
            rec.call(f.__name__, f, redshift=z * .5, coeffs=c, band_shift=.1)
        rec.call('absmag', k.absmag, maggies=mag, ivar=iv, reconstruct=True, limit=True, **kw)
        rec.call('fit_coeffs', k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=2)
    f = tmpname()
    rec.call('tofits', m.k.tofits, f)
    rec.call('fromfits', k.fromfits, f)
    m = copy.copy(m)
    m.k = k
    return m


GSTN = ['galex_FUV', 'galex_NUV'] + ['sdss_%s0' % x for x in 'ugriz'] + ['twomass_J', 'twomass_H', 'twomass_Ks']


# ---- C01 -------------------------------------------------------------------------------
def check_fit(rec, label, m, z, mag, iv, c):
    c = np.asarray(c, float)
    if not rec.ok(label + ': one coefficient per template', c.shape == (m.nt,), c.shape):
        return
    mag, iv = m.ab(mag, iv)
    if not m.inside(z):
        rec.ok(label + ': zero outside the grid', (c == 0).all(), c)
        return
    rec.ok(label + ': nonnegative', (c >= 0).all(), c)
    best = m.fit_value(z, mag, iv, m.fit_best(z, mag, iv))
    got = m.fit_value(z, mag, iv, c)
    tot = float(np.sum(iv * mag * mag))
    rec.ok(label + ': optimal', got <= best + 2e-5 * tot + 1e-12, 'objective %r, optimum %r, scale %r' % (got, best, tot))
    # the same with the design matrix the object states for this redshift, without the error of the projections
    A = np.asarray(rec.call('Amatrix', m.k.Amatrix, float(np.float32(z))), float)
    if A.shape == (m.nb, m.nt):
        wt = np.sqrt(np.asarray(iv, float))
        f = lambda c: float(np.sum(wt ** 2 * (np.asarray(mag, float) - A @ c) ** 2))
        best, got = f(nnls64(A * wt[:, None], np.asarray(mag, float) * wt)), f(c)
        rec.ok(label + ': optimal for the design matrix of the object', got <= best + 1e-9 * tot + 1e-12, 'objective %r, optimum %r, scale %r' % (got, best, tot))


@prop
def C01(rec, rng, kc, repo):
    rec.rules.append('random photometry (negative, zero, unmeasured bands; redshifts in and out of the grid) fitted; objective compared with an independent optimum')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'sdss', 'restored'))
    ms.append(('fitter', w.make('Fitter', names=('syn_u', 'syn_r', 'syn_z'), nz=8)))
    import scipy.optimize
    for nm, m in ms:
        for it in range(8 * rec.scale):
            n = [4, None, 2, 1][it // 2 % 4]
            z = redshifts(rng, m, n, outside=.15)
            c0 = coeffs(rng, m.nt, n, zero=0.)
            mag, iv = photometry(rng, m, z, c0, n)
            rec.case(model=nm, redshift=z, maggies=mag, ivar=iv)
            tz, tm, ti = typed(rng, z, mag, iv)
            c = rec.call('fit_coeffs', m.k.fit_coeffs, redshift=tz, maggies=tm, ivar=ti)
            if n is None:
                check_fit(rec, 'fit', m, z, mag, iv, c)
            elif rec.ok('fit: shape', np.shape(c) == (n, m.nt), np.shape(c)):
                for i in range(n):
                    check_fit(rec, 'fit row', m, z[i], mag[i], iv[i], c[i])
            # fits at nearly the same redshifts, and with the same redshifts and other fluxes, right after it
            for step in (3e-4, -2e-4, 0.):
                z2, m2 = z + step, mag if step else mag * rng.uniform(.5, 1.5, np.shape(mag))
                if not all(m.inside(q) == m.inside(q2) for q, q2 in zip(np.atleast_1d(z), np.atleast_1d(z2))):
                    continue
                rec.case(model=nm, redshift=z2, maggies=m2, ivar=iv, previous=z)
                c2 = rec.call('fit_coeffs', m.k.fit_coeffs, redshift=z2, maggies=m2, ivar=iv)
                if rec.ok('fit: shape', np.shape(c2) == np.shape(c), np.shape(c2)):
                    for i in range(n or 1):
                        g = (lambda x: x) if n is None else (lambda x: x[i])
                        check_fit(rec, 'fit after another', m, g(z2), g(m2), g(iv), g(c2))
            rec.case(model=nm, redshift=z, maggies=mag, ivar=iv)
            # bands without weight have no influence
            junk = np.where(iv == 0, mag * 0. + 1e3 * rng.randn(*np.shape(mag)), mag)
            c2 = rec.call('fit_coeffs', m.k.fit_coeffs, redshift=tz, maggies=typed(rng, junk)[0], ivar=ti)
            rec.close('zero-weight bands have no influence', c2, c, rtol=2e-3, atol=1e-4 * float(np.max(np.abs(c)) or 1.))
        # iteration limit
        real = scipy.optimize.nnls
        calls = []

        def limited(A, b, *a, **kw):
            mi = kw.get('maxiter', a[0] if a else None)
            calls.append(mi)
            if mi is None or (mi >= 0 and mi <= 3 * A.shape[1]):
                raise RuntimeError('maximum number of iterations')
            return real(A, b, *a, **kw)
        for it in range(2 * rec.scale):
            n = [None, 3][it % 2]
            z = redshifts(rng, m, n)
            c0 = coeffs(rng, m.nt, n, zero=0.)
            mag, iv = photometry(rng, m, z, c0, n)
            rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, iteration_limit='reported by nnls at the default')
            scipy.optimize.nnls = limited
            try:
                c = rec.call('fit_coeffs after the iteration limit', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv)
            finally:
                scipy.optimize.nnls = real
            for i in range(n or 1):
                check_fit(rec, 'fit after the iteration limit', m, z if n is None else z[i], mag if n is None else mag[i], iv if n is None else iv[i], c if n is None else c[i])


# ---- C02 -------------------------------------------------------------------------------
@prop
def C02(rec, rng, kc, repo):
    rec.rules.append('array calls compared row by row with scalar calls on the real code')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'perm', 'more', 'restored'))
    ms.append(('one1', w.make(names=('syn_g',), nz=5)))
    for nm, m in ms:
        for it, n in enumerate((sizes(rec, repo, (1, 2, 3)) if nm == 'out' else [1, 2, 4]) * (1 if rec.scale == 1 else 3)):
            z = redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n)
            mag, iv = photometry(rng, m, z, c, n)
            bs = bandshift(rng, m)
            d = rng.uniform(10., 5000., n) if it % 2 else None
            rec.case(model=nm, n=n, redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs, distance=d)
            pick = range(n) if n <= 6 else sorted(set(list(rng.randint(0, n, 4)) + [0, n - 1]))

            def rows(label, fa, fs, tol=1e-5, at=1e-5):
                a = rec.call(label, fa)
                a = a if isinstance(a, tuple) else (a,)
                for i in pick:
                    s = rec.call(label, fs, i)
                    s = s if isinstance(s, tuple) else (s,)
                    if rec.ok(label + ': number of results', len(a) == len(s), (len(a), len(s))):
                        for x, y in zip(a, s):
                            x, y = np.asarray(x), np.asarray(y)
                            if rec.ok(label + ': leading axis', x.ndim >= 1 and x.shape[0] == n, x.shape):
                                sc = float(np.nanmax(np.abs(np.where(np.abs(y) > 9000, 0, y)))) if y.size else 0.
                                rec.close(label + ' row', x[i], y, rtol=tol, atol=at * (sc + (0 if tol < 1e-4 else 0)))
            sh = lambda x, i: None if x is None else x[i]
            # outside the grid only fits are defined
            zf = redshifts(rng, m, n, outside=.2)
            rows('fit_coeffs', lambda: m.k.fit_coeffs(redshift=zf, maggies=mag, ivar=iv), lambda i: m.k.fit_coeffs(redshift=zf[i], maggies=mag[i], ivar=iv[i]), 1e-3, 1e-4)
            zb = np.array([max(min(q, (1. + m.hi) / (1. + bs) - 1. - 1e-3), (1. + m.lo) / (1. + bs) - 1. + 1e-3) for q in z])
            rows('reconstruct', lambda: m.k.reconstruct(redshift=zb, coeffs=c, band_shift=bs), lambda i: m.k.reconstruct(redshift=zb[i], coeffs=c[i], band_shift=bs))
            rows('reconstruct_out', lambda: m.k.reconstruct_out(redshift=zb, coeffs=c, band_shift=bs), lambda i: m.k.reconstruct_out(redshift=zb[i], coeffs=c[i], band_shift=bs))
            if m.lo > 0:
                continue
            rows('kcorrect', lambda: m.k.kcorrect(redshift=z, coeffs=c, band_shift=bs), lambda i: m.k.kcorrect(redshift=z[i], coeffs=c[i], band_shift=bs))
            kw = dict(reconstruct=bool(rng.randint(2)), limit=bool(rng.randint(2)), kcorrect=bool(rng.randint(2)))
            rows('absmag', lambda: m.k.absmag(redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs, distance=d, **kw),
                 lambda i: m.k.absmag(redshift=z[i], maggies=mag[i], ivar=iv[i], coeffs=c[i], band_shift=bs, distance=sh(d, i), **kw))
            da = rec.call('derived', lambda: m.k.derived(redshift=z, coeffs=c, band_shift=bs, distance=d))
            for i in pick:
                ds = rec.call('derived', lambda: m.k.derived(redshift=z[i], coeffs=c[i], band_shift=bs, distance=sh(d, i)))
                for q in da:
                    if rec.ok('derived: leading axis', np.shape(da[q])[:1] == (n,), (q, np.shape(da[q]))):
                        rec.close('derived row ' + q, da[q][i], ds[q], rtol=2e-5)
            if n == 1:
                for mc in (1, 3):
                    a = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=mc)
                    rec.ok('fit_coeffs mc shapes', [np.shape(x) for x in a] == [(1, m.nt), (1, m.nt, mc), (1, m.nb, mc)], [np.shape(x) for x in a])


# ---- C03 -------------------------------------------------------------------------------
@prop
def C03(rec, rng, kc, repo):
    rec.rules.append('random coefficients, redshifts and band shifts; reconstruction compared with an independent design matrix')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'perm', 'more', 'restored'))
    ms.append(('fitter', w.make('Fitter', names=('syn_u', 'syn_r', 'syn_z'), nz=8)))
    for nm, m in ms:
        for it in range(10 * rec.scale):
            n = [None, 1, 3, 6][it % 4]
            bs = bandshift(rng, m)
            z = redshifts(rng, m, n)
            clip = lambda q: max(min(q, (1. + m.hi) / (1. + bs) - 1. - 1e-3), (1. + m.lo) / (1. + bs) - 1. + 1e-3)
            z = clip(z) if n is None else np.array([clip(q) for q in z])
            c = coeffs(rng, m.nt, n)
            if it % 3 == 0:
                c = c * rng.choice([-1., 1.], size=c.shape)       # linear for any sign
            rec.case(model=nm, redshift=z, coeffs=c, band_shift=bs)
            tz, tc = typed(rng, z, c)
            for which, f in (('in', m.k.reconstruct),) + ((('out', m.k.reconstruct_out),) if m.cls != 'Fitter' else ()):
                got = rec.call('reconstruct ' + which, f, redshift=tz, coeffs=tc, **bkw(rng, bs))
                want = m.recon(z, c, bs, which) if n is None else np.array([m.recon(z[i], c[i], bs, which) for i in range(n)])
                mag = m.recon(z, np.abs(c), bs, which) if n is None else np.array([m.recon(z[i], np.abs(c[i]), bs, which) for i in range(n)])
                rec.close('reconstruct ' + which, got, want, rtol=2e-4, atol=3e-4 * float(np.max(mag) if np.size(mag) else 0.))
                if n is not None and n > 2:      # the call after it differs a little
                    for z2 in (same_ends(rng, z), z[rng.permutation(n)], z + (2e-4 if (z.max() + 2e-4 + 1.) * (1. + bs) - 1. < m.hi else 0.)):
                        got2 = rec.call('reconstruct ' + which, f, redshift=z2, coeffs=c, band_shift=bs)
                        rec.close('reconstruct again ' + which, got2, np.array([m.recon(z2[i], c[i], bs, which) for i in range(n)]), rtol=2e-4, atol=3e-4 * float(np.max(mag)))
                        if rng.rand() < .3:
                            got2 = rec.call('reconstruct ' + which, f, redshift=z2, coeffs=c[::-1], band_shift=bs)
                            rec.close('reconstruct again ' + which, got2, np.array([m.recon(z2[i], c[n - 1 - i], bs, which) for i in range(n)]), rtol=2e-4, atol=3e-4 * float(np.max(mag)))
                c2 = coeffs(rng, m.nt, n)
                a, b = 2., 3.
                lhs = rec.call('reconstruct', f, redshift=tz, coeffs=a * np.asarray(c) + b * c2, band_shift=bs)
                rhs = a * np.asarray(got) + b * np.asarray(rec.call('reconstruct', f, redshift=tz, coeffs=c2, band_shift=bs))
                rec.close('linear in the coefficients', lhs, rhs, rtol=1e-4, atol=1e-4 * float(np.max(np.abs(rhs)) + np.max(mag)))
        for it in range(4):
            n = [None, 1, 3, 2][it]
            z = redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n)
            bs = 0.
            if it == 3 and m.hi < 2:
                bs = (1. + m.hi) / (1. + np.min(z)) - 1. + .2
            elif n is None:
                z = m.hi + .3
            else:
                z[-1] = m.lo - .2 if n == 3 else m.hi + .3
            rec.case(model=nm, redshift=z, coeffs=c, band_shift=bs)
            for f in [m.k.reconstruct] + ([m.k.reconstruct_out] if m.cls != 'Fitter' else []):
                rec.raises('shifted redshift outside the grid', (ValueError,), f, redshift=z, coeffs=c, band_shift=bs)


# ---- C04 .. C07 -------------------------------------------------------------------------------
@prop
def C04(rec, rng, kc, repo):
    rec.rules.append('K-corrections for distinct output bands, mappings and band shifts compared with the definition')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'perm', 'more', 'map', 'restored'))
    for nm, m in ms:
        for it in range(10 * rec.scale):
            n = [3, None, 6, 1][it // 2 % 4]
            bs, z = bandshift(rng, m), redshifts(rng, m, n)
            if it % 5 == 4:
                z = z * 0. + bs if bs >= 0 else z
            c = coeffs(rng, m.nt, n, zero=.25)
            rec.case(model=nm, redshift=z, coeffs=c, band_shift=bs)
            tz, tc = typed(rng, z, c)
            got = rec.call('kcorrect', m.k.kcorrect, redshift=tz, coeffs=tc, **bkw(rng, bs))
            want = m.kcorr(z, c, bs) if n is None else np.array([m.kcorr(z[i], c[i], bs) for i in range(n)])
            rec.close('kcorrect definition', got, want, atol=1e-3)
            zero = np.asarray(c).sum(-1) == 0
            if np.shape(got) == np.shape(want):
                rec.ok('exactly zero for zero coefficients', (np.asarray(got)[zero] == 0).all())
            # right after it: the same redshifts and band shift, the coefficients exchanged between templates and objects
            if m.nt > 1:
                c3 = rng.randint(0, 4, np.shape(c)).astype(float)
                c3[..., 0] += 1.
                for c3 in (c3, c3[..., ::-1], np.roll(c3, 1, -1)) + (() if n is None else (c3[::-1],)):
                    g3 = rec.call('kcorrect', m.k.kcorrect, redshift=z, coeffs=c3, band_shift=bs)
                    rec.close('kcorrect of other coefficients with the same sum', g3, m.kcorr(z, c3, bs) if n is None else np.array([m.kcorr(z[i], c3[i], bs) for i in range(n)]), atol=1e-3)
            f = 10. ** rng.uniform(-6, 6) if n is None else 10. ** rng.uniform(-6, 6, n)[:, None]
            g2 = rec.call('kcorrect', m.k.kcorrect, redshift=tz, coeffs=np.asarray(c) * f, band_shift=bs)
            rec.close('scale invariance', g2, got, atol=1e-3)


FLAGS = list(itertools.product((False, True), repeat=3))


def absmag_cases(rec, rng, kc, ms, parts, count, dist):
    for nm, m in ms:
        for it in range(count * rec.scale):
            n = [3, None, 5, 1][it // 2 % 4]
            bs, z = bandshift(rng, m), redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n, zero=.2)
            if it % 3 == 2 and 'reconstruct' in parts:
                c = c * rng.choice([-1., 1.], size=c.shape)    # model flux of any sign
                if 'kcorrect' in parts or 'limit' in parts:
                    c = np.abs(c)
            mag, iv = photometry(rng, m, z, c, n)
            if rng.rand() < .25 and iv.max() > 0:        # very precise or very poor measurements
                f = math.sqrt(iv.max() / 10. ** (rng.uniform(28., 36.) if rng.rand() < .6 else rng.uniform(-20., 28.)))
                f = min(f, math.sqrt(iv[iv > 0].min() / 1e-30))
                mag, iv = mag * f, iv / f ** 2
            if rng.rand() < .3:                          # bands flagged by a negative inverse variance
                iv = np.where(rng.rand(*np.shape(iv)) < .2, -iv, iv)
            other_cosmology(rng, m)
            d = None
            if dist and rng.rand() < .5:
                d = rng.uniform(1., 8000.) if n is None else rng.uniform(1., 8000., n)
            r, l, k = FLAGS[rng.randint(8)] if len(parts) > 1 else (False, False, False)
            rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs, distance=d, reconstruct=r, limit=l, kcorrect=k)
            tz, tm, ti, tc = typed(rng, z, mag, iv, c)
            kw = {}
            if r or rng.rand() < .5:
                kw['reconstruct'] = r
            if l or rng.rand() < .5:
                kw['limit'] = l
            if k or rng.rand() < .5:
                kw['kcorrect'] = k
            if d is not None:
                kw['distance'] = d
            got = rec.call('absmag', m.k.absmag, redshift=tz, maggies=tm, ivar=ti, coeffs=tc, **dict(bkw(rng, bs), **kw))
            nw = 1 + r + l + k
            if nw == 1:
                if not rec.ok('single result', not isinstance(got, tuple), type(got)):
                    continue
                got = (got,)
            if not rec.ok('number of results', isinstance(got, tuple) and len(got) == nw, len(got)):
                continue
            idx = [None] if n is None else list(range(n))
            g = lambda x, i: x if i is None else x[i]
            stack = lambda fn: fn(None) if n is None else np.array([fn(i) for i in idx])
            cc, mm, vv, dd, zz = (lambda i: g(c, i)), (lambda i: g(mag, i)), (lambda i: g(iv, i)), (lambda i: None if d is None else float(g(d, i))), (lambda i: float(g(z, i)))
            want = [('absolute magnitude', stack(lambda i: m.absmag(zz(i), mm(i), vv(i), cc(i), bs, dd(i))))]
            if r:
                want.append(('reconstructed magnitude', stack(lambda i: m.absrec(zz(i), cc(i), bs, dd(i)))))
            if l:
                want.append(('limiting magnitude', stack(lambda i: m.abslim(zz(i), mm(i), vv(i), cc(i), bs, dd(i)))))
            if k:
                want.append(('K-correction', stack(lambda i: m.kcorr(zz(i), cc(i), bs))))
            for (lab, wv), gv in zip(want, got):
                rec.close(lab, gv, wv, rtol=1e-6, atol=1e-3)
                if lab == 'K-correction':
                    rec.call('absmag', m.k.absmag, redshift=z, maggies=2. * mag, ivar=iv, coeffs=3. * c, band_shift=bs, **kw)     # leaves these results alone
                if lab != 'K-correction' and np.shape(gv) == np.shape(wv):
                    rec.ok(lab + ': undefined entries are exactly -9999', (np.asarray(gv)[wv == -9999.] == -9999.).all())


@prop
def C05(rec, rng, kc, repo):
    rec.rules.append('absolute magnitudes compared with apparent - DM - K computed independently')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'perm', 'more', 'map', 'sdss', 'gst0', 'restored'))
    absmag_cases(rec, rng, kc, ms, ('absmag',), 10, False)


@prop
def C06(rec, rng, kc, repo):
    rec.rules.append('every flag combination; each returned array compared with its definition')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'perm', 'more', 'restored'))
    absmag_cases(rec, rng, kc, ms, ('absmag', 'reconstruct', 'limit', 'kcorrect'), 16, True)


@prop
def C07(rec, rng, kc, repo):
    rec.rules.append('explicit distances and several cosmologies; derived quantities and magnitudes compared with their definitions')
    import astropy.cosmology as ac
    w, ms = models(rec, rng, kc, ('same', 'out', 'more', 'restored'))
    ms.append(('cosmo', w.make(names=('syn_g', 'syn_r'), nz=5, cosmo=ac.FlatLambdaCDM(H0=100., Om0=.3))))
    ms[-1][1].cosmo = ms[-1][1].args['cosmo']
    ms.append(('cosmo2', w.make(names=('syn_g', 'syn_r', 'syn_i'), nz=5, cosmo=ac.FlatLambdaCDM(H0=55., Om0=.9))))
    ms[-1][1].cosmo = ms[-1][1].args['cosmo']
    absmag_cases(rec, rng, kc, ms, ('absmag', 'reconstruct', 'limit'), 8, True)
    for nm, m in ms:
        derived_cases(rec, rng, m, nm, 6, None, dist=True)
        # the cosmological distance gives the default back
        for it in range(3 * rec.scale):
            n = [None, 1, 3][it % 3]
            z = redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n, zero=0.)
            mag, iv = photometry(rng, m, z, c, n)
            bs = bandshift(rng, m)
            # the cosmology of the object at the time of the call
            for cosmo in (ac.FlatLambdaCDM(H0=85., Om0=.1), m.args.get('cosmo') or ac.Planck18):
                m.k.cosmo = m.cosmo = cosmo
                d = m.cosmo.luminosity_distance(z).value
                rec.case(model=nm, redshift=z, coeffs=c, band_shift=bs, cosmology=str(cosmo))
                got = rec.call('derived', m.k.derived, redshift=z, coeffs=c, band_shift=bs)
                want = [m.derived(float(q), cq, bs, None) for q, cq in zip(np.atleast_1d(z), np.atleast_2d(c))]
                rec.close('masses in the present cosmology', np.atleast_1d(got['mremain']), [x['mremain'] for x in want], rtol=2e-3)
                got = rec.call('absmag', m.k.absmag, redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs)
                want = [m.absmag(float(q), mq, vq, cq, bs, None) for q, mq, vq, cq in zip(np.atleast_1d(z), np.atleast_2d(mag), np.atleast_2d(iv), np.atleast_2d(c))]
                rec.close('magnitudes in the present cosmology', np.atleast_2d(got), want, rtol=1e-6, atol=1e-3)
            rec.case(model=nm, redshift=z, coeffs=c, band_shift=bs, distance=d)
            a = rec.call('absmag', m.k.absmag, redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs)
            b = rec.call('absmag', m.k.absmag, redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs, distance=d)
            rec.close('cosmological distance: absolute magnitudes', b, a, atol=2e-3, rtol=1e-6)
            a = rec.call('derived', m.k.derived, redshift=z, coeffs=c, band_shift=bs)
            b = rec.call('derived', m.k.derived, redshift=z, coeffs=c, band_shift=bs, distance=d)
            for q in a:
                rec.close('cosmological distance: ' + q, b[q], a[q], rtol=2e-3)


def derived_cases(rec, rng, m, nm, count, keys, dist=True):
    for it in range(count * rec.scale):
        n = [3, None, 6, 1][it // 2 % 4]
        bs, z = bandshift(rng, m), redshifts(rng, m, n)
        c = coeffs(rng, m.nt, n, zero=.25)
        if it % 5 == 3:
            c = c * 10. ** -rng.choice([12, 18])
        d = None
        other_cosmology(rng, m)
        if dist and rng.rand() < .5:
            lo, hi = (1., 8000.) if it % 3 else (1e-5, 1e-2)
            d = rng.uniform(lo, hi) if n is None else rng.uniform(lo, hi, n)
        rec.case(model=nm, redshift=z, coeffs=c, band_shift=bs, distance=d)
        tz, tc = typed(rng, z, c)
        kw = {} if d is None else {'distance': d}
        got = rec.call('derived', m.k.derived, redshift=tz, coeffs=tc, **dict(bkw(rng, bs), **kw))
        if n is None:
            want = m.derived(float(z), c, bs, None if d is None else float(d))
        else:
            rows = [m.derived(float(z[i]), c[i], bs, None if d is None else float(d[i])) for i in range(n)]
            want = {q: np.array([x[q] for x in rows]) for q in rows[0]}
        rec.ok('derived: names', set(got) == set(want), sorted(got))
        if it % 3 == 0:
            rec.call('derived', m.k.derived, redshift=z, coeffs=3. * c, band_shift=bs, **kw)     # leaves this result alone
        for q in want:
            if keys is None or q in keys:
                if q not in got:
                    rec.fail('derived ' + q, 'missing')
                    continue
                rec.close('derived ' + q, got[q], want[q], rtol=2e-3)
                if q in ('metallicity', 'b50', 'b300', 'b1000', 'mtol') and np.shape(got[q]) == np.shape(want[q]):
                    rec.ok('derived %s: exactly zero' % q, (np.asarray(got[q])[np.asarray(want[q]) == 0] == 0).all())


@prop
def C08(rec, rng, kc, repo):
    rec.rules.append('derived quantities compared with coefficient-weighted sums')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'restored'))
    for nm, m in ms:
        derived_cases(rec, rng, m, nm, 14, ('mremain', 'intsfh', 'metallicity', 'b50', 'b300', 'b1000'))


@prop
def C09(rec, rng, kc, repo):
    rec.rules.append('mass-to-light ratios compared with their definition; output bands differ from the inputs in number, order and solar magnitude')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'perm', 'more', 'restored'))
    for nm, m in ms:
        derived_cases(rec, rng, m, nm, 10, ('mtol', 'mremain'))


# ---- C10, C11 ----------------------------------------------------------------------------------
@prop
def C10(rec, rng, kc, repo):
    rec.rules.append('Monte Carlo fits: realisations normalised by the errors, refitted independently')
    np.random.seed(rec.seed)
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'sdss', 'gst1', 'restored'))
    for nm, m in ms:
        pool = []
        for it in range(6 * (1 if rec.scale == 1 else 4)):
            n = [None, 1, 2, 5][it % 4]
            mc = [1, 2, 40, 7, 150][it % 5]
            z = redshifts(rng, m, n, outside=.15)
            c0 = coeffs(rng, m.nt, n, zero=0.)
            mag, iv = photometry(rng, m, z, c0, n)
            mag, iv = np.float32(mag), np.float32(iv)
            if it == 3:
                iv[..., 0] = 0.
            if it == 5:
                iv[:] = 0. if n is None else iv
            rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, mc=mc)
            c = rec.call('fit_coeffs', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv)
            got = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=mc)
            L = () if n is None else (n,)
            if not rec.ok('three results', isinstance(got, tuple) and len(got) == 3):
                continue
            if not rec.ok('shapes', [np.shape(x) for x in got] == [L + (m.nt,), L + (m.nt, mc), L + (m.nb, mc)], [np.shape(x) for x in got]):
                continue
            rec.close('unperturbed coefficients', got[0], c, rtol=1e-5)
            for i in ([None] if n is None else range(n)):
                g = lambda x: np.asarray(x if i is None else x[i])
                zz = float(g(z))
                cm, mm = g(got[1]), g(got[2])
                if not m.inside(zz):
                    rec.ok('outside the grid: zero coefficients', (cm == 0).all() and (g(got[0]) == 0).all())
                    continue
                a, v = m.ab(g(mag), g(iv))
                un = v <= 0
                rec.close('unmeasured bands unchanged', mm[un], np.repeat(a[un][:, None], mc, 1), rtol=1e-5)
                if (~un).any():
                    noise = 2e-6 * np.abs(a[~un]) * np.sqrt(v[~un])
                    u = (mm[~un] - a[~un][:, None]) * np.sqrt(v[~un])[:, None]
                    pool.append(u[noise < 1e-3])
                for k in range(min(mc, 4)):
                    check_fit_raw(rec, m, zz, mm[:, k], v, cm[:, k])
        # the same objects twice over: new draws each time
        z = redshifts(rng, m, 3)
        mag, iv = photometry(rng, m, z, coeffs(rng, m.nt, 3, zero=0.), 3)
        iv = np.where(iv == 0, np.median(iv) + 1e-3 * iv.max(), iv)
        mag = np.minimum(np.abs(mag), 50. / np.sqrt(iv))
        rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, mc=12)
        for rep in range(2):
            got = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=12)
            if rec.ok('three results', isinstance(got, tuple) and len(got) == 3 and np.shape(got[2]) == (3, m.nb, 12)):
                for i in range(3):
                    a, v = m.ab(np.float32(mag[i]).astype(float), np.float32(iv[i]).astype(float))
                    pool.append((np.asarray(got[2][i], float) - a[:, None]) * np.sqrt(v)[:, None])
        # many realisations of one object: the spread of the draws, and the fit again when nnls gives up
        z = redshifts(rng, m)
        mag, iv = photometry(rng, m, z, coeffs(rng, m.nt, zero=0.))
        iv = np.where(iv == 0, np.median(iv) + 1., iv)
        rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, mc=4000)
        got = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=4000)
        if rec.ok('three results', isinstance(got, tuple) and len(got) == 3 and np.shape(got[2]) == (m.nb, 4000)):
            a, v = m.ab(np.float32(mag).astype(float), np.float32(iv).astype(float))
            al = ((np.asarray(got[2], float) - a[:, None]) * np.sqrt(v)[:, None])[2e-6 * np.abs(a) * np.sqrt(v) < 1e-3]
            if al.size:
                rec.ok('draws: zero mean', np.all(np.abs(al.mean(-1)) < 6. / math.sqrt(4000)) and abs(al.mean()) < 6. / math.sqrt(al.size), al.mean(-1))
                rec.ok('draws: unit variance', np.all(np.abs(al.var(-1) - 1.) < 8. / math.sqrt(4000)) and abs(al.var() - 1.) < 8. / math.sqrt(al.size), al.var(-1))
        real = scipy.optimize.nnls

        def limited(A, b, *a, **kw):
            mi = kw.get('maxiter', a[0] if a else None)
            if mi is None or (mi >= 0 and mi <= 3 * A.shape[1]):
                raise RuntimeError('maximum number of iterations')
            return real(A, b, *a, **kw)
        rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, mc=3, iteration_limit='reported by nnls at the default')
        scipy.optimize.nnls = limited
        try:
            got = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=3)
        finally:
            scipy.optimize.nnls = real
        a, v = m.ab(mag, iv)
        for k in range(3):
            check_fit_raw(rec, m, float(z), np.asarray(got[2])[:, k], v, np.asarray(got[1])[:, k])
        u = [x for x in pool if x.size]
        if u:
            al = np.concatenate([x.ravel() for x in u])
            N = len(al)
            rec.case(model=nm, draws=N)
            if N > 200:
                rec.ok('draws: zero mean', abs(al.mean()) < 6. / math.sqrt(N), al.mean())
                rec.ok('draws: unit variance', abs(al.var() - 1.) < 9. / math.sqrt(N), al.var())
                q = np.sort(al)
                from scipy.special import erf
                F = 0.5 * (1. + erf(q / math.sqrt(2.)))
                D = np.max(np.abs(F - (np.arange(N) + .5) / N))
                rec.ok('draws: normal', D < 3.2 / math.sqrt(N), D)
                rec.ok('draws: distinct', len(np.unique(np.round(al, 2))) > 0.2 * min(N, 300))
            for x in u:
                if x.shape[1] >= 40 and x.shape[0] > 1:
                    cc = np.corrcoef(x)
                    rec.ok('draws: bands independent', np.max(np.abs(cc - np.eye(len(cc)))) < 6. / math.sqrt(x.shape[1]), np.max(np.abs(cc - np.eye(len(cc)))))
            for x, y in itertools.combinations(u, 2):
                k, q = min(x.shape[1], y.shape[1]), min(len(x), len(y))
                if k > 4:
                    same = np.abs(x[:q, None, :k] - y[None, :q, :k]) < 2e-3
                    rec.ok('draws: not repeated for another object', same.sum(-1).max() < max(5, .3 * k), same.sum(-1).max())
            big = [x for x in u if x.shape[1] >= 40]
            for x, y in itertools.combinations(big[:8], 2):
                k = min(x.shape[1], y.shape[1])
                r = np.corrcoef(np.vstack([x[:, :k], y[:, :k]]))[:len(x), len(x):]
                rec.ok('draws: objects independent', np.max(np.abs(r)) < 6.5 / math.sqrt(k), np.max(np.abs(r)))


def check_fit_raw(rec, m, z, mag, iv, c):
    c = np.asarray(c, float)
    rec.ok('realisation: nonnegative', (c >= 0).all(), c)
    best = m.fit_value(z, mag, iv, m.fit_best(z, mag, iv))
    got = m.fit_value(z, mag, iv, c)
    tot = float(np.sum(iv * np.asarray(mag, float) ** 2))
    rec.ok('realisation: optimal', got <= best + 2e-5 * tot + 1e-12, 'objective %r, optimum %r, scale %r' % (got, best, tot))


@prop
def C11(rec, rng, kc, repo):
    rec.rules.append('Monte Carlo propagation compared with one ordinary call per realisation')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'more', 'restored'))
    for nm, m in ms:
        for it in range(8 * rec.scale):
            n = [None, 1, 3, 2][it % 4]
            mc = [1, 2, 5, 17][(it // 2) % 4]
            bs, z = bandshift(rng, m), redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n)
            L = () if n is None else (n,)
            cm = np.stack([coeffs(rng, m.nt, n) for _ in range(mc)], -1)
            if rng.rand() < .4:                  # realisations of one faint object
                cm = (fresh_coeffs(rng, m.nt, n, zero=0.) * 10. ** -rng.uniform(4., 16.))[..., None] * rng.uniform(.7, 1.4, (m.nt, mc))
            mag, iv = photometry(rng, m, z, c, n)
            mm = np.stack([mag * (1. + .1 * rng.randn(*mag.shape)) for _ in range(mc)], -1)
            d = None if it % 2 else (rng.uniform(1., 5e3) if n is None else rng.uniform(1., 5e3, n))
            r, k = bool(it & 1), bool(it & 4) or it % 5 == 0
            rec.case(model=nm, redshift=z, ivar=iv, mc=mc, band_shift=bs, distance=d, reconstruct=r, kcorrect=k, coeffs_mc=cm, maggies_mc=mm)
            got = rec.call('absmag_mc', m.k.absmag_mc, redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=cm, **dict(bkw(rng, bs), **{x: y for x, y in (('distance', d), ('reconstruct', r), ('kcorrect', k)) if (y is not None and y is not False) or rng.rand() < .4}))
            got = got if isinstance(got, tuple) else (got,)
            rec.call('absmag_mc', m.k.absmag_mc, redshift=z, maggies_mc=2. * mm, ivar=iv, coeffs_mc=cm * 3., band_shift=bs, distance=d, reconstruct=r, kcorrect=k)    # leaves these results alone
            if rec.ok('number of results', len(got) == 1 + r + k, len(got)):
                for q in range(mc):
                    one = rec.call('absmag', m.k.absmag, redshift=z, maggies=mm[..., q], ivar=iv, coeffs=cm[..., q], band_shift=bs, distance=d, reconstruct=r, kcorrect=k)
                    one = one if isinstance(one, tuple) else (one,)
                    for a, b in zip(got, one):
                        if rec.ok('shape', np.shape(a) == np.shape(b) + (mc,), (np.shape(a), np.shape(b))):
                            rec.close('absmag_mc entry', a[..., q], b, rtol=1e-5, atol=1e-5)
            got = rec.call('derived_mc', m.k.derived_mc, redshift=z, coeffs_mc=cm, **dict(bkw(rng, bs), **({} if d is None and it % 4 else dict(distance=d))))
            rec.call('derived_mc', m.k.derived_mc, redshift=z, coeffs_mc=cm * 3., band_shift=bs, distance=d)
            for q in range(mc):
                one = rec.call('derived', m.k.derived, redshift=z, coeffs=cm[..., q], band_shift=bs, distance=d)
                rec.ok('derived_mc names', set(got) == set(one))
                for x in one:
                    if x in got and rec.ok('derived_mc shape ' + x, np.shape(got[x]) == np.shape(one[x]) + (mc,), (np.shape(got[x]), np.shape(one[x]))):
                        rec.close('derived_mc ' + x, got[x][..., q], one[x], rtol=1e-5)


# ---- utilities ---------------------------------------------------------------------------------
ABFIX = np.array([-0.036, 0.012, 0.010, 0.028, 0.040])


def ab_oracle(m, v, fix=ABFIX):
    f = 10. ** (-0.4 * np.asarray(fix, float))
    return np.asarray(m, float) * f, None if v is None else np.asarray(v, float) / f ** 2


def stack_shape(rng, it):
    return [(), (1,), (4,), (2, 3), (5,), (5, 5), (1, 2, 2)][it % 7]


@prop
def C12(rec, rng, kc, repo):
    rec.rules.append('AB correction of single objects and stacks; effect on fits and magnitudes per class and abcorrect')
    U = kc.utils
    for it in range(21 * rec.scale):
        L = stack_shape(rng, it)
        m, v = 10. ** rng.uniform(-12, -7, L + (5,)) * rng.choice([-1, 1, 1], L + (5,)), 10. ** rng.uniform(12, 18, L + (5,)) * (rng.rand(*(L + (5,))) > .2)
        fix = None if it % 3 else rng.uniform(-.2, .2, 5)
        m = np.where(rng.rand(*m.shape) < .12, 0., m)
        rec.case(maggies=m, ivar=v, abfix=fix)
        kw = {} if fix is None else {'abfix': fix}
        tm, tv = typed(rng, m, v)
        a, iv = rec.call('sdss_ab_correct', U.sdss_ab_correct, maggies=tm, ivar=tv, **kw)
        wa, wv = ab_oracle(m, v, ABFIX if fix is None else fix)
        rec.close('corrected flux', a, wa, rtol=1e-5)
        rec.close('corrected ivar', iv, wv, rtol=1e-5)
        a2 = rec.call('sdss_ab_correct', U.sdss_ab_correct, maggies=tm, **kw)
        rec.close('corrected flux without ivar', a2, wa, rtol=1e-5)
    for ty in (np.float32, np.float64):
        m, v, fix = 10. ** rng.uniform(-12, -7, (3, 5)), 10. ** rng.uniform(12, 18, (3, 5)), rng.uniform(-.2, .2, 5)
        tf = fix.astype(ty)
        for step in range(3):
            rec.case(maggies=m, ivar=v, abfix=fix, step=step, offsets='the same array each time')
            a, iv = rec.call('sdss_ab_correct', U.sdss_ab_correct, maggies=m.copy(), ivar=v.copy(), abfix=tf)
            wa, wv = ab_oracle(m, v, fix)
            rec.close('corrected flux, offsets used again', a, wa, rtol=1e-5)
            rec.close('corrected ivar, offsets used again', iv, wv, rtol=1e-5)
    w, ms = models(rec, rng, kc, ('sdss', 'sdss0', 'gst1', 'gst0', 'base1', 'same'))
    for nm, m in ms:
        for it in range(7):
            L = stack_shape(rng, it)
            if len(L) > 1:
                continue
            a, v = rng.uniform(.5, 2., L + (m.nb,)), rng.uniform(.5, 2., L + (m.nb,))
            a, v = np.float32(a), np.float32(v)
            rec.case(model=nm, maggies=a, ivar=v)
            fac = np.ones(m.nb)
            if m.cls == 'KcorrectSDSS':
                fac = 10. ** (-.4 * ABFIX)
            elif m.cls == 'KcorrectGST':
                fac[2:7] = 10. ** (-.4 * ABFIX)
            g = rec.call('to_ab', m.k.to_ab, maggies=a.copy(), ivar=v.copy())
            rec.close('to_ab flux', g[0], a * fac, rtol=1e-5)
            rec.close('to_ab ivar', g[1], v / fac ** 2, rtol=1e-5)
            g = rec.call('to_ab', m.k.to_ab, maggies=a.copy())
            rec.close('to_ab without ivar', g, a * fac, rtol=1e-5)
            if m.cls != 'Kcorrect':        # whole numbers of nanomaggies
                a, v = rng.randint(1, 100, a.shape), rng.randint(1, 9, a.shape)
                rec.case(model=nm, maggies=a, ivar=v)
                g = rec.call('to_ab', m.k.to_ab, maggies=a if it % 2 else a.tolist(), ivar=v if it % 2 else v.tolist())
                rec.close('to_ab flux of integers', g[0], a * fac, rtol=1e-5)
                rec.close('to_ab ivar of integers', g[1], v / fac ** 2, rtol=1e-5)
                g = rec.call('to_ab', m.k.to_ab, maggies=a if it % 2 else a.tolist())
                rec.close('to_ab of integers without ivar', g, a * fac, rtol=1e-5)
        for it in range(4 * rec.scale):
            n = [None, 1, 3, 5][it % 4]
            z = redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n, zero=0.)
            mag, iv = photometry(rng, m, z, c, n)
            rec.case(model=nm, redshift=z, maggies=mag, ivar=iv, abcorrect=m.abflag)
            got = rec.call('fit_coeffs', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv)
            for i in range(n or 1):
                g = (lambda x: x) if n is None else (lambda x: x[i])
                check_fit(rec, 'fit of corrected fluxes', m, g(z), g(mag), g(iv), g(got))
            got = rec.call('absmag', m.k.absmag, redshift=z, maggies=mag, ivar=iv, coeffs=c, limit=True)
            st = lambda f: f(z, mag, iv, c) if n is None else np.array([f(z[i], mag[i], iv[i], c[i]) for i in range(n)])
            rec.close('absolute magnitudes of corrected fluxes', got[0], st(lambda z_, m_, v_, c_: m.absmag(float(z_), m_, v_, c_, 0., None)), rtol=1e-6, atol=1e-3)
            rec.close('limits of corrected fluxes', got[1], st(lambda z_, m_, v_, c_: m.abslim(float(z_), m_, v_, c_, 0., None)), rtol=1e-6, atol=1e-3)
            f = math.sqrt(iv.max() / 1e6) or 1.
            gk = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag * f, ivar=iv / f ** 2 * 1e14, mc=1)
            wa = m.ab(mag * f, iv)[0]
            rec.close('realisations are AB maggies', gk[2][..., 0], wa, rtol=1e-4, atol=1e-4 * float(np.max(np.abs(wa))))
    # known finding: realisations returned by a correcting class are AB already, and are corrected again
    for nm, m in ms:
        if nm == 'sdss':
            z, c = .3, coeffs(rng, m.nt, None, zero=0.) + 1.
            mag = m.recon(z, c)
            iv = (1e7 / mag) ** 2
            co, cmc, mmc = rec.call('fit_coeffs mc', m.k.fit_coeffs, redshift=z, maggies=mag, ivar=iv, mc=1)
            a = rec.call('absmag', m.k.absmag, redshift=z, maggies=mag, ivar=iv, coeffs=co)
            b = rec.call('absmag_mc', m.k.absmag_mc, redshift=z, maggies_mc=mmc, ivar=iv, coeffs_mc=np.asarray(co)[:, None])
            rec.case(model=nm, redshift=z, maggies=mag, abcorrect=True, chain='fit_coeffs(mc=1) -> absmag_mc')
            diff = np.asarray(b)[..., 0] - np.asarray(a)
            known_or_fail(rec, 'C12-absmag_mc-double-correction', np.allclose(diff, ABFIX, atol=3e-3), np.allclose(diff, 0., atol=3e-3),
                          'magnitudes of realisations differ from the plain ones by %s' % np.round(diff, 4).tolist())


def known_findings():
    out = {}
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')
    try:
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                k, _, d = l[7:].partition(' ')
                out[k] = d
    except OSError:
        pass
    return out


def known_or_fail(rec, key, is_known, is_ok, msg):
    rec.n += 1
    if is_ok:
        return
    if is_known and key in known_findings():
        rec.known.append(known_findings()[key])
        return
    rec.fail(key, msg)


B0 = np.array([1.4e-10, 9e-11, 1.2e-10, 1.8e-10, 7.4e-10])


def asinh_oracle(mag, err, ext):
    l10 = math.log(10.)
    e = 0. if ext is None else np.asarray(ext, float)
    arg = -np.log(B0) - .4 * l10 * np.asarray(mag, float)
    m = 2. * B0 * np.sinh(arg) * 10. ** (.4 * e)
    if err is None:
        return m, None
    s = .8 * l10 * B0 * np.cosh(arg) * 10. ** (.4 * e) * np.asarray(err, float)
    return m, 1. / s ** 2


@prop
def C13(rec, rng, kc, repo):
    rec.rules.append('asinh magnitudes (bright, faint, negative flux), errors and extinctions compared with the closed forms')
    U = kc.utils
    for it in range(28 * rec.scale):
        L = stack_shape(rng, it)
        mag = rng.uniform(14., 27., L + (5,))
        err = rng.uniform(.005, .8, L + (5,)) if it % 3 else None
        ext = rng.uniform(0., 1.2, L + (5,)) if it % 2 else None
        mag = mag.astype(np.float32).astype(float)
        rec.case(mag=mag, mag_err=err, extinction=ext)
        tm, te, tx = typed(rng, mag, err, ext)
        kw = {}
        if err is not None:
            kw['mag_err'] = te
        if ext is not None:
            kw['extinction'] = tx
        got = rec.call('sdss_asinh_to_maggies', U.sdss_asinh_to_maggies, mag=tm, **kw)
        wm, wv = asinh_oracle(mag, err, ext)
        scale = 2. * B0 * np.cosh(-np.log(B0) - .4 * math.log(10.) * mag)
        if err is None:
            if rec.ok('one result', not isinstance(got, tuple)):
                rec.close('maggies', np.asarray(got) / scale, wm / scale, rtol=3e-4, atol=3e-4)
        elif rec.ok('two results', isinstance(got, tuple) and len(got) == 2):
            rec.close('maggies', np.asarray(got[0]) / scale, wm / scale, rtol=3e-4, atol=3e-4)
            rec.close('ivar', got[1], wv, rtol=2e-3)
    w, ms = models(rec, rng, kc, ('sdss', 'sdss0'))
    for nm, m in ms:
        for it in range(6 * rec.scale):
            n = [None, 1, 3][it % 3]
            L = () if n is None else (n,)
            z = redshifts(rng, m, n)
            mag = rng.uniform(16., 22., L + (5,)).astype(np.float32).astype(float)
            err = rng.uniform(.01, .3, L + (5,))
            ext = rng.uniform(0., .6, L + (5,)) if it % 2 else None
            rec.case(model=nm, redshift=z, mag=mag, mag_err=err, extinction=ext)
            kw = {} if ext is None else {'extinction': ext}
            got = rec.call('fit_coeffs_asinh', m.k.fit_coeffs_asinh, redshift=z, mag=mag, mag_err=err, **kw)
            wm, wv = asinh_oracle(mag, err, ext)
            for i in range(n or 1):
                g = (lambda x: x) if n is None else (lambda x: x[i])
                check_fit(rec, 'fit of asinh magnitudes', m, g(z), g(wm), g(wv), g(got))


@prop
def C14(rec, rng, kc, repo):
    rec.rules.append('random flux signs, ivar patterns (zero, negative) and floors compared with the rule; inputs compared before and after')
    U = kc.utils
    for it in range(40 * rec.scale):
        nb = [1, 3, 5, 2, 7][it % 5]
        L = [(), (4,), (1,), (nb,), (9,)][(it // 5) % 5]
        fl = rng.uniform(.01, .2, nb)
        m = 10. ** rng.uniform(-9, -8, L + (nb,)) * rng.choice([-1, 1], L + (nb,))
        ratio = 10. ** rng.uniform(-1.5, 1.5, L + (nb,))
        ratio = np.where(rng.rand(*ratio.shape) < .3, rng.choice([.98, 1.02], size=ratio.shape), ratio)     # near the floor on both sides
        ratio = np.where(np.abs(np.log(ratio)) < .015, 1.1, ratio)
        if it % 4 == 3:
            m = m * 10. ** rng.choice([4, 9, 13])
        v = 1. / (np.abs(m) * fl * ratio) ** 2
        u = rng.rand(*(L + (nb,)))
        v = np.where(u < .15, 0., np.where(u < .25, -v, v))
        whole = it % 7 == 6 or it % 11 == 5
        if whole:                             # counts given as integers
            m = rng.randint(1, 40, m.shape) * np.sign(m)
            v = np.round(np.sign(v) * np.minimum(1e6, 1. / (np.abs(m) * fl * ratio) ** 2))
        rec.case(floor=fl, maggies=m, ivar=v, integers=whole)
        if whole:
            args = [fl.copy(), m.astype(int), v.astype(int)]
            args = args if it % 2 else [x.tolist() for x in args]
        elif it % 3 == 0:
            args = [fl.tolist(), m.tolist(), v.tolist()]
        else:
            args = [fl.copy(), m.copy(), v.copy()]
        keep = copy.deepcopy(args)
        got = rec.call('error_floor', U.error_floor, *args)
        low = (v > 0) & (1. / (np.abs(m) * np.sqrt(np.where(v > 0, v, 1.))) < fl)
        want = np.where(low, 1. / (np.abs(m) * fl) ** 2, v)
        rec.close('floored ivar', got, want, rtol=1e-5)
        if np.shape(got) == want.shape:
            rec.ok('other ivars untouched', (np.asarray(got)[~low] == v[~low]).all())
        rec.ok('inputs unchanged', all(np.array_equal(a, b) for a, b in zip(args, keep)))


@prop
def C15(rec, rng, kc, repo):
    rec.rules.append('flux conversion for lists of responses in any order; single objects and stacks')
    U = kc.utils
    w = World(rng, kc, rec)
    for n in ('sdss_r0', 'galex_NUV', 'twomass_J'):
        w.known_response(n)
    leff = {}
    for n, o in w.obs.items():
        r = o.resp / o.wave
        leff[n] = math.exp(trapz(np.log(o.wave) * r, o.wave) / trapz(r, o.wave))
    names = sorted(leff)
    for it in range(6):
        x = 10. ** rng.uniform(2.5, 5, 7)
        rec.case(wave=x)
        rec.close('AB spectrum', rec.call('sed_ab', U.sed_ab, x), sed_ab(x), rtol=1e-6)
    for it in range(24 * rec.scale):
        nb = [1, 2, 3, 5, len(names)][it % 5]
        pick = list(rng.choice(names, nb, replace=(it % 4 == 3)))
        L = [(), (4,), (1,), (nb,)][(it // 3) % 4]
        m, v = rng.uniform(-1., 3., L + (nb,)), rng.uniform(0., 3., L + (nb,))
        with_iv = it % 2 == 0
        rec.case(responses=pick, maggies=m, ivar=v if with_iv else None)
        if it % 2:
            for x in ('sdss_r0', 'galex_NUV', 'twomass_J'):      # not loaded yet by anyone
                kc.response.ResponseDict().pop(x, None)
        kw = dict(ivar=v.copy()) if with_iv else {}
        got = rec.call('maggies2flambda', U.maggies2flambda, maggies=m.copy(), responses=pick, **kw)
        wl = np.array([leff[x] for x in pick])
        f = sed_ab(wl)
        if not rec.ok('number of results', isinstance(got, tuple) and len(got) == 2 + with_iv, len(got)):
            continue
        rec.close('wavelengths', got[0], wl, rtol=1e-5)
        rec.close('flux', got[1], m * f, rtol=1e-5)
        if with_iv:
            rec.close('ivar', got[2], v / f ** 2, rtol=1e-5)


# ---- projection, templates, responses ----------------------------------------------------------
def spectrum(rng, lo, hi, nw, ns=None, spacing='log'):
    x = np.exp(np.linspace(math.log(lo), math.log(hi), nw)) if spacing == 'log' else np.linspace(lo, hi, nw)
    x = np.float32(x).astype(float)
    def one():
        a, d = rng.uniform(-1.5, 1.), rng.uniform(0, 6)
        return 1e-6 * (x / 5000.) ** a * (1. + .4 * np.sin(6. * np.log(x) + d))
    f = one() if ns is None else np.array([one() for _ in range(ns)])
    return x, np.float32(f).astype(float)


@prop
def C16(rec, rng, kc, repo):
    rec.rules.append('synthetic response curves (also nonzero at the edges) and spectra with full, partial, sparse or no overlap; projections compared with the definition')
    Resp, SED = kc.response.Response, kc.template.SED
    for it in range(24 * rec.scale):
        kind = ['bump', 'box', 'skew', 'double'][it % 4]
        x, y = curve(rng, kind, rng.uniform(4000., 8000.), rng.uniform(300., 900.), n=[21, 41, 6, 90][(it // 4) % 4])
        o = Obs(x, y)
        r = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
        lo, hi, nw, sp = [(1000., 30000., 300, 'log'), (3000., 12000., 40, 'lin'), (x[3], 20000., 120, 'log'), (1500., x[-3], 150, 'log'), (1000., 30000., 9, 'log'),
                          (x[2], x[-2], 60, 'lin'), (500., x[0] - 200., 30, 'lin'), (x[-1] + 50., 20000., 30, 'lin'), (x[0], x[-1], 30, 'lin')][it % 9]
        ns = [None, 1, 2, 5][(it // 2) % 4]
        w, f = spectrum(rng, lo, hi, nw, ns, sp)
        rec.case(response=kind, nresponse=len(x), wave_range=[lo, hi], nwave=nw, nspectra=ns)
        want = project(x, y, w, f, o.interp)
        sc = float(np.max(np.abs(want)))
        want = want[0] if (ns or 1) == 1 else want
        got = rec.call('project', r.project, wave=w, flux=f)
        disjoint = hi < x[0] or lo > x[-1]
        if disjoint:
            rec.ok('0 outside the spectrum', np.all(np.asarray(got) == 0), got)
            continue
        rec.close('projection of arrays', got, want, rtol=2e-4, atol=1e-4 * sc)
        s = rec.call('SED', SED, wave=w.copy(), flux=f.copy())
        got = rec.call('project', r.project, sed=s)
        rec.close('projection of an SED', got, want, rtol=2e-4, atol=1e-4 * sc)
        rough = np.float32(f * 10. ** rng.uniform(-1., 1., size=f.shape)).astype(float)
        want = project(x, y, w, rough, o.interp)
        sc = float(np.max(project(x, np.abs(y), w, np.abs(rough)))) + sc
        rec.close('projection of rough spectra', rec.call('project', r.project, wave=w, flux=rough), want[0] if (ns or 1) == 1 else want, rtol=1e-4, atol=2e-5 * sc)
        want = project(x, y, w, f, o.interp)
        want = want[0] if (ns or 1) == 1 else want
        f2 = rng.uniform(-2., 2.) * f
        g2 = rec.call('project', r.project, wave=w, flux=f + f2)
        rec.close('linear in the flux', g2, np.asarray(want) * (1. + f2.ravel()[0] / f.ravel()[0]), rtol=1e-3, atol=3e-4 * sc)
        if not disjoint and lo <= x[0] and hi >= x[-1] and nw >= 120:
            g = rec.call('project', r.project, wave=w, flux=sed_ab(w))
            rec.close('1 for the AB source', g, 1., rtol=3e-3)
    # curves as measured: unevenly sampled, with dark samples inside and at the ends; spectra coarser and finer than them
    for it in range(12 * rec.scale):
        n = rng.randint(6, 16)
        x = np.cumsum(rng.uniform(20., 150., n)) + rng.uniform(3000., 8000.)
        y = rng.uniform(.1, 1., n) * (rng.rand(n) < .7)
        y[[(0,), (0, 1), (n - 1,), (0, n - 2, n - 1), ()][it % 5],] = 0.
        y[n // 2] = 1.
        w = np.sort(np.float32(rng.uniform(x[0] - 2500., x[-1] + 3000., [6, 12, 60][it % 3]))).astype(float)
        w = np.unique(np.r_[w, np.float32(x[0] - 2600.), np.float32(x[-1] + 3100.)])
        f = np.float32((w / 5000.) ** np.array([[-2.], [1.5]])).astype(float)
        rec.case(response_wave=x, response=y, wave=w)
        k = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
        want, sc = project(x, y, w, f), float(np.max(np.abs(project(x, np.abs(y), w, np.abs(f)))))
        rec.close('projection on a measured curve', rec.call('project', k.project, wave=w, flux=f), want, rtol=2e-4, atol=1e-4 * sc)
        s = rec.call('SED', SED, wave=w.copy(), flux=f.copy())
        rec.close('projection of an SED on a measured curve', rec.call('project', k.project, sed=s), want, rtol=2e-4, atol=1e-4 * sc)
    # one response, a history of spectra of the same length whose grids differ inside only
    for run in range(3 * rec.scale):
        x, y = curve(rng, ['skew', 'box', 'double'][run % 3], 6000., 700.)
        r = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
        w0 = np.linspace(4800., 7300., 12 + 7 * run)
        wb, fb = w0.copy(), np.zeros((2, len(w0)))
        for step in range(6):
            w = w0.copy()
            if step:
                inner = np.where((w0 > 5300.) & (w0 < 6700.))[0][1:-1]
                w[inner] += rng.uniform(-.35, .35, len(inner)) * (w0[1] - w0[0]) * (rng.rand(len(inner)) < [.5, 1.][step % 2])
            w = np.float32(w).astype(float)
            f = np.float32(1e-6 * rng.uniform(.2, 1., (2, len(w)))).astype(float)
            rec.case(response_range=[5300., 6700.], wave=w, flux=f, step=step)
            want = project(x, y, w, f)
            rec.close('projection, same response again', rec.call('project', r.project, wave=w, flux=f), want, rtol=1e-4, atol=2e-5 * float(np.max(want)))
            s = rec.call('SED', SED, wave=w.copy(), flux=f.copy())
            for z in (0., .03, .0301):
                rec.call('set_redshift', s.set_redshift, z)
                want = project(x, y, w * (1. + z), f / (1. + z))
                rec.close('projection of an SED, same response again', rec.call('project', r.project, sed=s), want, rtol=1e-4, atol=2e-5 * float(np.max(want)))
            wb[:], fb[:] = w, f          # the same array objects with other contents
            want = project(x, y, w, f)
            rec.close('projection, same response and arrays again', rec.call('project', r.project, wave=wb, flux=fb), want, rtol=1e-4, atol=2e-5 * float(np.max(want)))
    for nm in (1003, 7):
        x, y = curve(rng, 'skew', 6000., 700.)
        r = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
        w, f = spectrum(rng, 3000., 10000., 30, nm)
        rec.case(nspectra=nm)
        want = project(x, y, w, f)
        rec.close('projection of many spectra', rec.call('project', r.project, wave=w, flux=f), want, rtol=3e-4, atol=1e-4 * float(np.max(want)))
    x, y = curve(rng, 'skew', 6000., 700.)
    r = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
    rec.case(arguments='missing')
    rec.raises('wave or flux missing', Exception, r.project)
    rec.raises('wave or flux missing', Exception, r.project, wave=x)
    rec.raises('lengths differ', Exception, r.project, wave=x, flux=np.ones(len(x) - 1))
    for ws, fs in (((3,), (3, 1, 3)), ((9,), (2, 1, 9)), ((9,), (2, 3, 9)), ((1, 9), (9,)), ((9,), (9, 2)), ((9,), (3, 8)), ((2, 9), (2, 9)), ((9,), ())):
        rec.case(wave_shape=ws, flux_shape=fs)
        rec.raises('arrays of the wrong rank or length', Exception, r.project, wave=np.linspace(3000., 10000., ws[-1]) * np.ones(ws), flux=np.ones(fs))
    # one spectrum sample in the band, samples on the band edges, a response that is large at its ends
    for kind, pts in itertools.product(('box', 'skew'), ((3000., 4000., 5000., 6100., 7000., 8000.), (1000., 2000., 5300., 5400., 6000., 6700., 20000.), (4000., 5300., 5700., 6000., 6700., 9000., 12000.),
                                                         (4000., 4500., 5000., 5200., 6800., 7000., 7500., 8000.), (5100., 5200., 5300., 5400., 5500., 5600.), (6400., 6500., 6600., 6700., 6800., 6900., 7000.),
                                                         (4500., 4800., 5300., 5500., 6000., 6500., 6600., 6700.), (5300., 5500., 6000., 6500., 6600., 6700., 6800.))):
        x, y = curve(rng, kind, 6000., 700., n=[8, 29][len(pts) % 2])
        r = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
        w = np.array(pts)
        for ns in (None, 3):
            f = np.float32(1e-6 * rng.uniform(.2, 1., len(w) if ns is None else (ns, len(w)))).astype(float)
            rec.case(response=kind, response_range=[5300., 6700.], wave=w, flux=f)
            want = project(x, y, w, f)
            sc = float(np.max(np.abs(project(x, np.abs(y), w, np.abs(f)))))
            rec.close('projection of coarse spectra', rec.call('project', r.project, wave=w, flux=f), want[0] if ns is None else want, rtol=1e-4, atol=2e-5 * sc)
            rec.close('projection of coarse spectra', rec.call('project', r.project, sed=rec.call('SED', SED, wave=w.copy(), flux=f.copy())), want[0] if ns is None else want, rtol=1e-4, atol=2e-5 * sc)


@prop
def C17(rec, rng, kc, repo):
    rec.rules.append('sequences of redshifts on SEDs and templates with and without interpolation; state compared with the rest-frame arrays')
    SED = kc.template.SED
    w = World(rng, kc, rec)
    for it in range(16 * rec.scale):
        ns = [1, 3, None, 2][it % 4]
        wv, fl = spectrum(rng, 1000., 20000., [40, 5, 200][it % 3], ns)
        interp = bool(it % 2)
        if it % 5 == 4:
            s = rec.call('Template', w.template, interp)
            wv, fl = w.tm.wave, w.tm.flux
        else:
            s = rec.call('SED', SED, wave=wv.copy(), flux=fl.copy(), interpolate=interp)
        f2 = np.atleast_2d(fl)
        zs = [round(float(x), 4) for x in rng.uniform(0., 3., rng.randint(1, 6))] + ([0.] if it % 3 == 0 else []) + ([float(rng.uniform(-.4, 0.))] if it % 4 == 1 else [])
        if it % 4 == 2:
            zs = zs + [zs[-1], zs[-1]]
        rng.shuffle(zs)
        rec.case(nspectra=ns, nwave=len(wv), interpolate=interp, redshifts=zs)
        rec.close('initial wave', s.wave, wv, rtol=1e-6)
        rec.ok('initial redshift', s.redshift == 0)
        for z in zs:
            rec.call('set_redshift', s.set_redshift, redshift=z)
            rec.close('wave', s.wave, wv * (1. + z), rtol=1e-6)
            rec.close('flux', s.flux, f2 / (1. + z), rtol=1e-6)
            rec.ok('redshift', abs(s.redshift - z) < 1e-12, s.redshift)
            rec.close('rest-frame wave', s.restframe_wave, wv, rtol=1e-7)
            rec.close('rest-frame flux', s.restframe_flux, f2, rtol=1e-7)
            if np.shape(s.flux) == f2.shape:
                rec.close('bolometric integral', trapz(s.flux, s.wave), trapz(f2, wv), rtol=1e-4)
            if s.interp is not None:
                q = wv * (1. + z) * (1. + 1e-7)
                mid = .5 * (wv[1:] + wv[:-1]) * (1. + z)
                got = rec.call('interp', s.interp, mid)
                want = cubic(wv * (1. + z), f2 / (1. + z))(mid)
                rec.close('interpolator', got, want, rtol=1e-3, atol=1e-4 * float(np.max(np.abs(want))))
                out = np.array([wv[0] * (1. + z) * .97, wv[-1] * (1. + z) * 1.03])
                rec.ok('interpolator: nothing outside the spectrum', (np.asarray(rec.call('interp', s.interp, out)) == 0).all())
            elif interp:
                rec.fail('interpolator', 'missing')
        if it % 2:
            rec.call('set_redshift', s.set_redshift)
            rec.close('back to zero: wave', s.wave, wv, rtol=1e-6)
            rec.close('back to zero: flux', s.flux, f2, rtol=1e-6)
    for step in (1e-3, 1e-5, 3e-7, 1e-9):
        wv, fl = spectrum(rng, 1000., 20000., 30, 2)
        s = rec.call('SED', SED, wave=wv.copy(), flux=fl.copy(), interpolate=step == 1e-5)
        z = float(rng.uniform(.1, .5))
        rec.case(first=z, step=step, steps=400)
        for i in range(400):
            rec.call('set_redshift', s.set_redshift, z + i * step)
        z = z + 399 * step
        rec.close('wave after small steps', s.wave, wv * (1. + z), rtol=1e-6)
        rec.close('flux after small steps', s.flux, fl / (1. + z), rtol=1e-6)
        rec.ok('redshift', abs(s.redshift - z) < 1e-12)
    for it in range(4):
        wv, fl = spectrum(rng, 90., 9e6, 50, [None, 3][it % 2])
        fl = np.float32(fl * 10. ** rng.uniform(-12., 6., size=fl.shape) * (rng.rand(*fl.shape) < .8) * rng.choice([-1., 1.], size=fl.shape)).astype(float)
        s = rec.call('SED', SED, wave=wv.copy(), flux=fl.copy(), interpolate=False)
        for z in (4.25, 0., 11., -.75, 1e-3, 0.):
            rec.case(nwave=len(wv), redshift=z, flux='zero, negative and over 18 orders of magnitude')
            rec.call('set_redshift', s.set_redshift, z)
            rec.close('wave', s.wave, wv * (1. + z), rtol=1e-6)
            rec.close('flux', s.flux, np.atleast_2d(fl) / (1. + z), rtol=1e-6)
            rec.close('rest-frame flux', s.restframe_flux, np.atleast_2d(fl), rtol=1e-7)
            rec.ok('redshift', abs(s.redshift - z) < 1e-12)


@prop
def C18(rec, rng, kc, repo):
    rec.rules.append('design matrices of synthetic templates and bands compared with projections of redshifted spectra on and between grid points')
    w = World(rng, kc, rec)
    F = kc.fitter.Fitter
    jobs = [(5, 260, ('syn_u', 'syn_r', 'syn_i'), (0., 1.), 6), (1, 200, ('syn_g',), (.1, .6), 3), (3, 120, ('syn_r', 'syn_g'), (-.2, .5), 2),
            (2, 300, ('syn_i', 'syn_i', 'syn_u', 'syn_n'), (0., 2.), 5), (1003, 60, ('syn_r',), (0., .4), 2), (1000, 60, ('syn_g',), (0., .4), 2), (2001, 40, ('syn_i',), (.1, .3), 2)]
    if rec.scale > 1:
        jobs += [(7, 300, ('syn_z', 'syn_u', 'syn_r'), (0., 1.5), 40), (2500, 50, ('syn_r', 'syn_g'), (0., .4), 3), (999, 60, ('syn_r',), (0., .4), 2)]
    for nt, nw, names, zr, nz in jobs:
        tm = make_templates(rng, nt, nw, tmpname(), binimage=nt > 100)
        for interpolate in (True, False):
            if nt > 100 and interpolate and nt != 1003:
                continue
            rec.case(templates=nt, nwave=nw, bands=names, redshift_range=zr, nredshift=nz, interpolate=interpolate)
            t = rec.call('Template', kc.template.Template, filename=tm.path, interpolate=interpolate)
            k = rec.call('Fitter', F, responses=list(names), templates=t, redshift_range=list(zr), nredshift=nz)
            rec.close('grid', k.redshifts, np.linspace(zr[0], zr[1], nz), rtol=1e-5, atol=1e-6)
            rec.call('set_Amatrix', k.set_Amatrix)
            A = w.design(names, np.linspace(zr[0], zr[1], nz), tm)
            sc = np.abs(A).max()
            gz = np.asarray(k.redshifts, dtype=float)
            got = rec.call('design matrix at grid points', k.Amatrix, k.redshifts)
            rec.close('design matrix at grid points', got, A, rtol=1e-3, atol=3e-4 * sc)
            for q in range(3):
                i, f = rng.randint(nz - 1), rng.uniform(.2, .8)
                zz = gz[i] * (1. - f) + gz[i + 1] * f
                got = rec.call('design matrix between grid points', k.Amatrix, zz)
                rec.close('design matrix between grid points', got, A[i] * (1. - f) + A[i + 1] * f, rtol=1e-3, atol=3e-4 * sc)
            rec.raises('outside the grid', (ValueError,), k.Amatrix, zr[1] + .05)
            rec.raises('outside the grid', (ValueError,), k.Amatrix, np.array([zr[0] - .05, .5 * (zr[0] + zr[1])]))
            rec.ok('templates left at redshift zero', t.redshift == 0)
            rec.close('templates left at redshift zero', t.wave, tm.wave, rtol=1e-6)
            rec.close('templates left at redshift zero', t.flux, tm.flux, rtol=1e-6)


    # templates that a band leaves or enters within the grid
    for lo, hi, names in ((1000., 5200., ('syn_r', 'syn_i', 'syn_u')), (5000., 90000., ('syn_u', 'syn_g', 'syn_r')), (700., 2300., ('syn_r', 'syn_u'))):
        x = 10. ** np.linspace(math.log10(lo), math.log10(hi), 150)
        y = (x / lo) ** np.array([[-1.], [.5]]) * (1. + .1 * np.sin(x / 200.))
        rec.case(templates=2, wave_range=(lo, hi), bands=names, redshift_range=(0., 2.), nredshift=7)
        tm = copy.copy(w.tm)
        tm.wave, tm.flux, tm.nt = x, y, 2
        k = rec.call('Fitter', F, responses=list(names), templates=rec.call('SED', kc.template.SED, wave=x.copy(), flux=y.copy()), redshift_range=[0., 2.], nredshift=7)
        rec.call('set_Amatrix', k.set_Amatrix)
        A = w.design(names, np.linspace(0., 2., 7), tm)
        rec.close('design matrix at grid points', rec.call('Amatrix', k.Amatrix, k.redshifts), A, rtol=2e-3, atol=1e-3 * np.abs(A).max())

    # objects that agree in bands and grid but not in templates, and the other way round; the object built before is not disturbed
    old = []
    for i in range(4):
        tm = make_templates(rng, 2, 120, tmpname())
        names, zr = (('syn_r', 'syn_g'), ('syn_g', 'syn_r'))[i // 2 % 2], ((0., .4), (0., .4), (0., .5), (.1, .5))[i]
        rec.case(templates=2, bands=names, redshift_range=zr, nredshift=3, objects_before=i)
        t = rec.call('Template', kc.template.Template, filename=tm.path)
        k = rec.call('Fitter', F, responses=list(names), templates=t, redshift_range=list(zr), nredshift=3)
        rec.call('set_Amatrix', k.set_Amatrix)
        old.append((k, w.design(names, np.linspace(zr[0], zr[1], 3), tm)))
        for k, A in old:
            rec.close('design matrix of one of several objects', rec.call('Amatrix', k.Amatrix, k.redshifts), A, rtol=1e-3, atol=3e-4 * np.abs(A).max())


@prop
def C19(rec, rng, kc, repo):
    rec.rules.append('response curves given in sorted, reversed and shuffled order, from arrays and files; metadata compared with the definitions')
    Resp = kc.response.Response
    import astropy.io.fits as fits
    import scipy.optimize
    used = None
    for it in range(20 * rec.scale):
        kind = ['bump', 'box', 'skew', 'double', 'rise', 'fall'][it % 6]
        if kind in ('rise', 'fall'):
            x = np.linspace(4000., 5000., 31)
            y = .1 + .9 * (x - 4000.) / 1000.
            y = y if kind == 'rise' else y[::-1].copy()
            y = y + .02 * np.sin(x / 90.)
        else:
            x, y = curve(rng, kind, rng.uniform(3000., 9000.), rng.uniform(200., 900.), n=[41, 11, 90][it % 3])
        y = y * rng.uniform(.1, 5.)
        if it % 4 == 3:
            keep = np.sort(rng.choice(len(x), max(8, len(x) // 2), replace=False))
            x, y = x[keep], y[keep]
        order = [np.arange(len(x)), np.arange(len(x))[::-1], rng.permutation(len(x))][it % 3]
        src = ['arrays', 'dat', 'fits'][(it // 3) % 3]
        if src != 'arrays':
            x, y = np.round(x, 3), np.round(y, 6)
        rec.case(kind=kind, order=order, source=src, wave=x, response=y)
        if src == 'arrays':
            r = rec.call('Response', Resp, wave=x[order].copy(), response=y[order].copy())
        elif src == 'dat':
            p = tmpname('.dat')
            write_dat(p, x[order], y[order])
            if it % 2 and used is not None:          # read into an object that held another curve
                r = used
                rec.call('fromdat', r.fromdat, filename=p)
            else:
                r = rec.call('Response', Resp, filename=p)
        else:
            p = tmpname()
            d = np.zeros(1, dtype=[('wave', np.float64, len(x)), ('response', np.float64, len(x))])
            d['wave'], d['response'] = x[order], y[order]
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(d)]).writeto(p)
            r = used if it % 2 and used is not None else rec.call('Response', Resp)
            rec.call('fromfits', r.fromfits, filename=p)
        used = r
        rec.ok('number of samples', r.nwave == len(x), (r.nwave, len(x)))
        rec.close('interpolated curve', rec.call('interp', r.interp, .5 * (x[1:] + x[:-1])), cubic(x, y)(.5 * (x[1:] + x[:-1])), rtol=1e-4, atol=1e-4 * float(np.max(y)))
        rec.close('sorted wave', r.wave, x, rtol=1e-7)
        rec.close('paired response', r.response, y, rtol=1e-6, atol=1e-9)
        rr = y / x
        leff = math.exp(trapz(np.log(x) * rr, x) / trapz(rr, x))
        rec.close('effective wavelength', r.lambda_eff, leff, rtol=1e-6)
        rec.ok('effective wavelength inside', x[0] <= r.lambda_eff <= x[-1])
        ii = cubic(x, y)
        v = ii(x) / ii(x).max()
        if np.any(np.abs(v - .5) < 1e-6):
            continue
        a = np.where(v > .5)[0]
        lo = x[0] if a[0] == 0 else scipy.optimize.brentq(lambda q: ii(q) / ii(x).max() - .5, x[a[0] - 1], x[a[0]])
        hi = x[-1] if a[-1] == len(x) - 1 else scipy.optimize.brentq(lambda q: ii(q) / ii(x).max() - .5, x[a[-1]], x[a[-1] + 1])
        rec.close('half maximum, low side', r.fwhm_low, lo, rtol=1e-6)
        rec.close('half maximum, high side', r.fwhm_high, hi, rtol=1e-6)
        rec.close('width', r.fwhm, hi - lo, rtol=1e-5, atol=1e-3)
    # steep sides: the half maximum is crossed in the first and last intervals, or next to them
    for y in ([.1, 1., .9, .8, .2], [.1, .3, 1., .9, .1, .05], [.05, .1, .9, 1., .3], [.2, .9, .3, .2, .3, 1., .1], [1., .9, .8, .2, .1], [.1, .2, .8, 1., .95], [.45, 1., .45], [0., 1., 1., 0.]):
        y = np.array(y)
        x = np.linspace(5000., 5000. + 40. * (len(y) - 1), len(y))
        if len(y) < 4:
            x = np.array([5000., 5015., 5045., 5060.])
            y = np.array([.45, 1., .98, .45])
        rec.case(wave=x, response=y)
        r = rec.call('Response', Resp, wave=x.copy(), response=y.copy())
        ii = cubic(x, y)
        v = ii(x) / ii(x).max()
        a = np.where(v > .5)[0]
        f = lambda q: ii(q) / ii(x).max() - .5
        lo = x[0] if a[0] == 0 else scipy.optimize.brentq(f, x[a[0] - 1], x[a[0]])
        hi = x[-1] if a[-1] == len(x) - 1 else scipy.optimize.brentq(f, x[a[-1]], x[a[-1] + 1])
        rec.close('half maximum, low side', r.fwhm_low, lo, rtol=1e-6)
        rec.close('half maximum, high side', r.fwhm_high, hi, rtol=1e-6)
        rec.close('width', r.fwhm, hi - lo, rtol=1e-5, atol=1e-3)
    for n in ('sdss_r0', 'twomass_H', 'galex_FUV'):
        x, y = read_dat(os.path.join(kc.KCORRECT_DIR, 'data', 'responses', n + '.dat'))
        rec.case(bundled=n)
        rd = kc.response.ResponseDict()
        rec.call('load_response', rd.load_response, n)
        r = rd[n]
        rec.close('bundled wave', r.wave, x, rtol=1e-6)
        rec.close('bundled response', r.response, y, rtol=1e-6)
        rr = y / x
        rec.close('bundled effective wavelength', r.lambda_eff, math.exp(trapz(np.log(x) * rr, x) / trapz(rr, x)), rtol=1e-5)


def write_dat(path, x, y):
    with open(path, 'w') as f:
        f.write('| %14s | %14s |\n' % ('lambda', 'pass'))
        for a, b in zip(x, y):
            f.write('| %14.6f | %14.8f |\n' % (a, b))


@prop
def C20(rec, rng, kc, repo):
    rec.rules.append('random histories of loads, reloads and failing loads of scratch files compared with a model of the registry; listings of scratch directories')
    RD = kc.response.ResponseDict
    rec.case(history='handles')
    rec.ok('one registry', RD() is RD())
    d = RD()
    for run in range(3 * rec.scale):
        base = os.path.join(TMP, 'reg%d' % run)
        os.mkdir(base)
        data, version = {}, {}
        for i in range(5):
            x, y = curve(rng, 'bump', rng.uniform(4000, 8000), 500., n=15)
            x, y = np.round(x, 3), np.round(y, 6)
            write_dat(os.path.join(base, 'r%d.dat' % i), x, y)
            data['%s/r%d' % (base, i)] = (x, y)
        with open(os.path.join(base, 'bad.dat'), 'w') as f:
            f.write('| lambda | wrong |\n| nothing | here |\n')
        model, hist = dict((k, v) for k, v in dict.items(d)), []
        for step in range(14):
            u = rng.rand()
            if u < .5:
                nm = '%s/r%d' % (base, rng.randint(5))
                rel = [None, False, False, True][rng.randint(4)]
                hist.append(('load', os.path.basename(nm), rel))
                rec.case(history=hist)
                kw = {} if rel is None else dict(reload=rel)
                rec.call('load_response', d.load_response, nm, **kw)
                rec.ok('present after loading', nm in d)
                if nm in model and not rel:
                    rec.ok('loaded once', d[nm] is model[nm])
                elif nm in model:
                    rec.ok('reloaded on request', d[nm] is not model[nm])
                model[nm] = d[nm]
                rec.close('data of its file', d[nm].wave, data[nm][0], rtol=1e-6)
                rec.close('data of its file', d[nm].response, data[nm][1], rtol=1e-6)
            elif u < .8:
                nm = base + ['/absent', '/bad'][rng.randint(2)]
                hist.append(('failing load', os.path.basename(nm)))
                rec.case(history=hist)
                rec.raises('failing load raises', Exception, d.load_response, nm)
                rec.ok('no entry after a failed load', nm not in d)
            elif u < .9:
                # a file that changes: reload sees it, a plain load does not
                nm = '%s/r%d' % (base, rng.randint(5))
                x, y = curve(rng, 'skew', rng.uniform(4000, 8000), 500., n=17)
                x, y = np.round(x, 3), np.round(y, 6)
                if nm not in model:
                    write_dat(nm + '.dat', x, y)
                    data[nm] = (x, y)
                    continue
                old = d[nm]
                write_dat(nm + '.dat', x, y)
                hist.append(('file changed, loaded, reloaded', os.path.basename(nm)))
                rec.case(history=hist)
                rec.call('load_response', d.load_response, nm)
                rec.ok('loaded once', d[nm] is old)
                data[nm] = (x, y)
                rec.call('load_response', d.load_response, nm, reload=True)
                rec.close('reload reads the file again', d[nm].wave, x, rtol=1e-6)
                model[nm] = d[nm]
            else:
                # a failing reload keeps the entry
                have = [k for k in model if str(k).startswith(base)]
                if not have:
                    continue
                nm = have[0]
                keep = open(nm + '.dat').read()
                with open(nm + '.dat', 'w') as f:
                    f.write('| lambda | wrong |\n| nothing | here |\n')
                hist.append(('failing reload', os.path.basename(nm)))
                rec.case(history=hist)
                rec.raises('failing load raises', Exception, d.load_response, nm, reload=True)
                rec.ok('entry kept after a failed reload', d.get(nm) is model[nm])
                with open(nm + '.dat', 'w') as f:
                    f.write(keep)
            now = dict((k, v) for k, v in dict.items(d))
            rec.ok('other entries untouched', set(now) == set(model) and all(now[k] is model[k] for k in model), hist[-1:])
            rec.ok('one registry', RD() is d)
        # listings
        for nm in ('x.dat.bak', 'note.txt', 'plain', 'dat', '.hidden.dat', 'a.b.dat', 'xdat'):
            open(os.path.join(base, nm), 'w').write('| lambda | wrong |\n')
        write_dat(os.path.join(base, 'q q.dat'), *data['%s/r0' % base])
        os.mkdir(os.path.join(base, 'sub.dat'))
        os.mkdir(os.path.join(base, 'sub'))
        write_dat(os.path.join(base, 'sub', 'inner.dat'), *data['%s/r0' % base])
        # same name as a bundled response, but invalid here
        open(os.path.join(base, 'sdss_r0.dat'), 'w').write('| lambda | wrong |\n| a | b |\n')
        rec.case(directory=sorted(os.listdir(base)))
        AR = kc.response.all_responses
        want = sorted(f[:-4] for f in os.listdir(base) if f.endswith('.dat') and os.path.isfile(os.path.join(base, f)))
        got = rec.call('all_responses', AR, response_dir=base)
        rec.ok('listing', sorted(got) == want, (sorted(got), want))
        # the directory at the time of the call
        write_dat(os.path.join(base, 'late.dat'), *data['%s/r0' % base])
        os.rename(os.path.join(base, 'q q.dat'), os.path.join(base, 'q.dat'))
        rec.case(directory=sorted(os.listdir(base)), listed_before=True)
        want = sorted(f[:-4] for f in os.listdir(base) if f.endswith('.dat') and os.path.isfile(os.path.join(base, f)))
        got = rec.call('all_responses', AR, response_dir=base)
        rec.ok('listing after a change', sorted(got) == want, (sorted(got), want))
        valid = sorted(['r%d' % i for i in range(5)] + ['q', 'late'])
        before = set(dict.keys(d))
        got = rec.call('all_responses', AR, response_dir=base, check_validity=True)
        rec.ok('listing of valid responses', sorted(got) == valid, (sorted(got), valid))
        os.unlink(os.path.join(base, 'late.dat'))
        open(os.path.join(base, 'r1.dat'), 'w').write('| lambda | wrong |\n| a | b |\n')
        write_dat(os.path.join(base, 'bad.dat'), *data['%s/r0' % base])
        rec.case(directory=sorted(os.listdir(base)), listed_before=True)
        got = rec.call('all_responses', AR, response_dir=base, check_validity=True)
        valid = sorted(['r0', 'r2', 'r3', 'r4', 'q', 'bad'])
        rec.ok('listing of valid responses after a change', sorted(got) == valid, (sorted(got), valid))
        for k in list(dict.keys(d)):
            if k not in before:
                dict.pop(d, k)
    rd = os.path.join(kc.KCORRECT_DIR, 'data', 'responses')
    want = sorted(f[:-4] for f in os.listdir(rd) if f.endswith('.dat') and os.path.isfile(os.path.join(rd, f)))
    rec.case(directory='bundled')
    rec.ok('bundled listing', sorted(rec.call('all_responses', kc.response.all_responses)) == want)


# ---- persistence --------------------------------------------------------------------------------
@prop
def C21(rec, rng, kc, repo):
    rec.rules.append('objects with distinct output bands, mappings, fractional ranges and both abcorrect settings saved and restored; state and results compared')
    w = World(rng, kc, rec)
    five = ['sdss_%s0' % x for x in 'ugriz']
    confs = [dict(), dict(names=('syn_g', 'syn_u', 'syn_r'), out=('syn_z', 'syn_n'), mp=('syn_r', 'syn_g'), zr=(0.13, 1.37), nz=7),
             dict(names=('syn_r',), zr=(0., .55), nz=3), dict(names=('syn_g', 'syn_r', 'syn_i'), out=('syn_g', 'syn_r', 'syn_i'), mp=('syn_r', 'syn_r', 'syn_g'), zr=(-.25, .8), nz=5),
             dict(cls='KcorrectSDSS', names=five, nz=4, ab=True), dict(cls='KcorrectSDSS', names=five, nz=4, ab=False, out=('syn_g', 'syn_r'), mp=('sdss_g0', 'sdss_r0')),
             dict(names=('syn_u', 'syn_g', 'syn_r', 'syn_i', 'syn_z'), ab=True, nz=6), dict(names=('syn_g', 'sdss_r0'), out=('twomass_J', 'sdss_g0', 'syn_i'), mp=('sdss_r0', 'syn_g', 'syn_g'), nz=3),
             dict(names=('capak_cfht_megaprime_sagem_g', 'syn_g'), out=('capak_cfht_megaprime_sagem_r', 'capak_cfht_megaprime_sagem_g'), mp=('syn_g', 'capak_cfht_megaprime_sagem_g'), nz=2)]
    K = kc.kcorrect
    for ci, cf in enumerate(confs):
        m = w.make(**cf)
        for how in ('method', 'constructor', 'twice'):
            p = tmpname()
            rec.case(configuration=cf, restored_by=how)
            if how == 'twice':
                m.k.templates.set_redshift(.4)
            rec.call('tofits', m.k.tofits, filename=p)
            m.k.templates.set_redshift(0.)
            cls = getattr(K, m.cls)
            if how == 'constructor':
                cls = K.Kcorrect
                if m.cls != 'Kcorrect':
                    continue
                forget(kc, m)
                r = rec.call('restore by the constructor', cls, filename=p)
            else:
                # an object of the same class with another configuration
                kw = dict(responses=['syn_r', 'syn_g'], templates=w.template(), redshift_range=[0., .3], nredshift=2)
                if m.cls == 'KcorrectSDSS':
                    kw['responses'] = five
                r = rec.call('construction', cls, **kw)
                b = len(kw['responses'])
                rec.call('use before restoring', r.absmag, redshift=.2, maggies=np.ones(b), ivar=np.ones(b), coeffs=rec.call('fit_coeffs', r.fit_coeffs, redshift=.2, maggies=np.ones(b), ivar=np.ones(b)))
                rec.call('use before restoring', r.derived, redshift=.2, coeffs=np.ones(r.templates.nsed))
                if how == 'twice':
                    rec.call('restore', r.fromfits, filename=p)
                    p2 = tmpname()
                    rec.call('save', r.tofits, filename=p2)
                    r = rec.call('construction', cls, **kw)
                    p = p2
                forget(kc, m)
                rec.call('restore', r.fromfits, filename=p)
            reg = kc.response.ResponseDict()
            rec.ok('bands are loaded', all(x in reg for x in m.names + m.out), sorted(reg))
            rec.ok('bands', list(map(str, r.responses)) == m.names, r.responses)
            rec.ok('output bands', list(map(str, r.responses_out)) == m.out, r.responses_out)
            rec.ok('mapping', list(map(str, r.responses_map)) == m.mp, r.responses_map)
            rec.close('redshift grid', r.redshifts, m.k.redshifts, rtol=1e-7)
            rec.close('redshift range', r.redshift_range, m.k.redshift_range, rtol=1e-7)
            rec.ok('grid size', int(r.nredshift) == m.k.nredshift)
            rec.ok('abcorrect', bool(r.abcorrect) == m.abflag, r.abcorrect)
            for q in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000'):
                rec.close('template ' + q, getattr(r.templates, q), getattr(m.tm, q), rtol=1e-6)
            rec.close('template flux', r.templates.restframe_flux, m.tm.flux, rtol=1e-6)
            rec.close('design matrix', rec.call('design matrix', r.Amatrix, m.k.redshifts), m.k.Amatrix(m.k.redshifts), rtol=1e-6)
            rec.close('output design matrix', rec.call('design matrix', r.AmatrixOut, m.k.redshifts), m.k.AmatrixOut(m.k.redshifts), rtol=1e-6)
            for n in (None, 3):
                z = redshifts(rng, m, n)
                c = coeffs(rng, m.nt, n)
                mag, iv = photometry(rng, m, z, c, n)
                same = lambda lab, f: compare(rec, lab, rec.call(lab, f, r), rec.call(lab, f, m.k))
                same('fit', lambda k: k.fit_coeffs(redshift=z, maggies=mag, ivar=iv))
                same('reconstruct', lambda k: k.reconstruct(redshift=z, coeffs=c))
                if m.lo <= 0:
                    same('K-correction', lambda k: k.kcorrect(redshift=z, coeffs=c))
                    same('absolute magnitude', lambda k: k.absmag(redshift=z, maggies=mag, ivar=iv, coeffs=c, reconstruct=True, limit=True))
                    same('derived', lambda k: k.derived(redshift=z, coeffs=c))


def forget(kc, m):
    """the bundled bands of a model are not loaded any more, as in a new session"""
    for x in m.names + m.out:
        if not x.startswith('syn_'):
            kc.response.ResponseDict().pop(x, None)


def compare(rec, lab, a, b):
    if isinstance(b, dict):
        for q in b:
            rec.close(lab + ' ' + q, a[q], b[q], rtol=1e-5)
    elif isinstance(b, tuple):
        if rec.ok(lab, isinstance(a, tuple) and len(a) == len(b)):
            for x, y in zip(a, b):
                rec.close(lab, x, y, rtol=1e-5, atol=1e-5)
    else:
        rec.close(lab, a, b, rtol=1e-5, atol=1e-30)


@prop
def C22(rec, rng, kc, repo):
    rec.rules.append('spectra, templates and responses of several sizes, layouts and redshifts written and read back')
    T, R = kc.template, kc.response
    for it in range(12 * rec.scale):
        ns = [1, 2, None, 6][it % 4]
        nw = [30, 7, 200][it % 3]
        wv, fl = spectrum(rng, 1000., 20000., nw, ns)
        s = rec.call('SED', T.SED, wave=wv.copy(), flux=fl.copy(), interpolate=bool(it % 2))
        s.binimage = bool((it // 2) % 2)
        z = [0., .7, 2.5][it % 3]
        if z or it % 2:
            rec.call('set_redshift', s.set_redshift, z)
        ext = ['FLUX', 'SPEC'][(it // 4) % 2] if not s.binimage else 'FLUX'
        p = tmpname()
        rec.case(nspectra=ns, nwave=nw, images=s.binimage, redshift=z, ext=ext)
        rec.call('SED.tofits', s.tofits, filename=p, ext=ext)
        if it % 3 == 0:
            rec.call('SED.tofits', s.tofits, filename=p, ext=ext)      # overwrites
        r = rec.call('SED.fromfits', T.SED, filename=p, ext=ext)
        f2 = np.atleast_2d(fl)
        for lab, got, want in (('rest-frame wave', r.restframe_wave, wv), ('rest-frame flux', r.restframe_flux, f2), ('wave', r.wave, wv), ('flux', r.flux, f2)):
            rec.close('SED ' + lab, got, want, rtol=1e-6)
        rec.ok('SED restored at redshift zero', r.redshift == 0)
        rec.ok('SED counts', r.nsed == (ns or 1) and r.nwave == nw, (r.nsed, r.nwave))
        # the restored object reads and writes again
        p2 = tmpname()
        rec.call('SED.tofits', r.tofits, filename=p2, ext=ext)
        r2 = rec.call('SED.fromfits', T.SED, filename=p2, ext=ext)
        rec.close('SED second generation', r2.flux, f2, rtol=1e-6)
        # read into an object that holds another spectrum at another redshift, saved again from there
        if it % 2 or s.binimage:
            w3, f3 = spectrum(rng, 2000., 9000., nw + 5 * (it % 3), [None, 3][it % 4 // 2])
            r3 = rec.call('SED', T.SED, wave=w3.copy(), flux=f3.copy(), interpolate=bool(it % 4 < 2))
            rec.call('set_redshift', r3.set_redshift, .6)
            rec.call('SED.fromfits', r3.fromfits, filename=p, ext=ext)
            for lab, got, want in (('rest-frame wave', r3.restframe_wave, wv), ('rest-frame flux', r3.restframe_flux, f2), ('wave', r3.wave, wv), ('flux', r3.flux, f2)):
                rec.close('SED read again: ' + lab, got, want, rtol=1e-6)
            rec.ok('SED read again: at redshift zero', r3.redshift == 0, r3.redshift)
            rec.ok('SED read again: counts', r3.nsed == (ns or 1) and r3.nwave == nw, (r3.nsed, r3.nwave))
            rec.call('set_redshift', r3.set_redshift, .25)
            rec.close('SED read again: redshifted', r3.flux, f2 / 1.25, rtol=1e-6)
            rec.call('SED.tofits', r3.tofits, filename=p2, ext=ext)
            rec.close('SED read again: saved', rec.call('SED.fromfits', T.SED, filename=p2, ext=ext).flux, f2, rtol=1e-6)
    for it in range(6 * rec.scale):
        nt, nw = [(1, 40), (4, 90), (30, 25)][it % 3]
        tm = make_templates(rng, nt, nw, tmpname(), binimage=bool(it % 2), zeros=it % 3 > 0)
        t = rec.call('Template', T.Template, filename=tm.path, interpolate=bool(it % 2))
        z = [0., 1.3][(it // 2) % 2]
        if z:
            rec.call('set_redshift', t.set_redshift, z)
        p = tmpname()
        rec.case(templates=nt, nwave=nw, images=bool(it % 2), redshift=z)
        rec.call('Template.tofits', t.tofits, filename=p)
        if it % 3 == 1:
            rec.call('Template.tofits', t.tofits, filename=p)      # overwrites
        r = rec.call('Template', T.Template, filename=p)
        rec.close('template wave', r.restframe_wave, tm.wave, rtol=1e-6)
        rec.close('template flux', r.restframe_flux, tm.flux, rtol=1e-6)
        rec.close('template current flux', r.flux, tm.flux, rtol=1e-6)
        for q in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000'):
            rec.close('template ' + q, getattr(t, q), getattr(tm, q), rtol=1e-6)
            rec.close('restored template ' + q, getattr(r, q), getattr(tm, q), rtol=1e-6)
        rec.ok('template at redshift zero', r.redshift == 0)
    for it in range(6 * rec.scale):
        x, y = curve(rng, ['bump', 'box', 'skew'][it % 3], 6000., 900., n=[41, 12, 77][it % 3])
        dt = [np.float64, np.float32][it % 2]
        r = rec.call('Response', R.Response, wave=x.astype(dt), response=y.astype(dt))
        p = tmpname()
        rec.case(response=len(x), dtype=str(dt))
        rec.call('Response.tofits', r.tofits, filename=p)
        if it % 3 == 1:
            rec.call('Response.tofits', r.tofits, filename=p)      # overwrites
        q = rec.call('Response', R.Response)
        rec.call('Response.fromfits', q.fromfits, filename=p)
        rec.close('response wave', q.wave, x, rtol=1e-6)
        rec.close('response values', q.response, y, rtol=1e-5, atol=1e-9)
        rec.close('response effective wavelength', q.lambda_eff, r.lambda_eff, rtol=1e-5)
        rec.call('Response.tofits', q.tofits, filename=p)
        if it:
            rec.call('Response.fromfits', other.fromfits, filename=p)
            rec.close('response read again: wave', other.wave, x, rtol=1e-6)
            rec.close('response read again: values', other.response, y, rtol=1e-5, atol=1e-9)
            p2 = tmpname()
            rec.call('Response.tofits', other.tofits, filename=p2)
            q2 = rec.call('Response', R.Response)
            rec.call('Response.fromfits', q2.fromfits, filename=p2)
            rec.close('response read again and saved: wave', q2.wave, x, rtol=1e-6)
            rec.close('response read again and saved: values', q2.response, y, rtol=1e-5, atol=1e-9)
        other = r


# ---- validation, aliasing, construction, files ---------------------------------------------------
@prop
def C23(rec, rng, kc, repo):
    rec.rules.append('each argument with every wrong rank and extent near the right one; well-formed inputs as lists and other float types')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'sdss', 'gst1'))
    for nm, m in ms:
        for n in (None, 1, 2, 3):
            z = redshifts(rng, m, n)
            c = coeffs(rng, m.nt, n, zero=0.)
            mag, iv = photometry(rng, m, z, c, n)
            L = () if n is None else (n,)
            good = dict(redshift=z, maggies=mag, ivar=iv, coeffs=c)
            calls = [('fit_coeffs', m.k.fit_coeffs, ('redshift', 'maggies', 'ivar')), ('reconstruct', m.k.reconstruct, ('redshift', 'coeffs')),
                     ('reconstruct_out', m.k.reconstruct_out, ('redshift', 'coeffs')), ('kcorrect', m.k.kcorrect, ('redshift', 'coeffs')),
                     ('absmag', m.k.absmag, ('redshift', 'maggies', 'ivar', 'coeffs')), ('derived', m.k.derived, ('redshift', 'coeffs'))]
            for lab, f, names in calls:
                rec.case(model=nm, call=lab, n=n)
                base = {k: good[k] for k in names}
                ref = rec.call(lab, f, **base)
                for k in range(4):
                    out = rec.call(lab + ' as another type', f, **dict(zip(names, typed(rng, *[good[x] for x in names]))))
                    if isinstance(ref, np.ndarray):
                        rec.close(lab + ' as another type', out, ref, rtol=2e-3, atol=2e-3 * float(np.max(np.abs(ref)) or 1))
                bad = dict(base)
                del bad['redshift']
                rec.raises(lab + ': redshift missing', Exception, f, **bad)
                bad = dict(base, redshift=np.full((2, 2), .3))
                rec.raises(lab + ': redshift of two dimensions', Exception, f, **bad)
                bad = dict(base, redshift=np.full((1, 1), .3))
                rec.raises(lab + ': redshift of two dimensions', Exception, f, **bad)
                for a in names[1:]:
                    last = m.nt if a == 'coeffs' else m.nb
                    shapes = set()
                    for extra in (-1, 1, 2):
                        shapes.add(L + (last + extra,))
                        if n is not None:
                            shapes.add((n + extra, last))
                    shapes |= {L + (last, 1), (1,) + L + (last,), (last,) if n is not None else (1, last), (1, last), (last, 1), ()}
                    if n is not None:
                        shapes |= {(n * last,), (last, n)}
                    shapes |= {(2,), (1,), (3,)}
                    for sh in sorted(shapes, key=str):
                        if sh == L + (last,) or any(q < 0 for q in sh):
                            continue
                        rec.case(model=nm, call=lab, argument=a, redshift_shape=list(L), shape=list(sh))
                        rec.raises('%s: wrong shape of %s' % (lab, a), Exception, f, **dict(base, **{a: np.full(sh, .7)}))
                # two arguments wrong in a consistent way
                if 'ivar' in names:
                    sh = L + (m.nb + 1,)
                    rec.case(model=nm, call=lab, argument='maggies and ivar', shape=list(sh))
                    rec.raises(lab + ': wrong shape of maggies and ivar', Exception, f, **dict(base, maggies=np.full(sh, .7), ivar=np.full(sh, .7)))
    U = kc.utils
    for sh in ((4,), (6,), (1,), (3, 4), (5, 1), (2, 6), (5, 6), (2, 2, 3), ()):
        rec.case(shape=sh)
        a = np.full(sh, .5)
        rec.raises('sdss_ab_correct: not five bands', Exception, U.sdss_ab_correct, a)
        rec.raises('sdss_ab_correct: not five bands', Exception, U.sdss_ab_correct, a, a)
        rec.raises('sdss_asinh_to_maggies: not five bands', Exception, U.sdss_asinh_to_maggies, a, a)
        rec.raises('sdss_asinh_to_maggies: not five bands', Exception, U.sdss_asinh_to_maggies, a)
    for s1, s2 in (((5,), (4,)), ((2, 5), (5,)), ((2, 5), (3, 5)), ((5,), (1, 5)), ((2, 5), (2, 1)), ((5,), (1,)), ((5,), ())):
        rec.case(shapes=[s1, s2])
        a, b = np.full(s1, .5), np.full(s2, .5)
        rec.raises('sdss_ab_correct: shapes differ', Exception, U.sdss_ab_correct, a, b)
        rec.raises('sdss_asinh_to_maggies: shapes differ', Exception, U.sdss_asinh_to_maggies, a, b)
        rec.raises('sdss_asinh_to_maggies: shapes differ', Exception, U.sdss_asinh_to_maggies, a, extinction=b)
        rec.raises('error_floor: shapes differ', Exception, U.error_floor, np.full(5, .1), a, b)
    for s1, s2 in (((5,), (6,)), ((2, 5), (2, 6)), ((2, 5), (4, 5)), ((2, 5), (3, 6)), ((5,), (5, 5)), ((2, 5), (2, 5, 1)), ((1, 5), (5,)), ((3, 5), (2, 5))):
        rec.case(shapes=[s1, s2])
        rec.raises('error_floor: shapes differ', Exception, U.error_floor, np.full(5, .1), np.full(s1, .5), np.full(s2, .5))
    for nf, sh in ((4, (5,)), (6, (5,)), (1, (5,)), (5, (2, 4)), (2, (2, 5)), (1, (3, 5))):
        rec.case(floors=nf, shape=sh)
        rec.raises('error_floor: one floor per band', Exception, U.error_floor, np.full(nf, .1), np.ones(sh), np.ones(sh))
    for nf in (4, 6, 1):
        rec.raises('sdss_ab_correct: five offsets', Exception, U.sdss_ab_correct, np.ones(5), None, np.full(nf, .1))


@prop
def C24(rec, rng, kc, repo):
    rec.rules.append('every computation called twice on the same arguments (float32, float64, lists, views, read-only); arguments and results compared')
    w, ms = models(rec, rng, kc, ('same', 'out', 'one', 'sdss', 'sdss0', 'gst1', 'gst0', 'base1'))
    U = kc.utils

    def forms(x):
        a = np.asarray(x)
        yield a.astype(np.float32)
        yield a.astype(np.float64)
        yield a.tolist()
        if a.ndim:
            big = np.zeros((2,) + a.shape, dtype=np.float32)
            big[1] = a
            yield big[1]
            r = a.astype(np.float32)
            r.setflags(write=False)
            yield r

    def twice(lab, f, kw, same=True, order=None):
        fs = [list(forms(v)) if isinstance(v, np.ndarray) or k in ('redshift', 'distance') else [v] for k, v in kw.items()]
        for q in range(max(len(x) for x in fs)):
            args = {k: x[min(q, len(x) - 1)] for k, x in zip(kw, fs)}
            if any(isinstance(v, list) for v in args.values()) and lab in ARRAYS_ONLY:
                continue
            keep = copy.deepcopy(args)
            rec.case(call=lab, form=q, arguments={k: v for k, v in kw.items()})
            a = rec.call(lab, f, **args)
            for k in args:
                rec.ok('%s: %s unchanged' % (lab, k), same_value(args[k], keep[k]))
            a2 = copy.deepcopy(a)
            b = rec.call(lab, f, **args)
            rec.ok('%s: same result again' % lab, (not same) or same_value(b, a2))
            for k in args:
                rec.ok('%s: %s unchanged' % (lab, k), same_value(args[k], keep[k]))
    for nm, m in ms:
        for n in (None, 1, 3):
            z = redshifts(rng, m, n)
            z = np.asarray(z)
            c = coeffs(rng, m.nt, n)
            mag, iv = photometry(rng, m, z, c, n)
            d = np.asarray(rng.uniform(1., 900.) if n is None else rng.uniform(1., 900., n))
            bs = .05 if m.hi > .1 else 0.
            twice('fit_coeffs', m.k.fit_coeffs, dict(redshift=z, maggies=mag, ivar=iv))
            twice('fit_coeffs mc', m.k.fit_coeffs, dict(redshift=z, maggies=mag, ivar=iv, mc=2), same=False)
            twice('reconstruct', m.k.reconstruct, dict(redshift=z, coeffs=c))
            twice('kcorrect', m.k.kcorrect, dict(redshift=z, coeffs=c, band_shift=bs))
            twice('reconstruct_out', m.k.reconstruct_out, dict(redshift=z * 0., coeffs=c, band_shift=bs))
            twice('absmag', m.k.absmag, dict(redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs, reconstruct=True, limit=True, kcorrect=True))
            twice('absmag distance', m.k.absmag, dict(redshift=z, maggies=mag, ivar=iv, coeffs=c, band_shift=bs, distance=d, reconstruct=True, limit=True))
            twice('derived', m.k.derived, dict(redshift=z, coeffs=c, band_shift=bs))
            twice('derived distance', m.k.derived, dict(redshift=z, coeffs=c, band_shift=bs, distance=d))
            mm, cm = np.stack([mag, mag * 1.1], -1), np.stack([c, c * 2.], -1)
            twice('absmag_mc', m.k.absmag_mc, dict(redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=cm, reconstruct=True, kcorrect=True))
            twice('derived_mc', m.k.derived_mc, dict(redshift=z, coeffs_mc=cm))
            twice('to_ab', m.k.to_ab, dict(maggies=mag, ivar=iv))
            twice('to_ab flux only', m.k.to_ab, dict(maggies=mag))
            if m.cls == 'KcorrectSDSS':
                ma = rng.uniform(17., 22., mag.shape)
                twice('fit_coeffs_asinh', m.k.fit_coeffs_asinh, dict(redshift=z, mag=ma, mag_err=ma * 0. + .1, extinction=ma * 0. + .05))
    for L in ((), (1,), (4,), (5,)):
        a, v = rng.uniform(-1., 2., L + (5,)), rng.uniform(.5, 900., L + (5,)) * (rng.rand(*(L + (5,))) > .2)
        twice('sdss_ab_correct', U.sdss_ab_correct, dict(maggies=a, ivar=v))
        twice('sdss_ab_correct own', U.sdss_ab_correct, dict(maggies=a, ivar=v, abfix=rng.uniform(-.1, .1, 5)))
        twice('error_floor', U.error_floor, dict(floor=np.full(5, .1), maggies=a, ivar=v))
        ma = rng.uniform(17., 26., L + (5,))
        twice('sdss_asinh_to_maggies', U.sdss_asinh_to_maggies, dict(mag=ma, mag_err=ma * 0 + .1, extinction=ma * 0 + .05))
        twice('sdss_asinh_to_maggies plain', U.sdss_asinh_to_maggies, dict(mag=ma))
        twice('maggies2flambda', U.maggies2flambda, dict(maggies=a, ivar=v, responses=['syn_u', 'syn_i', 'syn_r', 'syn_g', 'syn_z']))
        twice('maggies2flambda flux only', U.maggies2flambda, dict(maggies=a, responses=['syn_u', 'syn_i', 'syn_r', 'syn_g', 'syn_z']))
    wv, fl = spectrum(rng, 2000., 12000., 60, 3)
    twice('sed_ab', U.sed_ab, dict(wave=wv))
    for q in ('syn_r', 'syn_u'):
        r = w.rd[q]
        twice('project', r.project, dict(wave=wv, flux=fl))
        twice('project', r.project, dict(wave=wv, flux=fl[0]))
    for q in range(3):
        x, y = curve(rng, 'skew', 5000., 600.)
        o = rng.permutation(len(x))
        twice('Response', lambda wave, response: kc.response.Response(wave=wave, response=response).lambda_eff, dict(wave=x[o], response=y[o]))

        def sed(wave, flux):
            s = kc.template.SED(wave=wave, flux=flux)
            s.set_redshift(.5)
            s.set_redshift(1.5)
            return s.flux
        twice('SED', sed, dict(wave=wv, flux=fl))
    # list arguments of constructors
    rec.case(call='constructor lists')
    names, out, mp, zr = ['syn_u', 'syn_r'], ['syn_g'], ['syn_r'], [0., .4]
    keep = copy.deepcopy([names, out, mp, zr])
    k = rec.call('Kcorrect', kc.kcorrect.Kcorrect, responses=names, responses_out=out, responses_map=mp, redshift_range=zr, templates=w.template(), nredshift=3)
    rec.call('fit_coeffs', k.fit_coeffs, redshift=.2, maggies=[1., 1.], ivar=[1., 1.])
    rec.ok('constructor lists unchanged', [names, out, mp, zr] == keep)


ARRAYS_ONLY = {'to_ab', 'to_ab flux only', 'absmag_mc', 'derived_mc', 'maggies2flambda', 'maggies2flambda flux only', 'sed_ab', 'Response', 'SED', 'absmag distance', 'derived distance'}
ARRAYS_ONLY -= {'absmag distance', 'derived distance'}


def same_value(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    try:
        return bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))
    except TypeError:
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))


@prop
def C25(rec, rng, kc, repo):
    rec.rules.append('constructions with default and explicit settings; attributes and matrices compared with the request')
    import inspect
    import astropy.cosmology as ac
    w = World(rng, kc, rec)
    K = kc.kcorrect
    names = sorted(SYN)
    for it in range(14 * rec.scale):
        nb = rng.randint(1, 5)
        nin = list(rng.choice(names, nb, replace=False))
        nin = [str(x) for x in nin]
        if it % 7 == 6:
            nin = nin + [nin[0]]
        mode = it % 4
        out = mp = None
        if mode in (1, 2):
            no = rng.randint(1, 6)
            out = [str(x) for x in rng.choice(names, no)]
        if mode == 1:
            mp = [nin[rng.randint(len(nin))] for _ in range(len(out))]
        if mode == 2:
            out = [str(x) for x in rng.permutation(nin)]
        if mode == 3:
            mp = [nin[rng.randint(len(nin))] for _ in range(len(nin))]
        zr = [round(float(rng.uniform(-.2, .1)), 3), round(float(rng.uniform(.4, 1.5)), 3)]
        nz = int(rng.randint(2, 6))
        ab = bool(rng.randint(2))
        cosmo = ac.FlatLambdaCDM(H0=60., Om0=.2) if it % 3 == 0 else None
        rec.case(responses=nin, responses_out=out, responses_map=mp, redshift_range=zr, nredshift=nz, abcorrect=ab)
        kw = dict(responses=list(nin), templates=w.template(), redshift_range=zr, nredshift=nz, abcorrect=ab)
        for a, b in (('responses_out', out), ('responses_map', mp), ('cosmo', cosmo)):
            if b is not None:
                kw[a] = b if a == 'cosmo' else list(b)
        k = rec.call('Kcorrect', K.Kcorrect, **kw)
        wo, wm = out or nin, mp or nin
        rec.ok('bands', list(k.responses) == nin)
        rec.ok('output bands', list(k.responses_out) == wo, k.responses_out)
        rec.ok('mapping', list(k.responses_map) == wm, k.responses_map)
        rec.ok('mapping indices', [nin[int(i)] for i in k.imap] == wm, k.imap)
        rec.ok('abcorrect', k.abcorrect == ab)
        rec.ok('grid size', k.nredshift == nz)
        rec.close('redshift range', k.redshift_range, zr, rtol=1e-6)
        rec.ok('cosmology', (k.cosmo is cosmo) if cosmo is not None else k.cosmo.name == 'Planck18')
        rec.close('grid', k.redshifts, np.linspace(zr[0], zr[1], nz), rtol=1e-5, atol=1e-6)
        g = np.linspace(zr[0], zr[1], nz)
        A, Ao = w.design(nin, g), w.design(wo, g)
        rec.close('input matrix', rec.call('Amatrix', k.Amatrix, k.redshifts), A, rtol=1e-3, atol=3e-4 * A.max())
        rec.close('output matrix', rec.call('AmatrixOut', k.AmatrixOut, k.redshifts), Ao, rtol=1e-3, atol=3e-4 * Ao.max())
        # an object made earlier is not disturbed by this one
        if it:
            rec.ok('earlier object: settings', [list(k0.responses), list(k0.responses_out), list(k0.responses_map), k0.abcorrect, k0.nredshift] == was[:5] and np.allclose(k0.redshift_range, was[5]) and k0.cosmo is was[6]
                   and [was[0][int(i)] for i in k0.imap] == was[2])
            rec.close('earlier object: input matrix', rec.call('Amatrix', k0.Amatrix, k0.redshifts), was[7], rtol=1e-3, atol=3e-4 * was[7].max())
            rec.close('earlier object: output matrix', rec.call('AmatrixOut', k0.AmatrixOut, k0.redshifts), was[8], rtol=1e-3, atol=3e-4 * was[8].max())
        k0, was = k, [list(nin), list(wo), list(wm), ab, nz, list(zr), k.cosmo, A, Ao]
        # rejections
        t = w.template()
        for bad in (dict(responses_map=[nin[0]] * (len(wo) + 1)), dict(responses_map=[nin[0]] * (len(wo) - 1)), dict(responses_map=['syn_nowhere'] * len(wo)),
                    dict(responses_map=[nin[0]] * (len(wo) - 1) + ['sdss_r0'])):
            rec.case(responses=nin, responses_out=out, **bad)
            kw2 = dict(kw, templates=t, **bad)
            rec.raises('inconsistent mapping', (ValueError,), K.Kcorrect, **kw2)
    # defaults: constructions with the projection, which is not at issue here, replaced by a fast stand-in of the same shape
    real = kc.response.Response.project

    def stand_in(self, sed=None, wave=None, flux=None):
        v = float(self.lambda_eff) * 1e-4
        n = sed.flux.shape if sed is not None else np.shape(flux)
        return np.float32(v) if len(n) == 1 else np.full(n[0], v, dtype=np.float32)
    kc.response.Response.project = stand_in
    try:
        five = ['sdss_%s0' % x for x in 'ugriz']
        for cls, bands, ab in (('Kcorrect', ['syn_u', 'syn_r'], False), ('KcorrectSDSS', five, True), ('KcorrectGST', GSTN, False)):
            rec.case(defaults=cls)
            C = getattr(K, cls)
            kw = dict(responses=list(bands)) if cls == 'Kcorrect' else {}
            k = rec.call('default ' + cls, C, **kw)
            rec.ok('default bands', list(k.responses) == bands, k.responses)
            rec.ok('default output bands', list(k.responses_out) == bands and list(k.responses_map) == bands)
            rec.ok('default abcorrect', k.abcorrect is ab, k.abcorrect)
            rec.ok('default grid', k.nredshift == 4000 and len(k.redshifts) == 4000 and abs(k.redshifts[0]) < 1e-7 and abs(k.redshifts[-1] - 2.) < 1e-5)
            rec.ok('default cosmology', k.cosmo.name == 'Planck18')
            import astropy.io.fits as fits
            with fits.open(os.path.join(kc.KCORRECT_DIR, 'data', 'templates', 'kcorrect-default-v4.fits')) as h:
                ref = np.array(h['MREMAIN'].data)
            rec.close('default templates', k.templates.mremain, ref, rtol=1e-6)
            for q in range(3):
                zr = [0.1, 0.1 + float(rng.uniform(.1, 1.))]
                b2 = list(bands[::-1]) if q else bands[:2] * (cls == 'Kcorrect') or bands
                kw = dict(responses=b2, redshift_range=zr, nredshift=5 + q, abcorrect=not ab, cosmo=ac.WMAP7, templates=w.template(), responses_out=b2[:1] + ['syn_g'], responses_map=[b2[1], b2[0]])
                rec.case(cls=cls, settings={x: y for x, y in kw.items() if x not in ('templates', 'cosmo')})
                k = rec.call('explicit ' + cls, C, **kw)
                rec.ok('explicit settings honoured', list(k.responses) == b2 and k.abcorrect is (not ab) and k.nredshift == 5 + q and k.cosmo is ac.WMAP7 and k.templates is kw['templates']
                       and list(k.responses_out) == kw['responses_out'] and list(k.responses_map) == kw['responses_map'] and np.allclose(k.redshift_range, zr)
                       and [b2[int(i)] for i in k.imap] == kw['responses_map'])
                reg = kc.response.ResponseDict()
                for A, names in ((k.Amatrix, k.responses), (k.AmatrixOut, k.responses_out)):
                    M = rec.call('matrices of the bands', A, float(k.redshifts[1]))
                    rec.close('matrices of the bands', M, np.outer([reg[x].lambda_eff * 1e-4 for x in names], np.ones(np.shape(M)[-1])), rtol=1e-5)
    finally:
        kc.response.Response.project = real


def parse_basel(path):
    wd = open(path).read().split()
    n = 1221
    wave = np.array([float(x) for x in wd[:n]])
    units = []
    p = n
    while p + 6 + n <= len(wd):
        units.append(([float(x) for x in wd[p:p + 6]], np.array([float(x) for x in wd[p + 6:p + 6 + n]])))
        p += 6 + n
    return wave, units


@prop
def C26(rec, rng, kc, repo):
    rec.rules.append('scratch files with 0..5 units and trailing words parsed; reference magnitudes compared with an independent projection of the bundled spectra')
    U = kc.utils
    for it in range(8 * rec.scale):
        nu = [1, 2, 3, 0, 5, 2, 1, 4][it % 8]
        trail = [0, 0, 3, 1, 0, 1226, 40, 6][it % 8]
        wave = np.sort(rng.uniform(9., 1.6e5, 1221)).round(3)
        hd = [[int(rng.randint(1, 99999)), float(rng.randint(2000, 50000)), round(rng.uniform(-1, 5.5), 2), round(rng.uniform(-5, 1), 2), round(rng.uniform(0, 4), 2), round(rng.uniform(0, 1), 5)] for _ in range(nu)]
        fl = rng.uniform(0., 1., (nu, 1221)).round(6)
        words = ['%.3f' % x for x in wave]
        for u in range(nu):
            words += ['%d' % hd[u][0]] + ['%.5f' % x for x in hd[u][1:]] + ['%.6E' % x for x in fl[u]]
        words += ['7.5'] * trail
        p = tmpname('.ori')
        per = [7, 1, 10, 100000][it % 4]
        with open(p, 'w') as f:
            for i in range(0, len(words), per):
                f.write('  '.join(words[i:i + per]) + '\n')
        rec.case(units=nu, trailing_words=trail, words_per_line=per)
        info, w, g = rec.call('read_basel', U.read_basel, filename=p)
        rec.close('wavelengths', w, wave, rtol=1e-6)
        rec.close('fluxes', g, fl, rtol=1e-5, atol=1e-8)
        for i, nm in enumerate(('modelno', 'teff', 'logg', 'mh', 'vturb', 'xh')):
            if nm not in info:
                rec.fail('header ' + nm, 'missing')
                continue
            rec.close('header ' + nm, info[nm], np.array([h[i] for h in hd]), rtol=1e-5, atol=1e-6)
        if nu:       # what an earlier caller does with its arrays, and what else is read, is nobody else's matter
            i0, w0, g0 = info, w, g
            w0 *= 10.
            g0[:] = -1.
            i0['teff'][:] = 0.
            rec.kept = []
            info, w, g = rec.call('read_basel', U.read_basel, filename=p)
            rec.close('read again: wavelengths', w, wave, rtol=1e-6)
            rec.close('read again: fluxes', g, fl, rtol=1e-5, atol=1e-8)
            rec.close('read again: header', info['teff'], np.array([h[1] for h in hd]), rtol=1e-5, atol=1e-6)
            with open(p, 'w') as f:      # the file changes under the same name
                f.write('\n'.join(words[:1221 + 1227]))
            info, w, g = rec.call('read_basel', U.read_basel, filename=p)
            rec.close('read after a change: fluxes', g, fl[:1], rtol=1e-5, atol=1e-8)
    d = os.path.join(kc.KCORRECT_DIR, 'data', 'basel')
    refs = {}
    for nm, fn, rad, dist in (('solar', 'lcbsun.ori', 6.96e10, 10.), ('vega', 'lcbvega.ori', 1.91144e11, 7.68)):
        wv, units = parse_basel(os.path.join(d, fn))
        wv = wv * 10.
        refs[nm] = (wv, 4. * math.pi * units[0][1] * 2.99792e18 / wv ** 2 * (rad / (dist * 3.086e18)) ** 2)
    todo = []
    for it in range(6 * rec.scale):
        todo.append((None,) + curve(rng, ['bump', 'box', 'skew', 'double'][it % 4], 10. ** rng.uniform(3.2, 4.8), 10. ** rng.uniform(2., 2.7), n=31))
    todo.append((None,) + tuple([np.linspace(2e7, 3e7, 21), np.ones(21)]))          # beyond the model spectra
    todo.append((None,) + tuple([np.linspace(20., 60., 21), np.ones(21)]))
    for b in ('sdss_g0', 'bessell_V', 'twomass_Ks', 'galex_NUV'):
        f = os.path.join(kc.KCORRECT_DIR, 'data', 'responses', b + '.dat')
        if os.path.exists(f):
            todo.append((b,) + read_dat(f))
    for b, x, y in todo:
        rec.case(response=b or 'synthetic', wave=[float(x[0]), float(x[-1])])
        if b is None:
            r = rec.call('Response', kc.response.Response, wave=x.copy(), response=y.copy())
        else:
            r = rec.call('Response', kc.response.Response, filename=b + '.dat')
        for nm, at in (('solar', 'solar_magnitude'), ('vega', 'vega2ab')):
            v = project(x, y, *refs[nm])[0]
            got = getattr(r, at)
            if v > 0:
                if rec.ok(nm + ' magnitude defined', got is not None):
                    rec.close(nm + ' magnitude', got, -2.5 * math.log10(v), atol=2e-3)
            else:
                rec.ok(nm + ' magnitude undefined', got is None, got)
