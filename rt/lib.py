"""Independent float64 oracles and small synthetic worlds for evaluating the contracts on the real code.

Nothing here uses kcorrect to compute an expected value."""
import ast
import atexit
import math
import os
import shutil
import tempfile
import traceback

import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.optimize

TMP = tempfile.mkdtemp(prefix='kcverif_')
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
_n = [0]


def tmpname(suffix='.fits'):
    _n[0] += 1
    return os.path.join(TMP, 'f%d%s' % (_n[0], suffix))


CASE = [0]


class LibError(Exception):
    """the code under test raised"""


class Rec:
    """evaluations and failures of one property"""

    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.n, self.failures, self.samples, self.known = 0, [], [], []
        self.kept = []
        self.rules = []
        self.labels = set()
        self.scale = 1 if tier == 'quick' else 8

    def case(self, **kw):
        CASE[0] += 1
        self.cur = kw
        if len(self.samples) < 3:
            self.samples.append(show(kw))

    def fail(self, label, msg):
        if len(self.failures) < 40 and sum(1 for f in self.failures if f['contract'] == label) < 3:
            self.failures.append(dict(contract=label, message=str(msg)[:600], case=show(self.cur)))

    def ok(self, label, cond, msg=''):
        self.n += 1
        self.labels.add(label)
        if not bool(cond):
            self.fail(label, msg)
        return bool(cond)

    def close(self, label, got, want, rtol=3e-4, atol=0.):
        self.n += 1
        self.labels.add(label)
        try:
            g, w = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
        except (TypeError, ValueError) as ex:
            self.fail(label, 'not numeric: %s' % ex)
            return False
        if g.shape != w.shape:
            self.fail(label, 'shape %s, expected %s' % (g.shape, w.shape))
            return False
        bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            self.fail(label, 'at %s: got %r, expected %r' % (i, float(g[i]), float(w[i])))
            return False
        return True

    def call(self, label, fn, *a, **kw):
        """the code under test; an exception is a failed contract"""
        try:
            r = fn(*a, **kw)
        except Exception as ex:
            self.n += 1
            self.labels.add(label)
            self.fail(label, 'raised %s: %s' % (type(ex).__name__, str(ex)[:300]))
            raise LibError()
        # results returned before stay as they were returned
        for k in self.kept:
            if not all(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f') for x, y in k[1]):
                self.kept = [q for q in self.kept if q is not k]
                self.fail('an earlier result stays as returned', 'the result of %s changed during %s' % (k[0], label))
                break
        got = arrays(r)
        if got and not any(np.shares_memory(x, y) for x in got for y in arrays([a, kw])):
            self.kept = self.kept[-5:] + [(label, [(x, x.copy()) for x in got])]
            self.n += 1
            self.labels.add('an earlier result stays as returned')
        return r

    def raises(self, label, kinds, fn, *a, **kw):
        self.n += 1
        self.labels.add(label)
        try:
            r = fn(*a, **kw)
        except kinds:
            return True
        except Exception as ex:
            self.fail(label, 'raised %s instead: %s' % (type(ex).__name__, str(ex)[:200]))
            return False
        self.fail(label, 'returned %s instead of raising' % (type(r).__name__,))
        return False


def arrays(x):
    """the arrays of a result"""
    if isinstance(x, np.ndarray):
        return [x] if x.dtype.kind in 'fiub' and 0 < x.size < 20000 else []
    if isinstance(x, (list, tuple, dict)):
        return [z for y in (x.values() if isinstance(x, dict) else x) for z in arrays(y)] if len(x) < 50 else []
    return []


def show(x):
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return 'array%s %s...' % (x.shape, np.array2string(x.ravel()[:6], precision=9))
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x][:40]
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)[:100]


# ---- numbers in the source: sizes and values worth trying -------------------------------
def source_literals(repo):
    ints, floats = set(), set()
    d = os.path.join(repo, 'src', 'kcorrect')
    for f in ('fitter.py', 'kcorrect.py', 'response.py', 'template.py', 'utils.py'):
        try:
            t = ast.parse(open(os.path.join(d, f)).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
                if isinstance(n.value, int):
                    ints.add(n.value)
                elif isinstance(n.value, float):
                    floats.add(n.value)
    return ints, floats


# ---- oracles ---------------------------------------------------------------------------
def trapz(y, x):
    y, x = np.asarray(y, float), np.asarray(x, float)
    return np.sum((x[1:] - x[:-1]) * (y[..., 1:] + y[..., :-1]), axis=-1) / 2.


def sed_ab(w):
    w = np.asarray(w, float)
    return 3.631e-2 * 2.99792 / (w * w)


def cubic(x, y):
    return scipy.interpolate.interp1d(np.asarray(x), np.asarray(y), kind='cubic', bounds_error=False, fill_value=0.)


def project(rwave, rresp, wave, flux, rint=None):
    """photon-weighted flux ratio to AB; flux [nw] or [ns, nw]; one value per spectrum"""
    rwave, rresp, wave = np.asarray(rwave, float), np.asarray(rresp, float), np.asarray(wave, float)
    flux = np.atleast_2d(np.asarray(flux, float))
    lo, hi = rwave[0], rwave[-1]
    inside = np.where((wave >= lo) & (wave <= hi))[0]
    if len(inside) == 0:
        above = np.where(wave > hi)[0]
        if len(above) == 0 or above[0] == 0:
            return np.zeros(flux.shape[0])
        pts = [above[0] - 1, above[0]]
    else:
        pts = list(range(max(inside[0] - 1, 0), min(inside[-1] + 1, len(wave) - 1) + 1))
    g = np.unique(np.append(wave[pts], rwave))
    r = (rint or cubic(rwave, rresp))(g)
    den = trapz(sed_ab(g) * r * g, g)
    f = cubic(wave, flux)(g)
    return np.atleast_1d(trapz(f * r * g, g)) / den


class Obs:
    """a response known to the oracle"""

    def __init__(self, wave, resp, solar=None, leff=None):
        self.wave, self.resp, self.solar, self.leff = np.asarray(wave, float), np.asarray(resp, float), solar, leff
        self.interp = cubic(self.wave, self.resp)


def nnls64(A, b):
    return scipy.optimize.nnls(np.asarray(A, float), np.asarray(b, float), maxiter=5000)[0]


# ---- synthetic world -----------------------------------------------------------------------
def curve(rng, kind, c, w, n=41):
    x = np.linspace(c - w, c + w, n)
    u = (x - c) / w
    if kind == 'bump':
        y = np.exp(-0.5 * (u / 0.35) ** 2)
    elif kind == 'box':
        y = 0.5 + 0.4 * np.cos(1.1 * u) + 0.05 * u          # does not vanish at the edges
    elif kind == 'skew':
        y = np.exp(-0.5 * (u / 0.4) ** 2) * (1. + 0.7 * u) + 0.02
    else:
        y = np.exp(-0.5 * ((u - 0.4) / 0.18) ** 2) + 0.8 * np.exp(-0.5 * ((u + 0.4) / 0.18) ** 2)
    return x, y


SYN = {'syn_u': ('bump', 3600., 500.), 'syn_g': ('skew', 4700., 900.), 'syn_r': ('box', 6200., 700.), 'syn_i': ('double', 7500., 800.),
       'syn_z': ('bump', 9000., 900.), 'syn_n': ('skew', 2400., 300.)}


def make_templates(rng, nt, nw, path, binimage=False, zeros=False):
    """writes a template file with astropy (not with the code under test)"""
    import astropy.io.fits as fits
    wave = np.float32(np.exp(np.linspace(math.log(350.), math.log(40000.), nw)))
    x = np.log(wave.astype(float) / 5000.)
    flux = np.zeros((nt, nw), dtype=np.float32)
    for t in range(nt):
        a, b, c, d = rng.uniform(-1.5, 1.0), rng.uniform(-.4, .4), rng.uniform(0.2, .8), rng.uniform(-1., 1.)
        flux[t] = 1e-7 * rng.uniform(.5, 2.) * np.exp(a * x + b * x * x) * (1. + 0.5 * np.sin(4. * c * x + d))
    q = {n: np.float32(rng.uniform(lo, hi, nt)) for n, lo, hi in (('INTSFH', 1., 2.), ('MREMAIN', .4, .9), ('METS', .002, .05), ('M50', .01, .2), ('M300', .2, .5), ('M1000', .5, .9))}
    if zeros:        # any template may have no mass, no recent star formation, no metals
        for n in q:
            q[n] = np.float32(q[n] * (rng.rand(nt) < .6))
    if binimage:
        hd = [fits.PrimaryHDU(), fits.ImageHDU(wave, name='WAVE'), fits.ImageHDU(flux, name='FLUX')]
    else:
        rec = np.zeros(1, dtype=[('wave', np.float32, nw), ('flux', np.float32, (nt, nw))])
        rec['wave'], rec['flux'] = wave, flux
        hd = [fits.PrimaryHDU(), fits.BinTableHDU(rec, name='FLUX')]
    for n in q:
        hd.append(fits.ImageHDU(q[n], name=n))
    fits.HDUList(hd).writeto(path, overwrite=True)
    o = Tm()
    o.wave, o.flux, o.nt = wave.astype(float), flux.astype(float), nt
    o.path = path
    for n in q:
        setattr(o, n.lower(), q[n].astype(float))
    return o


class Tm:
    pass


class World:
    def __init__(self, rng, kcorrect, rec, nt=5, nw=260):
        self.rec = rec
        import kcorrect.response
        import kcorrect.template
        self.kc = kcorrect
        self.rng = rng
        self.obs = {}
        self.rd = kcorrect.response.ResponseDict()
        for n, (k, c, w) in SYN.items():
            x, y = curve(rng, k, c, w)
            r = kcorrect.response.Response(wave=x.copy(), response=y.copy())
            self.rd[n] = r
            self.obs[n] = Obs(x, y, solar=r.solar_magnitude)
        # a band without a solar magnitude
        self.rd['syn_n'].solar_magnitude = None
        self.obs['syn_n'].solar = None
        self.tm = make_templates(rng, nt, nw, tmpname())
        self.cache = {}

    def known_response(self, n):
        """a bundled response, read without the code under test"""
        if n not in self.obs:
            x, y = read_dat(os.path.join(self.kc.KCORRECT_DIR, 'data', 'responses', n + '.dat'))
            self.obs[n] = Obs(x, y)
            self.rd.load_response(n)
            self.obs[n].solar = self.rd[n].solar_magnitude
        return self.obs[n]

    def template(self, interpolate=True):
        return self.kc.template.Template(filename=self.tm.path, interpolate=interpolate)

    def design(self, names, grid, tm=None):
        """[nz, nb, nt] by the projection oracle"""
        tm = tm or self.tm
        A = np.zeros((len(grid), len(names), tm.nt))
        for iz, zz in enumerate(grid):
            w, f = tm.wave * (1. + zz), tm.flux / (1. + zz)
            for b, n in enumerate(names):
                o = self.obs[n]
                A[iz, b] = project(o.wave, o.resp, w, f, o.interp)
        return A

    def make(self, cls='Kcorrect', names=('syn_u', 'syn_g', 'syn_r', 'syn_z'), out=None, mp=None, zr=(0., 1.), nz=9, ab=None, **kw):
        key = (cls, tuple(names), tuple(out or ()), tuple(mp or ()), tuple(zr), nz, ab, tuple(sorted(kw)))
        if key in self.cache:
            return self.cache[key]
        kk = self.kc.kcorrect
        for n in list(names) + list(out or []):
            self.known_response(n) if n not in self.obs else None
        c = getattr(kk, cls) if cls != 'Fitter' else self.kc.fitter.Fitter
        args = dict(responses=list(names), templates=self.template(), redshift_range=list(zr), nredshift=nz)
        if out is not None:
            args['responses_out'] = list(out)
        if mp is not None:
            args['responses_map'] = list(mp)
        if ab is not None:
            args['abcorrect'] = ab
        args.update(kw)
        m = Model()
        m.args = args
        m.k = self.rec.call('construction of %s' % cls, c, **args)
        if cls == 'Fitter':
            self.rec.call('set_Amatrix', m.k.set_Amatrix)
        m.names, m.out = list(names), list(out or names)
        m.mp = list(mp or names)
        m.imap = [m.names.index(x) for x in m.mp]
        m.grid = np.linspace(zr[0], zr[1], nz)
        m.lo, m.hi = zr
        m.A = self.design(m.names, m.grid)
        m.Ao = self.design(m.out, m.grid) if out else m.A
        m.tm, m.nt, m.nb, m.nbo = self.tm, self.tm.nt, len(m.names), len(m.out)
        m.solar = [self.obs[n].solar for n in m.out]
        m.cls = cls
        m.abflag = {'KcorrectSDSS': True}.get(cls, False) if ab is None else ab
        fac = np.ones(m.nb)
        five = 10. ** (-0.4 * np.array([-0.036, 0.012, 0.010, 0.028, 0.040]))
        if m.abflag and cls == 'KcorrectSDSS':
            fac[:] = five
        elif m.abflag and cls == 'KcorrectGST':
            fac[2:7] = five
        m.fac = fac
        import astropy.cosmology
        m.cosmo = kw.get('cosmo') or astropy.cosmology.Planck18
        self.cache[key] = m
        return m


def read_dat(path):
    """fixed-width table: the columns lambda and pass"""
    hd, w, p = None, [], []
    for l in open(path):
        if l.startswith('#') or not l.strip():
            continue
        s = l.replace('|', ' ').split()
        if hd is None:
            hd = (s.index('lambda'), s.index('pass'))
            continue
        w.append(float(s[hd[0]]))
        p.append(float(s[hd[1]]))
    w, p = np.array(w), np.array(p)
    i = np.argsort(w)
    return w[i], p[i]


class Model:
    """oracle of one object"""

    def lin(self, A, z):
        x = (z - self.lo) / (self.hi - self.lo) * (len(self.grid) - 1)
        i = int(min(max(math.floor(x), 0), len(self.grid) - 2))
        f = (z - self.grid[i]) / (self.grid[i + 1] - self.grid[i])
        return A[i] * (1. - f) + A[i + 1] * f

    def amat(self, z, which='in'):
        return self.lin(self.A if which == 'in' else self.Ao, float(np.float32(z)))

    def inside(self, z):
        return self.lo <= z <= self.hi

    def recon(self, z, c, bs=0., which='in'):
        s = (1. + float(z)) * (1. + bs) - 1.
        return self.lin(self.A if which == 'in' else self.Ao, s) @ np.asarray(c, float) / (1. + bs)

    def kcorr(self, z, c, bs):
        c = np.asarray(c, float)
        if c.sum() <= 0:
            return np.zeros(self.nbo)
        with np.errstate(all='ignore'):
            return -2.5 * np.log10(self.recon(z, c)[self.imap] / self.recon(0., c, bs, 'out'))

    def dm(self, z, d):
        if d is not None:
            return 5. * math.log10(d / 1.e-5)
        return float(self.cosmo.distmod(float(z)).value)

    def ab(self, m, iv):
        m = np.asarray(m, float) * self.fac
        return m, (None if iv is None else np.asarray(iv, float) / self.fac ** 2)

    def absmag(self, z, m, iv, c, bs, d):
        m, iv = self.ab(m, iv)
        k = self.kcorr(z, c, bs)
        um, ui = m[self.imap], iv[self.imap]
        out = np.full(self.nbo, -9999.)
        g = (um > 0) & (ui > 0)
        out[g] = -2.5 * np.log10(um[g]) - self.dm(z, d) - k[g]
        return out

    def absrec(self, z, c, bs, d):
        r = self.recon(0., c, bs, 'out')
        out = np.full(self.nbo, -9999.)
        g = r > 0
        out[g] = -2.5 * np.log10(r[g]) - self.dm(z, d)
        return out

    def abslim(self, z, m, iv, c, bs, d):
        m, iv = self.ab(m, iv)
        ui = iv[self.imap]
        k = self.kcorr(z, c, bs)
        out = np.full(self.nbo, -9999.)
        if np.sum(c) > 0:
            g = ui > 0
            out[g] = -2.5 * np.log10(1. / np.sqrt(ui[g])) - self.dm(z, d) - k[g]
        return out

    def derived(self, z, c, bs, d):
        c = np.asarray(c, float)
        g = 10. ** (0.4 * self.dm(z, d))
        t = self.tm
        S = lambda a: float(np.dot(c, a))
        rem = S(t.mremain) * g
        o = dict(mremain=rem, intsfh=S(t.intsfh) * g)
        pos = rem > 0
        o['metallicity'] = S(t.mremain * t.mets) / S(t.mremain) if pos else 0.
        for n in ('b50', 'b300', 'b1000'):
            o[n] = S(getattr(t, 'm' + n[1:])) / S(t.intsfh) if pos else 0.
        r = self.recon(0., c, bs, 'out')
        ml = np.zeros(self.nbo)
        for j in range(self.nbo):
            if r[j] > 0:
                sun = self.solar[j] if self.solar[j] is not None else 0.
                ml[j] = rem / (r[j] / 10. ** (-0.4 * (sun + self.dm(z, d))))
        o['mtol'] = ml
        return o

    def fit_value(self, z, m, iv, c):
        A = self.amat(z)
        return float(np.sum(np.asarray(iv, float) * (np.asarray(m, float) - A @ np.asarray(c, float)) ** 2))

    def fit_best(self, z, m, iv):
        w = np.sqrt(np.asarray(iv, float))
        A = self.amat(z)
        return nnls64(A * w[:, None], np.asarray(m, float) * w)
