"""Contracts of kcorrect.fitter and kcorrect.kcorrect: fitting, reconstruction, K-corrections, magnitudes."""
from .common import *
from . import utils as SU
from vcgen import npmodel as NP
from vcgen.values import NameSort, strterm, strpred

AMF = z3.Function('AM', NameSort, R, I, R)          # design matrix entry of a response name, redshift, template
SOLAR = z3.Function('solar_magnitude', NameSort, R)
HASSOLAR = z3.Function('has_solar_magnitude', NameSort, B)
LEFF = z3.Function('lambda_eff', NameSort, R)
LOADED = lambda k: strpred('loaded', k)


def item_name(lst, i):
    """name of element i of a list of strings (concrete or symbolic length)"""
    if isinstance(lst, SymList):
        return lst.item(i)
    if isinstance(lst, (PList, tuple)):
        items = lst.items if isinstance(lst, PList) else list(lst)
        i = const(i)
        if not is_sym(i):
            return items[i]
        t = strterm(items[-1])
        for k in range(len(items) - 2, -1, -1):
            t = z3.If(z(eq(i, k)), strterm(items[k]), t)
        return SStr(t)
    if is_arr(lst):
        return lst.read((i,))
    raise Unsupported('list of names: %r' % (lst,))


def list_len(lst):
    if isinstance(lst, SymList):
        return lst.n
    if is_arr(lst):
        return lst.shape[0]
    return len(lst.items if isinstance(lst, PList) else lst)


class World:
    """symbolic environment: registry, templates, redshift range"""

    def __init__(self, ctx, nt=None):
        self.ctx, self.ip = ctx, ctx.ip
        ip = ctx.ip
        self.nt = nt if nt is not None else dim('nt', 1)
        self.lo, self.hi = z3.Real('zlo'), z3.Real('zhi')
        E.assume(self.lo < self.hi)
        self.registry()
        ip.rng_count = 0
        ip.rng_next = lambda: rng_next(ip)
        ip.rng_loopvars = lambda: [v for f in E.frames[1:] for v in f.ownvars]

    def registry(self):
        ip = self.ip
        R_ = ip.module('kcorrect.response')
        cls = R_.env['ResponseDict']
        self.rdict = ip.call(cls)
        self.rcls = R_.env['Response']
        self.rdict.data = SymDict(lambda k: LOADED(k), lambda k: response_obj(ip, self.rcls, k))

    def templates(self, nt=None, interpolate=True):
        ip = self.ip
        T_ = ip.module('kcorrect.template')
        o = Inst(T_.env['Template'])
        nt = nt if nt is not None else self.nt
        for a in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000'):
            o.attrs[a] = sym_array('tmpl.' + a, (nt,))
        o.attrs['nsed'] = nt
        o.attrs['redshift'] = F(0)
        o.attrs['interpolate'] = interpolate
        nw = dim('nw', 2)
        o.attrs['restframe_wave'] = sym_array('tmpl.rwave', (nw,))
        o.attrs['restframe_flux'] = sym_array('tmpl.rflux', (nt, nw))
        o.attrs['wave'], o.attrs['flux'] = o.attrs['restframe_wave'], o.attrs['restframe_flux']
        o.attrs['filename'] = None
        o.attrs['interp'] = None
        o.attrs['info'] = PDict({})
        return o

    def names(self, base, n):
        f = z3.Function(base, I, NameSort)
        if is_sym(n):
            return SymList(n, lambda i: SStr(f(z(i))))
        return PList([SStr(f(z3.IntVal(k))) for k in range(n)])

    def zrange(self):
        return PList([self.lo, self.hi])


def rng_next(ip):
    c = ip.rng_count
    ip.rng_count = c + 1

    def undo():
        ip.rng_count = c
    E.undoable(undo)
    return c


def response_obj(ip, cls, k):
    o = Inst(cls)
    t = strterm(k)
    o.ghost['name'] = t
    o.ghost['bykey'] = lambda kk: response_obj(ip, cls, kk)

    def ga(a):
        if a == 'solar_magnitude':
            return npscalar(SOLAR(t), 'f8') if E.decide(HASSOLAR(t)) else None
        if a == 'lambda_eff':
            return npscalar(LEFF(t), 'f8')
        v, _ = cls.find(a)
        if v is not None:
            return Bound(v, o)
        raise Unsupported('Response.%s in a caller' % a)
    o.ghost['getattr'] = ga
    return o


# ---- interpolators of design matrices ------------------------------------------------
def amatrix(names, nt, lo, hi):
    """abstract interpolator: A(z)[ir, it] = AM(name_ir, z, it); ValueError outside [lo, hi]"""
    o = Inst(None)
    nb = list_len(names)

    def call(q):
        q = NP.A(q)
        rq = q.reader()
        nq = q.ndim
        outside = lambda *ix: Or(lt(rq(*ix), lo), gt(rq(*ix), hi))
        if E.decide(E.exists(q.shape, outside) if nq else outside()):
            raise PyExc('ValueError', 'A value in x_new is out of the interpolation range.')
        return mk(q.shape + (nb, nt), lambda *ix: am(names, ix[nq], rq(*ix[:nq]), ix[nq + 1]), 'f8')
    o.ghost['call'] = call
    o.ghost['amatrix'] = names
    return o


def am(names, b, zz, t):
    return AMF(strterm(item_name(names, b)), zr(zz), z(t))


class CalcA:
    """_calc_Amatrix(self, responses): interpolator of AM over the names given; loads them"""

    def applicable(self, ip, f, b):
        return isinstance(b.get('responses'), (PList, SymList))

    def apply(self, ip, b):
        s = b['self']
        names = b['responses']
        if isinstance(names, PList):
            names = PList(list(names.items))
        n = list_len(names)
        if is_sym(n):
            E.fact((n,), lambda i: LOADED(item_name(names, i)))
        else:
            for k in range(n):
                E.assume(LOADED(item_name(names, k)))
        rr = ip.getattr(s, 'redshift_range')
        t = ip.getattr(s, 'templates')
        nt = ip.getattr(t, 'nsed')
        return amatrix(names, nt, rr.read((0,)), rr.read((1,)))


CALLEES = {'fitter.Fitter._calc_Amatrix': CalcA()}


def build(ctx, cls='Kcorrect', nb=None, out='same', nbo=None, w=None, abcorrect=None, cosmo=None, nt=None, abstract_map=True):
    """an object made by the real constructor on symbolic arguments"""
    w = w or World(ctx, nt=nt)
    ip = ctx.ip
    c = ip.module('kcorrect.kcorrect').env.get(cls) or ip.module('kcorrect.fitter').env[cls]
    tm = w.templates()
    nb = nb if nb is not None else dim('nb', 1)
    names = w.names('band', nb)
    kw = dict(responses=names, templates=tm, redshift_range=w.zrange(), nredshift=dim('nz', 2))
    if abcorrect is not None:
        kw['abcorrect'] = abcorrect
    if out != 'same':
        nbo = nbo if nbo is not None else dim('nbo', 1)
        outn = w.names('bandout', nbo)
        mf = z3.Function('mapidx', I, I)
        if is_sym(nbo):
            E.fact((nbo,), lambda j: And(mf(z(j)) >= 0, lt(mf(z(j)), nb)))
            mp = SymList(nbo, lambda j: item_name(names, mf(z(j))))
        else:
            for j in range(nbo):
                E.assume(And(mf(j) >= 0, lt(mf(j), nb)))
            mp = PList([item_name(names, mf(z3.IntVal(j))) for j in range(nbo)])
        kw['responses_out'], kw['responses_map'] = outn, mp
    if cls == 'Fitter':
        kw.pop('responses_out', None)
        kw.pop('responses_map', None)
    elif cosmo is not None:
        kw['cosmo'] = cosmo
    k = ip.call(c, (), kw)
    if cls == 'Fitter':
        ip.call(ip.getattr(k, 'set_Amatrix'))
    ob = Obj()
    ob.w, ob.k, ob.cls, ob.nb, ob.nt, ob.names, ob.tm = w, k, cls, nb, w.nt, names, tm
    ob.outnames = kw.get('responses_out', names)
    ob.mapnames = kw.get('responses_map', names)
    ob.nbo = list_len(ob.outnames)
    ob.lo, ob.hi = w.lo, w.hi
    ob.dm = NP.distmod_fn(cosmo.ghost['cosmo'] if cosmo is not None else 'Planck18')
    ob.ctx = ctx
    E.notes.clear()
    if abstract_map and is_arr(k.attrs.get('imap')) and is_sym(ob.nbo):
        # object invariant of the constructor (its own obligation, see scen_constructor): imap[j] is the
        # first input band named by the mapping
        im = z3.Function('imap', I, I)
        E.fact((ob.nbo,), lambda j: And(im(z(j)) >= 0, lt(im(z(j)), nb), strterm(item_name(names, im(z(j)))) == strterm(item_name(ob.mapnames, j))))
        k.attrs['imap'] = mk((ob.nbo,), lambda j: im(z(j)), 'i8', meta={'inrange': nb})
    ctx.watch_obj('object', k)
    ctx.watch_obj('templates', tm)
    return ob


class Obj:
    def meth(self, name, *a, **kw):
        ip = self.ctx.ip
        return self.ctx.pure(ip.getattr(self.k, name), a, kw)

    def names_at(self, which, b):
        return item_name({'in': self.names, 'out': self.outnames, 'map': self.mapnames}[which], b)

    def am(self, which, b, zz, t):
        return AMF(strterm(self.names_at(which, b)), zr(zz), z(t))

    def imap(self, j):
        """first input band whose name is the mapped name of output band j"""
        if not hasattr(self, '_imap'):
            self._imap = self.k.attrs['imap']
        return self._imap.read((j,))

    # ---- definitions of the contracts ------------------------------------------------
    def inrange(self, zz):
        return And(ge(zz, self.lo), le(zz, self.hi))

    def recon(self, which, zz, c, bs):
        """reconstructed maggies of band b: list function"""
        s = shifted(zz, bs)
        return lambda b: div(E.sum(self.nt, lambda t: mul(self.am(which, b, s, t), c(t))), add(1, bs))

    def nnls(self, zz, m, iv):
        """solution of the nonnegative weighted least squares problem of one object"""
        w = lambda b: sqrtv(iv(b))
        e, args = E.opaque('nnls', [self.nb, self.nt], lambda i, t: [zr(mul(w(i), self.am('in', i, zz, t))), zr(mul(w(i), m(i)))],
                           [('x', [I], R), ('r', [], R), ('fail', [], B), ('fail2', [], B)], arity=2)
        return e, args

    def fit(self, zz, m, iv):
        """coefficients of one object: (fails, fn(t))"""
        e, args = self.nnls(zz, m, iv)
        ok = self.inrange(zz)
        fails = And(ok, E.app(e, 'fail', args), E.app(e, 'fail2', args))
        return fails, lambda t: If(ok, E.app(e, 'x', args, [t]), F(0))

    def kcorr(self, zz, c, bs):
        ri = self.recon('in', zz, c, F(0))
        ro = self.recon('out', F(0), c, bs)
        tot = E.sum(self.nt, c)
        return lambda j: If(gt(tot, 0), mul(F(-5, 2), logv('log10', div(ri(self.imap(j)), ro(j)))), F(0))

    def distance_modulus(self, zz, d):
        if d is None:
            return self.dm(zr(zz))
        return mul(5, logv('log10', div(d, F(1, 100000))))

    def absm(self, zz, m, iv, c, bs, d):
        k = self.kcorr(zz, c, bs)
        dm = self.distance_modulus(zz, d)

        def fn(j):
            i = self.imap(j)
            return If(And(gt(m(i), 0), gt(iv(i), 0)),
                      sub(sub(mul(F(-5, 2), logv('log10', m(i))), dm), k(j)), F(-9999))
        return fn

    def absrec(self, zz, c, bs, d):
        ro = self.recon('out', F(0), c, bs)
        dm = self.distance_modulus(zz, d)
        return lambda j: If(gt(ro(j), 0), sub(mul(F(-5, 2), logv('log10', ro(j))), dm), F(-9999))

    def abslim(self, zz, iv, c, bs, d):
        k = self.kcorr(zz, c, bs)
        dm = self.distance_modulus(zz, d)
        tot = E.sum(self.nt, c)
        return lambda j: If(And(gt(iv(self.imap(j)), 0), gt(tot, 0)),
                            sub(sub(mul(F(-5, 2), logv('log10', div(1, sqrtv(iv(self.imap(j)))))), dm), k(j)), F(-9999))


def shifted(zz, bs):
    return sub(mul(add(1, zz), add(1, bs)), 1)


# ---- argument bundles --------------------------------------------------------------------
class Args:
    """redshift, maggies, ivar, coefficients for scalar or array calls"""

    def __init__(self, ob, array, n=None):
        ctx = ob.ctx
        self.array = array
        self.n = (n if n is not None else dim('n')) if array else None
        L = (self.n,) if array else ()
        self.L = L
        if array:
            self.z = ctx.arr('redshift', L)
        else:
            self.z = npscalar(z3.Real('redshift'), 'f4')
        self.m, self.iv, self.c = ctx.arr('maggies', L + (ob.nb,)), ctx.arr('ivar', L + (ob.nb,)), ctx.arr('coeffs', L + (ob.nt,))
        self.bs = z3.Real('band_shift')
        E.assume(self.bs > -1)
        # inverse variances are not negative, coefficients are those of a nonnegative fit
        E.fact(self.iv.shape, lambda *ix: ge(self.iv.read(ix), 0))
        E.fact(self.c.shape, lambda *ix: ge(self.c.read(ix), 0))
        rz, rm, rv, rc = self.z.reader(), self.m.reader(), self.iv.reader(), self.c.reader()
        self.zrow = lambda ix: rz(*ix)
        self.mrow = lambda ix: (lambda b: rm(*ix, b))
        self.ivrow = lambda ix: (lambda b: rv(*ix, b))
        self.crow = lambda ix: (lambda t: rc(*ix, t))

    def dist(self, ctx):
        d = ctx.arr('distance', self.L) if self.array else npscalar(z3.Real('distance'), 'f8')
        rd = d.reader()
        if self.array:
            E.fact(self.L, lambda i: gt(rd(i), 0))
        else:
            E.assume(gt(rd(), 0))
        return d, lambda ix: rd(*ix)


def rows(L, ncol, fn, dtype='f4'):
    """array [*L, ncol] with element fn(row index)(column)"""
    return mk(tuple(L) + (ncol,), lambda *ix: fn(ix[:-1])(ix[-1]), dtype)


def all_in(ob, a, fn):
    """no row's value is outside the grid: decided"""
    if a.array:
        return not E.decide(E.exists(a.L, lambda i: Not(ob.inrange(fn((i,))))))
    return E.decide(ob.inrange(fn(())))


ERR = ('exc', PyExc('ValueError'))
ANYERR = ('exc', PyExc('Error'))


# ---- contracts used by callers --------------------------------------------------------------
def conform(a, shape):
    return is_arr(a) and len(a.shape) == len(shape) and all(E.known(eq(p, q)) is True for p, q in zip(a.shape, shape))


def obj_of(b):
    s = b.get('self')
    return s.ghost.get('ob') if isinstance(s, Inst) else None


def rowsof(a, rank):
    r = a.reader()
    if rank == 0:
        return lambda ix: r(*ix)
    return lambda ix: (lambda k: r(*ix, k))


class CReconstruct:
    """_reconstruct(Amatrix, redshift, coeffs, band_shift)"""

    def applicable(self, ip, f, b):
        ob = obj_of(b)
        A, zz, c = b.get('Amatrix'), b.get('redshift'), b.get('coeffs')
        if ob is None or not isinstance(A, Inst) or 'amatrix' not in A.ghost or zz is None or c is None:
            return False
        zz = NP.A(zz)
        return zz.ndim <= 1 and conform(c, zz.shape + (ob.nt,))

    def apply(self, ip, b):
        ob = obj_of(b)
        names, zz, c, bs = b['Amatrix'].ghost['amatrix'], NP.A(b['redshift']), b['coeffs'], b['band_shift']
        bs = bs.item() if is_arr(bs) else bs
        return spec_reconstruct(ob, names, zz, c, bs)


def spec_reconstruct(ob, names, zz, c, bs):
    L = zz.shape
    rz, rc = zz.reader(), c.reader()
    bad = lambda *ix: Not(ob.inrange(shifted(rz(*ix), bs)))
    if E.decide(E.exists(L, bad) if L else bad()):
        raise PyExc('ValueError', 'Redshift out of range')

    def fn(*ix):
        s = shifted(rz(*ix[:-1]), bs)
        return div(E.sum(ob.nt, lambda t: mul(am(names, ix[-1], s, t), rc(*ix[:-1], t))), add(1, bs))
    return mk(L + (list_len(names),), fn, 'f8')


class CFit:
    """_fit_coeffs(redshift, maggies, ivar, mc) for one object"""

    def applicable(self, ip, f, b):
        ob = obj_of(b)
        zz = b.get('redshift')
        if ob is None or zz is None or not all(k in b for k in ('maggies', 'ivar', 'mc')):
            return False
        return NP.A(zz).ndim == 0 and conform(b['maggies'], (ob.nb,)) and conform(b['ivar'], (ob.nb,))

    def apply(self, ip, b):
        ob = obj_of(b)
        return spec_fit1(ob, NP.A(b['redshift']).item(), b['maggies'].reader(), b['ivar'].reader(), b['mc'])


def spec_fit1(ob, zz, m, iv, mc):
    e, args = ob.nnls(zz, m, iv)
    inr = E.decide(ob.inrange(zz))
    no_mc = not is_sym(const(mc)) and const(mc) == 0 or (is_sym(const(mc)) and E.decide(eq(mc, 0)))
    if not inr:
        cz = mk((ob.nt,), lambda t: F(0), 'f4')
        if no_mc:
            return cz
        return (cz, mk((ob.nt, mc), lambda t, k: F(0), 'f4'), mk((ob.nb, mc), lambda t, k: F(0), 'f4'))
    if E.decide(E.app(e, 'fail', args)):
        if E.decide(E.app(e, 'fail2', args)):
            raise PyExc('RuntimeError', 'nnls')
    cf = mk((ob.nt,), lambda t: E.app(e, 'x', args, [t]), 'f8')
    if no_mc:
        return cf
    mm = mc_maggies(ob, m, iv, zz)
    mag = mk((ob.nb, mc), lambda b, k: mm(k)(b), 'f4')

    def fails(k):
        e2, a2 = ob.nnls(zz, mm(k), iv)
        return And(E.app(e2, 'fail', a2), E.app(e2, 'fail2', a2))
    if E.decide(E.exists((mc,), fails)):
        raise PyExc('RuntimeError', 'nnls')

    def cm(t, k):
        e2, a2 = ob.nnls(zz, mm(k), iv)
        return E.app(e2, 'x', a2, [t])
    return (cf, mk((ob.nt, mc), cm, 'f4'), mag)


def mc_maggies(ob, m, iv, zz):
    """realisation k of the maggies; draws of the contract, one per band and realisation"""
    ip = ob.ctx.ip
    cid = ip.rng_next()
    lv = ip.rng_loopvars()
    f = z3.Function('norm!%d' % cid, *([I] * (len(lv) + 2) + [R]))
    return lambda k: (lambda b: If(gt(iv(b), 0), add(m(b), div(f(*lv, z(b), z(k)), sqrtv(iv(b)))), m(b)))


class CKcorrect:
    """kcorrect(redshift, coeffs, band_shift)"""

    def applicable(self, ip, f, b):
        ob = obj_of(b)
        zz, c = b.get('redshift'), b.get('coeffs')
        if ob is None or zz is None or c is None:
            return False
        zz = NP.A(zz)
        return zz.ndim <= 1 and conform(c, zz.shape + (ob.nt,))

    def apply(self, ip, b):
        ob = obj_of(b)
        zz = NP.A(b['redshift'])
        bs = b['band_shift']
        return spec_kcorrect(ob, zz, b['coeffs'], bs.item() if is_arr(bs) else bs)


def spec_range_check(ob, zz, bs_list):
    """the shifted redshifts a K-correction needs: object redshift, and band shift at zero"""
    rz = zz.reader()
    bad = lambda *ix: Not(ob.inrange(rz(*ix)))
    if E.decide(E.exists(zz.shape, bad) if zz.shape else bad()):
        raise PyExc('ValueError', 'Redshift out of range')
    for bs in bs_list:
        b2 = lambda *ix: Not(ob.inrange(bs))
        if E.decide(E.exists(zz.shape, b2) if zz.shape else b2()):
            raise PyExc('ValueError', 'Redshift out of range')


def spec_kcorrect(ob, zz, c, bs):
    spec_range_check(ob, zz, [bs])
    rz, rc = rowsof(zz, 0), rowsof(c, 1)
    return rows(zz.shape, ob.nbo, lambda ix: ob.kcorr(rz(ix), rc(ix), bs))


class CAbsmag:
    """absmag(...) on maggies that the class corrects to AB"""

    def applicable(self, ip, f, b):
        ob = obj_of(b)
        zz, c, m, iv = b.get('redshift'), b.get('coeffs'), b.get('maggies'), b.get('ivar')
        if ob is None or zz is None or c is None or ob.k.attrs.get('abcorrect') is not False:
            return False
        zz = NP.A(zz)
        d = b.get('distance')
        return zz.ndim <= 1 and conform(c, zz.shape + (ob.nt,)) and conform(m, zz.shape + (ob.nb,)) and conform(iv, zz.shape + (ob.nb,)) \
            and (d is None or conform(NP.A(d), zz.shape)) and b.get('band_shift') is not None and all(isinstance(b.get(k), bool) for k in ('reconstruct', 'limit', 'kcorrect'))

    def apply(self, ip, b):
        ob = obj_of(b)
        bs, d = b['band_shift'], b['distance']
        return spec_absmag(ob, NP.A(b['redshift']), b['maggies'], b['ivar'], b['coeffs'], bs.item() if is_arr(bs) else bs,
                           None if d is None else NP.A(d), b['reconstruct'], b['limit'], b['kcorrect'])


def spec_absmag(ob, zz, m, iv, c, bs, d, rec, lim, kc, fix=None):
    spec_range_check(ob, zz, [bs])
    return spec_absmag_nocheck(ob, zz, m, iv, c, bs, d, rec, lim, kc, fix)


def spec_absmag_nocheck(ob, zz, m, iv, c, bs, d, rec, lim, kc, fix=None):
    zz = NP.A(zz)
    rz, rm, rv, rc = rowsof(zz, 0), rowsof(m, 1), rowsof(iv, 1), rowsof(c, 1)
    rd = rowsof(d, 0) if d is not None else (lambda ix: None)
    if fix is not None and fix.n:
        rm0, rv0 = rm, rv
        rm = lambda ix: fix.m(rm0(ix))
        rv = lambda ix: fix.iv(rv0(ix))
    L, nbo = zz.shape, ob.nbo
    out = [rows(L, nbo, lambda ix: ob.absm(rz(ix), rm(ix), rv(ix), rc(ix), bs, rd(ix)))]
    if rec:
        out.append(rows(L, nbo, lambda ix: ob.absrec(rz(ix), rc(ix), bs, rd(ix))))
    if lim:
        out.append(rows(L, nbo, lambda ix: ob.abslim(rz(ix), rv(ix), rc(ix), bs, rd(ix))))
    if kc:
        out.append(rows(L, nbo, lambda ix: ob.kcorr(rz(ix), rc(ix), bs)))
    return out[0] if len(out) == 1 else tuple(out)


class CDerived:
    def applicable(self, ip, f, b):
        ob = obj_of(b)
        zz, c, d = b.get('redshift'), b.get('coeffs'), b.get('distance')
        if ob is None or zz is None or c is None:
            return False
        zz = NP.A(zz)
        return zz.ndim <= 1 and conform(c, zz.shape + (ob.nt,)) and (d is None or conform(NP.A(d), zz.shape))

    def apply(self, ip, b):
        ob = obj_of(b)
        bs, d = b['band_shift'], b['distance']
        return spec_derived(ob, NP.A(b['redshift']), b['coeffs'], bs.item() if is_arr(bs) else bs, None if d is None else NP.A(d))


def spec_range_check1(ob, zz, bs):
    # the model flux at redshift zero needs the band shift inside the grid
    b2 = lambda *ix: Not(ob.inrange(bs))
    if E.decide(E.exists(zz.shape, b2) if zz.shape else b2()):
        raise PyExc('ValueError', 'Redshift out of range')


def spec_derived(ob, zz, c, bs, d):
    spec_range_check1(ob, zz, bs)
    return spec_derived_nocheck(ob, zz, c, bs, d)


def spec_derived_nocheck(ob, zz, c, bs, d):
    rz, rc = rowsof(zz, 0), rowsof(c, 1)
    rd = rowsof(d, 0) if d is not None else (lambda ix: None)
    L = zz.shape
    t = {a: ob.tm.attrs[a].reader() for a in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000')}
    dm = lambda ix: ob.distance_modulus(rz(ix), rd(ix))

    def g(ix):
        if d is None:
            return T.pow10(mul(F(4, 10), dm(ix)))
        x = div(rd(ix), F(1, 100000))
        return mul(x, x)

    def wsum(ix, a):
        return E.sum(ob.nt, lambda k: mul(rc(ix)(k), a(k)))
    S = lambda ix, a: wsum(ix, t[a])
    rem = lambda ix: mul(S(ix, 'mremain'), g(ix))
    pos = lambda ix: gt(rem(ix), 0)
    # precondition: every template formed stars (stars that remain were formed)
    if L:
        E.fact(L, lambda *ix: Implies(gt(S(ix, 'mremain'), 0), gt(S(ix, 'intsfh'), 0)))
    else:
        E.assume(Implies(gt(S((), 'mremain'), 0), gt(S((), 'intsfh'), 0)))

    def lum(ix, j):
        nm = strterm(ob.names_at('out', j))
        sun = If(HASSOLAR(nm), SOLAR(nm), F(0))
        ro = ob.recon('out', F(0), rc(ix), bs)(j)
        if d is None:
            return div(ro, T.pow10(mul(F(-4, 10), add(sun, dm(ix)))))
        x = div(rd(ix), F(1, 100000))
        return mul(div(ro, T.pow10(mul(F(-4, 10), sun))), mul(x, x))

    def per(fn):
        return mk(L, lambda *ix: fn(ix), 'f8')
    out = {
        'mremain': per(rem),
        'intsfh': per(lambda ix: mul(S(ix, 'intsfh'), g(ix))),
        'metallicity': per(lambda ix: If(pos(ix), div(wsum(ix, lambda k: mul(t['mremain'](k), t['mets'](k))), S(ix, 'mremain')), F(0))),
        'mtol': rows(L, ob.nbo, lambda ix: (lambda j: If(gt(ob.recon('out', F(0), rc(ix), bs)(j), 0), div(rem(ix), lum(ix, j)), F(0)))),
    }
    for nm in ('b50', 'b300', 'b1000'):
        out[nm] = per(lambda ix, a='m' + nm[1:]: If(pos(ix), div(S(ix, a), S(ix, 'intsfh')), F(0)))
    return PDict(out)


CONTRACTS = dict(CALLEES)
CONTRACTS.update({
    'fitter.Fitter._reconstruct': CReconstruct(),
    'fitter.Fitter._fit_coeffs': CFit(),
    'kcorrect.Kcorrect.kcorrect': CKcorrect(),
    'kcorrect.Kcorrect.absmag': CAbsmag(),
    'kcorrect.Kcorrect.derived': CDerived(),
    'utils.sdss_ab_correct': SU.SdssAb(),
    'utils.sdss_asinh_to_maggies': SU.Asinh(),
})


def only(*quals):
    """contract table of a verification run: design matrices always by contract"""
    d = dict(CALLEES)
    for q in quals:
        d[q] = CONTRACTS[q]
    return d


# ---- scenarios --------------------------------------------------------------------------------
def scen_reconstruct(array, which, cls='Kcorrect', out='distinct'):
    def s(ctx):
        ob = build(ctx, cls=cls, out=out)
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        names = ob.names if which == 'in' else ob.outnames
        want = ctx.outcome(lambda: spec_reconstruct(ob, names, a.z, a.c, a.bs), tag=False)
        got = ob.meth('reconstruct' if which == 'in' else 'reconstruct_out', redshift=a.z, coeffs=a.c, band_shift=a.bs)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def scen_fit1(mc):
    def s(ctx):
        ob = build(ctx, cls='Fitter')
        a = Args(ob, False)
        got = ob.meth('_fit_coeffs', redshift=a.z, maggies=a.m, ivar=a.iv)
        want = ctx.outcome(lambda: spec_fit1(ob, a.z.item(), a.m.reader(), a.iv.reader(), 0), tag=False)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def scen_kcorrect(array, out='distinct'):
    def s(ctx):
        ob = build(ctx, out=out)
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        want = ctx.outcome(lambda: spec_kcorrect(ob, a.z, a.c, a.bs), tag=False)
        got = ob.meth('kcorrect', redshift=a.z, coeffs=a.c, band_shift=a.bs)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def scen_absmag(array, rec, lim, kc, dist, out='distinct', cls='Kcorrect', ab=None, nb=None, nbo=None):
    def s(ctx):
        ob = build(ctx, out=out, cls=cls, abcorrect=ab, nb=nb, nbo=nbo)
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        d = a.dist(ctx)[0] if dist else None
        kw = dict(redshift=a.z, maggies=a.m, ivar=a.iv, coeffs=a.c, band_shift=a.bs)
        if dist:
            kw['distance'] = d
        for nm, v in (('reconstruct', rec), ('limit', lim), ('kcorrect', kc)):
            if v:
                kw[nm] = True
        want = ctx.outcome(lambda: spec_absmag(ob, a.z, a.m, a.iv, a.c, a.bs, d, rec, lim, kc, fix_of(ob)), tag=False)
        got = ob.meth('absmag', **kw)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def scen_derived(array, dist, out='distinct'):
    def s(ctx):
        ob = build(ctx, out=out)
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        d = a.dist(ctx)[0] if dist else None
        kw = dict(redshift=a.z, coeffs=a.c, band_shift=a.bs)
        if dist:
            kw['distance'] = d
        want = ctx.outcome(lambda: spec_derived(ob, a.z, a.c, a.bs, d), tag=False)
        got = ob.meth('derived', **kw)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


# ---- fits of many objects ---------------------------------------------------------------------
class RowFix:
    """per-band correction to AB of a class: multiplies the flux and divides the ivar by its square"""

    def __init__(self, first=0, n=0):
        self.first, self.n = first, n
        self.fac = [SU.ab_fac(o) for o in SU.ABFIX[:n]]

    def f(self, b):
        if self.n == 0:
            return F(1)
        b = const(b)
        if not is_sym(b):
            return self.fac[b - self.first] if self.first <= b < self.first + self.n else F(1)
        r = F(1)
        for k in range(self.n):
            r = If(eq(b, k + self.first), self.fac[k], r)
        return r

    def m(self, fn):
        return fn if self.n == 0 else (lambda b: mul(fn(b), self.f(b)))

    def iv(self, fn):
        return fn if self.n == 0 else (lambda b: div(fn(b), mul(self.f(b), self.f(b))))


NOFIX = RowFix()
SDSSFIX = RowFix(0, 5)
GSTFIX = RowFix(2, 5)


def spec_fit(ob, a, fix=NOFIX, mrow=None, ivrow=None):
    """fit_coeffs without realisations: one fit per object"""
    mr, vr = mrow or a.mrow, ivrow or a.ivrow
    one = lambda ix: ob.fit(a.zrow(ix), fix.m(mr(ix)), fix.iv(vr(ix)))
    if a.array:
        if E.decide(E.exists(a.L, lambda i: one((i,))[0])):
            raise PyExc('RuntimeError', 'nnls')
    elif E.decide(one(())[0]):
        raise PyExc('RuntimeError', 'nnls')
    return rows(a.L, ob.nt, lambda ix: one(ix)[1])


class CFitCoeffs:
    """fit_coeffs without realisations"""

    def applicable(self, ip, f, b):
        ob = obj_of(b)
        zz, mc = b.get('redshift'), const(b.get('mc')) if b.get('mc') is not None else None
        if ob is None or zz is None or mc is None or is_sym(mc) or mc != 0:
            return False
        L = NP.A(zz).shape
        return len(L) <= 1 and conform(b['maggies'], L + (ob.nb,)) and conform(b['ivar'], L + (ob.nb,))

    def apply(self, ip, b):
        ob = obj_of(b)
        zz = NP.A(b['redshift'])
        a = Obj()
        a.L, a.array = zz.shape, bool(zz.shape)
        a.zrow, a.mrow, a.ivrow = rowsof(zz, 0), rowsof(b['maggies'], 1), rowsof(b['ivar'], 1)
        return spec_fit(ob, a, fix_of(ob))


def fix_of(ob):
    ab = ob.k.attrs.get('abcorrect')
    if ab is True:
        return {'KcorrectSDSS': SDSSFIX, 'KcorrectGST': GSTFIX}.get(ob.cls, NOFIX)
    if ab is False:
        return NOFIX
    raise Unsupported('abcorrect flag')


CONTRACTS['fitter.Fitter.fit_coeffs'] = CFitCoeffs()
CONTRACTS['utils.sdss_asinh_to_maggies'] = SU.Asinh()


def scen_fit(array, n=None, cls='Kcorrect', ab=None, nb=None, out='same'):
    def s(ctx):
        ob = build(ctx, cls=cls, nb=nb, abcorrect=ab, out=out, nbo=dim('nbo', nb + 1) if out == 'more' else None)
        ob.k.ghost['ob'] = ob
        a = Args(ob, array, n=n)
        got = ob.meth('fit_coeffs', redshift=a.z, maggies=a.m, ivar=a.iv)
        want = ctx.outcome(lambda: spec_fit(ob, a, fix_of(ob)), tag=False)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def check_draws(ctx, ob, label, got, a, mc):
    """every realisation: maggies plus an independent draw over sqrt(ivar) where measured"""
    L = a.L
    shape = L + (ob.nb, mc)
    rg = got.reader()
    ctx.goal(label + '.rank', len(got.shape) == len(shape))
    if len(got.shape) != len(shape):
        return
    for k, (p, q) in enumerate(zip(got.shape, shape)):
        ctx.goal('%s.shape[%d]' % (label, k), eq(p, q))
    sk = [E.fresh('sk!d') for _ in shape]
    sk2 = [E.fresh('sk!d') for _ in shape]
    inb = lambda s: [And(i >= 0, lt(i, d)) for i, d in zip(s, shape)]
    def norms(t):
        return [x for x in subterms([z(t)]) if z3.is_app(x) and x.decl().name().startswith('norm!')]
    t = rg(*sk)
    ix, b = tuple(sk[:len(L)]), sk[len(L)]
    zz, m, iv = a.zrow(ix), a.mrow(ix)(b), a.ivrow(ix)(b)
    from vcgen.engine import fold
    hyps = inb(sk) + [ob.inrange(zz)]
    ns = {x.get_id(): x for x in norms(t)}
    ctx.goal(label + ' unmeasured bands unchanged', Implies(Not(gt(iv, 0)), eq(t, m)), hyps)
    if not ns:
        # nothing drawn: no measured object inside the grid on this path
        ctx.goal(label + ' draws', False, hyps + [gt(iv, 0)], detail='no normal draw')
        return
    if len(ns) > 1:
        # the draws may differ only where the element is not affected
        ctx.goal(label + ' one draw per element', And(*[eq(x, y) for x in ns.values() for y in list(ns.values())[:1]]), hyps + [gt(iv, 0)])
    nrm = list(ns.values())[0]
    ctx.goal(label + ' draw scaled by the error', Implies(gt(iv, 0), eq(t, add(m, div(nrm, sqrtv(iv))))), hyps)
    # distinct elements use distinct draws
    t2 = z3.substitute(nrm, list(zip(sk, sk2)))
    iv2 = a.ivrow(tuple(sk2[:len(L)]))(sk2[len(L)])
    z2 = a.zrow(tuple(sk2[:len(L)]))
    same_draw = And(*[eq(p, q) for p, q in zip(nrm.children(), t2.children())])
    ctx.goal(label + ' draws independent', Implies(same_draw, And(*[eq(p, q) for p, q in zip(sk, sk2)])),
             hyps + inb(sk2) + [ob.inrange(z2), gt(iv, 0), gt(iv2, 0)])


def scen_fit_lemmas(ctx):
    """what the optimum of the weighted problem handed to the solver means for maggies and ivar"""
    ob = build(ctx, cls='Fitter')
    a = Args(ob, 0)
    zz, m, iv, c = a.zrow(()), a.mrow(()), a.ivrow(()), a.crow(())
    b = E.fresh('sk!b')
    hb = [b >= 0, lt(b, ob.nb)]
    w = lambda b: sqrtv(iv(b))
    A_ = lambda b, t: ob.am('in', b, zz, t)
    model = E.sum(ob.nt, lambda t: mul(A_(b, t), c(t)))
    # squared residual of row b of the problem (w A) x ~ (w m), any x
    row = sub(E.sum(ob.nt, lambda t: mul(mul(w(b), A_(b, t)), c(t))), mul(w(b), m(b)))
    ctx.goal('lemma: the row is the weighted residual', eq(row, mul(w(b), sub(model, m(b)))), hb)
    ctx.goal('lemma: weight squared is the inverse variance', eq(mul(w(b), w(b)), iv(b)), hb)
    r, wv = z3.Real('residual'), z3.Real('weight')
    ctx.goal('lemma: squared residual of the row', eq(mul(mul(wv, r), mul(wv, r)), mul(mul(wv, wv), mul(r, r))))
    # bands of zero inverse variance: the problem is the same whatever their maggies
    m2 = ctx.arr('other maggies', (ob.nb,)).reader()
    E.fact((ob.nb,), lambda i: Implies(gt(iv(i), 0), eq(m(i), m2(i))))
    ctx.goal('lemma: zero inverse variance, same problem', eq(mul(w(b), m(b)), mul(w(b), m2(b))), hb)
    e1, a1 = ob.nnls(zz, m, iv)
    e2, a2 = ob.nnls(zz, m2, iv)
    t = E.fresh('sk!t')
    ctx.goal('lemma: zero inverse variance, same solution', eq(E.app(e1, 'x', a1, [t]), E.app(e2, 'x', a2, [t])), [t >= 0, lt(t, ob.nt)])


def scen_to_ab(cls, nd, with_ivar, dt='f8'):
    """to_ab of one class on one object or a stack: its own bands corrected once, the others untouched"""
    fix, nb = {'KcorrectSDSS': (SDSSFIX, 5), 'KcorrectGST': (GSTFIX, 10)}.get(cls, (NOFIX, 0))

    def s(ctx):
        ip = ctx.ip
        mod = 'kcorrect.fitter' if cls == 'Fitter' else 'kcorrect.kcorrect'
        k = Inst(ip.module(mod).env[cls])
        shape = tuple(dim('n%d' % i) for i in range(nd - 1)) + (nb or dim('nb'),)
        m = ctx.arr('maggies', shape, dt)
        v = ctx.arr('ivar', shape, dt) if with_ivar else None
        rm, rv = m.reader(), v.reader() if with_ivar else None
        got = ctx.pure(ip.getattr(k, 'to_ab'), (), dict(maggies=m, ivar=v) if with_ivar else dict(maggies=m))
        wm = mk(shape, lambda *ix: fix.m(lambda b: rm(*ix[:-1], b))(ix[-1]), 'f4')
        wv = mk(shape, lambda *ix: fix.iv(lambda b: rv(*ix[:-1], b))(ix[-1]), 'f4')
        ctx.refine('post', got, ('ok', (wm, wv) if with_ivar else wm))
        ctx.unchanged()
    return s


def scen_fit_asinh(array, ext, ab=None):
    """fitting asinh magnitudes is fitting the converted maggies and ivar"""
    def s(ctx):
        ob = build(ctx, cls='KcorrectSDSS', nb=5, abcorrect=ab, out='more', nbo=dim('nbo', 6))
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        mag, err = ctx.arr('mag', a.L + (5,)), ctx.arr('mag_err', a.L + (5,))
        ex = ctx.arr('extinction', a.L + (5,)) if ext else None
        E.fact(mag.shape, lambda *ix: gt(err.read(ix), 0))
        kw = dict(redshift=a.z, mag=mag, mag_err=err)
        if ext:
            kw['extinction'] = ex
        got = ob.meth('fit_coeffs_asinh', **kw)
        m, v = SU.spec_asinh(mag, err, ex)
        want = ctx.outcome(lambda: spec_fit(ob, a, fix_of(ob), mrow=rowsof(m, 1), ivrow=rowsof(v, 1)), tag=False)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def scen_fit_asinh_reject(ctx):
    ob = build(ctx, cls='KcorrectSDSS', nb=5, out='more', nbo=dim('nbo', 6))
    mag, err = ctx.arr('mag', (5,)), ctx.arr('mag_err', (5,))
    got = ob.meth('fit_coeffs_asinh', mag=mag, mag_err=err)
    if got[0] == 'ok':
        ctx.fail('missing redshift', 'returned instead of raising')
    else:
        ctx.goal('missing redshift', True)


def scen_fit_mc(array, n=None, mc=None, single=False, cls='Kcorrect', ab=None, nb=None):
    """realisations of a fit (the private single-object function, or the public one)"""
    def s(ctx):
        ob = build(ctx, cls=cls, nb=nb, abcorrect=ab)
        ob.k.ghost['ob'] = ob
        a = Args(ob, array, n=n)
        nm = mc if mc is not None else dim('mc', 1)
        got = ob.meth('_fit_coeffs' if single else 'fit_coeffs', redshift=a.z, maggies=a.m, ivar=a.iv, mc=nm)
        fix = fix_of(ob)
        if fix.n:
            a.mrow0, a.ivrow0 = a.mrow, a.ivrow
            a.mrow = lambda ix: fix.m(a.mrow0(ix))
            a.ivrow = lambda ix: fix.iv(a.ivrow0(ix))
        want = ctx.outcome(lambda: spec_fit(ob, a), tag=False)
        if want[0] == 'exc' or got[0] == 'exc':
            # a realisation may fail where the fit does not
            if want[0] == 'exc':
                ctx.refine('post', got, want)
            elif got[1].kind != 'RuntimeError':
                ctx.refine('post', got, want)
            else:
                ctx.goal('post returns', True)
            return
        ctx.goal('post three results', isinstance(got[1], tuple) and len(got[1]) == 3)
        if not (isinstance(got[1], tuple) and len(got[1]) == 3):
            return
        c, cm, mm = got[1]
        ctx.same('coefficients', c, want[1])
        check_draws(ctx, ob, 'realised maggies', mm, a, nm)
        rmm = mm.reader()

        def coeff(ix, t, k):
            f = ob.fit(a.zrow(ix), lambda b: rmm(*ix, b, k), a.ivrow(ix))
            return f[1](t)
        nl = len(a.L)
        wantc = mk(a.L + (ob.nt, nm), lambda *ix: coeff(ix[:nl], ix[nl], ix[nl + 1]), 'f4')
        ctx.same('realised coefficients', cm, wantc)
        ctx.unchanged()
    return s


# ---- Monte Carlo propagation -----------------------------------------------------------------
def mc_args(ob, a, mc):
    ctx = ob.ctx
    L = a.L
    mm, cm = ctx.arr('maggies_mc', L + (ob.nb, mc)), ctx.arr('coeffs_mc', L + (ob.nt, mc))
    E.fact(cm.shape, lambda *ix: ge(cm.read(ix), 0))
    return mm, cm


def slice_mc(x, k):
    r = x.reader()
    return mk(x.shape[:-1], lambda *ix: r(*ix, k), 'f4')


def scen_absmag_mc(array, rec, kc, dist, mc=None):
    def s(ctx):
        ob = build(ctx, out='distinct')
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        nm = mc if mc is not None else dim('mc', 1)
        mm, cm = mc_args(ob, a, nm)
        d = a.dist(ctx)[0] if dist else None
        kw = dict(redshift=a.z, maggies_mc=mm, ivar=a.iv, coeffs_mc=cm, band_shift=a.bs)
        if dist:
            kw['distance'] = d
        if rec:
            kw['reconstruct'] = True
        if kc:
            kw['kcorrect'] = True

        def spec():
            def one(k):
                r = spec_absmag_nocheck(ob, a.z, slice_mc(mm, k), a.iv, slice_mc(cm, k), a.bs, d, rec, False, kc)
                return r if isinstance(r, tuple) else (r,)
            spec_range_check(ob, NP.A(a.z), [a.bs])
            outs = []
            for q in range(1 + bool(rec) + bool(kc)):
                outs.append(mk(a.L + (ob.nbo, nm), lambda *ix, q=q: one(ix[-1])[q].read(ix[:-1]), 'f4'))
            return outs[0] if len(outs) == 1 else tuple(outs)
        want = ctx.outcome(spec, tag=False)
        got = ob.meth('absmag_mc', **kw)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


def scen_derived_mc(array, dist, mc=None):
    def s(ctx):
        ob = build(ctx, out='distinct')
        ob.k.ghost['ob'] = ob
        a = Args(ob, array)
        nm = mc if mc is not None else dim('mc', 1)
        mm, cm = mc_args(ob, a, nm)
        d = a.dist(ctx)[0] if dist else None
        kw = dict(redshift=a.z, coeffs_mc=cm, band_shift=a.bs)
        if dist:
            kw['distance'] = d

        def spec():
            spec_range_check1(ob, NP.A(a.z), a.bs)
            one = lambda k: spec_derived_nocheck(ob, NP.A(a.z), slice_mc(cm, k), a.bs, d)
            tail = {'mtol': (ob.nbo,)}
            return PDict({q: mk(a.L + tail.get(q, ()) + (nm,), lambda *ix, q=q: one(ix[-1]).d[q].read(ix[:-1]), 'f4') for q in KEYS})
        want = ctx.outcome(spec, tag=False)
        got = ob.meth('derived_mc', **kw)
        ctx.refine('post', got, want)
        ctx.unchanged()
    return s


KEYS = ('mremain', 'intsfh', 'mtol', 'b50', 'b300', 'b1000', 'metallicity')
