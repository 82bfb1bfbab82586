"""Contracts of kcorrect.utils."""
from .common import *

ABFIX = [F(-36, 1000), F(12, 1000), F(10, 1000), F(28, 1000), F(40, 1000)]
B0 = [F(14, 10**11), F(9, 10**11), F(12, 10**11), F(18, 10**11), F(74, 10**11)]


def ab_fac(o):
    return T.pow10(mul(F(-4, 10), o))


# ---- sed_ab -------------------------------------------------------------------
def spec_sed_ab(wave):
    """3631 Jy per Angstrom"""
    return ew1(lambda w: div(mul(F(3631, 100000), F(299792, 100000)), mul(w, w)), wave)


def ew1(fn, a):
    r = a.reader()
    return mk(a.shape, lambda *ix: fn(r(*ix)), 'f8')


def scen_sed_ab(ctx):
    n = dim('n')
    w = ctx.arr('wave', (n,))
    E.fact((n,), lambda i: w.read((i,)) > 0)
    want = spec_sed_ab(w)
    got = ctx.call('utils.sed_ab', w)
    ctx.refine('post', got, ('ok', want))
    ctx.unchanged()


class SedAb:
    def applicable(self, ip, f, b):
        return is_arr(b.get('wave'))

    def apply(self, ip, b):
        return spec_sed_ab(b['wave'])


# ---- sdss_ab_correct -----------------------------------------------------------
def spec_sdss_ab(m, v, fix):
    fx = [ab_fac(o) for o in fix]
    rm = m.reader()
    ab = mk(m.shape, lambda *ix: mul(rm(*ix), table(fx, ix[-1])), 'f4')
    if v is None:
        return ab
    rv = v.reader()
    f2 = [mul(x, x) for x in fx]
    return (ab, mk(m.shape, lambda *ix: div(rv(*ix), table(f2, ix[-1])), 'f4'))


def scen_sdss_ab(nd, with_ivar, own):
    def s(ctx):
        L = lead_dims(nd - 1)
        m = ctx.arr('maggies', L + (5,))
        v = ctx.arr('ivar', L + (5,)) if with_ivar else None
        kw = {}
        fix = ABFIX
        if own:
            o = ctx.arr('abfix', (5,), own if isinstance(own, str) else None)
            kw['abfix'] = o
            fix = [o.read((k,)) for k in range(5)]
        want = spec_sdss_ab(m, v, fix)
        got = ctx.call('utils.sdss_ab_correct', m, v, **kw)
        if ctx.refine('post', got, ('ok', want)) and with_ivar and nd < 3:
            # signal to noise unchanged
            for ix, h in ctx.index(m.shape):
                ga, gi = got[1][0].read(ix), got[1][1].read(ix)
                ctx.goal('signal-to-noise', eq(mul(mul(ga, ga), gi), mul(mul(m.read(ix), m.read(ix)), v.read(ix))), h)
        ctx.unchanged()
    return s


def scen_sdss_ab_reject(ctx):
    n = dim('n')
    m = ctx.arr('m', (n,))
    E.assume(Not(eq(n, 5)))
    reject(ctx, 'band count', 'utils.sdss_ab_correct', m)
    m2 = ctx.arr('m2', (5,))
    reject(ctx, 'ivar shape', 'utils.sdss_ab_correct', m2, m)
    k = dim('k')
    o = ctx.arr('o', (k,))
    E.assume(Not(eq(k, 5)))
    reject(ctx, 'offset count', 'utils.sdss_ab_correct', m2, None, abfix=o)


class SdssAb:
    def applicable(self, ip, f, b):
        m, v = b.get('maggies'), b.get('ivar')
        ok = lambda a: is_arr(a) and a.ndim >= 1 and not is_sym(a.shape[-1]) and a.shape[-1] == 5
        return ok(m) and (v is None or (ok(v) and len(v.shape) == len(m.shape) and all(E.known(eq(p, q)) is True for p, q in zip(m.shape, v.shape)))) \
            and isinstance(b.get('abfix'), PList) and [const(x) for x in b['abfix'].items] == ABFIX

    def apply(self, ip, b):
        return spec_sdss_ab(b['maggies'], b['ivar'], ABFIX)


# ---- error_floor ------------------------------------------------------------------
def spec_error_floor(fl, m, v):
    rf, rm, rv = fl.reader(), m.reader(), v.reader()

    def fn(*ix):
        f_, mm, iv = rf(ix[-1]), rm(*ix), rv(*ix)
        am = T.absv(mm)
        low = And(gt(iv, 0), lt(div(1, mul(am, sqrtv(iv))), f_))
        return If(low, div(1, mul(mul(am, f_), mul(am, f_))), iv)
    return mk(m.shape, fn, 'f8')


def scen_error_floor(nd, nb, dt='f8'):
    def s(ctx):
        L = lead_dims(nd - 1)
        b = nb if nb else dim('nb', 1)
        fl, m, v = ctx.arr('floor', (b,)), ctx.arr('maggies', L + (b,), dt), ctx.arr('ivar', L + (b,), dt)
        # measurements that are floored have nonzero flux and floors are positive
        E.fact((b,), lambda k: gt(fl.read((k,)), 0))
        E.fact(m.shape, lambda *ix: Not(eq(m.read(ix), 0)))
        want = spec_error_floor(fl, m, v)
        got = ctx.call('utils.error_floor', fl, m, v)
        if ctx.refine('post', got, ('ok', want)):
            for ix, h in ctx.index(m.shape):
                g = got[1].read(ix)
                ctx.goal('only lowered', le(g, v.read(ix)), h)
                ctx.goal('zero and negative kept', Implies(le(v.read(ix), 0), eq(g, v.read(ix))), h)
        ctx.unchanged()
    return s


def scen_error_floor_reject(ctx):
    n, k = dim('n'), dim('k')
    E.assume(Not(eq(n, k)))
    reject(ctx, 'floor length', 'utils.error_floor', ctx.arr('f', (k,)), ctx.arr('m', (n,)), ctx.arr('v', (n,)))
    reject(ctx, 'ivar shape', 'utils.error_floor', ctx.arr('f2', (n,)), ctx.arr('m2', (n,)), ctx.arr('v2', (k,)))
    p = dim('p')
    E.assume(Not(eq(p, k)))
    reject(ctx, 'rows', 'utils.error_floor', ctx.arr('f3', (n,)), ctx.arr('m3', (p, n)), ctx.arr('v3', (k, n)))


# ---- asinh -----------------------------------------------------------------------------
def spec_asinh(mag, err, ext):
    rm = mag.reader()
    re = err.reader() if err is not None else None
    rx = ext.reader() if ext is not None else (lambda *ix: F(0))

    def arg(b, m):
        return sub(neg(logv('ln', b)), mul(mul(F(4, 10), LN10), m))

    def val(*ix):
        return table([mul(mul(2, b), mul(T.fun1('sinh', arg(b, rm(*ix))), T.pow10(mul(F(4, 10), rx(*ix))))) for b in B0], ix[-1])

    def iv(*ix):
        out = []
        for b in B0:
            d = mul(mul(mul(F(8, 10), LN10), b), mul(mul(T.fun1('cosh', arg(b, rm(*ix))), T.pow10(mul(F(4, 10), rx(*ix)))), re(*ix)))
            out.append(div(1, mul(d, d)))
        return table(out, ix[-1])
    v = mk(mag.shape, val, 'f4')
    if err is None:
        return v
    return (v, mk(mag.shape, iv, 'f4'))


def scen_asinh(nd, e, x):
    def s(ctx):
        L = lead_dims(nd - 1)
        m = ctx.arr('mag', L + (5,))
        er = ctx.arr('mag_err', L + (5,)) if e else None
        ex = ctx.arr('extinction', L + (5,)) if x else None
        if e:
            E.fact(m.shape, lambda *ix: gt(er.read(ix), 0))
        want = spec_asinh(m, er, ex)
        got = ctx.call('utils.sdss_asinh_to_maggies', m, er, ex)
        ctx.refine('post', got, ('ok', want))
        ctx.unchanged()
    return s


def scen_asinh_reject(ctx):
    n = dim('n')
    E.assume(Not(eq(n, 5)))
    m = ctx.arr('m', (n,))
    reject(ctx, 'band count', 'utils.sdss_asinh_to_maggies', m, ctx.arr('e', (n,)))
    m5 = ctx.arr('m5', (5,))
    reject(ctx, 'error shape', 'utils.sdss_asinh_to_maggies', m5, ctx.arr('e2', (n,)))
    reject(ctx, 'extinction shape', 'utils.sdss_asinh_to_maggies', m5, ctx.arr('e3', (5,)), ctx.arr('x3', (n,)))


class Asinh:
    def applicable(self, ip, f, b):
        m = b.get('mag')
        ok = lambda a: is_arr(a) and a.ndim >= 1 and not is_sym(a.shape[-1]) and a.shape[-1] == 5 and len(a.shape) == len(m.shape) and all(E.known(eq(p, q)) is True for p, q in zip(m.shape, a.shape))
        return is_arr(m) and ok(m) and all(b.get(k) is None or ok(b[k]) for k in ('mag_err', 'extinction'))

    def apply(self, ip, b):
        return spec_asinh(b['mag'], b['mag_err'], b['extinction'])


# ---- maggies2flambda -------------------------------------------------------------
def scen_flambda(nd, with_ivar):
    """flux per unit wavelength at the effective wavelengths of the responses, in their order"""
    from . import kc as K

    def s(ctx):
        w = K.World(ctx)
        nb = dim('nb', 1)
        names = w.names('band', nb)
        leff = lambda b: K.LEFF(strterm(K.item_name(names, b)))
        E.fact((nb,), lambda b: gt(leff(b), 0))
        shape = lead_dims(nd - 1) + (nb,)
        m = ctx.arr('maggies', shape)
        v = ctx.arr('ivar', shape) if with_ivar else None
        fac = lambda b: div(F(3631 * 299792, 10**10), mul(leff(b), leff(b)))
        rm, rv = m.reader(), v.reader() if with_ivar else None
        got = ctx.call('utils.maggies2flambda', maggies=m, ivar=v, responses=names)
        want = [mk((nb,), leff, 'f4'), mk(shape, lambda *ix: mul(rm(*ix), fac(ix[-1])), 'f8')]
        if with_ivar:
            want.append(mk(shape, lambda *ix: div(rv(*ix), mul(fac(ix[-1]), fac(ix[-1]))), 'f8'))
        if ctx.refine('post', got, ('ok', tuple(want))) and with_ivar:
            for ix, h in ctx.index(shape):
                gf, gi = got[1][1].read(ix), got[1][2].read(ix)
                ctx.goal('signal-to-noise', eq(mul(mul(gf, gf), gi), mul(mul(rm(*ix), rm(*ix)), rv(*ix))), h)
        ctx.unchanged()
    return s
