"""Contracts of the public computations on malformed input (they raise) and on lists (they are accepted)."""
from .common import *
from . import kc as K

METHODS = {     # method: (class, arguments with a row per redshift)
    'fit_coeffs': ('maggies', 'ivar'), 'reconstruct': ('coeffs',), 'reconstruct_out': ('coeffs',), 'kcorrect': ('coeffs',),
    'absmag': ('maggies', 'ivar', 'coeffs'), 'derived': ('coeffs',)}
INNER = {'fit_coeffs': (), 'reconstruct': (), 'reconstruct_out': (), 'kcorrect': (), 'absmag': (), 'derived': ()}
BAD = {True: ('rank 1', 'rank 3', 'rows', 'columns', 'missing'), False: ('rank 0', 'rank 2', 'columns', 'missing')}


def object_of(ctx, meth, cls=None):
    cls = cls or ('Fitter' if meth in ('fit_coeffs', 'reconstruct') else 'Kcorrect')
    ob = K.build(ctx, cls=cls, out='more' if cls != 'Fitter' else 'same', nb={'KcorrectSDSS': 5}.get(cls))
    ob.k.ghost['ob'] = ob
    return ob


def good(ob, a, meth):
    v = {'maggies': a.m, 'ivar': a.iv, 'coeffs': a.c}
    kw = {k: v[k] for k in METHODS[meth]}
    kw['redshift'] = a.z
    if meth != 'fit_coeffs':
        kw['band_shift'] = a.bs
    return kw


def malformed(ob, a, arg, how):
    """an argument of the wrong shape: every other size is arbitrary"""
    ctx = ob.ctx
    n = a.n
    cols = ob.nt if arg == 'coeffs' else ob.nb
    other = dim('other')
    if how == 'missing':
        return None
    if how == 'rank 0':
        return npscalar(z3.Real('bad'), 'f4')
    if how == 'rank 1':
        return ctx.arr('bad', (other,))
    if how == 'rank 2':
        return ctx.arr('bad', (dim('other2'), other))
    if how == 'rank 3':
        return ctx.arr('bad', (dim('other3'), dim('other2'), other))
    if how == 'rows':
        E.assume(Not(eq(other, n)))
        return ctx.arr('bad', (other, cols))
    E.assume(Not(eq(other, cols)))
    return ctx.arr('bad', ((n,) if a.array else ()) + (other,))


def scen_reject(meth, array, arg, how, cls=None):
    def s(ctx):
        ob = object_of(ctx, meth, cls)
        a = K.Args(ob, array, n=dim('n', 1) if how == 'missing' else None)
        kw = good(ob, a, meth)
        kw[arg] = malformed(ob, a, arg, how)
        got = ob.meth(meth, **kw)
        ctx.goal('raises', got[0] == 'exc')
        ctx.unchanged()
    return s


def scen_redshift(meth, how, rank2=False, cls=None):
    """no redshift, or a redshift of two dimensions, whatever the other arguments"""
    def s(ctx):
        ob = object_of(ctx, meth, cls)
        a = K.Args(ob, rank2)
        kw = good(ob, a, meth)
        if how == 'absent':
            kw.pop('redshift')
        elif how == 'none':
            kw['redshift'] = None
        else:
            kw['redshift'] = ctx.arr('bad', (dim('other'), a.n) if how == 'rank 2' else (dim('other'), dim('other2'), a.n))
        got = ob.meth(meth, **kw)
        ctx.goal('raises', got[0] == 'exc')
        ctx.unchanged()
    return s


def as_list(a):
    r = a.reader()
    if a.ndim == 0:
        return a.item()
    if a.ndim == 1:
        return SymList(a.shape[0], lambda i: r(i))
    return SymList(a.shape[0], lambda i: SymList(a.shape[1], lambda j: r(i, j)))


def scen_lists(meth, array):
    """lists of numbers give what the arrays of those numbers give"""
    def s(ctx):
        ob = object_of(ctx, meth)
        a = K.Args(ob, array, n=dim('n', 1))      # a list of no rows has no second dimension
        kw = good(ob, a, meth)
        lst = {k: as_list(v) if is_arr(v) else v for k, v in kw.items()}
        got = ob.meth(meth, **lst)
        if meth == 'fit_coeffs':
            want = ctx.outcome(lambda: K.spec_fit(ob, a), tag=False)
        elif meth in ('reconstruct', 'reconstruct_out'):
            want = ctx.outcome(lambda: K.spec_reconstruct(ob, ob.names if meth == 'reconstruct' else ob.outnames, a.z, a.c, a.bs), tag=False)
        elif meth == 'kcorrect':
            want = ctx.outcome(lambda: K.spec_kcorrect(ob, a.z, a.c, a.bs), tag=False)
        elif meth == 'absmag':
            want = ctx.outcome(lambda: K.spec_absmag(ob, a.z, a.m, a.iv, a.c, a.bs, None, 0, 0, 0), tag=False)
        else:
            want = ctx.outcome(lambda: K.spec_derived(ob, a.z, a.c, a.bs, None), tag=False)
        ctx.refine('post', got, want)
    return s


def scen_rows(meth, cls=None, dist=False, mc=False):
    """row i of an array call is the scalar call on object i; the shapes carry the leading axis"""
    def s(ctx):
        ob = object_of(ctx, meth, cls)
        n = dim('n', 1)
        a = K.Args(ob, True, n=n)
        kw = good(ob, a, meth)
        if dist:
            kw['distance'] = a.dist(ctx)[0]
        if meth == 'absmag':
            kw.update(reconstruct=True, limit=True, kcorrect=True)
        i = z3.Int('object')
        E.assume(And(i >= 0, lt(i, n)))

        def row(v):
            if not is_arr(v) or v.ndim == 0:
                return v
            r = v.reader()
            if v.ndim == 1:
                return npscalar(r(i), v.dtype)
            return mk(v.shape[1:], lambda *ix: r(i, *ix), v.dtype)
        many = ob.meth(meth, **kw)
        if many[0] != 'ok':
            return
        one = ob.meth(meth, **{k: row(v) for k, v in kw.items()})
        if one[0] != 'ok':
            ctx.fail('scalar call', '%s %s' % (one[1].kind, one[1].msg))
            return

        def pair(label, p, q):
            p, q = plist_norm(p), plist_norm(q)
            if isinstance(p, PDict):
                ctx.goal(label + ' keys', isinstance(q, PDict) and set(p.d) == set(q.d))
                for k in p.d:
                    pair('%s[%s]' % (label, k), p.d[k], q.d.get(k))
            elif isinstance(p, tuple):
                ctx.goal(label + ' length', isinstance(q, tuple) and len(p) == len(q))
                for k, x in enumerate(p):
                    pair('%s[%d]' % (label, k), x, q[k])
            elif is_arr(p) and p.ndim >= 1:
                ctx.goal(label + ' leading axis', eq(p.shape[0], n))
                ctx.same(label + ' row', row(p), q)
            else:
                ctx.fail(label, 'no leading axis')
        pair('result', many[1], one[1])
        ctx.unchanged()
    return s
