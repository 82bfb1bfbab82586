"""Contracts assumed on the libraries the repository calls (numpy, scipy, astropy, os, re) and Python builtins."""
import itertools
import math as pymath
import posixpath

import numpy as realnp

from .arrays import *
from . import arrays as AR
from . import terms as T

PKGDIR = '/KCORRECT'
PKGFILE = PKGDIR + '/__init__.py'

IP = None


def opt(v, d):
    return d if v is None else v


# ---- dtypes ------------------------------------------------------------------
DT = {'float32': 'f4', 'float64': 'f8', 'float': 'f8', 'single': 'f4', 'double': 'f8', 'float16': 'f2', 'half': 'f2', 'longdouble': 'f8', 'float128': 'f8',
      'int32': 'i4', 'int64': 'i8', 'int': 'i8', 'int16': 'i2', 'int_': 'i8', 'intp': 'i8', 'uint8': 'u1', 'uint32': 'i8', 'uint64': 'i8', 'int8': 'i2',
      'bool': 'b', 'bool_': 'b', 'object': 'O', 'object_': 'O', 'str': 'U', 'str_': 'U', 'floating': 'f8', 'intc': 'i4', 'uint16': 'i4'}
ABSTRACT = {'floating': 'f', 'integer': 'i', 'number': 'n', 'generic': 'g', 'inexact': 'f', 'signedinteger': 'i'}
_dtypes = {}


def dtype_of(name):
    if name not in _dtypes:
        _dtypes[name] = Dtype(name)
    return _dtypes[name]


def to_dtype(v):
    if v is None:
        return None
    if isinstance(v, Dtype):
        if v.fields is not None:
            return v
        return v.name
    if isinstance(v, Builtin) and v.name in ('float', 'int', 'bool', 'str'):
        return DT[v.name]
    if isinstance(v, ClassVal) and v.name in ('object',):
        return 'O'
    if isinstance(v, str):
        s = v.lstrip('<>=|')
        if s in DT:
            return DT[s]
        if s in ('f2', 'f4', 'f8', 'i4', 'i8', 'i2', 'u1'):
            return s
        if s in ('f', 'd', 'i', 'l', '?'):
            return {'f': 'f4', 'd': 'f8', 'i': 'i4', 'l': 'i8', '?': 'b'}[s]
        if s[:1] in 'US':
            return 'U'
    if isinstance(v, PList):
        return np_dtype(v)
    raise Unsupported('dtype %r' % (v,))


def dtype_call(d, x=Fraction(0), *rest, **kw):
    if d.name.startswith('abstract'):
        raise PyExc('TypeError', 'abstract type')
    if d.fields is not None:
        raise Unsupported('structured dtype call')
    if rest:
        raise Unsupported('dtype call with arguments')
    return cast(x, d.name)


def cast(x, dt):
    """np.float32(x) and relatives: aliases when the dtype already matches"""
    if x is None:
        raise Unsupported('cast of None')
    if is_arr(x):
        if x.dtype == dt:
            return x if x.ndim else npscalar(x.item(), dt)
        if x.ndim == 0:
            return npscalar(castv(x.item(), dt, x.dtype), dt)
        rd = x.reader()
        check_parse(x, dt)
        return mk(x.shape, lambda *ix: cast_elem(rd(*ix), dt), dt, meta=dict(x.meta) if kind_of_dtype(dt) == 'i' == kind_of_dtype(x.dtype) else None)
    if isinstance(x, (PList, tuple, SymList, Range)):
        from .interp import plist_norm
        return as_array(plist_norm(x), dt)
    if isinstance(x, Inst) and 'array' in x.ghost:
        return cast(x.ghost['array'](), dt)
    if is_num(x) or isinstance(x, (str, SStr)):
        return npscalar(castv(x, dt), dt)
    raise PyExc('TypeError', 'cannot convert')


def castv(x, dt, src=None):
    if isinstance(x, (str, SStr)) and kind_of_dtype(dt) in 'fi':
        if kind_of_dtype(dt) == 'f':
            if not E.decide(parses_float(x)):
                raise PyExc('ValueError', 'could not convert string to float')
        elif isinstance(x, str):
            try:
                int(x)
            except ValueError:
                raise PyExc('ValueError', 'invalid literal')
        elif not E.decide(strpred('isint', x)):
            raise PyExc('ValueError', 'invalid literal for int()')
    return cast_elem(x, dt)


def check_parse(a, dt):
    if a.dtype == 'U' and kind_of_dtype(dt) == 'f':
        rd = a.reader()
        if E.decide(E.exists(a.shape, lambda *ix: Not(parses_float(rd(*ix))))):
            raise PyExc('ValueError', 'could not convert string to float')


def A(x):
    """np.asarray"""
    if is_arr(x):
        return x
    if isinstance(x, Inst) and 'array' in x.ghost:
        return x.ghost['array']()
    if isinstance(x, (PList,)):
        from .interp import plist_norm
        x = plist_norm(x)
    if x is None or isinstance(x, (Inst, PDict, ClassVal, FuncVal)):
        raise Unsupported('array of %r' % (x,))
    return as_array(x)


def type_of(x):
    if isinstance(x, Inst) and x.cls is not None:
        return x.cls
    if is_arr(x):
        if x.ndim == 0 and x.scalar:
            return dtype_of(x.dtype)
        return IP.module('numpy').env.get('ndarray') or unsupported('type')
    if is_num(x):
        return dtype_of({'f': 'f8', 'i': 'i8', 'b': 'b'}[kind(x)])
    raise Unsupported('type of %r' % (type(x).__name__,))


# ---- structured rows -----------------------------------------------------------
class Rec:
    """structured array: n rows, fields name -> Arr of shape (n,)+sub"""

    def __init__(self, n, fields, order=None, row=False, ci=False):
        self.n, self.fields, self.order, self.row, self.ci = n, fields, order or list(fields), row, ci
        self.widths = {}


def re_digits(ty):
    """width of a string type written like U200"""
    if isinstance(ty, str):
        d = ty.lstrip('<>=|')[1:]
        return int(d) if d.isdigit() else None
    return None


LONGNAME = 64      # names are taken to be no longer than this


def narrow(v, w):
    """strings stored in a column of w characters"""
    if is_sym(w) or w >= LONGNAME:
        return v
    cut = lambda x: x[:w] if isinstance(x, str) else strfn('first:%d' % w, x)
    if is_arr(v):
        rd = v.reader()
        return mk(v.shape, lambda *ix: cut(rd(*ix)), v.dtype)
    return cut(v)


def np_dtype(spec, *a, **kw):
    if isinstance(spec, PList):
        fields, widths = [], {}
        for f in spec.items:
            nm, ty = f[0], f[1]
            sub = f[2] if len(f) > 2 else ()
            t = to_dtype(ty)
            if t == 'U':
                m = re_digits(ty)
                widths[nm] = m if m is not None else (const(scal(sub)) if len(f) > 2 and not isinstance(sub, tuple) else 1)
                sub = ()
            elif not isinstance(sub, tuple):
                sub = (sub,)
            sub = tuple(const(scal(s)) for s in sub)
            fields.append((nm, t, sub))
        d = Dtype('rec', fields)
        d.widths = widths
        return d
    return dtype_of(to_dtype(spec))


# ---- elementwise ---------------------------------------------------------------
def defelem(fn, dtype=None):
    def f(x, **kw):
        return mathres(fn, x, dtype)
    return f


def mathres(fn, x, dtype=None):
    x = A(x)
    dt = dtype or (x.dtype if kind_of_dtype(x.dtype) == 'f' else 'f8')
    return ew(fn, x, dtype=dt)


def logish(name):
    def f(x):
        return T.logv(name, real(x))
    return f


def log2v(x):
    return div(T.logv('ln', real(x)), T.logv('ln', Fraction(2)))


ELEM = {
    'sqrt': lambda x: T.sqrtv(real(x)), 'log10': logish('log10'), 'log': logish('ln'), 'exp': lambda x: T.expv(x),
    'sinh': lambda x: T.fun1('sinh', real(x)), 'cosh': lambda x: T.fun1('cosh', real(x)), 'tanh': lambda x: T.fun1('tanh', real(x)),
    'sin': lambda x: T.fun1('sin', real(x)), 'cos': lambda x: T.fun1('cos', real(x)), 'arcsinh': lambda x: T.fun1('asinh', real(x)),
    'log2': log2v, 'log1p': lambda x: T.logv('ln', add(1, x)), 'expm1': lambda x: sub(T.expv(x), 1),
}


def npbin(opname):
    def f(a, b):
        return binary(IP, opname, wrapa(a), wrapa(b))
    return f


def wrapa(x):
    if isinstance(x, (PList, tuple, SymList, Range)):
        return A(x)
    if is_num(x):
        return npscalar(x, guess_dtype(x))
    return x


def npcmp(opname):
    return lambda a, b: compare(IP, opname, wrapa(a), wrapa(b))


def square(x):
    return binary(IP, 'Mult', wrapa(x), wrapa(x))


def maximum(a, b, **kw):
    return ew(T.maxv, wrapa(a), wrapa(b))


def minimum(a, b, **kw):
    return ew(T.minv, wrapa(a), wrapa(b))


def clip(a, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None):
    lo = lo if lo is not None else (a_min if a_min is not None else min)
    hi = hi if hi is not None else (a_max if a_max is not None else max)
    r = A(a)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def npabs(x):
    return ew(T.absv, A(x))


def sign(x):
    return ew(lambda v: If(gt(v, 0), 1, If(lt(v, 0), -1, 0)), A(x))


NONFINITE = z3.Function('nonfinite', R, B)


def isfinite(x):
    return ew((lambda v: Not(NONFINITE(zr(v)))) if E.nonfinite else (lambda v: True), A(x), dtype='b')


def isnan(x):
    return ew((lambda v: NONFINITE(zr(v))) if E.nonfinite else (lambda v: False), A(x), dtype='b')


def nan_to_num(x, copy=True, nan=Fraction(0), posinf=None, neginf=None):
    a = A(x)
    r = ew((lambda v: If(NONFINITE(zr(v)), real(scal(nan)), v)) if E.nonfinite else (lambda v: v), a)
    if copy is False:
        AR.setitem(a, Ellipsis, r)
        return a
    return r


def logical_and(a, b, **kw):
    return ew(lambda x, y: And(T.truth(x), T.truth(y)), A(a), A(b), dtype='b')


def logical_or(a, b, **kw):
    return ew(lambda x, y: Or(T.truth(x), T.truth(y)), A(a), A(b), dtype='b')


def logical_not(a, **kw):
    return ew(lambda x: Not(T.truth(x)), A(a), dtype='b')


# ---- creation ------------------------------------------------------------------
def shapeof(s):
    if isinstance(s, PList):
        s = tuple(s.items)
    if not isinstance(s, tuple):
        s = (s,)
    out = []
    for d in s:
        d = const(scal(d))
        if not is_num(d) or kind(d) == 'f':
            raise PyExc('TypeError', 'shape must be integers')
        d = b2i(d)
        if not is_sym(d):
            if d < 0:
                raise PyExc('ValueError', 'negative dimensions')
        elif E.decide(lt(d, 0)):
            raise PyExc('ValueError', 'negative dimensions')
        out.append(d)
    return tuple(out)


def zero_of(dt):
    k = kind_of_dtype(dt)
    return {'f': Fraction(0), 'i': 0, 'b': False, 's': '', 'o': None}[k]


def filled(shape, dt, v):
    return mk(shapeof(shape), lambda *ix: v, dt)


def zeros(shape, dtype=None, order=None):
    dt = to_dtype(dtype) or 'f8'
    if isinstance(dt, Dtype):
        n = shapeof(shape)
        if len(n) != 1:
            raise Unsupported('structured array rank')
        r = Rec(n[0], {nm: mk(n + sub_, (lambda t: lambda *ix: zero_of(t))(t), t) for nm, t, sub_ in dt.fields})
        r.widths = getattr(dt, 'widths', {})
        return r
    return filled(shape, dt, zero_of(dt))


def ones(shape, dtype=None, order=None):
    dt = to_dtype(dtype) or 'f8'
    return filled(shape, dt, cast_elem(1, dt))


def full(shape, v, dtype=None):
    v = scal(v)
    dt = to_dtype(dtype) or guess_dtype(v)
    return filled(shape, dt, cast_elem(v, dt))


_empty = [0]


def empty(shape, dtype=None, order=None):
    dt = to_dtype(dtype) or 'f8'
    shp = shapeof(shape)
    uf = z3.Function(E.freshname('uninit!'), *([I] * len(shp) + [{'f': R, 'i': I, 'b': B}.get(kind_of_dtype(dt), R)]))
    return mk(shp, lambda *ix: uf(*[z(i) for i in ix]) if ix else uf(), dt)


def like(f):
    def g(a, dtype=None, **kw):
        a = A(a)
        return f(a.shape, dtype=dtype_of(to_dtype(dtype) or a.dtype))
    return g


def full_like(a, v, dtype=None):
    a = A(a)
    return full(a.shape, v, dtype_of(to_dtype(dtype) or a.dtype))


def arange(*a, dtype=None):
    a = [const(scal(x)) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if is_sym(step):
        raise Unsupported('symbolic step')
    if any(kind(x) == 'f' for x in (start, stop, step)):
        d = div(sub(stop, start), step)
        if is_sym(const(d)):
            raise Unsupported('float arange')
        n = max(0, -((-const(d)) // 1))
        n = int(n)
        dt = to_dtype(dtype) or 'f8'
    else:
        n = rangelen(start, stop, step)
        dt = to_dtype(dtype) or 'i8'
    meta = {}
    if same_dim(start, 0) and step == 1 and kind_of_dtype(dt) == 'i':
        meta = {'inrange': n, 'inv': lambda b: (And(ge(b, 0), lt(b, n)), b)}
    return mk((n,), lambda i: cast_elem(add(start, mul(step, i)), dt), dt, meta=meta)


def rangelen(start, stop, step):
    if step == 0:
        raise PyExc('ValueError', 'step must not be zero')
    d = sub(stop, start) if step > 0 else sub(start, stop)
    s = abs(step)
    n = d if s == 1 else floordiv(add(d, s - 1), s)
    if not is_sym(const(n)):
        return max(0, const(n))
    k = E.known(ge(n, 0))
    if k is True:
        return n
    return n if E.decide(ge(n, 0)) else 0


def linspace(a, b, num=50, endpoint=True, dtype=None, retstep=False, axis=0):
    a, b, num = scal(a), scal(b), const(scal(num))
    dt = to_dtype(dtype) or 'f8'
    den = sub(num, 1) if endpoint else num
    return mk((num,), lambda i: add(a, div(mul(real(i), sub(real(b), real(a))), real(den))) if not same_dim(num, 1) else real(a), dt)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    dt = to_dtype(dtype)
    if isinstance(x, Rec):
        raise Unsupported('copy of a structured array')
    a = A(x)
    if dt is not None and dt != a.dtype:
        check_parse(a, dt)
    if is_arr(x) and copy is not True and (dt is None or dt == a.dtype):
        r = x
    else:
        r = as_array(a, dt)
        r.scalar = False
    while r.ndim < ndmin:
        r = AR.getitem(r, (None, Ellipsis))
    return r


def asarray(x, dtype=None, **kw):
    dt = to_dtype(dtype)
    if is_arr(x) and (dt is None or dt == x.dtype):
        if x.scalar:
            return mk((), lambda: x.item(), x.dtype)
        return x
    a = A(x)
    if dt is None:
        if a.scalar:
            a = mk((), a.reader(), a.dtype)
        return a
    check_parse(a, dt)
    r = as_array(a, dt)
    r.scalar = False
    return r


def atleast(n):
    def f(x):
        a = A(x)
        if n == 2 and a.ndim == 1:
            return AR.getitem(a, (None, Ellipsis))
        while a.ndim < n:
            a = AR.getitem(Arr(a.buf, a.shape, a.fwd, a.inv), (None, Ellipsis))
        return a
    return f


def broadcast_to(x, shape, **kw):
    a = A(x)
    s = shapeof(shape)
    if len(bshape([a.shape, s])) != len(s):
        raise PyExc('ValueError', 'broadcast_to')
    return mk(s, bread(a, s), a.dtype)


# ---- shape -----------------------------------------------------------------------
def ravel(a):
    a = A(a)
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return mk((1,), lambda i: a.item(), a.dtype)
    return AR.reshape(a, (-1,))


def tile(a, reps):
    a = A(a)
    if not isinstance(reps, tuple):
        reps = tuple(reps.items) if isinstance(reps, PList) else (reps,)
    reps = [const(scal(r)) for r in reps]
    shape = list(a.shape)
    while len(shape) < len(reps):
        shape.insert(0, 1)
    while len(reps) < len(shape):
        reps.insert(0, 1)
    lead = len(shape) - a.ndim
    rd = a.reader()
    out = tuple(mul(s, r) for s, r in zip(shape, reps))

    def fn(*ix):
        j = []
        for k, i in enumerate(ix):
            if k < lead:
                continue
            s, r = shape[k], reps[k]
            if not is_sym(r) and r == 1:
                j.append(i)
            elif not is_sym(s) and s == 1:
                j.append(0)
            else:
                j.append(mod(i, s))
        return rd(*j)
    return mk(out, fn, a.dtype)


def repeat(a, n, axis=None):
    a = A(a)
    n = const(scal(n)) if not isinstance(n, (PList,)) else None
    if n is None or is_arr(n):
        raise Unsupported('repeat counts')
    if axis is None:
        a = ravel(a)
        axis = 0
    axis %= a.ndim
    rd = a.reader()
    shape = tuple(mul(d, n) if k == axis else d for k, d in enumerate(a.shape))
    one = same_dim(a.shape[axis], 1)
    return mk(shape, lambda *ix: rd(*[(0 if one else floordiv(i, n)) if k == axis else i for k, i in enumerate(ix)]), a.dtype)


def outer(a, b):
    a, b = ravel(a), ravel(b)
    ra, rb = a.reader(), b.reader()
    return mk((a.shape[0], b.shape[0]), lambda i, j: mul(ra(i), rb(j)), result_dtype([a, b]))


def concatenate(xs, axis=0, **kw):
    xs = list(xs.items) if isinstance(xs, PList) else list(xs)
    xs = [A(x) for x in xs]
    if axis is None:
        xs, axis = [ravel(x) for x in xs], 0
    return AR.concat(xs, axis)


def append(a, b, axis=None):
    if axis is None:
        return AR.concat([ravel(a), ravel(b)], 0)
    return AR.concat([A(a), A(b)], axis)


def expand_dims(a, axis):
    a = A(a)
    axes = axis if isinstance(axis, tuple) else (axis,)
    n = a.ndim + len(axes)
    axes = [x % n for x in axes]
    return AR.getitem(a, tuple(None if k in axes else Slice(None, None, None) for k in range(n)))


def stack(xs, axis=0):
    xs = list(xs.items) if isinstance(xs, PList) else (list(xs) if isinstance(xs, tuple) else xs)
    if isinstance(xs, SymList):
        r = as_array(xs)
    else:
        r = AR.concat([expand_dims(A(x), 0) for x in xs], 0)
    if axis % r.ndim:
        ax = list(range(1, r.ndim))
        ax.insert(axis % r.ndim, 0)
        r = AR.transpose(r, ax)
    return r


def vstack(xs):
    xs = list(xs.items) if isinstance(xs, PList) else list(xs)
    return AR.concat([atleast(2)(x) for x in xs], 0)


def hstack(xs):
    xs = [A(x) for x in (xs.items if isinstance(xs, PList) else xs)]
    return AR.concat(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    xs = [A(x) for x in (xs.items if isinstance(xs, PList) else xs)]
    return AR.concat([AR.getitem(x, (Slice(None, None, None), None)) if x.ndim == 1 else x for x in xs], 1)


def transpose(a, axes=None):
    a = A(a)
    if isinstance(axes, PList):
        axes = tuple(axes.items)
    return AR.transpose(a, axes)


def take(a, idx, axis=None):
    a = A(a)
    if axis is None:
        a, axis = A(ravel(a)), 0
    idx = idx if is_num(idx) or is_arr(idx) else A(idx)
    return (AR.getitem(a, (Slice(None, None, None),) * (axis % a.ndim) + (idx,)))


def compress(c, a, axis=None):
    c = A(c)
    if c.dtype != 'b':
        raise Unsupported('compress')
    return take(a, AR.nonzero(c)[0], axis)


def swapaxes(a, i, j):
    a = A(a)
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return AR.transpose(a, ax)


def moveaxis(a, s, d):
    a = A(a)
    ax = [k for k in range(a.ndim) if k != s % a.ndim]
    ax.insert(d % a.ndim, s % a.ndim)
    return AR.transpose(a, ax)


def reshape(a, *shape, **kw):
    a = A(a)
    if 'newshape' in kw:
        shape = (kw['newshape'],)
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
        shape = tuple(shape[0].items) if isinstance(shape[0], PList) else shape[0]
    if kw.get('order') not in (None, 'C'):
        raise Unsupported('reshape order')
    return AR.reshape(a, shape)


def flip(a, axis=None):
    a = A(a)
    return AR.getitem(a, tuple(Slice(None, None, -1) if axis is None or k == axis % a.ndim else Slice(None, None, None) for k in range(a.ndim)))


def squeeze(a, axis=None):
    a = A(a)
    r = AR.squeeze(a, axis)
    return r


# ---- reductions -------------------------------------------------------------------
def axis_red(a, axis, fn, dt):
    """fn(dims, elem) over the reduced axes"""
    a = A(a)
    rd = a.reader()
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    rest = [k for k in range(a.ndim) if k not in axes]
    dims = [a.shape[k] for k in axes]

    def at(*idx):
        def elem(*j):
            full_ = [None] * a.ndim
            for k, v in zip(rest, idx):
                full_[k] = v
            for k, v in zip(axes, j):
                full_[k] = v
            return rd(*full_)
        return fn(dims, elem)
    shape = tuple(a.shape[k] for k in rest)
    if not shape:
        return npscalar(at(), dt)
    return mk(shape, at, dt)


def np_any(a, axis=None, **kw):
    return axis_red(a, axis, lambda d, e: E.exists(d, lambda *j: T.truth(e(*j))), 'b')


def np_all(a, axis=None, **kw):
    return axis_red(a, axis, lambda d, e: E.forall(d, lambda *j: T.truth(e(*j))), 'b')


def np_sum(a, axis=None, dtype=None, keepdims=False, out=None, **kw):
    if isinstance(a, (PList, SymList)):
        a = A(a)
    r = AR.reduce_sum(a, axis)
    if keepdims:
        ax = list(range(A(a).ndim)) if axis is None else (list(axis) if isinstance(axis, tuple) else [axis])
        r = expand_dims(r, tuple(x % A(a).ndim for x in ax))
    return r


def np_mean(a, axis=None, **kw):
    a = A(a)
    n = 1
    for k, d in enumerate(a.shape):
        if axis is None or k == axis % a.ndim:
            n = mul(n, d)
    return ew(lambda x: div(x, real(n)), np_sum(a, axis))


def extreme(sgn):
    def f(a, axis=None, **kw):
        a = A(a)
        for d in a.shape:
            if E.decide(le(d, 0)):
                raise PyExc('ValueError', 'zero-size array')
        st = a.meta.get('seltuple')
        if a.ndim == 1 and st is not None and st[0].m == 1:
            # the positions of a selection increase
            return npscalar(a.read((sub(a.shape[0], 1) if sgn > 0 else 0,)), a.dtype)

        def fn(dims, elem):
            if all(not is_sym(d) for d in dims) and pymath.prod(dims) <= 12:
                r = None
                for ix in itertools.product(*[range(d) for d in dims]):
                    v = elem(*ix)
                    r = v if r is None else (T.maxv(r, v) if sgn > 0 else T.minv(r, v))
                return r
            e, args = E.opaque('maxel', dims, lambda *j: [zr(mul(sgn, elem(*j)))],
                               [('', [], R)] + [('w%d' % k, [], I) for k in range(len(dims))], arity=len(dims))
            r = mul(sgn, E.app(e, '', args))
            return T.trunc(r) if kind_of_dtype(a.dtype) == 'i' else r
        return axis_red(a, axis, fn, a.dtype)
    return f


def argextreme(sgn):
    def f(a, axis=None):
        a = A(a)
        if a.ndim != 1:
            raise Unsupported('argmax rank')
        rd = a.reader()
        if a.dtype == 'b' and sgn > 0:
            # first true element, or 0
            s = make_sel(a)
            return npscalar(If(gt(s.cnt, 0), s.pos(0)[0], 0), 'i8')
        if kind_of_dtype(a.dtype) not in 'if':
            raise Unsupported('argmax')
        m = extreme(sgn)(a)
        m = m.item() if is_arr(m) else m
        # the first element equal to the extreme
        return npscalar(make_sel(mk(a.shape, lambda i: eq(rd(i), m), 'b')).pos(0)[0], 'i8')
    return f


def np_prod(a, axis=None, **kw):
    a = A(a)
    if axis is None and a.ndim == 1 and not is_sym(a.shape[0]):
        r = Fraction(1)
        for k in range(a.shape[0]):
            r = mul(r, a.read((k,)))
        return npscalar(r, a.dtype)
    raise Unsupported('prod')


def count_nonzero(a, axis=None, **kw):
    a = A(a)
    return np_sum(ew(lambda v: T.b2i(T.truth(v)), a, dtype='i8'), axis)


def where(c, *ab):
    if not ab:
        return AR.nonzero(A(c))
    a, b = ab
    dt = result_dtype([x for x in (wrapa(a), wrapa(b))])
    sc = [x for x in ab if is_num(x)]
    if sc and any(is_arr(x) for x in ab):
        dt = result_dtype(list(ab))
    return ew(lambda q, x, y: If(T.truth(q), x, y), A(c), wrapa(a), wrapa(b), dtype=dt)


def flatnonzero(a):
    return AR.nonzero(ravel(a))[0]


def argwhere(a):
    a = A(a)
    ix = AR.nonzero(a)
    rds = [x.reader() for x in ix]
    return mk((ix[0].shape[0], len(ix)), lambda i, j: AR.pick([r(i) for r in rds], j), 'i8')


def np_dot(a, b, out=None):
    return AR.dot(operand(a), operand(b))


def operand(x):
    """None is no operand of a product"""
    if x is None:
        raise PyExc('TypeError', 'unsupported operand type(s): NoneType')
    return A(x)


def matmul(a, b):
    operand(a), operand(b)
    a, b = A(a), A(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return AR.dot(a, b)
    ra, rb = a.reader(), b.reader()
    if b.ndim == 1:
        return AR.dot(a, b)
    if not dims_equal(a.shape[-1], b.shape[-2]):
        raise PyExc('ValueError', 'matmul')
    la, lb = a.shape[:-2], b.shape[:-2]
    lead = bshape([la, lb])
    k = a.shape[-1]
    na, nb, nl = len(la), len(lb), len(lead)

    def fn(*ix):
        l, i, j = ix[:nl], ix[nl], ix[nl + 1]
        xa = [0 if same_dim(d, 1) else l[nl - na + t] for t, d in enumerate(la)]
        xb = [0 if same_dim(d, 1) else l[nl - nb + t] for t, d in enumerate(lb)]
        return E.sum(k, lambda q: mul(ra(*xa, i, q), rb(*xb, q, j)))
    return mk(lead + (a.shape[-2], b.shape[-1]), fn, result_dtype([a, b]))


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    for o in ops:
        operand(o)
    return AR.einsum(spec, *ops)


def cumsum(*a, **k):
    raise Unsupported('cumsum')


def diff(a, n=1, axis=-1):
    a = A(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    rd = a.reader()
    return mk((sub(a.shape[0], 1),), lambda i: sub(rd(add(i, 1)), rd(i)), a.dtype)


# ---- sorting -----------------------------------------------------------------------
def sortentry(a):
    rd = a.reader()
    return E.opaque('sort', [a.shape[0]], lambda k: [zr(rd(k))], [('p', [I], I), ('r', [I], I)])


def argsort(a, axis=-1, kind=None, **kw):
    a = A(a)
    if a.ndim != 1:
        raise Unsupported('argsort rank')
    e, args = sortentry(a)
    n = a.shape[0]
    return mk((n,), lambda k: E.app(e, 'p', args, [k]), 'i8',
              meta={'inrange': n, 'inv': lambda b: (And(ge(b, 0), lt(b, n)), E.app(e, 'r', args, [b]))})


def np_sort(a, axis=-1, **kw):
    a = A(a)
    rd = a.reader()
    if a.buf.label == 'uniq':
        return as_array(a)
    ix = argsort(a)
    ri = ix.reader()
    return mk(a.shape, lambda k: rd(ri(k)), a.dtype)


def unique(a, **kw):
    if any(v for k, v in kw.items()):
        raise Unsupported('unique options')
    a = ravel(A(a))
    rd = a.reader()
    if a.buf.label == 'uniq':
        return as_array(a)
    e, args = E.opaque('uniq', [a.shape[0]], lambda k: [zr(rd(k))],
                       [('c', [], I), ('v', [I], R), ('w', [I], I), ('q', [I], I)])
    return mk((E.app(e, 'c', args),), lambda k: E.app(e, 'v', args, [k]), a.dtype, label='uniq')


def union1d(a, b):
    return unique(AR.concat([ravel(a), ravel(b)], 0))


def increases(a, rel):
    """proved on this path: consecutive (any two) entries are in increasing order"""
    rd, n = a.reader(), const(a.shape[0])
    if is_sym(n):
        i, j = E.fresh('sk!s'), E.fresh('sk!s')
        return E.prove(rel(rd(i), rd(j)), E.pcs() + [z(ge(i, 0)), z(lt(i, j)), z(lt(j, n))], ms=3000)[0] == 'proved'
    return E.prove(And(*[rel(rd(k), rd(k + 1)) for k in range(n - 1)]), E.pcs(), ms=3000)[0] == 'proved'


def searchsorted(a, v, side='left', sorter=None):
    a = A(a)
    rd = a.reader()
    n = a.shape[0]
    op = lt if side == 'left' else le

    # increasing? then the position is where the comparison turns false; otherwise the bisection's answer is not modelled
    if not increases(a, le):
        raise Unsupported('searchsorted in an array not known to increase')

    def one(x):
        if is_sym(const(n)):
            e, args = E.opaque('ss', [n], lambda k: [z(T.truth(op(rd(k), x)))], [('', [], I)])
            return E.app(e, '', args)
        return E.sum(n, lambda k: real(b2i(z(T.truth(op(rd(k), x))))))
    if is_arr(v) and v.ndim:
        rv = v.reader()
        return mk(v.shape, lambda *ix: T.trunc(one(rv(*ix))), 'i8')
    return npscalar(T.trunc(one(scal(v))), 'i8')


# ---- scipy --------------------------------------------------------------------------
def trapezoid(y, x=None, dx=1, axis=-1):
    return AR.trapezoid(A(y), None if x is None else A(x), dx, axis)


class Itp:
    pass


def interp1d(x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
    x, y = A(x), A(y)
    if x.ndim != 1 or y.ndim == 0:
        raise PyExc('ValueError', 'interp1d operands')
    ax = axis % y.ndim
    if not dims_equal(x.shape[0], y.shape[ax]):
        raise PyExc('ValueError', 'x and y arrays must be equal in length')
    if is_arr(kind):
        raise Unsupported('interp1d kind')
    o = Inst(None)
    rx, ry = x.reader(), y.reader()
    n = x.shape[0]
    o.ghost['itp'] = dict(x=mk(x.shape, rx, x.dtype), y=mk(y.shape, ry, y.dtype), axis=ax, kind=kind, bounds_error=bounds_error, fill=fill_value)
    o.ghost['call'] = lambda q: itp_call(o, q)
    rest = tuple(d for k, d in enumerate(y.shape) if k != ax)
    if fill_value == 'extrapolate':
        raise Unsupported('extrapolation')
    err = bounds_error
    if err is None:
        err = fill_value is None
    fv = Fraction(0) if fill_value is None else fill_value
    if is_arr(fv):
        fv = fv.item()
    if isinstance(fv, (tuple, PList)):
        raise Unsupported('fill pair')
    o.ghost['err'], o.ghost['fv'] = err, fv
    o.attrs['x'], o.attrs['y'] = x, y
    return o


def merge_itp(c, a, b):
    """If-merge of two interpolators (immutable objects) that differ in their tables only"""
    from .interp import merge2
    da, db = a.ghost['itp'], b.ghost['itp']
    if any(da[k] != db[k] for k in ('axis', 'kind')) or a.ghost['err'] != b.ghost['err'] or not same_dim(a.ghost['fv'], b.ghost['fv']) or \
            bool(a.ghost.get('increasing')) != bool(b.ghost.get('increasing')) or a.attrs.keys() != {'x', 'y'} or b.attrs.keys() != {'x', 'y'}:
        return None
    r = interp1d(merge2(c, da['x'], db['x']), merge2(c, da['y'], db['y']), da['kind'], da['axis'], True, a.ghost['err'], a.ghost['fv'])
    if a.ghost.get('increasing'):
        r.ghost['increasing'] = True
    return r


def np_interp(x, xp, fp, left=None, right=None):
    """numpy.interp: linear, the end values (or left, right) outside; in tables shown to increase"""
    xp, fp = A(xp), A(fp)
    if not increases(xp, lt):
        raise Unsupported('interp in a table not known to increase')
    o = interp1d(xp, fp, bounds_error=False, fill_value=Fraction(0))
    q = A(x)
    n = xp.shape[0]
    left = fp.read((0,)) if left is None else scal(left)
    right = fp.read((sub(n, 1),)) if right is None else scal(right)
    lo, hi = itp_range(o)
    rq = q.reader()

    def fn(*ix):
        v = rq(*ix)
        if const(left) == 0 and const(right) == 0:
            return itp_value(o, v, (), lambda t: If(Or(lt(v, lo), gt(v, hi)), Fraction(0), t))
        return If(lt(v, lo), real(left), If(gt(v, hi), real(right), itp_value(o, v, ())))
    return mk(q.shape, fn, 'f8') if q.ndim else npscalar(fn(), 'f8')


def itp_value(o, q, rest, wrap=lambda v: v):
    d = o.ghost['itp']
    rx, ry, ax, n = d['x'].reader(), d['y'].reader(), d['axis'], d['x'].shape[0]

    def col(k):
        ix = list(rest)
        ix.insert(ax, k)
        return ry(*ix)
    ex = str(d['kind']) + ('+' if o.ghost.get('increasing') else '')

    def one(body):
        e, args = E.opaque('itp', [n], lambda k: [zr(rx(k)), zr(body(k))], [('', [R], R)], extra=ex)
        return wrap(E.app(e, '', args, [zr(q)]))
    if d['kind'] not in ('linear', 'cubic'):
        return one(col)
    # splines are linear in the tabulated values and exact for constants
    j = E.fresh('ix!s')
    t = col(j)
    if T._is_ite(t):
        return one(col)
    total = Fraction(0)
    for atom, c in linform(real(t)).items():
        if c == 0:
            continue
        if atom is None:
            total = add(total, mul(c, wrap(Fraction(1))))
            continue
        cc, m = mulform(atom)
        inside, outside = {}, {}
        for a_, e_ in m.items():
            (inside if any(x.eq(j) for x in T.free_consts([a_])) else outside)[a_] = e_
        k = mul(c * cc, T.frommul(Fraction(1), outside))
        if not inside:
            total = add(total, mul(k, wrap(Fraction(1))))
            continue
        b = T.frommul(Fraction(1), inside)
        total = add(total, mul(k, one(lambda i: subst(b, [(j, i)]))))
    return total


def itp_range(o):
    """smallest and largest abscissa"""
    d = o.ghost['itp']
    if 'lo' not in o.ghost:
        x = d['x']
        if o.ghost.get('increasing'):
            o.ghost['lo'], o.ghost['hi'] = x.read((0,)), x.read((sub(x.shape[0], 1),))
        else:
            o.ghost['lo'], o.ghost['hi'] = extreme(-1)(x).item(), extreme(1)(x).item()
    return o.ghost['lo'], o.ghost['hi']


def itp_call(o, q):
    d = o.ghost['itp']
    q = A(q)
    rest = tuple(s for k, s in enumerate(d['y'].shape) if k != d['axis'])
    rq = q.reader()
    lo, hi = itp_range(o)
    outside = lambda *ix: Or(lt(rq(*ix), lo), gt(rq(*ix), hi))
    ax = d['axis']
    nq = q.ndim
    if o.ghost['err']:
        if E.decide(E.exists(q.shape, outside) if nq else outside()):
            raise PyExc('ValueError', 'a value in x_new is out of the interpolation range')

    def fn(*ix):
        qi = ix[ax:ax + nq]
        r = ix[:ax] + ix[ax + nq:]
        if o.ghost['err']:
            return itp_value(o, rq(*qi), r)
        if o.ghost['fv'] == 0:
            return itp_value(o, rq(*qi), r, lambda v: If(outside(*qi), Fraction(0), v))
        v = itp_value(o, rq(*qi), r)
        return If(outside(*qi), real(o.ghost['fv']), v)
    shape = rest[:ax] + q.shape + rest[ax:]
    if not shape:
        return mk((), fn, 'f8')
    return mk(shape, fn, 'f8')


def nnls_entry(A_, b_):
    ra, rb = A_.reader(), b_.reader()
    return E.opaque('nnls', [A_.shape[0], A_.shape[1]], lambda i, k: [zr(ra(i, k)), zr(rb(i))],
                    [('x', [I], R), ('r', [], R), ('fail', [], B), ('fail2', [], B)], arity=2)


def nnls(A_, b, maxiter=None, *, atol=None):
    A_, b = A(A_), A(b)
    if A_.ndim != 2 or b.ndim != 1:
        raise PyExc('ValueError', 'nnls operands')
    if not dims_equal(A_.shape[0], b.shape[0]):
        raise PyExc('ValueError', 'nnls operands')
    if A_.dtype == 'f4' or b.dtype == 'f4':
        E.notes.append('nnls in single precision')
    e, args = nnls_entry(A_, b)
    big = False
    if maxiter is not None:
        mi = const(scal(maxiter))
        if E.known(gt(mi, mul(3, A_.shape[1]))) is True:
            big = True
        elif E.known(eq(mi, mul(3, A_.shape[1]))) is not True and not same_dim(mi, -1):
            raise Unsupported('nnls iteration limit')
    f = E.app(e, 'fail2' if big else 'fail', args)
    if E.decide(f):
        raise PyExc('RuntimeError', 'Maximum number of iterations reached.')
    return (mk((A_.shape[1],), lambda k: E.app(e, 'x', args, [k]), 'f8'), npscalar(E.app(e, 'r', args), 'f8'))


def brentq(f, a, b, args=(), **kw):
    a, b = scal(a), scal(b)
    fa = lambda x: scal(IP.call(f, (npscalar(x, 'f8'),)))
    t = E.fresh('ix!br', R)
    # the root found is a function of the integrand and the bracket
    e, ar = E.opaque('root', [], lambda k: [zr(real(subst(fa(t), [(t, z3.ToReal(k))])))], [('', [R, R], R)])
    va, vb = fa(a), fa(b)
    va, vb = real(va), real(vb)
    if E.decide(Or(And(gt(va, 0), gt(vb, 0)), And(lt(va, 0), lt(vb, 0)))):
        raise PyExc('ValueError', 'f(a) and f(b) must have different signs')
    r = E.app(e, '', ar, [zr(a), zr(b)])
    # the function is taken to be continuous on the bracket: a zero, up to the tolerance of the solver
    E.assume(And(Implies(le(a, b), And(ge(r, a), le(r, b))), Implies(le(b, a), And(ge(r, b), le(r, a)))))
    E.assume(eq(fa(r), 0))
    return npscalar(r, 'f8')


_norm = {}


def normal(loc=0, scale=1, size=None):
    IP.externals.add('numpy.random.normal')
    cid = IP.rng_next()
    lv = IP.rng_loopvars()
    if size is None:
        shp = AR.bshape([A(v).shape for v in (loc, scale)])
    else:
        shp = shapeof(size)
    f = z3.Function('norm!%d' % cid, *([I] * (len(lv) + len(shp)) + [R]))
    loc, scale = wrapa(loc), wrapa(scale)
    lo, sc = [scal(v) if is_num(v) or is_arr(v) and v.ndim == 0 else None for v in (loc, scale)]

    def fn(*ix):
        t = f(*(list(lv) + [z(i) for i in ix])) if lv or ix else f()
        return t
    r = mk(shp, fn, 'f8') if shp else npscalar(fn(), 'f8')
    if sc is None or not same_dim(const(sc), 1):
        r = binary(IP, 'Mult', r, scale)
    if lo is None or not same_dim(const(lo), 0):
        r = binary(IP, 'Add', r, loc)
    return r


# ---- attribute tables ----------------------------------------------------------------
def shape_tuple(a):
    if isinstance(a, Rec):
        return (a.n,)
    return A(a).shape


def np_size(a, axis=None):
    a = A(a)
    return size_of(a.shape) if axis is None else a.shape[axis]


def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **kw):
    return ew(lambda x, y: T.le(T.absv(sub(real(x), real(y))), add(atol, mul(rtol, T.absv(real(y))))), wrapa(a), wrapa(b), dtype='b')


def array_equal(a, b, **kw):
    a, b = A(a), A(b)
    if a.ndim != b.ndim or not all(dims_equal(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    ra, rb = a.reader(), b.reader()
    return E.forall(a.shape, lambda *ix: eq(ra(*ix), rb(*ix)))


class ErrState:
    pass


def nullctx(*a, **k):
    return ErrState()


def noop(*a, **k):
    return None


NUMPY = {
    'zeros': zeros, 'ones': ones, 'full': full, 'empty': empty, 'zeros_like': like(zeros), 'ones_like': like(ones), 'empty_like': like(empty),
    'full_like': full_like, 'arange': arange, 'linspace': linspace, 'array': array, 'asarray': asarray, 'ascontiguousarray': asarray, 'asanyarray': asarray,
    'atleast_1d': atleast(1), 'atleast_2d': atleast(2), 'broadcast_to': broadcast_to, 'ravel': ravel, 'tile': tile, 'repeat': repeat, 'outer': outer,
    'concatenate': concatenate, 'append': append, 'expand_dims': expand_dims, 'stack': stack, 'vstack': vstack, 'hstack': hstack, 'column_stack': column_stack,
    'transpose': transpose, 'swapaxes': swapaxes, 'moveaxis': moveaxis, 'reshape': reshape, 'flip': flip, 'squeeze': squeeze,
    'any': np_any, 'all': np_all, 'sum': np_sum, 'mean': np_mean, 'max': extreme(1), 'min': extreme(-1), 'amax': extreme(1), 'amin': extreme(-1),
    'argmax': argextreme(1), 'argmin': argextreme(-1), 'prod': np_prod, 'count_nonzero': count_nonzero, 'where': where, 'nonzero': lambda a: AR.nonzero(A(a)),
    'flatnonzero': flatnonzero, 'dot': np_dot, 'matmul': matmul, 'einsum': einsum, 'diff': diff, 'argsort': argsort, 'sort': np_sort, 'unique': unique,
    'union1d': union1d, 'searchsorted': searchsorted, 'take': take, 'compress': compress, 'interp': np_interp, 'trapezoid': trapezoid, 'abs': npabs, 'absolute': npabs, 'fabs': npabs, 'sign': sign,
    'isfinite': isfinite, 'isnan': isnan, 'isinf': isnan, 'nan_to_num': nan_to_num, 'logical_and': logical_and, 'logical_or': logical_or,
    'logical_not': logical_not, 'maximum': maximum, 'minimum': minimum, 'fmax': maximum, 'fmin': minimum, 'clip': clip, 'square': square,
    'add': npbin('Add'), 'subtract': npbin('Sub'), 'multiply': npbin('Mult'), 'divide': npbin('Div'), 'true_divide': npbin('Div'), 'power': npbin('Pow'),
    'float_power': npbin('Pow'), 'floor_divide': npbin('FloorDiv'), 'mod': npbin('Mod'), 'remainder': npbin('Mod'),
    'greater': npcmp('Gt'), 'greater_equal': npcmp('GtE'), 'less': npcmp('Lt'), 'less_equal': npcmp('LtE'), 'equal': npcmp('Eq'), 'not_equal': npcmp('NotEq'),
    'negative': lambda x: unary(IP, 'USub', wrapa(x)), 'reciprocal': lambda x: binary(IP, 'Div', Fraction(1), wrapa(x)),
    'shape': shape_tuple, 'ndim': lambda a: A(a).ndim, 'size': np_size, 'copy': lambda a, **k: array(a), 'isclose': isclose,
    'allclose': lambda a, b, **k: np_all(isclose(a, b, **k)), 'array_equal': array_equal, 'dtype': np_dtype, 'errstate': nullctx, 'seterr': noop,
    'isscalar': lambda x: is_num(x) or isinstance(x, (str, SStr)) or (is_arr(x) and x.scalar), 'log2': defelem(log2v),
    'invert': lambda x: unary(IP, 'Invert', x), 'bitwise_and': npbin('BitAnd'), 'bitwise_or': npbin('BitOr'),
    'floor': lambda x: mathres(lambda v: T.floor(v, True), x), 'argwhere': argwhere, 'cumsum': cumsum,
    'issubdtype': lambda a, b: issubdtype(a, b), 'iterable': lambda x: not is_num(x) and not (is_arr(x) and x.ndim == 0),
}
for _k, _f in ELEM.items():
    NUMPY[_k] = defelem(_f)

IGNORED_KW = {'order', 'kind', 'optimize', 'subok', 'equal_nan', 'casting', 'like', 'dtype', 'copy', 'stacklevel', 'rtol', 'atol', 'sorter', 'retstep'}
DROPPED_KW = {'out', 'where', 'initial', 'keepdims', 'ddof', 'weights', 'axes', 'return_index', 'return_counts', 'return_inverse', 'nan', 'posinf', 'neginf'}


UFUNCS = set(ELEM) | {'abs', 'absolute', 'fabs', 'sign', 'isfinite', 'isnan', 'isinf', 'logical_and', 'logical_or', 'logical_not', 'maximum', 'minimum', 'fmax',
                      'fmin', 'square', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'float_power', 'floor_divide', 'mod', 'remainder',
                      'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'negative', 'reciprocal', 'invert', 'bitwise_and',
                      'bitwise_or', 'floor'}


def masked(r, w, out):
    """ufunc where=: elements outside the mask keep what out holds (arbitrary without out)"""
    if w is True:
        return r
    w = A(w)
    r = A(r)
    shp = AR.bshape([r.shape, w.shape] + ([out.shape] if out is not None else []))
    old = out if out is not None else empty(shp, r.dtype)
    return ew(lambda c, x, y: If(T.truth(c), x, y), w, broadcast_to(r, shp), old, dtype=old.dtype)


def npwrap(name, fn):
    """out= stores the result; a keyword a model does not know is refused rather than ignored"""
    import inspect
    try:
        ps = inspect.signature(fn).parameters.values()
        named = {p.name for p in ps if p.kind != p.VAR_KEYWORD}
        var = any(p.kind == p.VAR_KEYWORD for p in ps)
        nin = sum(p.kind == p.POSITIONAL_OR_KEYWORD and p.default is p.empty for p in ps)
    except (TypeError, ValueError):
        return fn
    if not var and 'out' in named:
        return fn

    def f(*a, **kw):
        out = kw.pop('out', None) if 'out' not in named else None
        if isinstance(out, tuple):
            out = out[0]
        w = kw.pop('where', True) if name in UFUNCS else True
        for k in kw:
            if k not in named and kw[k] is not None and (k in DROPPED_KW or k not in IGNORED_KW) and name not in ('errstate', 'seterr'):
                raise Unsupported('keyword %s of np.%s' % (k, name))
        if name in UFUNCS and len(a) == nin + 1 and out is None:
            a, out = a[:-1], a[-1]
        r = fn(*a, **(kw if var else {k: v for k, v in kw.items() if k in named}))
        r = masked(r, w, out)
        if out is not None:
            AR.setitem(out, Ellipsis, r)
            return out
        return r
    return f


for _k in list(NUMPY):
    if _k != 'dtype':
        NUMPY[_k] = npwrap(_k, NUMPY[_k])


def issubdtype(a, b):
    a = to_dtype(a)
    if isinstance(b, Dtype) and b.name.startswith('abstract:'):
        k = b.name.split(':')[1]
        ka = kind_of_dtype(a)
        return k == 'g' or k == ka or (k == 'n' and ka in 'fi')
    return a == to_dtype(b)


def isabs_(p):
    if isinstance(p, str):
        return posixpath.isabs(p)
    parts = str_parts(p)
    if isinstance(parts[0], str):
        return parts[0].startswith('/')
    return strpred('isabs', p)


def path_join(*ps):
    out = ps[0]
    for p in ps[1:]:
        if E.decide(isabs_(p)):
            out = p
        elif isinstance(out, str) and (out == '' or out.endswith('/')):
            out = str_cat(out, p)
        else:
            out = str_cat(out, '/', p)
    return out


def path_abspath(p):
    if E.decide(isabs_(p)):
        return p
    return str_cat('/CWD/', p)


def path_dirname(p):
    if isinstance(p, str):
        return posixpath.dirname(p)
    parts = str_parts(p)
    if isinstance(parts[-1], str) and '/' in parts[-1]:
        return str_cat(*(parts[:-1] + [parts[-1].rsplit('/', 1)[0]]))
    return strfn('dirname', p)


def path_basename(p):
    if isinstance(p, str):
        return posixpath.basename(p)
    return strfn('basename', p)


def path_splitext(p):
    if isinstance(p, str):
        return posixpath.splitext(p)
    return (strfn('root', p), strfn('ext', p))


def fs_pred(name):
    return lambda p: IP.fs(name, p)


OSPATH = {'join': path_join, 'isabs': isabs_, 'abspath': path_abspath, 'dirname': path_dirname, 'basename': path_basename, 'splitext': path_splitext,
          'exists': fs_pred('exists'), 'isfile': fs_pred('isfile'), 'isdir': fs_pred('isdir'), 'normpath': lambda p: p, 'expanduser': lambda p: p,
          'realpath': path_abspath}


def endswith(s, suf):
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if isinstance(suf, tuple):
        return Or(*[endswith(s, x) for x in suf])
    parts = str_parts(s)
    if isinstance(parts[-1], str) and isinstance(suf, str):
        if len(parts[-1]) >= len(suf):
            return parts[-1].endswith(suf)
        if not suf.endswith(parts[-1]):
            return False
        return endswith(str_cat(*parts[:-1]), suf[:-len(parts[-1])])
    return strpred('endswith:' + suf, s)


def stem(s, suf):
    parts = str_parts(s)
    if isinstance(parts[-1], str) and len(parts[-1]) >= len(suf):
        return str_cat(*(parts[:-1] + [parts[-1][:-len(suf)]]))
    return strfn('stem:' + suf, s)


def re_match(pat, s, *a):
    if not isinstance(pat, str):
        raise Unsupported('regex')
    if isinstance(s, str):
        import re
        m = re.match(pat, s)
        if m is None:
            return None
        o = Inst(None)
        o.attrs['group'] = Builtin('group', lambda *g: m.group(*g) if g else m.group())
        o.attrs['groups'] = Builtin('groups', lambda: m.groups())
        return o
    import re
    m = re.fullmatch(r'\^?\((\.\*|\.\+)\)((?:\\\.|\w)+)\$', pat)
    if not m or '\\.' not in m.group(2):
        raise Unsupported('regex %s' % pat)
    suf = m.group(2).replace('\\.', '.')
    if not E.decide(endswith(s, suf)):
        return None
    st = stem(s, suf)
    if m.group(1) == '.+' and E.decide(str_eq(s, suf)):
        return None
    o = Inst(None)
    o.attrs['group'] = Builtin('group', lambda g=0: s if g == 0 else st)
    return o


def distmod_unsupported(*a, **k):
    raise Unsupported('cosmology')


KNOWN_MODULES = {'numpy', 'numpy.random', 'numpy.linalg', 'scipy', 'scipy.interpolate', 'scipy.integrate', 'scipy.optimize', 'astropy', 'astropy.io', 'astropy.io.fits',
                 'astropy.io.ascii', 'astropy.table', 'astropy.units', 'astropy.cosmology', 'astropy.constants', 'os', 'os.path', 're', 'matplotlib',
                 'matplotlib.pyplot', 'multiprocessing', 'warnings', 'sys', 'math', 'copy', 'functools', 'itertools', 'collections', 'typing',
                 'logging', 'numbers', 'glob', 'contextlib', 'operator', 'pathlib', '__future__'}


def external(ip, name):
    if name in KNOWN_MODULES:
        return ModuleVal(name, {})
    if name == 'kcorrect._version':
        m = ModuleVal(name, {'__version__': 'x', '__version_tuple__': (0,)})
        return m
    return None


def module_attr(ip, mod, name):
    full = mod.name + '.' + name
    if full in KNOWN_MODULES:
        return ip.module(full)
    if mod.name == 'numpy':
        if name in NUMPY:
            ip.externals.add(full)
            return Builtin(full, NUMPY[name])
        if name in DT and name not in ('int', 'bool', 'float', 'object', 'str') or name == 'bool':
            return dtype_of(DT[name])
        if name in ABSTRACT:
            return Dtype('abstract:' + ABSTRACT[name])
        if name == 'newaxis':
            return None
        if name == 'pi':
            return PI()
        if name == 'e':
            return T.expv(1)
        if name == 'ndarray':
            return Builtin('ndarray', noop)
        if not hasattr(realnp, name):
            raise PyExc('AttributeError', name)
        raise Unsupported('numpy.%s' % name)
    tab = TABLES.get(mod.name, {})
    if name in tab:
        ip.externals.add(full)
        v = tab[name]
        return Builtin(full, v) if callable(v) else v
    if mod.name.startswith('matplotlib'):
        return Builtin(full, noop)
    if mod.name in ('warnings', 'logging'):
        if name in ('catch_warnings',):
            return Builtin(full, nullctx)
        return Builtin(full, noop)
    if mod.name in ('astropy.io.fits', 'astropy.io.ascii', 'astropy.table'):
        from . import fitsmodel
        v = fitsmodel.attr(ip, mod.name, name)
        if v is not None:
            ip.externals.add(full)
            return v
    if mod.name == 'astropy.cosmology':
        o = Inst(None)
        o.ghost['cosmo'] = name
        o.ghost['getattr'] = lambda a: cosmo_attr(ip, o, a)
        ip.modules[mod.name].env[name] = o
        return o
    if mod.name == 'astropy.units':
        o = Inst(None)
        o.ghost['unit'] = name
        ip.modules[mod.name].env[name] = o
        return o
    raise Unsupported(full)


_pi = z3.Real('pi!')


def PI():
    return _pi


_distmod = {}


def distmod_fn(name):
    if name not in _distmod:
        _distmod[name] = z3.Function('distmod:' + name, R, R)
    return _distmod[name]


def cosmo_attr(ip, o, a):
    nm = o.ghost['cosmo']
    if a == 'distmod':
        def dm(zz):
            zz = A(zz)
            f = distmod_fn(nm)
            v = ew(lambda t: f(zr(t)), zz, dtype='f8')
            q = Inst(None)
            q.ghost['quantity'] = (v, 'mag')
            q.ghost['getattr'] = lambda b: quantity_attr(q, b)
            return q
        return Builtin('distmod', dm)
    if a == 'luminosity_distance':
        def ld(zz):
            f = distmod_fn(nm)
            # d = 10 pc * 10^(dm/5), in Mpc
            v = ew(lambda t: mul(Fraction(1, 10**5), T.pow10(div(f(zr(t)), 5))), A(zz), dtype='f8')
            q = Inst(None)
            q.ghost['quantity'] = (v, 'Mpc')
            q.ghost['getattr'] = lambda b: quantity_attr(q, b)
            return q
        return Builtin('luminosity_distance', ld)
    raise Unsupported('cosmology.%s' % a)


def quantity_attr(q, b):
    v, u = q.ghost['quantity']
    if b == 'value':
        return v
    if b in ('to_value', 'to'):
        def tv(unit=None):
            if isinstance(unit, Inst) and unit.ghost.get('unit') == u or unit == u or unit is None:
                return v if b == 'to_value' else q
            raise Unsupported('unit conversion')
        return Builtin(b, tv)
    raise Unsupported('quantity.%s' % b)


def cumtrap(*a, **k):
    raise Unsupported('cumulative')


def deepcopy(x):
    if is_arr(x):
        return array(x)
    if isinstance(x, PList):
        return PList([deepcopy(y) for y in x.items])
    if isinstance(x, (tuple,)):
        return tuple(deepcopy(y) for y in x)
    if isinstance(x, (PDict,)):
        return PDict({k: deepcopy(v) for k, v in x.d.items()})
    if is_num(x) or isinstance(x, (str, SStr)) or x is None:
        return x
    raise Unsupported('deepcopy')


def shallow(x):
    if is_arr(x):
        return array(x)
    if isinstance(x, PList):
        return PList(list(x.items))
    if isinstance(x, PDict):
        return PDict(x.d)
    raise Unsupported('copy')


TABLES = {
    'numpy.random': {'normal': normal, 'randn': lambda *s: normal(size=s if s else None), 'standard_normal': lambda size=None: normal(size=size)},
    'scipy.interpolate': {'interp1d': interp1d},
    'scipy.integrate': {'trapezoid': trapezoid},
    'scipy.optimize': {'nnls': nnls, 'brentq': brentq},
    'os.path': OSPATH,
    'os': {'listdir': lambda p='.': IP.listdir(p), 'sep': '/', 'environ': PDict({}), 'getcwd': lambda: '/CWD', 'fspath': lambda p: p},
    're': {'match': re_match, 'search': re_match, 'fullmatch': re_match},
    'math': {'pi': _pi, 'sqrt': lambda x: T.sqrtv(real(scal(x))), 'log10': lambda x: T.logv('log10', real(scal(x))), 'log': lambda x: T.logv('ln', real(scal(x))),
             'exp': lambda x: T.expv(scal(x)), 'pow': lambda a, b: T.power(real(scal(a)), scal(b)), 'floor': lambda x: T.floor(scal(x)),
             'ceil': lambda x: neg(T.floor(neg(scal(x)))), 'isfinite': lambda x: Not(NONFINITE(zr(scal(x)))) if E.nonfinite else True, 'isnan': lambda x: NONFINITE(zr(scal(x))) if E.nonfinite else False, 'fabs': lambda x: T.absv(real(scal(x)))},
    'copy': {'deepcopy': deepcopy, 'copy': shallow},
    'typing': {}, 'functools': {},
    'sys': {'maxsize': 2**63 - 1},
}


# ---- methods of values -----------------------------------------------------------------
def value_attr(ip, o, name):
    if isinstance(o, Rec):
        if name == 'shape':
            return (o.n,)
        if name == 'dtype':
            d = Dtype('rec', [(k, v.dtype, v.shape[1:]) for k, v in o.fields.items()])
            return d
        if name == 'names':
            return tuple(o.order)
        if name == 'size':
            return o.n
        raise Unsupported('record.%s' % name)
    if is_arr(o):
        return arr_attr(ip, o, name)
    if isinstance(o, (PList, SymList)):
        return list_attr(ip, o, name)
    if isinstance(o, (PDict, SymDict)):
        return dict_attr(ip, o, name)
    if isinstance(o, (str, SStr)):
        return str_attr(ip, o, name)
    if isinstance(o, tuple):
        if name == 'index':
            return Builtin('index', lambda x: tuple_index(ip, o, x))
        if name == 'count':
            raise Unsupported('tuple.count')
        raise PyExc('AttributeError', name)
    if isinstance(o, Dtype):
        if name == 'type':
            return o
        if name == 'kind':
            return kind_of_dtype(o.name)
        if name == 'names':
            return tuple(f[0] for f in o.fields) if o.fields else None
        if name == '__name__':
            return o.name
        raise Unsupported('dtype.%s' % name)
    if isinstance(o, Builtin):
        if o.name.startswith('numpy.') and name in ('outer', 'reduce'):
            if name == 'outer' and o.name.split('.')[1] in UFUNCS:
                def outr(a, b, fn=NUMPY[o.name.split('.')[1]]):
                    a, b = A(a), A(b)
                    for _ in range(b.ndim):
                        a = expand_dims(a, a.ndim)
                    return fn(a, b)
                return Builtin('outer', outr)
            if o.name == 'numpy.add' and name == 'reduce':
                return Builtin('reduce', lambda a, axis=0, **k: np_sum(a, axis))
        if name == '__name__':
            return o.name
        if o.name == 'dict' and name == 'fromkeys':
            raise Unsupported('fromkeys')
        raise Unsupported('%s.%s' % (o.name, name))
    if o is None:
        raise PyExc('AttributeError', "'NoneType' object has no attribute %s" % name)
    if is_num(o):
        if name in ('real',):
            return o
        if name in ('is_integer', 'conjugate', 'imag', 'numerator', 'bit_length'):
            raise Unsupported('number.%s' % name)
        raise PyExc('AttributeError', name)
    if isinstance(o, PyExc):
        if name == 'args':
            return (o.msg,)
        raise Unsupported('exception.%s' % name)
    if isinstance(o, ExcClass) and name == '__name__':
        return o.name
    if isinstance(o, Range):
        if name in ('start', 'step'):
            return getattr(o, name)
    raise Unsupported('%s.%s' % (type(o).__name__, name))


def arr_attr(ip, a, name):
    bi = lambda f: Builtin('ndarray.' + name, f)
    if name == 'shape':
        return a.shape
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return size_of(a.shape)
    if name == 'dtype':
        return dtype_of(a.dtype)
    if name == 'T':
        return AR.transpose(a) if a.ndim > 1 else a
    if name == 'copy':
        return bi(lambda *x, **k: as_array(a) if a.ndim or not a.scalar else a)
    if name == 'astype':
        def astype(dt, copy=True, **k):
            d = to_dtype(dt)
            if copy is not True and d == a.dtype:
                return a
            if a.ndim == 0 and a.scalar:
                return npscalar(castv(a.item(), d, a.dtype), d)
            check_parse(a, d)
            return as_array(a, d)
        return bi(astype)
    if name == 'reshape':
        return bi(lambda *s, **k: reshape(a, *s, **k))
    if name == 'flatten':
        return bi(lambda *x: as_array(ravel(a)))
    if name == 'ravel':
        return bi(lambda *x: ravel(a))
    if name == 'sum':
        return bi(lambda *x, **k: np_sum(a, *x, **k))
    if name == 'mean':
        return bi(lambda *x, **k: np_mean(a, *x, **k))
    if name in ('max', 'min'):
        return bi(lambda *x, **k: extreme(1 if name == 'max' else -1)(a, *x, **k))
    if name in ('argmax', 'argmin'):
        return bi(lambda *x, **k: argextreme(1 if name == 'argmax' else -1)(a, *x, **k))
    if name in ('any', 'all'):
        return bi(lambda *x, **k: (np_any if name == 'any' else np_all)(a, *x, **k))
    if name == 'dot':
        return bi(lambda b: np_dot(a, b))
    if name == 'transpose':
        return bi(lambda *x: AR.transpose(a, (x[0] if isinstance(x[0], tuple) else x) if x else None))
    if name == 'swapaxes':
        return bi(lambda i, j: swapaxes(a, i, j))
    if name == 'squeeze':
        return bi(lambda *x, **k: squeeze(a, *x, **k))
    if name == 'nonzero':
        return bi(lambda: AR.nonzero(a))
    if name == 'take':
        return bi(lambda *x, **k: take(a, *x, **k))
    if name == 'compress':
        return bi(lambda c, *x, **k: compress(c, a, *x, **k))
    if name == 'argsort':
        return bi(lambda *x, **k: argsort(a, *x, **k))
    if name == 'clip':
        return bi(lambda *x, **k: clip(a, *x, **k))
    if name == 'prod':
        return bi(lambda *x, **k: np_prod(a, *x, **k))
    if name == 'repeat':
        return bi(lambda *x, **k: repeat(a, *x, **k))
    if name == 'fill':
        return bi(lambda v: AR.setitem(a, Ellipsis, scal(v)))
    if name == 'item':
        return bi(lambda *x: item(a))
    if name == 'tolist':
        def tolist():
            if a.ndim == 0:
                return a.item()
            if a.ndim != 1:
                raise Unsupported('tolist')
            rd = a.reader()
            if is_sym(a.shape[0]):
                return SymList(a.shape[0], lambda i: rd(i))
            return PList([rd(i) for i in range(a.shape[0])])
        return bi(tolist)
    if name == 'view':
        return bi(lambda *x: a)
    if name == 'newbyteorder' or name == 'byteswap':
        raise Unsupported(name)
    if name == 'real':
        return a
    if name in ('__len__',):
        return bi(lambda: length(ip, a))
    if name in ('flags', 'base', 'strides', 'nbytes', 'itemsize', 'data'):
        raise Unsupported('ndarray.%s' % name)
    if name == 'sort':
        raise Unsupported('in-place sort')
    if hasattr(realnp.zeros(1), name):
        raise Unsupported('ndarray.%s' % name)
    raise PyExc('AttributeError', name)


def item(a):
    for d in a.shape:
        if not E.decide(eq(d, 1)):
            raise PyExc('ValueError', 'can only convert an array of size 1')
    return a.read((0,) * a.ndim)


def val_eq(ip, a, b):
    r = compare(ip, 'Eq', a, b)
    if is_arr(r):
        if r.ndim == 0:
            return r.item()
        raise PyExc('ValueError', 'ambiguous')
    return r


def tuple_index(ip, o, x):
    for k, y in enumerate(o):
        if ip.truth(val_eq(ip, y, x)):
            return k
    raise PyExc('ValueError', 'not in tuple')


def list_index(ip, o, x):
    from .interp import plist_norm
    o = plist_norm(o)
    if isinstance(o, PList):
        for k, y in enumerate(o.items):
            if ip.truth(val_eq(ip, y, x)):
                return k
        raise PyExc('ValueError', 'is not in list')
    n, itm = o.n, o.item
    if o.keep is not None:
        raise Unsupported('index in a filtered list')
    # first position whose item equals x
    a = mk((n,), lambda k: T.truth(val_eq(ip, itm(k), x)), 'b')
    rd = a.reader()
    if not E.decide(E.exists((n,), lambda k: rd(k))):
        raise PyExc('ValueError', 'is not in list')
    s = make_sel(a)
    p = s.pos(0)[0]
    return p


def list_attr(ip, o, name):
    bi = lambda f: Builtin('list.' + name, f)
    if name == 'append':
        def append_(x):
            if isinstance(o, SymList):
                raise Unsupported('append to a symbolic list')
            ip.list_set(o, o.items + [x])
        return bi(append_)
    if name == 'extend':
        def extend(x):
            if isinstance(o, SymList):
                raise Unsupported('extend of a symbolic list')
            n, it = ip.iteration(x)
            if is_sym(const(n)):
                from .interp import Seg
                ip.list_set(o, o.items + [Seg(n, it)])
            else:
                ip.list_set(o, o.items + [it(i) for i in range(n)])
        return bi(extend)
    if name == 'index':
        return bi(lambda x, *a: list_index(ip, o, x))
    if name == 'copy':
        return bi(lambda: PList(list(o.items)) if isinstance(o, PList) else o)
    if name == 'pop':
        def pop(k=-1):
            if not isinstance(o, PList) or is_sym(k):
                raise Unsupported('pop')
            items = list(o.items)
            if not items:
                raise PyExc('IndexError', 'pop from empty list')
            v = items.pop(k)
            ip.list_set(o, items)
            return v
        return bi(pop)
    if name == 'insert':
        def insert(k, v):
            items = list(o.items)
            items.insert(k, v)
            ip.list_set(o, items)
        return bi(insert)
    if name in ('sort', 'reverse', 'remove', 'count', 'clear'):
        raise Unsupported('list.%s' % name)
    raise PyExc('AttributeError', name)


def fmt(ip, s, a, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            v = None
        if v is None or spec or not isinstance(v, (str, SStr, int)):
            v = SStr(z3.Const(E.freshname('str.fmt!'), NameSort))
        parts.append(to_str(ip, v))
    return str_cat(*parts) if parts else ''


def percent(ip, s, b):
    """s % b, for %s of strings; any other conversion is some string"""
    import re
    vals = list(b) if isinstance(b, tuple) else [b]
    parts, pos = [], 0
    for m in re.finditer(r'%(.)', s):
        if m.start() > pos:
            parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            parts.append('%')
        elif m.group(1) == 's' and vals:
            parts.append(to_str(ip, vals.pop(0)))
        else:
            return SStr(z3.Const(E.freshname('str.fmt!'), NameSort))
    if pos < len(s):
        parts.append(s[pos:])
    if vals and not isinstance(b, (PDict,)):
        raise PyExc('TypeError', 'not all arguments converted during string formatting')
    return str_cat(*parts) if parts else ''


def to_str(ip, x):
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, (bool, int)) or x is None:
        return str(x)
    return SStr(z3.Const(E.freshname('str.of!'), NameSort))


def str_attr(ip, s, name):
    bi = lambda f: Builtin('str.' + name, f)
    if name == 'format':
        return bi(lambda *a, **kw: fmt(ip, s, a, kw) if isinstance(s, str) else SStr(z3.Const(E.freshname('str.fmt!'), NameSort)))
    if name == 'endswith':
        return bi(lambda x: endswith(s, x))
    if name == 'startswith':
        def sw(x):
            if isinstance(s, str):
                return s.startswith(x)
            p = str_parts(s)
            if isinstance(p[0], str) and len(p[0]) >= len(x):
                return p[0].startswith(x)
            return strpred('startswith:' + x, s)
        return bi(sw)
    if name == 'removesuffix':
        return bi(lambda x: stem(s, x) if E.decide(endswith(s, x)) else s)
    if name == 'split' and isinstance(s, SStr) and getattr(s, 'words', None) is not None:
        return bi(lambda *a: s.words)
    if name == 'join':
        def join(x):
            n, it = ip.iteration(x)
            if is_sym(const(n)):
                return SStr(z3.Const(E.freshname('str.join!'), NameSort))
            out = []
            for i in range(n):
                if i:
                    out.append(s)
                out.append(it(i))
            return str_cat(*out) if out else ''
        return bi(join)
    if isinstance(s, str) and hasattr(str, name):
        def call(*a, **k):
            if all(isinstance(x, (str, int, tuple)) for x in a):
                r = getattr(s, name)(*a, **k)
                return PList(r) if isinstance(r, list) else r
            raise Unsupported('str.%s' % name)
        return bi(call)
    if hasattr(str, name):
        if name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip'):
            return bi(lambda *a: strfn(name, s))
        raise Unsupported('str.%s' % name)
    raise PyExc('AttributeError', name)


# ---- dictionaries ----------------------------------------------------------------------
def rounded(x, n=None):
    """some function of the number (and the number of digits)"""
    x = scal(x)
    if n is None or is_sym(const(scal(n))):
        unsupported('round')
    if not is_sym(const(x)):
        return F(round(Fraction(const(x)), int(const(scal(n)))))
    return z3.Function('round!%d' % int(const(scal(n))), R, R)(zr(x))


def dictkey(ip, k):
    if is_arr(k) and k.ndim == 0:
        k = const(k.item())
    if isinstance(k, SStr):
        p = str_parts(k)
        if len(p) == 1 and isinstance(p[0], str):
            return p[0]
        if not p:
            return ''
        return ('sstr', k.term.sexpr(), k)
    if is_sym(k):
        return ('sym', z(k).sexpr(), k)
    if isinstance(k, tuple):
        parts = [dictkey(ip, x) for x in k]
        if any(isinstance(x, tuple) and x and x[0] in ('sym', 'sstr') for x in parts):
            return ('sym', repr([x[1] if isinstance(x, tuple) and x and x[0] in ('sym', 'sstr') else x for x in parts]), tuple(key_out(x) for x in parts))
        return tuple(parts)
    if isinstance(k, (str, int, bool, Fraction, ClassVal)) or k is None:
        return k
    raise Unsupported('dictionary key %r' % (k,))


class SKey:
    pass


def dget(ip, data, k, default=KeyError):
    if isinstance(data, SymDict):
        return symget(ip, data, k, default)
    kk = dictkey(ip, k)
    if kk in data.d:
        return data.d[kk]
    symbolic = isinstance(kk, tuple) and kk and kk[0] == 'sstr'
    q = same_key(ip, data.d, kk)
    if q is not None:
        return data.d[q]
    for q in data.d:
        qs = q[2] if isinstance(q, tuple) and q and q[0] == 'sstr' else q
        if (symbolic or qs is not q) and isinstance(qs, (str, SStr)) and isinstance(k, (str, SStr)):
            if E.decide(str_eq(qs, k)):
                return data.d[q]
    if default is KeyError:
        raise PyExc('KeyError', '')
    return default


def same_key(ip, d, kk):
    """the key of d that equals kk, one of them symbolic numbers"""
    sym = lambda q: isinstance(q, tuple) and len(q) == 3 and q[0] == 'sym'
    for q in d:
        if q != kk and (sym(q) or sym(kk)):
            a, b = key_out(q), key_out(kk)
            if isinstance(a, tuple) != isinstance(b, tuple) or isinstance(a, tuple) and len(a) != len(b):
                continue
            if E.decide(And(*[key_eq(x, y) for x, y in (zip(a, b) if isinstance(a, tuple) else [(a, b)])])):
                return q
    return None


def key_eq(x, y):
    if is_num(x) and is_num(y):
        return eq(x, y)
    if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
        return str_eq(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return And(*[key_eq(a, b) for a, b in zip(x, y)])
    if is_sym(x) or is_sym(y) or isinstance(x, SStr) or isinstance(y, SStr):
        return False
    return x == y


def symget(ip, sd, k, default=KeyError):
    for e in reversed(sd.log):
        if e[0] == 'put':
            if E.decide(str_eq(e[1], k)):
                if e[2] is DELETED:
                    break_ = True
                    if default is KeyError:
                        raise PyExc('KeyError', '')
                    return default
                return e[2]
        else:
            _, n, keyfn, valfn, condfn = e
            hit = E.exists((n,), lambda j: And(T.truth(condfn(j)), str_eq(keyfn(j), k)))
            if E.decide(hit):
                # all writers of one key write the same value here: the value must not depend on the iteration
                return valfn(None, k)
    if not E.decide(sd.has(k)):
        if default is KeyError:
            raise PyExc('KeyError', '')
        return default
    return sd.get(k)


DELETED = object()


def symhas(ip, sd, k):
    r = sd.has(k)
    for e in sd.log:
        if e[0] == 'put':
            c = str_eq(e[1], k)
            r = And(r, Not(c)) if e[2] is DELETED else Or(r, c)
        else:
            _, n, keyfn, valfn, condfn = e
            r = Or(r, E.exists((n,), lambda j: And(T.truth(condfn(j)), str_eq(keyfn(j), k))))
    return r


def symdict_addrange(ip, sd, n, keyfn, valfn, condfn):
    old = list(sd.log)

    def undo():
        sd.log = old
    E.undoable(undo)

    def val(j, k):
        # a value determined by its key
        v = valfn(0)
        if isinstance(v, Inst) and 'bykey' in v.ghost:
            return v.ghost['bykey'](k)
        raise Unsupported('dictionary filled by a loop')
    sd.log = sd.log + [('range', n, keyfn, val, condfn)]


def dset(ip, data, k, v):
    if isinstance(data, SymDict):
        old = list(data.log)

        def undo():
            data.log = old
        E.undoable(undo)
        data.log = data.log + [('put', k, v)]
        ip.log(('symdict', data, k, v))
        return
    kk = dictkey(ip, k)
    old = dict(data.d)

    def undo2():
        data.d = old
    E.undoable(undo2)
    nd_ = dict(data.d)
    if kk not in nd_:
        q = same_key(ip, nd_, kk)
        kk = kk if q is None else q
    if isinstance(kk, tuple) and kk and kk[0] == 'sstr' and kk not in nd_ or isinstance(kk, str):
        for q in list(nd_):
            qs = q[2] if isinstance(q, tuple) and q and q[0] == 'sstr' else q
            if q != kk and isinstance(qs, (str, SStr)) and not (isinstance(qs, str) and isinstance(kk, str)):
                if E.decide(str_eq(qs, kk[2] if isinstance(kk, tuple) else kk)):
                    kk = q
                    break
    nd_[kk] = v
    data.d = nd_
    ip.log(('dict', data))


def key_out(k):
    return k[2] if isinstance(k, tuple) and len(k) == 3 and k[0] in ('sstr', 'sym') else k


def dict_attr(ip, data, name):
    bi = lambda f: Builtin('dict.' + name, f)
    if name == 'get':
        return bi(lambda k, d=None: dget(ip, data, k, d))
    if name == '__getitem__':
        return bi(lambda k: dget(ip, data, k))
    if name == '__setitem__':
        return bi(lambda k, v: dset(ip, data, k, v))
    if name == '__contains__':
        return bi(lambda k: contains(ip, data, k))
    if name == 'setdefault':
        def sd(k, v=None):
            if ip.truth(contains(ip, data, k)):
                return dget(ip, data, k)
            dset(ip, data, k, v)
            return v
        return bi(sd)
    if name == 'pop':
        def pop(k, *d):
            if ip.truth(contains(ip, data, k)):
                v = dget(ip, data, k)
                ddel(ip, data, k)
                return v
            if d:
                return d[0]
            raise PyExc('KeyError', '')
        return bi(pop)
    if isinstance(data, PDict):
        if name == 'keys':
            return bi(lambda: PList([key_out(k) for k in data.d]))
        if name == 'values':
            return bi(lambda: PList(list(data.d.values())))
        if name == 'items':
            return bi(lambda: PList([(key_out(k), v) for k, v in data.d.items()]))
        if name == 'update':
            def update(o=None, **kw):
                if isinstance(o, PDict):
                    for k, v in o.d.items():
                        dset(ip, data, key_out(k), v)
                elif o is not None:
                    raise Unsupported('update')
                for k, v in kw.items():
                    dset(ip, data, k, v)
            return bi(update)
        if name == 'copy':
            return bi(lambda: PDict(data.d))
        if name == 'clear':
            raise Unsupported('clear')
    if hasattr(dict, name):
        raise Unsupported('dict.%s' % name)
    raise PyExc('AttributeError', name)


def ddel(ip, data, k):
    if isinstance(data, SymDict):
        dset(ip, data, k, DELETED)
        return
    kk = dictkey(ip, k)
    if kk not in data.d:
        raise PyExc('KeyError', '')
    old = dict(data.d)

    def undo():
        data.d = old
    E.undoable(undo)
    data.d = {a: b for a, b in data.d.items() if a != kk}
    ip.log(('dict', data))


def contains(ip, c, x):
    from .interp import plist_norm
    c = plist_norm(c)
    if isinstance(c, Inst) and c.data is not None:
        c = c.data
    if isinstance(c, SymDict):
        return symhas(ip, c, x)
    if isinstance(c, PDict):
        s = object()
        return dget(ip, c, x, s) is not s
    if isinstance(c, (PList, tuple)):
        items = c.items if isinstance(c, PList) else c
        r = False
        for y in items:
            e = val_eq(ip, y, x) if not (y is None or x is None) else (y is x)
            r = Or(r, T.truth(e))
        return r
    if isinstance(c, SymList):
        kf = c.keep or (lambda j: True)
        return E.exists((c.n,), lambda j: And(T.truth(kf(j)), T.truth(val_eq(ip, c.item(j), x))))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if is_arr(c):
        rd = c.reader()
        return E.exists(c.shape, lambda *ix: eq(rd(*ix), scal(x)))
    if isinstance(c, Inst) and callable(c.ghost.get('contains')):
        return c.ghost['contains'](x)
    if isinstance(c, Rec):
        return x in c.fields
    if isinstance(c, Range):
        return And(ge(x, c.start), lt(x, add(c.start, c.n))) if c.step == 1 else None
    raise Unsupported('membership in %r' % (type(c).__name__,))


def length(ip, v):
    from .interp import plist_norm
    v = plist_norm(v)
    if isinstance(v, (PList,)):
        return len(v.items)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, SymList):
        if v.keep is None:
            return v.n
        kf = v.keep
        s = make_sel(mk((v.n,), lambda k: T.truth(kf(k)), 'b'))
        return s.cnt
    if isinstance(v, PDict):
        return len(v.d)
    if is_arr(v):
        if v.ndim == 0:
            raise PyExc('TypeError', 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, Range):
        return v.n
    if isinstance(v, Rec):
        return v.n
    if isinstance(v, Inst) and v.data is not None:
        return length(ip, v.data)
    if isinstance(v, Inst) and callable(v.ghost.get('len')):
        return v.ghost['len']()
    if isinstance(v, Inst) and v.cls is not None:
        m = ip.lookup_method(v, '__len__')
        if m is not None:
            return ip.call(m)
    if v is None or is_num(v):
        raise PyExc('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (type(v).__name__,))


# ---- subscripts -------------------------------------------------------------------------
def list_slice(ip, v, s):
    from .interp import plist_norm
    v = plist_norm(v)
    if isinstance(v, (PList, tuple)):
        items = v.items if isinstance(v, PList) else list(v)
        f = lambda x: None if x is None else const(scal(x))
        a, b, c = f(s.start), f(s.stop), f(s.step)
        if any(is_sym(x) for x in (a, b, c) if x is not None):
            raise Unsupported('symbolic slice of a list')
        r = items[slice(a, b, c)]
        return PList(r) if isinstance(v, PList) else tuple(r)
    if v.keep is not None:
        raise Unsupported('slice of a filtered list')
    st, sp, n = clampslice(s, v.n)
    it = v.item
    return SymList(n, lambda i: it(add(st, mul(sp, i))))


def getitem(ip, o, k):
    from .interp import plist_norm, Poison, NeedPeel
    if isinstance(o, Poison):
        raise NeedPeel(o.what)
    o = plist_norm(o)
    if isinstance(o, Inst):
        if o.cls is not None:
            m = ip.lookup_method(o, '__getitem__')
            if m is not None:
                return ip.call(m, (k,))
        if callable(o.ghost.get('getitem')):
            return o.ghost['getitem'](k)
        if o.data is not None:
            return dget(ip, o.data, k)
    if isinstance(o, (PDict, SymDict)):
        return dget(ip, o, k)
    if isinstance(o, Rec):
        if isinstance(k, str):
            if k not in o.fields:
                # columns of FITS tables: upper and lower case are the same
                k2 = [f for f in o.fields if o.ci and f.lower() == k.lower()]
                if len(k2) != 1:
                    raise PyExc('KeyError', k)
                k = k2[0]
            v = o.fields[k]
            return AR.getitem(v, 0) if o.row else v
        if isinstance(k, Slice):
            raise Unsupported('record slice')
        kk = norm_index(scal(k), o.n)
        if same_dim(o.n, 1):
            return Rec(1, o.fields, o.order, row=True, ci=o.ci)
        return Rec(1, {f: AR.getitem(v, (Slice(kk, add(kk, 1), None),)) for f, v in o.fields.items()}, o.order, row=True, ci=o.ci)
    if is_arr(o):
        if isinstance(k, (str, SStr)):
            raise PyExc('IndexError', 'only integers, slices')
        if o.ndim == 0:
            keys = k if isinstance(k, tuple) else (k,)
            if all(x is None or x is Ellipsis for x in keys):
                return AR.getitem(Arr(o.buf, o.shape, o.fwd, o.inv), k)
            if keys == ():
                return o
        if isinstance(k, SymList):
            k = as_array(k)
        if isinstance(k, Range):
            k = as_array(k)
        if isinstance(k, tuple):
            k = tuple(as_array(x) if isinstance(x, (SymList, Range)) else x for x in k)
        r = AR.getitem(o, k)
        return r.item() if r.dtype == 'U' and r.ndim == 0 else r
    if isinstance(o, (PList, tuple, SymList, Range)):
        if isinstance(k, Slice):
            return list_slice(ip, o, k)
        if is_arr(k) and k.ndim == 0:
            k = k.item()
        if not is_num(k) or kind(k) == 'f':
            if is_arr(k) and k.ndim == 1 and not isinstance(o, tuple):
                raise PyExc('TypeError', 'list indices must be integers')
            raise PyExc('TypeError', 'indices must be integers')
        k = const(k)
        if isinstance(o, (PList, tuple)):
            items = o.items if isinstance(o, PList) else o
            if is_sym(k):
                from .interp import merge_vals
                kk = norm_index(k, len(items))
                kk = const(kk)
                if is_sym(kk):
                    return merge_vals([(eq(kk, i), items[i]) for i in range(len(items) - 1)], items[-1])
                return items[kk]
            if not -len(items) <= k < len(items):
                raise PyExc('IndexError', 'list index out of range')
            return items[int(k)]
        if isinstance(o, Range):
            return add(o.start, mul(o.step, norm_index(k, o.n)))
        if o.keep is not None:
            kf = o.keep
            s = make_sel(mk((o.n,), lambda q: T.truth(kf(q)), 'b'))
            kk = norm_index(k, s.cnt)
            return o.item(s.pos(kk)[0])
        return o.item(norm_index(k, o.n))
    if isinstance(o, str):
        if isinstance(k, Slice):
            f = lambda x: None if x is None else const(x)
            return o[slice(f(k.start), f(k.stop), f(k.step))]
        return o[k]
    if isinstance(o, SStr):
        if isinstance(k, Slice) and k.start is None and k.step is None and isinstance(k.stop, int) and k.stop < 0:
            # s[:-len(suffix)] of a string known to end with a suffix of that length
            for suf in ('.dat', '.fits', '.txt'):
                if len(suf) == -k.stop and E.known(endswith(o, suf)) is True:
                    return stem(o, suf)
        raise Unsupported('string slice')
    if o is None or is_num(o):
        raise PyExc('TypeError', 'not subscriptable')
    if isinstance(o, ClassVal) or isinstance(o, Builtin):
        return o
    raise Unsupported('subscript of %r' % (type(o).__name__,))


def setitem(ip, o, k, v):
    from .interp import plist_norm
    if isinstance(o, Inst):
        if o.cls is not None:
            m = ip.lookup_method(o, '__setitem__')
            if m is not None:
                return ip.call(m, (k, v))
        if callable(o.ghost.get('setitem')):
            return o.ghost['setitem'](k, v)
        if o.data is not None:
            return dset(ip, o.data, k, v)
    if isinstance(o, (PDict, SymDict)):
        return dset(ip, o, k, v)
    if isinstance(o, Rec):
        if isinstance(k, str):
            if k not in o.fields:
                raise PyExc('ValueError', 'no field')
            v = v if not isinstance(v, (PList, tuple, SymList)) else A(v)
            f = o.fields[k]
            if k in o.widths:
                v = narrow(v, o.widths[k])
            if o.row:
                f = AR.getitem(f, 0)
            return AR.setitem(f, Ellipsis, v)
        raise Unsupported('record store')
    if is_arr(o):
        if isinstance(v, Inst) and 'array' in v.ghost:
            v = v.ghost['array']()
        if isinstance(v, SStr) or isinstance(v, str):
            if kind_of_dtype(o.dtype) == 'f':
                v = castv(v, o.dtype)
        if isinstance(k, (SymList, Range)):
            k = as_array(k)
        if o.ndim == 0 and not o.scalar:
            return AR.setitem(o, Ellipsis if k == () else k, v)
        if v is None:
            raise PyExc('TypeError', 'float() argument must not be None')
        return AR.setitem(o, k, v)
    if isinstance(o, PList):
        k = const(scal(k)) if not isinstance(k, Slice) else k
        if isinstance(k, Slice) or is_sym(k):
            raise Unsupported('list store')
        items = list(o.items)
        if not -len(items) <= k < len(items):
            raise PyExc('IndexError', 'list assignment index out of range')
        items[k] = v
        return ip.list_set(o, items)
    if isinstance(o, tuple) or o is None or is_num(o):
        raise PyExc('TypeError', 'does not support item assignment')
    raise Unsupported('store into %r' % (type(o).__name__,))


def delitem(ip, o, k):
    if isinstance(o, Inst) and o.data is not None:
        o = o.data
    if isinstance(o, (PDict, SymDict)):
        if isinstance(o, SymDict) and not ip.truth(contains(ip, o, k)):
            raise PyExc('KeyError', '')
        return ddel(ip, o, k)
    raise Unsupported('del')


def unpack(ip, v, n, starred):
    from .interp import plist_norm
    v = plist_norm(v)
    m, it = ip.iteration(v)
    m = const(m)
    if is_sym(m):
        if starred:
            raise Unsupported('starred unpacking')
        if not E.decide(eq(m, n)):
            raise PyExc('ValueError', 'unpack')
        m = n
    if not starred and m != n:
        raise PyExc('ValueError', 'wrong number of values to unpack')
    return [it(i) for i in range(m)]


# ---- operators ------------------------------------------------------------------------
def unary(ip, op, v):
    if isinstance(v, (PList, tuple, PDict, str, SStr)) or v is None:
        raise PyExc('TypeError', 'bad operand type for unary')
    if op == 'USub':
        if is_arr(v) and v.dtype == 'b':
            raise PyExc('TypeError', 'boolean negative')
        return ew(T.neg, v)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if is_arr(v) and v.dtype == 'b':
            return ew(lambda x: Not(T.truth(x)), v, dtype='b')
        if is_num(v) and kind(v) == 'b':
            if isinstance(v, bool):
                return ~v
            raise Unsupported('~ of a symbolic bool')
        if is_arr(v):
            return ew(lambda x: sub(neg(x), 1), v)
    raise Unsupported('unary %s' % op)


ARITH = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div}


def pw(a, b):
    a, b = const(a), const(b)
    return T.power(a, b)


def binary(ip, op, a, b):
    from .interp import plist_norm
    a, b = plist_norm(a), plist_norm(b)
    for x in (a, b):
        if isinstance(x, Inst):
            return inst_binary(ip, op, a, b)
    if a is None or b is None:
        raise PyExc('TypeError', 'unsupported operand type(s)')
    seq = (PList, tuple, SymList)
    if isinstance(a, seq) or isinstance(b, seq):
        if is_arr(a) or is_arr(b):
            a = A(a) if isinstance(a, seq) else a
            b = A(b) if isinstance(b, seq) else b
        elif op == 'Add' and isinstance(a, seq) and isinstance(b, seq):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PList) and isinstance(b, PList):
                return PList(a.items + b.items)
            if isinstance(a, (PList, SymList)) and isinstance(b, (PList, SymList)):
                return sym_concat(a, b)
            raise PyExc('TypeError', 'can only concatenate')
        elif op == 'Mult':
            s, k = (a, b) if isinstance(a, seq) else (b, a)
            k = const(scal(k))
            if is_sym(k):
                items = s.items if isinstance(s, PList) else list(s)
                if len(items) == 1 and isinstance(s, PList):
                    v = items[0]
                    return SymList(k, lambda i: v)
                raise Unsupported('repeat')
            if kind(k) == 'f':
                raise PyExc('TypeError', "can't multiply sequence")
            if isinstance(s, PList):
                return PList(s.items * k)
            return s * k
        else:
            raise PyExc('TypeError', 'unsupported operand type(s)')
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        if op == 'Add' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return str_cat(a, b)
        if op == 'Mod' and isinstance(a, str):
            return percent(ip, a, b)
        raise PyExc('TypeError', 'unsupported operand type(s)')
    if isinstance(a, (PDict, ClassVal, FuncVal, Builtin)) or isinstance(b, (PDict, ClassVal, FuncVal, Builtin)):
        raise PyExc('TypeError', 'unsupported operand type(s)')
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        def isb(x):
            return (is_arr(x) and x.dtype == 'b') or (is_num(x) and kind(x) == 'b')
        if isb(a) and isb(b):
            f = {'BitAnd': lambda x, y: And(T.truth(x), T.truth(y)), 'BitOr': lambda x, y: Or(T.truth(x), T.truth(y)),
                 'BitXor': lambda x, y: T.ne(T.truth(x), T.truth(y))}[op]
            return ew(f, a, b, dtype='b') if is_arr(a) or is_arr(b) else f(a, b)
        if any((is_arr(x) and kind_of_dtype(x.dtype) == 'f') or (is_num(x) and kind(x) == 'f') for x in (a, b)):
            raise PyExc('TypeError', 'bitwise on floats')
        raise Unsupported('integer bit operations')
    if op == 'MatMult':
        return matmul(a, b)
    if any(is_arr(x) and x.dtype in ('U', 'O') for x in (a, b)):
        raise PyExc('TypeError', 'arithmetic on strings')
    anyarr = is_arr(a) or is_arr(b)
    if op in ARITH:
        f = ARITH[op]
        if op == 'Div':
            if not anyarr:
                if E.decide(eq(real(b), 0)):
                    raise PyExc('ZeroDivisionError', 'division by zero')
                return div(a, b)
            dt = result_dtype([a, b])
            if kind_of_dtype(dt) != 'f':
                dt = 'f8'
            return ew(div, a, b, dtype=dt)
        if op == 'Sub' and anyarr and result_dtype([a, b]) == 'b':
            raise PyExc('TypeError', 'boolean subtract')
        if op in ('Add', 'Mult') and anyarr and result_dtype([a, b]) == 'b':
            f = (lambda x, y: Or(T.truth(x), T.truth(y))) if op == 'Add' else (lambda x, y: And(T.truth(x), T.truth(y)))
            return ew(f, a, b, dtype='b')
        return ew(f, a, b) if anyarr else f(a, b)
    if op == 'Pow':
        return ew(pw, a, b) if anyarr else pw(a, b)
    if op == 'FloorDiv':
        if not anyarr and E.decide(eq(b, 0)):
            raise PyExc('ZeroDivisionError', '')
        return ew(floordiv, a, b) if anyarr else floordiv(a, b)
    if op == 'Mod':
        if not anyarr and E.decide(eq(b, 0)):
            raise PyExc('ZeroDivisionError', '')
        return ew(mod, a, b) if anyarr else mod(a, b)
    raise Unsupported('operator %s' % op)


def sym_concat(a, b):
    from .interp import Seg
    if isinstance(a, PList) and isinstance(b, SymList):
        from .interp import plist_norm
        return plist_norm(PList(a.items + [Seg(b.n, b.item, b.keep)]))
    if isinstance(a, SymList) and isinstance(b, PList) and not b.items:
        return a
    if a.keep is None and (isinstance(b, PList) or b.keep is None):
        na = a.n
        nb = b.n if isinstance(b, SymList) else len(b.items)
        ib = b.item if isinstance(b, SymList) else (lambda i: pick_items(b.items, i))
        ia = a.item

        def item_(i):
            c = lt(i, na)
            k = E.known(c)
            if k is True:
                return ia(i)
            if k is False:
                return ib(sub(i, na))
            from .interp import merge2
            return merge2(c, ia(i), ib(sub(i, na)))
        return SymList(add(na, nb), item_)
    raise Unsupported('concatenation of filtered lists')


def pick_items(items, i):
    from .interp import merge_vals
    if not is_sym(const(i)):
        return items[const(i)]
    return merge_vals([(eq(i, k), items[k]) for k in range(len(items) - 1)], items[-1])


def inst_binary(ip, op, a, b):
    if isinstance(a, Inst) and 'quantity' in a.ghost or isinstance(b, Inst) and 'quantity' in b.ghost:
        raise Unsupported('arithmetic on quantities')
    for x, y, nm in ((a, b, DUNDER[op][0]), (b, a, DUNDER[op][1])):
        if isinstance(x, Inst) and x.cls is not None:
            m = ip.lookup_method(x, nm)
            if m is not None:
                return ip.call(m, (y,))
        if isinstance(x, Inst) and 'array' in x.ghost:
            return binary(ip, op, a.ghost['array']() if isinstance(a, Inst) and 'array' in a.ghost else a,
                          b.ghost['array']() if isinstance(b, Inst) and 'array' in b.ghost else b)
    raise PyExc('TypeError', 'unsupported operand type(s)')


DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'), 'Div': ('__truediv__', '__rtruediv__'),
          'Pow': ('__pow__', '__rpow__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'), 'Mod': ('__mod__', '__rmod__'), 'MatMult': ('__matmul__', '__rmatmul__'),
          'BitAnd': ('__and__', '__rand__'), 'BitOr': ('__or__', '__ror__'), 'BitXor': ('__xor__', '__rxor__')}

CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        x, y = (a, b) if isinstance(b, bool) else (b, a)
        if is_sym(x) and z3.is_bool(x):
            return x if y else Not(x)
        return isinstance(x, bool) and x == y
    if a is None or b is None:
        return False
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return type(a) is type(b) and a == b
    return False


def compare(ip, op, a, b):
    from .interp import plist_norm, Poison, NeedPeel
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise NeedPeel('value')
    if op == 'Is':
        return is_same(a, b)
    if op == 'IsNot':
        r = is_same(a, b)
        return Not(r)
    if op == 'In':
        return contains(ip, b, a)
    if op == 'NotIn':
        return Not(T.truth(contains(ip, b, a)))
    a, b = plist_norm(a), plist_norm(b)
    seq = (PList, SymList, tuple, Range)
    if is_arr(a) and isinstance(b, seq):
        b = A(b)
    if is_arr(b) and isinstance(a, seq):
        a = A(a)
    if isinstance(a, Inst) and 'array' in a.ghost:
        a = a.ghost['array']()
    if isinstance(b, Inst) and 'array' in b.ghost:
        b = b.ghost['array']()
    if is_arr(a) or is_arr(b):
        if a is None or b is None:
            x = a if is_arr(a) else b
            if op in ('Eq', 'NotEq'):
                return ew(lambda v: op == 'NotEq', x, dtype='b')
            raise PyExc('TypeError', 'comparison with None')
        if any(is_arr(x) and x.dtype == 'U' for x in (a, b)) or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if op not in ('Eq', 'NotEq'):
                raise Unsupported('string order')
            f = (lambda x, y: str_eq(x, y)) if op == 'Eq' else (lambda x, y: Not(str_eq(x, y)))
            return ew(f, a, b, dtype='b')
        if isinstance(a, (Inst, PDict)) or isinstance(b, (Inst, PDict)):
            raise Unsupported('comparison')
        o = CMP[op]
        return ew(lambda x, y: T.cmp(o, x, y), a, b, dtype='b')
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if op == 'Eq':
            return str_eq(a, b)
        if op == 'NotEq':
            return Not(str_eq(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        raise Unsupported('string order')
    if isinstance(a, Dtype) or isinstance(b, Dtype):
        try:
            r = to_dtype(a) == to_dtype(b)
        except Unsupported:
            r = False
        return r if op == 'Eq' else not r
    if is_num(a) and is_num(b):
        return T.cmp(CMP[op], a, b)
    if isinstance(a, seq) and isinstance(b, seq):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return op == 'NotEq'
        r = seq_eq(ip, a, b)
        if op == 'Eq':
            return r
        if op == 'NotEq':
            return Not(r)
        raise Unsupported('sequence order')
    if op in ('Eq', 'NotEq'):
        if isinstance(a, Inst) and a.cls is not None and ip.lookup_method(a, '__eq__') is not None:
            raise Unsupported('__eq__')
        if isinstance(a, PDict) and isinstance(b, PDict):
            raise Unsupported('dict comparison')
        r = a is b or (a is None and b is None)
        return r if op == 'Eq' else not r
    if a is None or b is None:
        raise PyExc('TypeError', "'<' not supported")
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def seq_eq(ip, a, b):
    if a is b:
        return True
    na, nb = length(ip, a), length(ip, b)
    s = same_dim(na, nb)
    if s is None:
        s = E.decide(eq(na, nb))
    if not s:
        return False
    na, ia = ip.iteration(a)
    nb, ib = ip.iteration(b)
    n = const(na) if not is_sym(const(na)) else const(nb)
    if not is_sym(n):
        r = True
        for i in range(n):
            x, y = ia(i), ib(i)
            e = val_eq(ip, x, y)
            r = And(r, T.truth(e))
        return r
    return E.forall((n,), lambda j: T.truth(val_eq(ip, ia(j), ib(j))))


# ---- context managers ----------------------------------------------------------------
def enter(ip, c):
    if isinstance(c, ErrState):
        return None
    if isinstance(c, Inst):
        if c.cls is not None:
            m = ip.lookup_method(c, '__enter__')
            if m is not None:
                return ip.call(m)
        if c.ghost.get('context') is not None:
            return c
    raise Unsupported('with %r' % (c,))


def leave(ip, c):
    if isinstance(c, Inst) and callable(c.ghost.get('context')):
        c.ghost['context']()


class SuperObj:
    pass


def Super(ip, cls, self_):
    o = Inst(None)

    def get(name):
        if isinstance(self_, ClassVal):
            # metaclass method: super().__call__ builds the instance
            if name == '__call__':
                return Builtin('type.__call__', lambda *a, **k: ip.instantiate(self_, a, k))
            mro = self_.mro()
        else:
            mro = self_.cls.mro()
        i = mro.index(cls)
        for c in mro[i + 1:]:
            if isinstance(c, ClassVal) and name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, FuncVal):
                    if v.deco == 'staticmethod':
                        return v
                    return Bound(v, self_)
                return v
        if name == '__init__':
            return Builtin('object.__init__', noop)
        if isinstance(self_, Inst) and self_.data is not None:
            return dict_attr(ip, self_.data, name)
        if name == '__setattr__':
            return Builtin('object.__setattr__', lambda k, v: ip.setattr(self_, k, v))
        raise PyExc('AttributeError', name)
    o.ghost['getattr'] = get
    return o


# ---- builtins --------------------------------------------------------------------------
def install(ip):
    global IP
    IP = ip
    b = ip.builtins

    def reg(name, f):
        b[name] = Builtin(name, f)
    for nm in ('object', 'dict', 'type', 'list', 'Exception'):
        b[nm] = ClassVal(nm, [], {})
    del b['Exception']
    b['list'] = Builtin('list', lambda x=None: to_list(ip, x))
    b['tuple'] = Builtin('tuple', lambda x=(): to_tuple(ip, x))
    reg('len', lambda v: length(ip, v))
    reg('range', lambda *a: mkrange(a))
    reg('enumerate', lambda x, start=0: enum(ip, x, start))
    reg('zip', lambda *xs, **k: zip_(ip, xs))
    reg('print', noop)
    reg('abs', lambda x: npabs(x) if is_arr(x) else T.absv(x))
    reg('int', lambda x=0: to_int(x))
    reg('float', lambda x=Fraction(0): to_float(x))
    reg('bool', lambda x=False: ip.truth(x))
    reg('str', lambda x='': to_str(ip, x))
    reg('repr', lambda x: SStr(z3.Const(E.freshname('str.of!'), NameSort)))
    reg('isinstance', lambda x, c: isinstance_(ip, x, c))
    reg('issubclass', lambda x, c: x.isa(c))
    reg('hasattr', lambda o, n: hasattr_(ip, o, n))
    reg('getattr', lambda o, n, *d: getattr_(ip, o, n, d))
    reg('setattr', lambda o, n, v: ip.setattr(o, n, v))
    reg('callable', lambda x: isinstance(x, (FuncVal, Builtin, Bound, ClassVal)))
    reg('max', lambda *a, **k: minmax(ip, a, k, 1))
    reg('min', lambda *a, **k: minmax(ip, a, k, -1))
    reg('sum', lambda x, start=0: pysum(ip, x, start))
    reg('any', lambda x: pyany(ip, x))
    reg('all', lambda x: pyall(ip, x))
    reg('sorted', lambda x, **k: sorted_(ip, x, k))
    reg('reversed', lambda x: PList(list(reversed(to_list(ip, x).items))))
    reg('map', lambda f, *xs: map_(ip, f, xs))
    reg('id', lambda x: id(x))
    reg('round', rounded)
    reg('open', lambda *a, **k: IP.open(*a, **k))
    reg('set', lambda x=None: unsupported('set'))
    reg('iter', lambda x: unsupported('iter'))
    reg('next', lambda x, *d: next_(ip, x, d))
    reg('slice', lambda *a: Slice(*(a if len(a) == 3 else (tuple(a) + (None,) if len(a) == 2 else (None, a[0], None)))))
    reg('divmod', lambda x, y: (floordiv(x, y), mod(x, y)))
    reg('pow', lambda x, y: binary(ip, 'Pow', x, y))
    b['Ellipsis'] = Ellipsis
    b['NotImplemented'] = Builtin('NotImplemented', noop)
    b['__name__'] = 'kcorrect'
    if not hasattr(ip, 'rng_next'):
        ip.rng_next = lambda: unsupported('random numbers')
        ip.rng_loopvars = lambda: []
    if not hasattr(ip, 'fs'):
        ip.fs = lambda nm, p: strpred('fs.' + nm, p)
    if not hasattr(ip, 'listdir'):
        ip.listdir = listdir
    if not hasattr(ip, 'open'):
        ip.open = open_


_dirn = z3.Function('dir.n', NameSort, I)
_dirf = z3.Function('dir.file', NameSort, I, NameSort)


def listdir(p):
    t = strterm(p)
    n = _dirn(t)
    E.assumptions.append(n >= 0)
    return SymList(n, lambda i: SStr(_dirf(t, z(i))))


_wordn = z3.Function('file.nwords', NameSort, I)
_word = z3.Function('file.word', NameSort, I, NameSort)


def open_(path, mode='r', **kw):
    if mode not in ('r', 'rt'):
        raise Unsupported('open mode')
    t = strterm(path)
    o = Inst(None)
    o.ghost['context'] = noop
    s = SStr(z3.Const('file.text:' + t.sexpr(), NameSort))
    n = _wordn(t)
    E.assumptions.append(n >= 0)
    s.words = SymList(n, lambda i: SStr(_word(t, z(i))))
    o.attrs['read'] = Builtin('read', lambda *a: s)
    o.attrs['close'] = Builtin('close', noop)
    o.attrs['readlines'] = Builtin('readlines', lambda: unsupported('readlines'))
    return o


def unsupported(what):
    raise Unsupported(what)


def to_list(ip, x):
    from .interp import plist_norm
    if x is None:
        return PList([])
    x = plist_norm(x)
    if isinstance(x, SymList):
        return x
    n, it = ip.iteration(x)
    n = const(n)
    if is_sym(n):
        return SymList(n, it)
    return PList([it(i) for i in range(n)])


def to_tuple(ip, x):
    l = to_list(ip, x)
    if isinstance(l, SymList):
        return l
    return tuple(l.items)


def mkrange(a):
    a = [const(scal(x)) for x in a]
    if any(kind(x) == 'f' for x in a):
        raise PyExc('TypeError', 'float cannot be interpreted as an integer')
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if is_sym(step):
        raise Unsupported('symbolic step')
    return Range(start, rangelen(start, stop, step), step)


def enum(ip, x, start):
    n, it = ip.iteration(x)
    n = const(n)
    if is_sym(n):
        return SymList(n, lambda i: (add(i, start), it(i)))
    return PList([(i + start, it(i)) for i in range(n)])


def zip_(ip, xs):
    its = [ip.iteration(x) for x in xs]
    n = const(its[0][0])
    for m, _ in its[1:]:
        m = const(m)
        if same_dim(n, m):
            continue
        if not is_sym(n) and not is_sym(m):
            n = min(n, m)
        elif E.decide(le(m, n)):
            n = m
    if is_sym(n):
        return SymList(n, lambda i: tuple(f(i) for _, f in its))
    return PList([tuple(f(i) for _, f in its) for i in range(n)])


def map_(ip, f, xs):
    its = [ip.iteration(x) for x in xs]
    n = const(its[0][0])
    if is_sym(n):
        raise Unsupported('map over a symbolic iterable')
    return PList([ip.call(f, tuple(g(i) for _, g in its)) for i in range(n)])


def to_int(x):
    if isinstance(x, Inst) and 'array' in x.ghost:
        x = x.ghost['array']()
    if is_arr(x):
        x = item(x)
    if isinstance(x, (str, SStr)):
        return castv(x, 'i8')
    if x is None or not is_num(x):
        raise PyExc('TypeError', 'int()')
    return T.trunc(x)


def to_float(x):
    if isinstance(x, Inst) and 'array' in x.ghost:
        x = x.ghost['array']()
    if is_arr(x):
        x = item(x)
    if isinstance(x, (str, SStr)):
        return castv(x, 'f8')
    if x is None or not is_num(x):
        raise PyExc('TypeError', 'float()')
    return real(x)


def isinstance_(ip, x, c):
    if isinstance(c, tuple):
        return any(isinstance_(ip, x, y) for y in c)
    if isinstance(c, ClassVal):
        if c.name == 'dict' and isinstance(x, (PDict, SymDict)):
            return True
        if c.name == 'object':
            return True
        if isinstance(x, Inst) and x.cls is not None:
            return x.cls.isa(c)
        return False
    if isinstance(c, Builtin):
        n = c.name
        if n == 'list':
            return isinstance(x, (PList, SymList))
        if n == 'tuple':
            return isinstance(x, tuple)
        if n == 'str':
            return isinstance(x, (str, SStr))
        if n == 'float':
            return (is_num(x) and kind(x) == 'f') or (is_arr(x) and x.scalar and x.dtype == 'f8')
        if n == 'int':
            return is_num(x) and kind(x) in 'ib'
        if n == 'bool':
            return is_num(x) and kind(x) == 'b'
        if n == 'ndarray':
            return is_arr(x) and not x.scalar
    if isinstance(c, Dtype):
        if not (is_arr(x) and x.scalar):
            return False
        if c.name.startswith('abstract:'):
            return issubdtype(dtype_of(x.dtype), c)
        return x.dtype == c.name
    if isinstance(c, ExcClass):
        return isinstance(x, PyExc) and exc_isa(x.kind, c.name)
    raise Unsupported('isinstance')


def hasattr_(ip, o, n):
    try:
        ip.getattr(o, n)
        return True
    except PyExc as e:
        if e.kind == 'AttributeError':
            return False
        raise


def getattr_(ip, o, n, d):
    try:
        return ip.getattr(o, n)
    except PyExc as e:
        if d and e.kind == 'AttributeError':
            return d[0]
        raise


def minmax(ip, a, k, sgn):
    if k:
        raise Unsupported('min/max options')
    if len(a) == 1:
        x = a[0]
        if is_arr(x) and x.ndim:
            return extreme(sgn)(x)
        n, it = ip.iteration(x)
        if is_sym(const(n)):
            return extreme(sgn)(A(x))
        a = [it(i) for i in range(n)]
        if not a:
            raise PyExc('ValueError', 'empty sequence')
    f = T.maxv if sgn > 0 else T.minv
    r = scal(a[0])
    for x in a[1:]:
        r = f(r, scal(x))
    return r


def pysum(ip, x, start):
    n, it = ip.iteration(x)
    if is_sym(const(n)):
        v = it(E.fresh('ix!u'))
        if is_num(v) or (is_arr(v) and v.ndim == 0):
            return add(scal(start), E.sum(n, lambda i: scal(it(i))))
        if is_arr(v):
            return ew(add, mk(v.shape, lambda *ix: E.sum(n, lambda i: it(i).read(ix)), v.dtype), start)
        raise Unsupported('sum of objects')
    r = start
    for i in range(n):
        r = binary(ip, 'Add', r, it(i))
    return r


def pyany(ip, x):
    n, it = ip.iteration(x)
    if is_sym(const(n)):
        return E.exists((n,), lambda i: T.truth(scal(it(i))))
    return Or(*[T.truth(scal(it(i))) for i in range(n)])


def pyall(ip, x):
    n, it = ip.iteration(x)
    if is_sym(const(n)):
        return E.forall((n,), lambda i: T.truth(scal(it(i))))
    return And(*[T.truth(scal(it(i))) for i in range(n)])


def sorted_(ip, x, k):
    l = to_list(ip, x)
    if isinstance(l, PList) and not k:
        if all(isinstance(v, str) for v in l.items) or all(not is_sym(v) and is_num(v) for v in l.items):
            return PList(sorted(l.items))
    raise Unsupported('sorted')


def next_(ip, x, d):
    n, it = ip.iteration(x)
    n = const(n)
    if not is_sym(n):
        if n:
            return it(0)
        if d:
            return d[0]
        raise PyExc('StopIteration')
    if E.decide(gt(n, 0)):
        return it(0)
    if d:
        return d[0]
    raise PyExc('StopIteration')
