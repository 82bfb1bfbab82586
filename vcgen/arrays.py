"""Array operations: broadcasting, indexing, assignment, selection, reductions."""
import itertools
import math

from .values import *


def nd(x):
    return x.ndim if is_arr(x) else 0


def same_dim(a, b):
    a, b = const(a), const(b)
    if not is_sym(a) and not is_sym(b):
        return a == b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    return None


def dims_equal(a, b):
    """do two extents agree on this path (may fork)"""
    s = same_dim(a, b)
    if s is None:
        s = E.decide(eq(a, b))
    return s


def bshape(shapes):
    """broadcast shape; raises ValueError of the program when incompatible"""
    n = max(len(s) for s in shapes) if shapes else 0
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = len(s) - n + k
            if j < 0:
                continue
            e = s[j]
            if same_dim(e, 1):
                continue
            if same_dim(d, 1):
                d = e
                continue
            if dims_equal(d, e):
                if is_sym(d) and not is_sym(e):
                    d = e
                continue
            if E.decide(eq(e, 1)):
                continue
            if E.decide(eq(d, 1)):
                d = e
                continue
            raise PyExc('ValueError', 'operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bread(x, shape):
    """element function of x broadcast to shape"""
    if not is_arr(x):
        return lambda *idx: x
    r = x.reader()
    off = len(shape) - len(x.shape)
    one = []
    for k, d in enumerate(x.shape):
        if same_dim(d, shape[off + k]):
            one.append(False)
        elif not is_sym(d) and d == 1:
            one.append(True)
        else:
            # equal on this path by an earlier decision, or broadcast from 1
            v = E.known(eq(d, shape[off + k]))
            one.append(v is not True)
    return lambda *idx: r(*[0 if one[k] else idx[off + k] for k in range(len(x.shape))])


def result_dtype(xs, default=None):
    ds = [x.dtype for x in xs if is_arr(x)]
    sk = [kind(x) for x in xs if not is_arr(x) and is_num(x)]
    if not ds:
        return {'f': 'f8', 'i': 'i8', 'b': 'b'}['f' if 'f' in sk else ('i' if 'i' in sk else 'b')]
    order = ['b', 'u1', 'i2', 'i4', 'i8', 'f2', 'f4', 'f8']
    if any(d in ('U', 'O') for d in ds):
        raise Unsupported('arithmetic on non-numeric arrays')
    d = max(ds, key=order.index)
    if d == 'f4' and any(x in ('i4', 'i8') for x in ds):
        d = 'f8'
    if 'f' in sk and kind_of_dtype(d) != 'f':
        d = 'f8'
    if 'i' in sk and d == 'b':
        d = 'i8'
    return d


def ew(fn, *xs, dtype=None):
    """elementwise operation"""
    xs = [x if not isinstance(x, (PList, tuple)) else as_array(x) for x in xs]
    if not any(is_arr(x) for x in xs):
        return fn(*xs)
    dt = dtype or result_dtype(xs)
    shape = bshape([x.shape for x in xs if is_arr(x)])
    rs = [bread(x, shape) for x in xs]
    if not shape:
        v = fn(*[r() for r in rs])
        return npscalar(v, dt)
    return mk(shape, lambda *idx: fn(*[r(*idx) for r in rs]), dt)


def as_array(x, dtype=None):
    """np.array content of a value (fresh storage)"""
    if is_arr(x):
        r = x.reader()
        dt = dtype or x.dtype
        same = dt == x.dtype
        m = {k: v for k, v in x.meta.items()} if same else {}
        return mk(x.shape, r if same else (lambda *idx: cast_elem(r(*idx), dt)), dt, meta=m)
    if isinstance(x, SymList):
        if x.keep is not None:
            raise Unsupported('array of a filtered list')
        va = E.fresh('ix!a')
        sample = x.item(va)
        if isinstance(sample, (PList, tuple, SymList, Range)):
            it0 = x.item
            x = SymList(x.n, lambda i: as_array(it0(i)))
            sample = x.item(va)
            if any(is_sym(d) and any(c.get_id() == va.get_id() for c in free_consts([d])) for d in sample.shape):
                raise Unsupported('rows of different lengths')
            if not E.decide(gt(x.n, 0)):
                return mk((0,), lambda i: Fraction(0), dtype or 'f8')
        if is_arr(sample) and sample.ndim > 0:
            shp = sample.shape
            dt = dtype or sample.dtype
            return mk((x.n,) + shp, lambda i, *idx: cast_elem(x.item(i).read(idx), dt), dt)
        dt = dtype or (sample.dtype if is_arr(sample) else guess_dtype(sample))
        it = x.item

        def fn(i):
            v = it(i)
            return cast_elem(v.item() if is_arr(v) else v, dt)
        return mk((x.n,), fn, dt)
    if isinstance(x, Range):
        st, sp = x.start, x.step
        return mk((x.n,), lambda i: add(st, mul(sp, i)), dtype or 'i8')
    if isinstance(x, (PList, tuple)):
        items = x.items if isinstance(x, PList) else list(x)
        if not items:
            return mk((0,), lambda i: Fraction(0), dtype or 'f8')
        subs = [as_array(y) if isinstance(y, (PList, tuple, Arr, SymList, Range)) else y for y in items]
        if any(is_arr(s) for s in subs):
            subs = [s if is_arr(s) else npscalar(s, guess_dtype(s)) for s in subs]
            shp = subs[0].shape
            for s in subs[1:]:
                if len(s.shape) != len(shp) or not all(dims_equal(a, b) for a, b in zip(s.shape, shp)):
                    raise PyExc('ValueError', 'inhomogeneous array')
            dt = dtype or result_dtype(subs)
            rs = [s.reader() for s in subs]
            return mk((len(subs),) + shp, lambda i, *idx: cast_elem(pick(rs_vals(rs, idx), i), dt), dt)
        if any(v is None or isinstance(v, Inst) for v in subs):
            raise Unsupported('object array')
        ks = [guess_dtype(s) for s in subs]
        if 'U' in ks:
            dt = 'U'
        else:
            order = ['b', 'i8', 'f8']
            dt = dtype or max(ks, key=order.index)
        if dtype and 'U' in ks:
            dt = dtype
        vals = [cast_elem(s, dt) for s in subs]
        return mk((len(vals),), lambda i: pick(vals, i), dt)
    if isinstance(x, (SStr, str)):
        return npscalar(cast_elem(x, dtype or 'U'), dtype or 'U')
    if is_num(x):
        dt = dtype or guess_dtype(x)
        return npscalar(cast_elem(x, dt), dt)
    raise Unsupported('array of %r' % (type(x).__name__,))


def rs_vals(rs, idx):
    return [r(*idx) for r in rs]


def pick(vals, i):
    i = const(i)
    if not is_sym(i):
        # a position outside is read only by a branch that is not taken
        return vals[i] if -len(vals) <= i < len(vals) or not vals else vals[-1]
    if any(isinstance(v, (SStr, str)) for v in vals):
        r = strterm(vals[-1])
        for k in range(len(vals) - 2, -1, -1):
            r = z3.If(z(i) == k, strterm(vals[k]), r)
        return SStr(r)
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = If(eq(i, k), vals[k], r)
    return r


# ---- selections ----------------------------------------------------------------
class Sel:
    """the index tuples below shape at which a mask holds, in C order"""

    def __init__(self, shape, mask):
        self.shape, self.maskfn = tuple(shape), mask
        self.m = len(shape)
        outs = [('c', [], I)] + [('p%d' % d, [I], I) for d in range(self.m)] + [('r', [I] * self.m, I)]
        self.e, self.args = E.opaque('sel', shape, lambda *ix: [z(T.truth(mask(*ix)))], outs, arity=self.m)
        self.cnt = E.app(self.e, 'c', self.args)

    def mask(self, idx):
        return T.truth(self.maskfn(*idx))

    def pos(self, k):
        k = const(k)
        if is_sym(k) and z3.is_app(k) and k.decl().eq(self.e.syms['r']):
            ch = k.children()
            na = len(self.args)
            if all(a.eq(b) for a, b in zip(ch[:na], self.args)):
                return tuple(const(c) for c in ch[na:])
        return tuple(E.app(self.e, 'p%d' % d, self.args, [k]) for d in range(self.m))

    def rank(self, idx):
        if self.m == 1 and is_sym(const(idx[0])):
            t = const(idx[0])
            if z3.is_app(t) and t.decl().eq(self.e.syms['p0']) and all(a.eq(b) for a, b in zip(t.children()[:-1], self.args)):
                return const(t.children()[-1])
        return E.app(self.e, 'r', self.args, idx)


class ConcreteSel:
    def __init__(self, shape, idxs):
        self.shape, self.m, self.idxs = tuple(shape), len(shape), idxs
        self.cnt = len(idxs)

    def mask(self, idx):
        return Or(*[And(*[eq(a, b) for a, b in zip(t, idx)]) for t in self.idxs])

    def pos(self, k):
        if not self.idxs:
            return tuple(0 for _ in self.shape)
        return tuple(pick([t[d] for t in self.idxs], k) for d in range(self.m))

    def rank(self, idx):
        r = 0
        for n, t in enumerate(self.idxs):
            r = If(And(*[eq(a, b) for a, b in zip(t, idx)]), n, r)
        return r


def make_sel(a):
    """selection of the true elements of array a"""
    rd = a.reader()
    shape = a.shape

    def mask(*ix):
        return T.truth(rd(*ix))
    if all(not is_sym(d) for d in shape) and math.prod(shape) <= 64:
        vals = [(ix, const(mask(*ix))) for ix in itertools.product(*[range(d) for d in shape])]
        if all(not is_sym(v) for _, v in vals):
            return ConcreteSel(shape, [ix for ix, v in vals if v])
    s = Sel(shape, mask)
    known = E.__dict__.setdefault('sels', [])
    for o in known:
        if o.m == s.m and o.e is s.e and all(x.eq(y) for x, y in zip(o.args, s.args)):
            return o
    for o in reversed(known):
        if o.m == s.m and all(same_dim(x, y) for x, y in zip(o.shape, s.shape)):
            sk = [E.fresh('sk!q') for _ in shape]
            g = eq(And(mask(*sk)), And(o.mask(sk)))
            hyp = E.pcs() + [z(And(*[And(ge(x, 0), lt(x, d)) for x, d in zip(sk, shape)]))]
            pr = E.prove(g, hyp, ms=800)
            if pr[0] == 'proved':
                return o
    known.append(s)
    n = len(known)

    def undo():
        if s in known:
            known.remove(s)
    E.undoable(undo)
    return s


def nonzero(a):
    if a.ndim == 0:
        raise Unsupported('nonzero of a scalar')
    s = make_sel(a)
    out = []
    for d in range(s.m):
        meta = {'seltuple': (s, d), 'inrange': s.shape[d]}
        if s.m == 1:
            meta['inv'] = lambda b: (s.mask((b,)), s.rank((b,)))
        out.append(mk((s.cnt,), (lambda d: lambda k: s.pos(k)[d])(d), 'i8', meta=meta))
    return tuple(out)


# ---- indexing --------------------------------------------------------------------
class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def scal(x):
    """0-d array / number as element"""
    return x.item() if is_arr(x) else x


def norm_index(k, dim):
    """integer index made nonnegative, or IndexError of the program"""
    k = b2i(const(k))
    if not is_sym(k):
        if k < 0:
            kk = add(dim, k)
            if E.decide(lt(kk, 0)):
                raise PyExc('IndexError', 'index out of bounds')
            return kk
        if E.decide(ge(k, dim)):
            raise PyExc('IndexError', 'index out of bounds')
        return k
    if E.decide(lt(k, 0)):
        k = add(k, dim)
        if E.decide(lt(k, 0)):
            raise PyExc('IndexError', 'index out of bounds')
        return k
    if E.decide(ge(k, dim)):
        raise PyExc('IndexError', 'index out of bounds')
    return k


def clampslice(s, dim):
    """(start, step, count) of a slice"""
    step = const(scal(s.step)) if s.step is not None else 1
    if is_sym(step):
        raise Unsupported('symbolic slice step')
    start = None if s.start is None else const(scal(s.start))
    stop = None if s.stop is None else const(scal(s.stop))

    def at(v, default):
        if v is None:
            return default
        if is_sym(v):
            if E.decide(lt(v, 0)):
                v = add(v, dim)
                return v if E.decide(ge(v, 0)) else 0
        elif v < 0:
            v = add(dim, v)
            if is_sym(v):
                return v if E.decide(ge(v, 0)) else 0
            return max(v, 0)
        if not is_sym(v) and not is_sym(dim):
            return min(v, dim)
        if same_dim(v, dim):
            return v
        if E.decide(le(v, dim)):
            return v
        return dim
    if step > 0:
        a, b = at(start, 0), at(stop, dim)
        n = sub(b, a)
        if is_sym(n):
            if not E.decide(ge(n, 0)):
                n = 0
        else:
            n = max(n, 0)
        if step != 1:
            n = floordiv(add(n, step - 1), step)
        return a, step, n
    if step == -1 and start is None and stop is None:
        return sub(dim, 1), -1, dim
    raise Unsupported('slice with negative step and bounds')


class BoolKey:
    """a boolean scalar as an index: a new axis of length one or zero"""

    def __init__(self, true):
        self.true = true


def plan(a, key):
    """resolve an index expression: list of per-axis entries"""
    keys = list(key) if isinstance(key, tuple) else [key]
    ks = []
    for k in keys:
        if isinstance(k, PList):
            k = as_array(k)
        elif isinstance(k, tuple):
            k = as_array(k)
        if is_arr(k) and k.ndim == 0:
            isb = k.dtype == 'b'
            k = k.item()
            if isb or isinstance(k, bool) or (is_sym(k) and z3.is_bool(k)):
                ks.append(BoolKey(E.decide(T.truth(k))))
                continue
            if kind(k) == 'f':
                raise PyExc('IndexError', 'only integers are valid indices')
        elif isinstance(k, bool) or (is_sym(k) and z3.is_bool(k)):
            ks.append(BoolKey(E.decide(k)))
            continue
        elif k is not None and not is_arr(k) and not isinstance(k, (Slice, type(Ellipsis))):
            if not is_num(k):
                if isinstance(k, (str, SStr)):
                    raise PyExc('IndexError', 'string index')
                raise Unsupported('index %r' % (k,))
            if kind(k) == 'f':
                raise PyExc('IndexError', 'only integers are valid indices')
        ks.append(k)

    if any(isinstance(k, BoolKey) for k in ks) and not all(isinstance(k, (BoolKey, Slice, type(Ellipsis))) for k in ks):
        raise Unsupported('boolean scalar index with other indices')
    if sum(isinstance(k, BoolKey) for k in ks) > 1:
        raise Unsupported('several boolean scalar indices')

    def consumes(k):
        if k is None or k is Ellipsis or isinstance(k, BoolKey):
            return 0
        if is_arr(k) and k.dtype == 'b':
            return k.ndim
        return 1
    used = sum(consumes(k) for k in ks)
    if used > a.ndim:
        raise PyExc('IndexError', 'too many indices for array')
    if not any(k is Ellipsis for k in ks):
        ks.append(Ellipsis)
    out, d = [], 0
    for k in ks:
        if k is Ellipsis:
            for _ in range(a.ndim - used):
                out.append(('slice', 0, 1, a.shape[d], d))
                d += 1
        elif k is None:
            out.append(('new',))
        elif isinstance(k, BoolKey):
            out.append(('new', 1 if k.true else 0))
        elif isinstance(k, Slice):
            st, sp, n = clampslice(k, a.shape[d])
            out.append(('slice', st, sp, n, d))
            d += 1
        elif is_arr(k) and k.dtype == 'b':
            for j in range(k.ndim):
                if not dims_equal(k.shape[j], a.shape[d + j]):
                    raise PyExc('IndexError', 'boolean index did not match')
            out.append(('sel', make_sel(k), d))
            d += k.ndim
        elif is_arr(k):
            if kind_of_dtype(k.dtype) != 'i':
                raise PyExc('IndexError', 'arrays used as indices must be of integer type')
            out.append(('adv', k, d))
            d += 1
        else:
            out.append(('int', norm_index(k, a.shape[d]), d))
            d += 1
    # consecutive components of one selection
    res, i = [], 0
    while i < len(out):
        e = out[i]
        if e[0] == 'adv' and 'seltuple' in e[1].meta and e[1].meta['seltuple'][0].m > 0:
            s = e[1].meta['seltuple'][0]
            grp = out[i:i + s.m]
            if len(grp) == s.m and all(g[0] == 'adv' and g[1].meta.get('seltuple', (None, 0))[0] is s and g[1].meta['seltuple'][1] == j
                                       for j, g in enumerate(grp)):
                ok = all(dims_equal(s.shape[j], a.shape[e[2] + j]) for j in range(s.m))
                if ok:
                    res.append(('sel', s, e[2]))
                    i += s.m
                    continue
        res.append(e)
        i += 1
    return res


def advfix(e, dim):
    """element function of an index array with bounds check and wrap-around"""
    k = e[1]
    rd = k.reader()
    ir = k.meta.get('inrange')
    if ir is not None and (same_dim(ir, dim) or E.known(le(ir, dim)) is True):
        return rd, k.meta.get('inv')
    bad = E.exists(k.shape, lambda *ix: Or(lt(rd(*ix), neg(dim)), ge(rd(*ix), dim)))
    if E.decide(bad):
        raise PyExc('IndexError', 'index out of bounds')
    hasneg = E.exists(k.shape, lambda *ix: lt(rd(*ix), 0))
    if E.decide(hasneg):
        return (lambda *ix: If(lt(rd(*ix), 0), add(rd(*ix), dim), rd(*ix))), None
    return rd, k.meta.get('inv')


def resolve(a, key):
    """(shape, fwd: out idx -> view idx, inv: view idx -> (cond, out idx) or None, isview)"""
    p = plan(a, key)
    advs = [e for e in p if e[0] in ('adv', 'sel')]
    if not advs:
        shape, spec = [], []
        for e in p:
            if e[0] == 'new':
                spec.append(('new', e[1] if len(e) > 1 else 1))
                shape.append(e[1] if len(e) > 1 else 1)
            elif e[0] == 'slice':
                spec.append(('s', e[1], e[2], e[4], len(shape), e[3]))
                shape.append(e[3])
            else:
                spec.append(('i', e[1], e[2]))

        def fwd(idx):
            out = [None] * a.ndim
            for s in spec:
                if s[0] == 's':
                    out[s[3]] = add(s[1], mul(s[2], idx[s[4]])) if (s[2] != 1 or not same_dim(s[1], 0)) else idx[s[4]]
                elif s[0] == 'i':
                    out[s[2]] = s[1]
            return tuple(out)

        def inv(idx):
            c, out = [], [0] * len(shape)
            for s in spec:
                if s[0] == 's':
                    b = idx[s[3]]
                    full = s[2] == 1 and same_dim(s[1], 0) and same_dim(s[5], a.shape[s[3]])
                    if full:
                        out[s[4]] = b
                    elif s[2] == 1:
                        c.append(ge(b, s[1]))
                        c.append(lt(b, add(s[1], s[5])))
                        out[s[4]] = sub(b, s[1])
                    elif s[2] > 0:
                        c.append(ge(b, s[1]))
                        c.append(eq(mod(sub(b, s[1]), s[2]), 0))
                        c.append(lt(floordiv(sub(b, s[1]), s[2]), s[5]))
                        out[s[4]] = floordiv(sub(b, s[1]), s[2])
                    else:
                        out[s[4]] = sub(s[1], b)
                elif s[0] == 'i':
                    c.append(eq(idx[s[2]], s[1]))
                elif s[1] == 0:
                    c.append(False)
            return And(*c), tuple(out)
        return tuple(shape), fwd, inv, not any(e[0] == 'new' and len(e) > 1 for e in p)
    # advanced indexing: one broadcast group
    advshape = None
    fns = []
    shapes = []
    for e in p:
        if e[0] == 'sel':
            shapes.append((e[1].cnt,))
        elif e[0] == 'adv':
            shapes.append(e[1].shape)
    advshape = bshape(shapes)
    na = len(advshape)
    # placement: contiguous (counting integer entries as advanced) or in front
    pos = [i for i, e in enumerate(p) if e[0] in ('adv', 'sel', 'int')]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    shape, spec = [], []
    placed = False
    base = None
    if not contiguous:
        base = 0
        shape += list(advshape)
        placed = True
    for e in p:
        if e[0] in ('adv', 'sel', 'int'):
            if not placed:
                base = len(shape)
                shape += list(advshape)
                placed = True
            if e[0] == 'int':
                spec.append(('i', e[1], e[2]))
            elif e[0] == 'sel':
                spec.append(('sel', e[1], e[2]))
            else:
                f, inv1 = advfix(e, a.shape[e[2]])
                spec.append(('adv', f, e[2], inv1, e[1].shape))
        elif e[0] == 'new':
            shape.append(1)
        else:
            spec.append(('s', e[1], e[2], e[4], len(shape), e[3]))
            shape.append(e[3])

    def fwd(idx):
        out = [None] * a.ndim
        ai = idx[base:base + na]
        for s in spec:
            if s[0] == 's':
                out[s[3]] = add(s[1], mul(s[2], idx[s[4]]))
            elif s[0] == 'i':
                out[s[2]] = s[1]
            elif s[0] == 'sel':
                for d, x in enumerate(s[1].pos(ai[-1])):
                    out[s[2] + d] = x
            else:
                off = na - len(s[4])
                out[s[2]] = s[1](*[0 if same_dim(s[4][j], 1) and not same_dim(advshape[off + j], 1) else ai[off + j] for j in range(len(s[4]))])
        return tuple(out)

    groups = [s for s in spec if s[0] in ('adv', 'sel')]
    inv = None
    if na == 1 and len(groups) == 1:
        g = groups[0]
        if g[0] == 'sel' or g[3] is not None:
            def inv(idx):
                c, out = [], [0] * len(shape)
                for s in spec:
                    if s[0] == 's':
                        b = idx[s[3]]
                        if not (s[2] == 1 and same_dim(s[1], 0) and same_dim(s[5], a.shape[s[3]])):
                            c += [ge(b, s[1]), lt(b, add(s[1], mul(s[2], s[5])))]
                            if s[2] != 1:
                                c.append(eq(mod(sub(b, s[1]), s[2]), 0))
                        out[s[4]] = sub(b, s[1]) if s[2] == 1 else floordiv(sub(b, s[1]), s[2])
                    elif s[0] == 'i':
                        c.append(eq(idx[s[2]], s[1]))
                    elif s[0] == 'sel':
                        sub_ = idx[s[2]:s[2] + s[1].m]
                        c.append(s[1].mask(sub_))
                        out[base] = s[1].rank(sub_)
                    else:
                        cc, kk = s[3](idx[s[2]])
                        c.append(cc)
                        out[base] = kk
                return And(*c), tuple(out)
        elif all(not is_sym(d) for d in advshape) and advshape[0] <= 32:
            f = g[1]

            def inv(idx):
                c, out = [], [0] * len(shape)
                for s in spec:
                    if s[0] == 's':
                        b = idx[s[3]]
                        if not (s[2] == 1 and same_dim(s[1], 0) and same_dim(s[5], a.shape[s[3]])):
                            c += [ge(b, s[1]), lt(b, add(s[1], mul(s[2], s[5])))]
                            if s[2] != 1:
                                c.append(eq(mod(sub(b, s[1]), s[2]), 0))
                        out[s[4]] = sub(b, s[1]) if s[2] == 1 else floordiv(sub(b, s[1]), s[2])
                    elif s[0] == 'i':
                        c.append(eq(idx[s[2]], s[1]))
                    else:
                        hit = [eq(f(k), idx[s[2]]) for k in range(advshape[0])]
                        c.append(Or(*hit))
                        r = 0
                        for k in range(advshape[0]):
                            r = If(hit[k], k, r)
                        out[base] = r
                return And(*c), tuple(out)
        else:
            g0 = g

            def inv(idx):
                # some position holds this index: existence with its witness (last-writer ambiguity is excluded
                # by only allowing values that do not depend on the position; see setitem)
                c, out = [], [0] * len(shape)
                for s in spec:
                    if s[0] == 's':
                        b = idx[s[3]]
                        if not (s[2] == 1 and same_dim(s[1], 0) and same_dim(s[5], a.shape[s[3]])):
                            c += [ge(b, s[1]), lt(b, add(s[1], mul(s[2], s[5])))]
                        out[s[4]] = sub(b, s[1])
                    elif s[0] == 'i':
                        c.append(eq(idx[s[2]], s[1]))
                    else:
                        c.append(E.exists(s[4], lambda k: eq(s[1](k), idx[s[2]])))
                        out[base] = None
                return And(*c), tuple(out)
            inv.nopos = base
    return tuple(shape), fwd, inv, False


def getitem(a, key):
    shape, fwd, inv, view = resolve(a, key)
    if view:
        if not shape:
            return npscalar(a.read(fwd(())), a.dtype)
        if a.fwd is None:
            return Arr(a.buf, shape, fwd, inv)
        f0, i0 = a.fwd, a.inv

        def inv2(b):
            c0, v = i0(b)
            c1, o = inv(v)
            return And(c0, c1), o
        return Arr(a.buf, shape, lambda idx: f0(fwd(idx)), inv2)
    rd = a.reader()
    meta = {}
    if a.ndim == 1 and 'inv' in a.meta and inv is not None and len(shape) == 1 and not getattr(inv, 'nopos', None) is not None:
        i0 = a.meta['inv']

        def inv3(b):
            c, k = i0(b)
            c2, o = inv((k,))
            return And(c, c2), o[0]
        meta['inv'] = inv3
    if a.ndim == 1 and 'inrange' in a.meta:
        meta['inrange'] = a.meta['inrange']
    return mk(shape, lambda *idx: rd(*fwd(idx)), a.dtype, meta=meta)


def setitem(a, key, value):
    if a.scalar:
        raise PyExc('TypeError', 'scalar does not support item assignment')
    if isinstance(value, (PList, tuple, SymList, Range)):
        value = as_array(value)
    if is_arr(value) and value.dtype == 'U' and kind_of_dtype(a.dtype) in 'fi':
        raise Unsupported('string store')
    shape, fwd, inv, view = resolve(a, key)
    if is_arr(value):
        vs = value.shape
        while len(vs) > len(shape):
            if not dims_equal(vs[0], 1):
                raise PyExc('ValueError', 'could not broadcast input array')
            value = getitem(value, 0)
            if not is_arr(value):
                value = npscalar(value, 'f8')
            vs = value.shape
        off = len(shape) - len(vs)
        for j, d in enumerate(vs):
            if same_dim(d, 1) or dims_equal(d, shape[off + j]):
                continue
            if not E.decide(eq(d, 1)):
                raise PyExc('ValueError', 'could not broadcast input array')
        rd = bread(value, shape)
        if getattr(inv, 'nopos', None) is not None and len(vs) > len(shape) - inv.nopos - 1 + 0 and len(vs) - (len(shape) - inv.nopos) >= 0:
            raise Unsupported('scatter of varying values through an index array')
    else:
        if value is None or isinstance(value, (Inst, PDict)):
            raise Unsupported('store of %r' % (value,))
        rd = lambda *idx: value
    if inv is None:
        raise Unsupported('assignment through several index arrays')
    dt = a.dtype
    buf = a.buf
    old = buf.elem
    i0 = a.inv

    def where(b):
        if i0 is None:
            return inv(b)
        c0, v = i0(b)
        c1, o = inv(v)
        return And(c0, c1), o

    def cond(b):
        return where(b)[0]

    def val(b):
        return cast_elem(rd(*where(b)[1]), dt)

    def elem(b):
        c, o = where(b)
        if c is False:
            return old(b)
        v = cast_elem(rd(*o), dt)
        if c is True:
            return v
        ov = old(b)
        if isinstance(v, (SStr, str)) or isinstance(ov, (SStr, str)):
            return SStr(z3.If(z(c), strterm(v), strterm(ov)))
        return If(c, v, ov)
    buf.set(elem, cond, val)


# ---- shape operations --------------------------------------------------------------
def transpose(a, axes=None):
    n = a.ndim
    axes = [x % n for x in axes] if axes else list(range(n))[::-1]
    shape = tuple(a.shape[k] for k in axes)

    def fwd(idx):
        out = [None] * n
        for j, k in enumerate(axes):
            out[k] = idx[j]
        return tuple(out)

    def inv(idx):
        return True, tuple(idx[k] for k in axes)
    return view(a, shape, fwd, inv)


def view(a, shape, fwd, inv):
    if a.fwd is None:
        return Arr(a.buf, shape, fwd, inv)
    f0, i0 = a.fwd, a.inv

    def inv2(b):
        c0, v = i0(b)
        c1, o = inv(v)
        return And(c0, c1), o
    return Arr(a.buf, shape, lambda idx: f0(fwd(idx)), inv2)


def squeeze(a, axis=None):
    keep = []
    for k, d in enumerate(a.shape):
        if axis is not None:
            ax = axis if isinstance(axis, tuple) else (axis,)
            if k in [x % a.ndim for x in ax]:
                if not E.decide(eq(d, 1)):
                    raise PyExc('ValueError', 'cannot squeeze')
                continue
            keep.append(k)
        elif not E.decide(eq(d, 1)):
            keep.append(k)
    if len(keep) == a.ndim:
        return a
    shape = tuple(a.shape[k] for k in keep)

    def fwd(idx):
        out = [0] * a.ndim
        for j, k in enumerate(keep):
            out[k] = idx[j]
        return tuple(out)

    def inv(idx):
        return And(*[eq(idx[k], 0) for k in range(a.ndim) if k not in keep]), tuple(idx[k] for k in keep)
    return view(a, shape, fwd, inv)


def size_of(shape):
    r = 1
    for d in shape:
        r = mul(r, d)
    return r


def reshape(a, shape):
    shape = [const(scal(d)) for d in shape]
    neg1 = [k for k, d in enumerate(shape) if not is_sym(d) and d == -1]
    # strip/insert unit axes is the common case: match the non-unit extents in order
    def nonunit(s):
        return [k for k, d in enumerate(s) if not (not is_sym(d) and d == 1)]
    if neg1:
        if len(shape) == 1:
            total = size_of(a.shape)
            shape = [total]
        else:
            rest = [d for k, d in enumerate(shape) if k != neg1[0]]
            src = [d for d in a.shape]
            for d in rest:
                if not is_sym(d) and d == 1:
                    continue
                m = [k for k, x in enumerate(src) if same_dim(x, d)]
                if not m:
                    raise Unsupported('reshape with -1')
                src.pop(m[0])
            shape[neg1[0]] = size_of(src)
    sa, sb = nonunit(a.shape), nonunit(shape)
    if len(sa) == len(sb) and all(same_dim(a.shape[i], shape[j]) for i, j in zip(sa, sb)):
        ok = True
    elif len(sa) == len(sb) or len(a.shape) == len(shape):
        # extents equal on this path?
        if len(a.shape) == len(shape):
            ok = all(dims_equal(x, y) for x, y in zip(a.shape, shape))
            sa = sb = list(range(len(shape)))
        else:
            ok = all(dims_equal(a.shape[i], shape[j]) for i, j in zip(sa, sb))
        if not ok:
            tot = eq(size_of(a.shape), size_of(shape))
            if not E.decide(tot):
                raise PyExc('ValueError', 'cannot reshape array')
    else:
        ok = False
        # unit extents known only on this path
        sa = [k for k in sa if not (is_sym(a.shape[k]) and E.known(eq(a.shape[k], 1)) is True)]
        sb = [k for k in sb if not (is_sym(shape[k]) and E.known(eq(shape[k], 1)) is True)]
        if len(sa) == len(sb) and all(dims_equal(a.shape[i], shape[j]) for i, j in zip(sa, sb)):
            ok = True
        elif not E.decide(eq(size_of(a.shape), size_of(shape))):
            raise PyExc('ValueError', 'cannot reshape array')
    if ok:
        def fwd(idx):
            out = [0] * a.ndim
            for i, j in zip(sa, sb):
                out[i] = idx[j]
            return tuple(out)

        def inv(idx):
            out = [0] * len(shape)
            for i, j in zip(sa, sb):
                out[j] = idx[i]
            return True, tuple(out)
        return view(a, tuple(shape), fwd, inv)

    # general: through the flat index
    def flat(idx, shp):
        r = 0
        for i, d in zip(idx, shp):
            r = add(mul(r, d), i)
        return r

    def unflat(f, shp):
        out = []
        for d in reversed(shp[1:]):
            out.append(mod(f, d))
            f = floordiv(f, d)
        out.append(f)
        return tuple(reversed(out))
    return view(a, tuple(shape), lambda idx: unflat(flat(idx, shape), a.shape) if a.shape else (),
                lambda idx: (True, unflat(flat(idx, a.shape), shape) if shape else ()))


def concat(xs, axis=0):
    xs = [as_array(x) if not is_arr(x) else x for x in xs]
    n = xs[0].ndim
    axis %= n
    starts, tot = [], 0
    for x in xs:
        if x.ndim != n or not all(dims_equal(x.shape[k], xs[0].shape[k]) for k in range(n) if k != axis):
            raise PyExc('ValueError', 'concatenate dimensions')
        starts.append(tot)
        tot = add(tot, x.shape[axis])
    rs = [x.reader() for x in xs]
    dt = result_dtype(xs)
    shape = tuple(tot if k == axis else xs[0].shape[k] for k in range(n))

    def fn(*idx):
        r = None
        for x, rd, s in reversed(list(zip(xs, rs, starts))):
            j = list(idx)
            j[axis] = sub(idx[axis], s)
            v = rd(*j)
            r = v if r is None else If(lt(idx[axis], add(s, x.shape[axis])), v, r)
        return r
    return mk(shape, fn, dt)


def reduce_sum(a, axis=None, keep=False):
    if not is_arr(a):
        a = as_array(a)
    if a.ndim == 0:
        return a
    rd = a.reader()
    isb = kind_of_dtype(a.dtype) == 'b'
    dt = a.dtype if not isb else 'i8'
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    rest = [k for k in range(a.ndim) if k not in axes]

    def fn(*idx):
        def go(done, todo):
            if not todo:
                full = [None] * a.ndim
                for k, v in zip(rest, idx):
                    full[k] = v
                for k, v in done:
                    full[k] = v
                v = rd(*full)
                return b2i(v) if isb else v
            k = todo[0]
            return E.sum(a.shape[k], lambda j: go(done + [(k, j)], todo[1:]))
        r = go([], axes)
        if kind_of_dtype(dt) == 'i':
            return T.trunc(r)
        return r
    shape = tuple(a.shape[k] for k in rest)
    if not shape:
        return npscalar(fn(), dt)
    out = mk(shape, fn, dt)
    if keep:
        raise Unsupported('keepdims')
    return out


def dot(a, b):
    if not is_arr(a):
        a = as_array(a)
    if not is_arr(b):
        b = as_array(b)
    dt = result_dtype([a, b])
    if a.ndim == 0 or b.ndim == 0:
        return ew(mul, a, b)
    ra, rb = a.reader(), b.reader()
    ka = a.shape[-1]
    kb = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not dims_equal(ka, kb):
        raise PyExc('ValueError', 'shapes not aligned')
    sa = a.shape[:-1]
    sb = () if b.ndim == 1 else b.shape[:-2] + b.shape[-1:]
    na = len(sa)

    def fn(*idx):
        i, j = idx[:na], idx[na:]
        if b.ndim == 1:
            return E.sum(ka, lambda k: mul(ra(*i, k), rb(k)))
        return E.sum(ka, lambda k: mul(ra(*i, k), rb(*j[:-1], k, j[-1])))
    shape = sa + sb
    if not shape:
        return npscalar(fn(), dt)
    return mk(shape, fn, dt)


def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins) - {','} if ins.count(c) == 1))
    ins = ins.split(',')
    if '...' in spec or len(ins) != len(ops):
        raise Unsupported('einsum form')
    ops = [o if is_arr(o) else as_array(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyExc('ValueError', 'einsum operand rank')
        for c, d in zip(s, o.shape):
            if c in dims:
                if not dims_equal(dims[c], d):
                    raise PyExc('ValueError', 'einsum extents')
            else:
                dims[c] = d
    inner = [c for c in dims if c not in out]
    rs = [o.reader() for o in ops]

    def fn(*idx):
        env = dict(zip(out, idx))

        def go(todo):
            if not todo:
                r = Fraction(1)
                for s, rd in zip(ins, rs):
                    r = mul(r, rd(*[env[c] for c in s]))
                return r
            c = todo[0]

            def body(j):
                env[c] = j
                return go(todo[1:])
            return E.sum(dims[c], body)
        return go(inner)
    shape = tuple(dims[c] for c in out)
    dt = result_dtype(ops)
    if not shape:
        return npscalar(fn(), dt)
    return mk(shape, fn, dt)


def trapezoid(y, x=None, dx=1, axis=-1):
    y = y if is_arr(y) else as_array(y)
    if y.ndim == 0:
        raise PyExc('IndexError', 'tuple index out of range')
    ry = y.reader()
    n = y.shape[-1]
    if x is not None:
        x = x if is_arr(x) else as_array(x)
        rx = x.reader()
        if x.ndim == 1:
            if not dims_equal(x.shape[0], n):
                raise PyExc('ValueError', 'trapezoid operands')
            width = lambda lead, k: sub(rx(add(k, 1)), rx(k))
        elif x.ndim == y.ndim:
            width = lambda lead, k: sub(rx(*lead, add(k, 1)), rx(*lead, k))
        else:
            raise Unsupported('trapezoid operands')
    else:
        width = lambda lead, k: dx

    def fn(*lead):
        return E.sum(sub(n, 1), lambda k: mul(mul(width(lead, k), Fraction(1, 2)), add(ry(*lead, k), ry(*lead, add(k, 1)))))
    shape = y.shape[:-1]
    if axis not in (-1, y.ndim - 1):
        raise Unsupported('trapezoid axis')
    if not shape:
        return npscalar(fn(), 'f8')
    return mk(shape, fn, 'f8')


def opaque_vec(name, a, extra_outs=()):
    """symbols determined by the content of a 1-D array"""
    rd = a.reader()
    return E.opaque('op', [a.shape[0]], lambda k: [zr(rd(k)) if kind_of_dtype(a.dtype) == 'f' else z(rd(k))], list(extra_outs), extra=name)
