"""Differential test of the numpy model (vcgen/npmodel.py) against the real numpy.

Each program below is run by the real interpreter with the real numpy, and by vcgen (a) on concrete arrays and (b) on arrays of
symbolic size and content that are assumed to be those arrays.  agrees: the model proves numpy's result; consistent: it neither proves nor
excludes it (the model is weaker than numpy there, which can only leave obligations undecided); DIFFERENT: it excludes numpy's result.
usage: python3-vt tools/modeltest.py [-v]     exit 1 if a result differs
"""
import os
import sys
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import ast                                             # noqa: E402

import numpy as np                                     # noqa: E402
import scipy.integrate                                 # noqa: E402
import z3                                              # noqa: E402

from vcgen.verify import Ver, sym_array, dim           # noqa: E402
from vcgen.engine import E                             # noqa: E402
from vcgen.values import *                             # noqa: E402,F403
from vcgen.terms import *                              # noqa: E402,F403
from vcgen import terms as T                           # noqa: E402
from vcgen.interp import Env, plist_norm               # noqa: E402

V = np.array([3., -1., 0., 4., 2., -1.])
W = np.array([1., 2., 4., 5., 8., 9.])
M = np.array([[1., 2., 3.], [0., -4., 5.], [7., 0., 0.5], [2., 2., -2.]])
C = np.arange(24.).reshape(2, 3, 4) - 5
I = np.array([2, 0, 5, 2])
PROGRAMS = '''
V[1:4]
V[::-1]
np.flatnonzero(V > 0).max()
np.where(V > 0)[0].min()
V[-2:]
V[:-1] + V[1:]
V[V > 0]
V[(V > 0) & (V < 4)]
V[~(V > 0)]
V[I]
V[[0, 2]]
V[np.where(V > 0)[0]]
np.where(V > 0)[0]
np.where(V > 0, V, -9999.)
np.where(V > 100)[0]
np.nonzero(V)[0]
np.flatnonzero(V < 0)
M[1]
M[:, 1]
M[1:3, ::2]
M[M > 0]
M[np.where(M > 0)]
M[:, [2, 0]]
M[[0, 1], :]
M[..., 0]
M[..., np.newaxis].shape
M[np.newaxis, :, 1]
M[:, np.newaxis, :] * np.ones((4, 2, 1))
M[V[:4] > 0]
M[V[:4] > 0, :]
M[V[:4] > 0, 1]
M[np.where(V[:4] > 0)[0], 1]
M.T
M.sum()
M.sum(axis=0)
M.sum(axis=-1)
M.sum(axis=-1) > 0
M.mean(axis=1)
M.max()
M.min()
V.max()
V.min()
np.argmax(V)
np.argmin(V)
V.argmax()
C[..., 1]
C[0]
C[:, 1:, ::3]
C.sum(axis=1)
C.transpose(1, 0, 2)[:, :, 0]
np.transpose(C)[0]
np.swapaxes(C, 0, 2)[1]
C.reshape(6, 4)
C.reshape(-1, 2)
C.reshape((2, 12))
C.ravel()
np.squeeze(V.reshape(1, 6))
np.squeeze(V[:1])
np.squeeze(M[:1])
np.tile(V, (3, 1))
np.transpose(np.tile(V, (3, 1)))
np.repeat(V[:3], 2)
np.outer(V, np.ones(2, dtype=np.float32))
np.outer(V[:2], V[2:5])
np.dot(M, V[:3])
M.dot(V[:3])
M.T.dot(V[:4])
M @ M.T
np.einsum('ij,j->i', M, V[:3])
np.einsum('ijk,ki->ij', C, M[:, :2])
np.einsum('ijk,ik->ij', C, M.T[:2])
(C * M.T[:2][:, np.newaxis, :]).sum(axis=-1)
np.concatenate((V, W))
np.concatenate([M, M[:1]], axis=0)
np.append(V, W)
np.append(V[V > 0], W)
np.unique(np.append(V, W))
np.unique(V)
np.sort(V)
np.argsort(W)
np.argsort(-W)
V[np.argsort(W)]
W[np.argsort(-W)]
np.diff(W)
np.stack((V, W))
np.vstack((V, W))
np.column_stack((V, W))
np.hstack((V, W))
np.atleast_2d(V)
np.atleast_1d(V[0])
np.expand_dims(V, 0)
np.broadcast_to(V[:3], (2, 3))
np.zeros_like(M)
np.full((2, 2), 7.)
np.full_like(V, 2.)
np.arange(5) * 2
np.arange(2, 11, 3)
np.linspace(0., 1., 5)
np.abs(V)
np.sign(V)
np.sqrt(W * W)
np.maximum(V, W)
np.minimum(V, 1.)
np.clip(V, 0., 3.)
np.any(V > 3)
np.all(V > -2)
(V > 0).any()
(V > 0).sum()
np.count_nonzero(V)
np.searchsorted(W, 4.)
np.searchsorted(W, 4., side='right')
np.searchsorted(W, 4.5)
np.searchsorted(W, 100.)
np.take(V, I)
np.take(M, [2, 0], axis=1)
np.take(M, [2, 0], axis=-1)
np.take(M, I)
M.take(1, axis=0)
np.compress(V > 0, V)
V.compress(V < 0)
np.divide(V, W, out=np.zeros(6), where=V > 0)
np.divide(V, W, out=np.ones_like(W), where=(V > 0) & (W < 5))
np.log10(V, where=V > 0, out=np.full(6, -9.))
np.add(V, W, np.zeros(6))
np.sqrt(W, np.zeros(6))
np.multiply(M, np.array([1., 2., 3.]), out=np.zeros((4, 3)), where=M[:, :1] > 0)
np.subtract.outer(V, W)
np.maximum.outer(V, W)
np.interp(4.5, W, V)
np.interp([0., 1., 4.5, 9., 10.], W, V)
np.interp(np.array([0., 4.5, 10.]), W, V, left=0., right=-2.)
np.trapezoid(V, W)
np.trapezoid(M, W[:3])
np.trapezoid(M, W[:3], axis=-1)
trapezoid(V * W, W)
np.isfinite(V)
np.logical_and(V > 0, W > 2)
np.logical_not(V > 0)
V // 2
V % 2
V ** 2
2. ** np.arange(3)
V / W
-V
+V
V == -1
V != -1
V >= 2
np.float32(V).astype(np.float64)
np.int32(V)
V.astype(int)
np.array([x * 2 for x in V])
np.array([[1, 2], [3, 4]]) * 2
np.array([V[0], V[1]])
np.array(V[:2]).tolist()
[float(x) for x in V]
len(V), len(M), M.shape, M.ndim, M.size, C.shape[:-1]
max(V[0], V[1]), min(2, 3), abs(-2), sum([1, 2, 3])
list(zip([1, 2], [3, 4]))
[i for i, x in enumerate(V) if x > 0]
sorted([3, 1, 2])
V[0:0].shape
len(V[V > 100])
np.ones(3)[..., np.newaxis] * V[:2]
M[M.sum(axis=1) > 5][:, [0, 2]]
(M.sum(axis=-1) > 0)[..., np.newaxis] & (M > 0)
np.where((M > 0) & (M.sum(axis=-1) > 0)[..., np.newaxis])[1]
np.union1d(V, W)
V[V[0] > 0]
V[V[0] < 0]
V[..., V[0] > 0]
M[V.sum() > 3]
np.argwhere(V > 0)
np.argwhere(M > 0)
np.argmax(V > 2)
np.argmax(V > 200)
np.isclose(V, V)
np.array_equal(V, W)
np.flip(V)
np.moveaxis(C, 0, -1)[0]
np.prod(M.shape)
np.float32(3.5)
'{a}-{b}'.format(a='x', b='y')
'x%sy' % 'k'
f"{'q'}z"
'abc.dat'.endswith('.dat')
'abc'[:-1]
'''
BLOCKS = '''
def f(V, W, M, C, I):
    a = np.zeros(len(V)); ok = W.sum() > 0; a[ok] = V[ok] / W[ok]; no = W[0] < 0; a[no] = V[no]; b = np.zeros(6); b[no] = 3; b[True] = 4
    return a, b
def f(V, W, M, C, I):
    a = np.zeros(M.shape); gd = np.where(M > 0); bd = np.where(M <= 0); a[gd] = M[gd] * 2; a[bd] = -9999.
    return a
def f(V, W, M, C, I):
    a = np.zeros(M.shape, dtype=np.float32)
    for i, c in enumerate(V[:3]):
        a[..., i] = M[..., i] * c
    return a
def f(V, W, M, C, I):
    a = V.copy(); b = a[1:4]; b[:] = 5; a[0] += 1
    return a, b
def f(V, W, M, C, I):
    a = V.copy(); b = a[[1, 2]]; b[:] = 5
    return a
def f(V, W, M, C, I):
    a = V.copy(); a[a < 0] = 0; a[a > 2] *= 10
    return a
def f(V, W, M, C, I):
    a = M.copy(); a[:, 1] = V[:4]; a[2, :] = 7; a[0, 0:2] = [8, 9]
    return a
def f(V, W, M, C, I):
    a = M.copy(); t = a.T; t[0, 1] = 100.; r = a.reshape(-1); r[0] = 50.
    return a
def f(V, W, M, C, I):
    a = np.array(M); a[..., 1:3] = a[..., 1:3] * 2
    return a, M
def f(V, W, M, C, I):
    keep = (V >= 0) & (V <= 3); ik = np.where(keep)[0]; keep[ik[0] - 1] = 1
    if ik[-1] < len(V) - 1:
        keep[ik[-1] + 1] = 1
    return np.unique(np.append(V[keep], W))
def f(V, W, M, C, I):
    out = np.zeros((len(V), 2))
    for i in range(len(V)):
        out[i, :] = [V[i], i]
    return out
def f(V, W, M, C, I):
    s = 0
    for i in np.arange(M.shape[0], dtype=int):
        if M[i, 0] > 0:
            continue
        s = s + i
    return s
def f(V, W, M, C, I):
    out = np.zeros(len(V)); n = 0
    for i, x in enumerate(V):
        if x > 0:
            out[i] = x / 2
        else:
            out[i] = -1
    return out
def f(V, W, M, C, I):
    out = V.copy(); np.divide(V, W, out=out, where=V < 0); r = out; np.negative(r, out=r, where=W > 4)
    return out
def f(V, W, M, C, I):
    x = V; x = x * 2; x[0] = 1
    return V, x
def f(V, W, M, C, I):
    a = np.zeros(len(V), dtype=np.int32); a[:] = V
    return a
def f(V, W, M, C, I):
    a = np.zeros((4, 3)); ok = M.sum(axis=1) > 0; a[ok, :] = M[ok, :] / 2; a[~ok] = 1
    return a
def f(V, W, M, C, I):
    iok = np.where(V > 0)[0]; low = iok[np.where(V[iok] < 4)[0]]; a = V.copy(); a[low] = 1. / (W[low])**2
    return a
def f(V, W, M, C, I):
    d = dict(); d['a'] = V; d['b'] = [k for k in 'xy']
    return [d[k] for k in d][0], len(d), 'a' in d, list(d.keys())
def f(V, W, M, C, I):
    try:
        raise ValueError('x')
    except ValueError:
        r = 1
    finally:
        q = 2
    return r + q
def f(V, W, M, C, I):
    a, (b, c) = 1, (2, 3); x = y = a + b; l = [1]; l.append(c); l += [5]; l.extend([6, 7]); l.insert(0, 9)
    return x, y, l, l.index(5), l[1:-1]
def f(V, W, M, C, I):
    A = np.ones((len(V), 2)); A[:, 0] = V; B = A * W[:, np.newaxis]
    return B
def f(V, W, M, C, I):
    a = np.asarray(V); b = np.array(V); a = a + 0
    return a, b

def f(V, W, M, C, I):
    c = 0
    out = np.zeros(V.size)
    for i in range(V.size):
        if c < 3:
            out[i] = V[i]
        c += 1
    return out, c

def f(V, W, M, C, I):
    n = 0
    for i in range(V.size):
        if V[i] > 0:
            n += 1
    return n

def f(V, W, M, C, I):
    best = V[0]
    for i in range(V.size):
        if V[i] > best:
            best = V[i]
    return best

def f(V, W, M, C, I):
    seen = False
    out = np.zeros(V.size)
    for i in range(V.size):
        if seen:
            out[i] = 1.
        if V[i] == 0:
            seen = True
    return out

def f(V, W, M, C, I):
    last = -1
    out = np.zeros(V.size)
    for i in range(V.size):
        if last >= 0:
            out[i] = V[last]
        last = i
    return out

def f(V, W, M, C, I):
    s = 0
    out = np.zeros(M.shape[0])
    for i in range(M.shape[0]):
        out[i] = W[s:s + 2].sum()
        s += 1
    return out

def f(V, W, M, C, I):
    out = np.zeros(V.size)
    for i in range(V.size):
        out[i] = V[i]
        if i > 0 and out[i - 1] > 1.:
            out[i] = 0.
    return out

def f(V, W, M, C, I):
    k = 0
    out = np.zeros(V.size)
    for i in range(V.size):
        if V[i] > 0:
            out[k] = V[i]
            k += 1
    return out

def f(V, W, M, C, I):
    k = 0
    while k < V.size:
        if V[k] == 0:
            break
        k += 1
    return k

def f(V, W, M, C, I):
    total = 0.
    for i in range(V.size):
        if total < 2.5:
            total += V[i]
    return total
'''


def blocks():
    out = []
    for src in BLOCKS.split('def f(')[1:]:
        out.append('def f(' + src)
    return out


def norm(x):
    """real value -> nested structure of numbers"""
    if isinstance(x, (tuple, list)):
        return [norm(v) for v in x]
    if isinstance(x, (str, bool)) or x is None:
        return x
    a = np.asarray(x)
    return a


def compare(got, want, where):
    """the model's value against numpy's; returns a formula or raises"""
    got = plist_norm(got)
    if isinstance(want, list):
        items = list(got) if isinstance(got, tuple) else got.items if isinstance(got, PList) else None
        if items is None:
            if got.keep is not None:
                from vcgen import npmodel as NP
                return compare(NP.as_array(got), np.asarray(want), where)
            n = z(got.n)
            return And(n == len(want), *[compare(got.item(i), w, where) for i, w in enumerate(want)])
        if len(items) != len(want):
            raise AssertionError('%s: %d items, want %d' % (where, len(items), len(want)))
        return And(*[compare(g, w, where) for g, w in zip(items, want)])
    if isinstance(want, str):
        if isinstance(got, str):
            return got == want
        return str_eq(got, want)
    if want is None:
        return got is None
    if isinstance(want, bool):
        want = np.asarray(want)
    if not is_arr(got):
        val = got
        got = mk((), lambda: val, 'f8')
    if got.ndim != want.ndim:
        raise AssertionError('%s: %d dimensions, want %d' % (where, got.ndim, want.ndim))
    c = [eq(s, n) for s, n in zip(got.shape, want.shape)]
    rd = got.reader()
    for ix in np.ndindex(*want.shape):
        v = rd(*ix)
        w = want[ix]
        if want.dtype.kind == 'b':
            v = T.truth(v)
            c.append(v if w else Not(v))
        else:
            v = b2i(v)
            w = Fraction(float(w)) if want.dtype.kind == 'f' else int(w)
            exact = want.dtype.kind != 'f' or w.denominator < 2**20
            tol = Fraction(1, 10**9) * max(1, abs(w))
            c.append(eq(v, w) if exact else And(lt(sub(v, w), tol), lt(sub(w, v), tol)))
    return And(*c)


def inputs(ctx, symbolic):
    out = []
    for nm, a in (('V', V), ('W', W), ('M', M), ('C', C), ('I', I)):
        dt = 'i8' if nm == 'I' else 'f8'
        if symbolic:
            shp = tuple(dim('%s.%d' % (nm, k)) for k in range(a.ndim))
            for s, n in zip(shp, a.shape):
                E.assume(s == n)
            x = sym_array(nm, shp, dt)
            rd = x.reader()
            for ix in np.ndindex(*a.shape):
                E.assume(rd(*[z3.IntVal(i) for i in ix]) == (z3.RealVal(str(Fraction(a[ix]))) if dt == 'f8' else int(a[ix])))
        else:
            vals = a.copy()
            x = mk(a.shape, lambda *ix, vals=vals, dt=dt: pick(vals, ix, dt), dt)
        out.append(x)
    return out


def pick(vals, ix, dt):
    if all(not is_sym(i) for i in ix):
        if not all(0 <= i < n for i, n in zip(ix, vals.shape)):
            return 0 if dt == 'i8' else Fraction(0)
        v = vals[tuple(int(i) for i in ix)]
        return int(v) if dt == 'i8' else Fraction(float(v))
    r = None
    for jx in np.ndindex(*vals.shape):
        v = int(vals[jx]) if dt == 'i8' else Fraction(float(vals[jx]))
        r = v if r is None else If(And(*[eq(i, j) for i, j in zip(ix, jx)]), v, r)
    return r


def run(src, name, symbolic, verbose):
    ns = dict(np=np, trapezoid=scipy.integrate.trapezoid)
    exec(src, ns)
    want = norm(ns['f'](V.copy(), W.copy(), M.copy(), C.copy(), I.copy()))
    state = {}

    def see(r, why=''):
        # a path the solver could not exclude may differ; numpy's result must be that of some path
        rank = {'DIFFERENT': 0, 'consistent': 1, 'agrees': 2}
        if 'r' not in state or rank[r] > rank[state['r']]:
            state.update(r=r, why=why)

    def scen(ctx):
        ip = ctx.ip
        mod = ModuleVal('modeltest', {}, 'modeltest')
        ip.modules['modeltest'] = mod
        mod.env['np'] = ip.module('numpy')
        mod.env['trapezoid'] = ip.getattr(ip.module('scipy.integrate'), 'trapezoid')
        env = Env(mod.env, None, mod)
        mod.topenv = env
        ip.exec_block(ast.parse(src).body, env)
        args = inputs(ctx, symbolic)
        got = ctx.outcome(lambda: ip.call(mod.env['f'], args))
        if got[0] != 'ok':
            see('DIFFERENT', '%s %s' % (got[1].kind, got[1].msg))
            return
        try:
            f = compare(got[1], want, name)
            if E.prove(f)[0] == 'proved':
                see('agrees')
            elif E.prove(Not(f))[0] == 'proved':
                see('DIFFERENT', str(f)[:300])
            else:
                see('consistent')
        except AssertionError as ex:
            see('DIFFERENT', str(ex))
    v = Ver('modeltest', budget=40)
    v.scenario(name, scen, budget=30)
    if v.unsupported and 'r' not in state:
        return 'unsupported', v.unsupported[0][1][:160] + (v.errors[0][1][-600:] if v.errors and verbose else '')
    return state.get('r', 'unsupported'), state.get('why', '')


def main():
    verbose = '-v' in sys.argv
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    srcs = [('def f(V, W, M, C, I):\n    return %s\n' % l, l) for l in PROGRAMS.strip().splitlines()]
    srcs += [(b, 'block %d' % k) for k, b in enumerate(blocks())]
    tally = {}
    rc = 0
    for src, name in srcs:
        if only and not any(o in name for o in only):
            continue
        for symbolic in (False, True):
            t0 = time.time()
            r, why = run(src, name, symbolic, verbose)
            tally[(r, symbolic)] = tally.get((r, symbolic), 0) + 1
            if r == 'DIFFERENT':
                rc = 1
            if verbose or r in ('DIFFERENT', 'unsupported'):
                print('%-10s %-8s %5.1fs %s  %s' % (r, 'symbolic' if symbolic else 'concrete', time.time() - t0, name, why), flush=True)
    print('; '.join('%s %s: %d' % ('symbolic' if s else 'concrete', r, n) for (r, s), n in sorted(tally.items())))
    return rc


if __name__ == '__main__':
    sys.exit(main())
