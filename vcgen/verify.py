"""Verification runs: scenarios (contract of one function on symbolic arguments), obligations, outcomes."""
import os
import time
import traceback

import z3

from .engine import E, PathEnd
from .values import *
from .terms import *
from . import terms as T
from .arrays import bshape
from . import interp as IN
from .interp import Interp, plist_norm

_fn = {}


def fun(name, *sorts):
    """uninterpreted function symbol (ints to real unless given)"""
    k = (name, tuple(str(s) for s in sorts))
    if k not in _fn:
        _fn[k] = z3.Function(name, *sorts)
    return _fn[k]


def rfun(name, arity):
    return fun(name, *([I] * arity + [R]))


def sym_array(name, shape, dtype='f8'):
    f = rfun(name, len(shape)) if kind_of_dtype(dtype) == 'f' else fun(name, *([I] * len(shape) + [I if kind_of_dtype(dtype) == 'i' else B]))
    if not shape:
        c = z3.Const(name, R)
        return mk((), lambda: c, dtype, label='arg:' + name)
    return mk(tuple(shape), lambda *ix: f(*[z(i) for i in ix]), dtype, label='arg:' + name)


def sym_scalar(name, dtype='f8'):
    return z3.Const(name, R)


def dim(name, lo=0):
    n = z3.Int(name)
    E.assume(n >= lo)
    return n


SECOND = ' [after another call]'


class Vacuous(Exception):
    pass


class Oblig:
    def __init__(self, name):
        self.name, self.n, self.status, self.backends, self.detail = name, 0, 'proved', {}, ''


class Ver:
    def __init__(self, pid='', budget=600):
        self.pid = pid
        self.obligs = {}
        self.unsupported = []      # (scenario, reason)
        self.done = set()
        self.scen_stats = {}
        self.inlined, self.used_contracts, self.externals = set(), set(), set()
        self.t_end = time.time() + budget
        self.assumptions = set()
        self.errors = []
        self.kept = []             # (scenario, what its function left behind)
        self.only = None           # regular expression on obligation labels: the others are left out
        self.dtype = 'f8'          # element type of argument arrays unless a scenario says otherwise

    # ---- one scenario -----------------------------------------------------
    def scenario(self, name, fn, contracts=None, inline=(), budget=60, max_paths=400, need=('ok',)):
        """fn(ctx) is run on every path"""
        if name in self.done:
            return
        self.done.add(name)
        t0 = time.time()
        warm = name.endswith(SECOND)
        E.deadline = min(time.time() + budget, self.t_end)
        E.max_paths = max_paths
        E.wide_left = 20.0
        E.nonfinite = self.only is not None      # frame obligations hold for NaN and infinities too
        ctx = Ctx(self, name, contracts or {}, inline)
        ctx.warm = warm
        kinds = set()

        def run():
            ctx.begin()
            k = fn(ctx)
            # vacuity guard: the path is consistent with every lemma
            if E._check(E.pcs(), 1500, quick=False) == 'unsat':
                ctx.vacuous += 1
                return 'infeasible'
            kinds.update(ctx.outcomes)
            return k
        try:
            res = E.explore(run)
            n = len([1 for f, r in res if r != 'infeasible'])
            self.scen_stats[name] = dict(paths=n, seconds=round(time.time() - t0, 2))
            for k in need:
                if k not in kinds:
                    self.unsupported.append((name, 'vacuous: no path with outcome %s' % k))
        except Unsupported as ex:
            self.unsupported.append((name, str(ex)))
        except (IN.NeedPeel, RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, PyExc, NotImplementedError, OverflowError) as ex:
            self.unsupported.append((name, 'generator: %s: %s' % (type(ex).__name__, str(ex)[:200])))
            self.errors.append((name, traceback.format_exc()))
        finally:
            E.deadline = None
        ip = ctx.ip
        if ip is not None:
            self.inlined |= ip.inlined
            self.used_contracts |= ip.used_contracts
            self.externals |= ip.externals
        if ctx.left and not warm and self.only is None:
            # the function keeps something for later calls: the same goals for a call after another one
            self.kept.append((name, ', '.join(sorted(ctx.left))))
            self.scenario(name + SECOND, fn, contracts, inline, budget, max_paths, need)

    def record(self, name, status, backend, detail=''):
        o = self.obligs.setdefault(name, Oblig(name))
        o.n += 1
        o.backends[backend] = o.backends.get(backend, 0) + 1
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail = status, detail

    def summary(self):
        c = {'proved': 0, 'refuted': 0, 'unknown': 0}
        for o in self.obligs.values():
            c[o.status] += o.n
        return c


class Ctx:
    """what a scenario sees"""

    def __init__(self, ver, name, contracts, inline):
        self.ver, self.name = ver, name
        self.contracts, self.inline = contracts, set(inline)
        self.ip = None
        self.vacuous = 0
        self.outcomes = set()
        self.stop_after = None
        self.warm, self.left = False, set()

    def begin(self):
        old = self.ip
        self.ip = Interp()
        if old is not None:
            self.ip.inlined |= old.inlined
            self.ip.used_contracts |= old.used_contracts
            self.ip.externals |= old.externals
        self.ip.contracts = dict(self.contracts)
        self.ip.inline = set(self.inline)
        self.ip.ctx = self
        self.args = []
        self.objs = []
        self.outcomes = set()
        self.roots = []
        self.ip.rng_count = 0

    # ---- inputs -------------------------------------------------------------
    def arr(self, name, shape, dtype=None):
        dtype = dtype or self.ver.dtype
        a = sym_array(name, shape, dtype)
        a.buf.frozen = name
        self.args.append((name, a, a.buf, a.buf.elem))
        return a

    def watch(self, name, a):
        self.args.append((name, a, a.buf, a.buf.elem))
        return a

    def watch_obj(self, name, o):
        """the attributes of o, and the arrays they hold, are in the frame"""
        self.objs.append((name, o, dict(o.attrs), {k: list(v.items) for k, v in o.attrs.items() if isinstance(v, PList)}))
        for k, v in o.attrs.items() if self.ver.only else []:
            if is_arr(v) and v.buf is not None and v.fwd is None:
                self.watch('%s.%s' % (name, k), v)

    def fn(self, qual):
        parts = qual.split('.')
        m = self.ip.module('kcorrect.' + parts[0])
        v = m.env.get(parts[1])
        for p in parts[2:]:
            v = v.find(p)[0]
        if v is None:
            raise Unsupported('%s is gone' % qual)
        return v

    # ---- calls ----------------------------------------------------------------
    def outcome(self, thunk, tag=True):
        try:
            v = thunk()
            r = ('ok', v)
        except PyExc as e:
            r = ('exc', e)
        if tag:
            self.outcomes.add(r[0])
        return r

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        if isinstance(f, ClassVal):
            return self.outcome(lambda: self.ip.call(f, args, kw))
        return self.pure(f, args, kw)

    def pure(self, f, args, kw, other=None):
        """a call that should leave no state behind. If it does, the scenario is run again with a call before it, on other
        arguments of the same kinds (and in another cosmology)"""
        from .npmodel import cosmo_attr
        ip = self.ip
        o = f.self_ if isinstance(f, Bound) else None
        if self.warm:
            cosmo = o.attrs.get('cosmo') if isinstance(o, Inst) else None
            if isinstance(cosmo, Inst) and 'cosmo' in cosmo.ghost:
                c2 = Inst(cosmo.cls)
                c2.ghost.update(cosmo.ghost, cosmo='earlier')
                c2.ghost['getattr'] = lambda q: cosmo_attr(ip, c2, q)
                o.attrs['cosmo'] = c2
            n0 = ip.rng_count
            self.nwarm = 0
            try:
                a2, k2 = other() if other else (tuple(self.another(x) for x in args), {k: self.another(x) for k, x in kw.items()})
                ip.call(f, a2, k2)
            except PyExc:
                pass
            ip.rng_count = n0
            if isinstance(cosmo, Inst):
                o.attrs['cosmo'] = cosmo
            return self.outcome(lambda: ip.call(f, args, kw))
        before = self.state(o)
        r = self.outcome(lambda: ip.call(f, args, kw))
        after = self.state(o)
        for k, (v, n, hold) in after.items():
            was = before.get(k)
            if was is None:
                continue
            for q in set(v) | set(was[0]):
                if isinstance(v.get(q), ModuleVal) and q not in was[0]:
                    continue
                if q not in v or q not in was[0] or v[q] is not was[0][q]:
                    self.left.add('%s.%s' % (n, q))
        return r

    def state(self, o):
        """what a call could leave behind: attributes of the object and of those it refers to, module and class variables, contents
        of the lists and dictionaries among them"""
        out, todo, seen = {}, [], set()
        if o is not None:
            todo.append((o, 'self'))
        for n, m in self.ip.modules.items():
            if n.startswith('kcorrect') and isinstance(m, ModuleVal):
                todo.append((m, n))
        while todo:
            v, n = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Inst):
                d = v.attrs
                if v.data is not None and isinstance(v.data, PDict):
                    todo.append((v.data, n))
            elif isinstance(v, ModuleVal):
                d = v.env
            elif isinstance(v, ClassVal):
                d = v.attrs
            elif isinstance(v, PDict):
                d = v.d
            elif isinstance(v, PList):
                d = dict(enumerate(v.items))
            elif isinstance(v, FuncVal):
                d = dict(v.attrs) if isinstance(getattr(v, 'attrs', None), dict) else {}
                for k, x in enumerate(getattr(v, 'defaults', None) or []):
                    d[k] = x
            elif is_arr(v) and v.buf is not None:
                out[id(v.buf)] = ({'content': v.buf.elem}, n, v)
                continue
            else:
                continue
            out[id(v)] = (dict(d), n, v)
            todo.extend((x, '%s.%s' % (n, k)) for k, x in list(d.items()))
        return out

    def another(self, v):
        """an unrelated value of the same kind"""
        self.nwarm += 1
        nm = 'earlier%d' % self.nwarm
        if is_arr(v):
            if kind_of_dtype(v.dtype) not in 'fib':
                return v
            a = sym_array(nm, v.shape, v.dtype)
            a.scalar = v.scalar
            return a
        if isinstance(v, bool) or v is None or isinstance(v, (str, SStr, SymList, int)):
            return v
        if is_sym(v):
            return z3.Const(nm, v.sort())
        if isinstance(v, Fraction):
            return z3.Const(nm, R)
        if isinstance(v, PList):
            return PList([self.another(x) for x in v.items])
        if isinstance(v, tuple):
            return tuple(self.another(x) for x in v)
        return v

    # ---- goals -----------------------------------------------------------------
    def goal(self, label, formula, hyps=(), detail=''):
        name = self.name + ': ' + label
        if self.ver.only is not None and not label.startswith('lemma') and not self.ver.only.search(label):
            return 'skipped'
        st, be, model = E.prove(formula, E.pcs() + [z(h) for h in hyps if const(h) is not True])
        d = detail
        if st != 'proved':
            d = (detail + ' | ' if detail else '') + str(z(formula))[:1500]
            if model is not None:
                d += ' | model: ' + str(model)[:1500]
            tr = [str(c)[:120] for c in E.pcs()][:25]
            d += ' | path: ' + '; '.join(tr)
        self.ver.record(name, st, be if st == 'proved' else str(be), d)
        return st

    def lemma(self, label, dims, fn, under=()):
        """prove fn for all indices below dims, then use it"""
        sk = [E.fresh('sk!l') for _ in dims]
        h = [And(ge(i, 0), lt(i, d)) for i, d in zip(sk, dims)]
        st = self.goal('lemma ' + label, fn(*sk), list(under) + h)
        if st == 'proved':
            if dims:
                E.fact(dims, lambda *ix: Implies(And(*under), fn(*ix)) if under else fn(*ix))
            else:
                E.assume(Implies(And(*under), fn()) if under else fn())
        return st

    def fail(self, label, detail):
        return self.goal(label, False, detail=detail)

    def index(self, shape, base='sk!g'):
        """all small concrete index tuples x skolems; yields (index, hyps)"""
        import itertools
        conc = [d for d in shape if not is_sym(d)]
        tot = 1
        for d in conc:
            tot *= max(d, 0)
        axes = []
        hyps = []
        for d in shape:
            if not is_sym(d) and tot <= 12:
                axes.append(list(range(d)))
            else:
                i = E.fresh(base)
                hyps.append(And(i >= 0, lt(i, d)))
                axes.append([i])
        for ix in itertools.product(*axes):
            yield ix, hyps

    def same(self, label, got, want, exact_kind=True):
        """got equals want (structurally)"""
        got, want = plist_norm(got), plist_norm(want)
        if isinstance(want, Any):
            return want.check(self, label, got)
        if want is None:
            if got is not None:
                self.fail(label, 'expected None')
            else:
                self.goal(label, True)
            return
        if got is None:
            self.fail(label, 'got None')
            return
        if isinstance(want, (tuple, PList)):
            w = list(want) if isinstance(want, tuple) else want.items
            if isinstance(got, SymList):
                self.fail(label, 'list of symbolic length')
                return
            if not isinstance(got, (tuple, PList)):
                self.fail(label, 'expected a sequence of %d, got %s' % (len(w), type(got).__name__))
                return
            g = list(got) if isinstance(got, tuple) else got.items
            if len(g) != len(w):
                self.fail(label, 'expected %d values, got %d' % (len(w), len(g)))
                return
            for k, (a, b) in enumerate(zip(g, w)):
                self.same('%s[%d]' % (label, k), a, b)
            return
        if isinstance(want, SymList):
            if isinstance(got, PList):
                n = len(got.items)
                self.goal(label + '.len', eq(want.n, n))
                for k in range(n):
                    self.same('%s[%d]' % (label, k), got.items[k], want.item(k))
                return
            if not isinstance(got, SymList) or got.keep is not None or want.keep is not None:
                raise Unsupported('comparison of lists')
            self.goal(label + '.len', eq(got.n, want.n))
            for ix, h in self.index((want.n,)):
                self.same_under(label + '[i]', got.item(ix[0]), want.item(ix[0]), h)
            return
        if isinstance(want, PDict):
            if not isinstance(got, PDict):
                self.fail(label, 'expected a dict')
                return
            self.goal(label + '.keys', set(map(str, got.d)) == set(map(str, want.d)))
            for k, v in want.d.items():
                if k in got.d:
                    self.same('%s[%s]' % (label, k), got.d[k], v)
            return
        if isinstance(want, (str, SStr)) or isinstance(got, (str, SStr)):
            if not (isinstance(want, (str, SStr)) and isinstance(got, (str, SStr))):
                if is_arr(got) and got.ndim == 0 and isinstance(got.item(), (str, SStr)):
                    got = got.item()
                else:
                    self.fail(label, 'string expected')
                    return
            self.goal(label, str_eq(got, want), hyps=literal_facts())
            return
        if isinstance(want, Inst):
            self.goal(label, got is want, detail='same object')
            return
        self.same_under(label, got, want, [])

    def same_under(self, label, got, want, hyps):
        if isinstance(want, (str, SStr)):
            if is_arr(got) and got.ndim == 0:
                got = got.item()
            self.goal(label, str_eq(got, want) if isinstance(got, (str, SStr)) else False, hyps=list(hyps) + literal_facts())
            return
        if isinstance(want, Inst) or want is None:
            self.goal(label, got is want, hyps)
            return
        if not is_arr(want) and is_arr(got) and got.ndim == 0:
            got = got.item()
        if is_num(got) and is_arr(want) and want.ndim == 0:
            want = want.item()
        if is_num(got) and is_num(want):
            if kind(got) != kind(want) and 'b' in (kind(got), kind(want)):
                got, want = T.truth(got), T.truth(want)
                self.goal(label, And(Implies(got, want), Implies(want, got)), hyps)
            else:
                self.goal(label, eq(got, want), hyps)
            return
        if is_arr(want) and is_arr(got):
            if len(got.shape) != len(want.shape):
                self.fail(label + '.ndim', 'rank %d, expected %d' % (len(got.shape), len(want.shape)))
                return
            for k, (a, b) in enumerate(zip(got.shape, want.shape)):
                self.goal('%s.shape[%d]' % (label, k), eq(a, b), hyps)
            rg, rw = got.reader(), want.reader()
            for ix, h in self.index(want.shape):
                g, w = rg(*ix), rw(*ix)
                if isinstance(w, (SStr, str)):
                    self.goal(label + '[]', str_eq(g, w) if isinstance(g, (SStr, str)) else False, list(hyps) + h + literal_facts())
                elif isinstance(w, bool) or kind(w) == 'b':
                    g, w = T.truth(g), T.truth(w)
                    self.goal(label + '[]', And(Implies(g, w), Implies(w, g)), list(hyps) + h)
                else:
                    self.goal(label + '[]', eq(g, w), list(hyps) + h)
            return
        self.fail(label, 'kinds differ: got %s, expected %s' % (type(got).__name__, type(want).__name__))

    def refine(self, label, got, want):
        """outcome of the body against outcome of the contract"""
        if want[0] == 'exc':
            if got[0] != 'exc':
                self.fail(label + ' raises', 'contract raises %s, body returned' % want[1].kind)
                return False
            if want[1].kind != 'Error' and not exc_isa(got[1].kind, want[1].kind):
                self.fail(label + ' raises ' + want[1].kind, 'body raised %s (%s)' % (got[1].kind, got[1].msg))
                return False
            self.goal(label + ' raises', True)
            return False
        if got[0] == 'exc':
            self.fail(label + ' returns', 'body raised %s: %s' % (got[1].kind, got[1].msg))
            return False
        self.goal(label + ' returns', True)
        self.same(label, got[1], want[1])
        return True

    def unchanged(self, label='frame'):
        """no argument array was modified"""
        for name, o, attrs, lists in self.objs if self.ver.only else []:
            same_ = set(o.attrs) == set(attrs)
            for k, v in attrs.items():
                w = o.attrs.get(k)
                if w is not v:
                    self.same('%s %s.%s' % (label, name, k), w, v)
                elif isinstance(v, PList):
                    same_ = same_ and len(v.items) == len(lists[k]) and all(x is y for x, y in zip(v.items, lists[k]))
            self.goal('%s %s attributes' % (label, name), same_)
        for name, a, buf, elem in self.args:
            if buf.elem is elem:
                self.goal('%s %s' % (label, name), True)
                continue
            shape = a.shape if a.buf is buf and a.fwd is None else None
            if shape is None:
                raise Unsupported('frame of a view')
            for ix, h in self.index(shape):
                g, w = buf.elem(ix), elem(ix)
                if isinstance(g, (SStr, str)):
                    self.goal('%s %s' % (label, name), str_eq(g, w), h)
                else:
                    self.goal('%s %s' % (label, name), eq(g, w), h)


class Any:
    """a wildcard with its own check"""

    def __init__(self, fn):
        self.fn = fn

    def check(self, ctx, label, got):
        self.fn(ctx, label, got)
