"""Path exploration, symbol registry and proof back end of the generator.

A run of the interpreter follows one path; `decide` asks which branch.  Paths are
enumerated by replaying with a prefix of decisions.  A loop whose trip count is
symbolic opens an inner exploration for one generic iteration.
"""
import itertools
import time
import z3

from .terms import *
from . import terms as T


class PathEnd(Exception):
    """this path is infeasible"""


class Frame:
    """one exploration: the whole call, or a generic loop iteration"""

    def __init__(self, prefix, own=(), names=()):
        self.names = set(names)
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.cache = {}
        self.pc = []
        self.own = {v.get_id() for v in own}
        self.ownvars = list(own)
        self.alts = []

    def lookup(self, c):
        i = c.get_id()
        if i in self.cache:
            return self.cache[i][1]
        n = z3.Not(c) if not z3.is_not(c) else c.arg(0)
        i = n.get_id()
        if i in self.cache:
            return not self.cache[i][1]
        return None


class Entry:
    """an opaque symbol: kind, dims, body terms over bound variables bv and holes"""

    def __init__(self, kind, syms, dims, body, bvs, holes, extra=None):
        self.kind, self.syms, self.dims, self.body = kind, syms, dims, body
        self.bvs, self.holes, self.extra = bvs, holes, extra


def is_indexvar(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t) and t.decl().name()[:3] in ('ix!', 'sk!', 'bv!')


def e_dim_last(eng, e, args):
    dims, _ = eng.inst(e, args, [z3.IntVal(0)])
    return dims[0] - 1


def innermost_cond(g):
    """condition of a conditional term with no conditional term inside"""
    seen = {}

    def go(t):
        i = t.get_id()
        if i in seen:
            return None
        seen[i] = True
        for c in t.children():
            r = go(c)
            if r is not None:
                return r
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return t.arg(0)
        return None
    return go(g)


def nonlinear(h):
    return any(z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_DIV or (t.decl().kind() == z3.Z3_OP_MUL and sum(1 for x in t.children() if is_sym(const(x))) > 1))
               for t in subterms([h]))


def fold(g, c, v):
    """g with condition c replaced by its truth value; conditional terms resolved"""
    memo = {}
    cid = c.get_id() if c is not None else -1
    ite = z3.Z3_OP_ITE

    def go(t):
        i = t.get_id()
        if i == cid:
            return z3.BoolVal(v)
        if i in memo:
            return memo[i]
        if not t.children():
            r = t
        elif z3.is_app(t) and t.decl().kind() == ite:
            k = go(t.arg(0))
            if z3.is_true(k):
                r = go(t.arg(1))
            elif z3.is_false(k):
                r = go(t.arg(2))
            else:
                r = z3.If(k, go(t.arg(1)), go(t.arg(2)))
        else:
            ch = [go(x) for x in t.children()]
            if all(a.eq(b) for a, b in zip(ch, t.children())) and t.decl().kind() != z3.Z3_OP_EQ:
                r = t
            elif z3.is_and(t):
                r = z(And(*[const(x) for x in ch]))
            elif z3.is_or(t):
                r = z(Or(*[const(x) for x in ch]))
            elif z3.is_not(t):
                r = z(Not(const(ch[0])))
            else:
                k = t.decl().kind()
                if k == z3.Z3_OP_ADD:
                    r = z(add(*[const(x) for x in ch])) if len(ch) == 2 else z3.Sum(ch)
                elif k == z3.Z3_OP_MUL:
                    r = z(mul(*[const(x) for x in ch])) if len(ch) == 2 else z3.Product(ch)
                elif k == z3.Z3_OP_DIV:
                    r = zr(div(const(ch[0]), const(ch[1])))
                elif k == z3.Z3_OP_EQ and ch[0].eq(ch[1]):
                    r = z3.BoolVal(True)
                else:
                    r = t.decl()(*ch)
        memo[i] = r
        return r
    return go(g)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}


class Engine:
    def __init__(self):
        self.registry = {}         # key -> Entry
        self.bysym = {}            # decl name -> Entry
        self.proofcache = {}
        self.feascache = {}
        self.lemcache = {}
        self.stats = Stats()
        self.reset()
        self.keep = []             # keep z3 asts alive so that ids stay unique
        self.deadline = None
        self.max_paths = 400
        self.nonfinite = False
        self.wide_left = 20.0
        self.wide = False          # more instances, before a goal counts as refuted

    # ---- run state -----------------------------------------------------
    def reset(self):
        self.frames = []
        self.assumptions = []      # plain formulas
        self.facts = []            # (arity, dims, fn) universally quantified
        self.counter = {}
        self.trail = []
        self.notes = []
        self.sels = []
        self.axioms = []

    def fresh(self, base, sort=None):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return z3.Const('%s%d' % (base, n), sort if sort is not None else I)

    def freshname(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s%d' % (base, n)

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the verification run exhausted')

    def assume(self, c):
        c = const(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        (self.frames[-1].pc if self.frames else self.assumptions).append(c)

    def fact(self, dims, fn):
        """forall idx in dims: fn(idx)"""
        bvs = [z3.Int('bv!f%d' % k) for k in range(len(dims))]
        f = const(Implies(And(*[And(b >= 0, b < z(d)) for b, d in zip(bvs, dims)]), fn(*bvs)))
        if f is True:
            return
        f = z(f)
        self.keep.append(f)
        self.facts.append((bvs, f))

    def pcs(self):
        out = list(self.assumptions)
        for f in self.frames:
            out += f.pc
        return out

    # ---- trail ---------------------------------------------------------
    def undoable(self, fn):
        self.trail.append(fn)

    def rollback(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    def names_in(self, t):
        """the symbols of t, also those inside the definitions of its opaque symbols"""
        out, todo = set(), [t]
        while todo:
            t = todo.pop()
            seen, st = set(), [t]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if nm not in out:
                        out.add(nm)
                        if nm in self.bysym:
                            e = self.bysym[nm][0]
                            todo.extend(y for y in list(e.dims) + list(e.body) if z3.is_expr(y))
                st.extend(x.children())
        return out

    # ---- decisions -----------------------------------------------------
    def decide(self, c):
        c = const(c)
        if isinstance(c, bool):
            return c
        c = const(z3.simplify(c)) if False else c
        if z3.is_not(c):
            return not self.decide(c.arg(0))
        self.check_time()
        self.keep.append(c)
        for f in self.frames:
            v = f.lookup(c)
            if v is not None:
                return v
        ids = {x.get_id() for x in free_consts([c])}
        fr = self.frames[0]
        for f in reversed(self.frames):
            if ids & f.own or (f.names and self.names_in(c) & f.names):
                fr = f
                break
        if fr.pos < len(fr.prefix):
            v = fr.prefix[fr.pos]
        else:
            t = self.feasible(c)
            fl = self.feasible(z3.Not(c)) if t else True
            if not t and not fl:
                raise PathEnd()
            v = t
            if t and fl:
                fr.alts.append(fr.trace + [False])
        fr.pos += 1
        fr.trace.append(v)
        fr.cache[c.get_id()] = (c, v)
        fr.pc.append(c if v else z3.Not(c))
        return v

    def known(self, c):
        """True/False when the path already settles c (proved), else None; never forks"""
        c = const(c)
        if isinstance(c, bool):
            return c
        neg = False
        if z3.is_not(c):
            c, neg = c.arg(0), True
        self.keep.append(c)
        for f in self.frames:
            v = f.lookup(c)
            if v is not None:
                return v != neg
        if not self.feasible(z3.Not(c)):
            return not neg
        if not self.feasible(c):
            return neg
        return None

    def feasible(self, c, ms=400):
        hyps = self.pcs() + [c]
        key = tuple(sorted(h.get_id() for h in hyps)) + tuple(f.get_id() for b, f in self.facts)
        if key in self.feascache:
            return self.feascache[key]
        self.keep.extend(hyps)
        r = self._check(hyps, ms, quick=True) != 'unsat'
        self.feascache[key] = r
        return r

    def explore(self, run):
        """all paths of run(); returns list of (trace, result)"""
        out, stack = [], [[]]
        while stack:
            prefix = stack.pop()
            self.check_time()
            self.reset()
            f = Frame(prefix)
            self.frames = [f]
            try:
                out.append((f, run()))
            except PathEnd:
                pass
            stack.extend(f.alts)
            if len(out) > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
        return out

    # ---- opaque symbols -------------------------------------------------
    def abstract(self, body, bvs):
        """replace index subterms free of bvs by holes; returns (terms, holes, args)"""
        bvids = {b.get_id() for b in bvs}
        holes, args, memo = [], [], {}
        info = {}

        def scan(t):
            i = t.get_id()
            if i in info:
                return info[i]
            b = i in bvids
            v = is_indexvar(t) and not b
            for c in t.children():
                cb, cv = scan(c)
                b, v = b or cb, v or cv
            info[i] = (b, v)
            return info[i]

        masks = {}

        def mask(t):
            i = t.get_id()
            if i not in masks:
                b, v = scan(t)
                if v and not b and z3.is_int(t):
                    masks[i] = '_'
                elif z3.is_const(t) or z3.is_var(t):
                    masks[i] = str(t)
                else:
                    ch = [mask(c) for c in t.children()]
                    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                        ch.sort()
                    masks[i] = t.decl().name() + '(' + ','.join(ch) + ')'
            return masks[i]

        def hole(t):
            for h, a in zip(holes, args):
                if a.eq(t):
                    return h
            h = z3.Const('ho!%d' % len(holes), t.sort())
            holes.append(h)
            args.append(t)
            return h

        def flat(t, k):
            out = []
            for c in t.children():
                if z3.is_app(c) and c.decl().kind() == k:
                    out += flat(c, k)
                else:
                    out.append(c)
            return out

        def go(t):
            i = t.get_id()
            if i in memo:
                return memo[i]
            b, v = scan(t)
            if not v and not (b and z3.is_real(t)):
                r = t
            elif not b and z3.is_int(t):
                r = hole(t)
            else:
                ch = t.children()
                if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and z3.is_real(t):
                    ch = sorted(flat(t, t.decl().kind()), key=mask)
                ch = [go(c) for c in ch]
                r = t.decl()(*ch) if not z3.is_const(t) else t
                k = t.decl().kind()
                if k == z3.Z3_OP_ADD:
                    r = z3.Sum(ch) if len(ch) > 2 else ch[0] + ch[1]
                elif k == z3.Z3_OP_MUL:
                    r = z3.Product(ch) if len(ch) > 2 else ch[0] * ch[1]
                elif k == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif k == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
            memo[i] = r
            return r
        return [go(z(t)) for t in body], holes, args

    def opaque(self, kind, dims, bodyfn, outs, arity=1, extra=''):
        """symbols determined by (kind, dims, body over `arity` bound variables).

        outs: list of (suffix, argument sorts, result sort); returns (entry, args, decls)"""
        bvs = [z3.Int('bv!%d' % k) for k in range(arity)]
        tmp = [self.fresh('ix!t') for _ in range(arity)]
        body = list(bodyfn(*tmp))
        body = [z(t) for t in body]
        body = [z3.substitute(t, list(zip(tmp, bvs))) for t in body]
        dterms = [z(d) for d in dims]
        if kind == 'nnls' and arity == len(dims):
            # an extent known to be small: one normalised term per value
            for k, d in enumerate(dims):
                d = const(d)
                if not is_sym(d) and 0 < d <= 12:
                    nb = []
                    for t in body:
                        vals = [smart(z3.simplify(z3.substitute(t, (bvs[k], z3.IntVal(v))))) for v in range(d)]
                        r = vals[-1]
                        for v in range(d - 2, -1, -1):
                            r = z3.If(bvs[k] == v, vals[v], r)
                        nb.append(r)
                    body = nb
        allt, holes, args = self.abstract(dterms + body, bvs)
        allt = [z3.simplify(t, arith_lhs=False) if z3.is_int(t) else t for t in allt]
        key = (kind, extra, arity, len(dims), tuple(t.sexpr() for t in allt))
        e = self.registry.get(key)
        if e is None:
            n = len(self.registry)
            syms = {}
            hs = [h.sort() for h in holes]
            e = Entry(kind, syms, allt[:len(dims)], allt[len(dims):], bvs, holes, extra)
            for suf, asorts, rs in outs:
                d = z3.Function('%s!%d%s' % (kind, n, suf), *(hs + list(asorts) + [rs]))
                syms[suf] = d
                self.bysym[d.name()] = (e, suf)
            self.registry[key] = e
            e.id = n
        return e, args

    def app(self, e, suf, args, extra=()):
        d = e.syms[suf]
        a = list(args) + [z(x) for x in extra]
        return d(*a) if a else d()

    def entry_of(self, t):
        return self.bysym.get(t.decl().name())

    def inst(self, e, args, idx):
        """dims, body of an application with the holes filled and bvs := idx"""
        pairs = list(zip(e.holes, args)) + list(zip(e.bvs, [z(i) for i in idx]))
        return ([z3.substitute(d, list(zip(e.holes, args))) for d in e.dims],
                [z3.substitute(b, pairs) for b in e.body])

    def exists(self, dims, body):
        """truth of: some index tuple below dims satisfies body"""
        dims = [const(d) for d in dims]
        if any(not is_sym(d) and d <= 0 for d in dims):
            return False
        if all(not is_sym(d) and d <= 16 for d in dims) and (not dims or __import__('math').prod(dims) <= 64):
            return Or(*[body(*ix) for ix in itertools.product(*[range(d) for d in dims])])
        r = []
        e, args = self.opaque('ex', dims, lambda *ix: [z(T.truth(body(*ix)))],
                              [('', [], B)] + [('w%d' % k, [], I) for k in range(len(dims))], arity=len(dims))
        if z3.is_false(z3.simplify(e.body[0])):
            return False
        return self.app(e, '', args)

    def forall(self, dims, body):
        return Not(self.exists(dims, lambda *ix: Not(T.truth(body(*ix)))))

    def sum(self, n, body):
        """Sum_{0<=j<n} body(j): linear in the body, constants pulled out"""
        n = const(n)
        if not is_sym(n) and n <= 12:
            r = Fraction(0)
            for j in range(max(n, 0)):
                r = add(r, body(j))
            return r
        j = self.fresh('ix!s')
        t = body(j)
        if T._is_ite(t) and not any(c.eq(j) for c in free_consts([t.arg(0)])):
            return If(t.arg(0), self.sum(n, lambda k: subst(t.arg(1), [(j, k)])),
                      self.sum(n, lambda k: subst(t.arg(2), [(j, k)])))
        lin = linform(real(t))
        total = Fraction(0)
        for atom, c in lin.items():
            if c == 0:
                continue
            if atom is None:
                total = add(total, mul(c, real(n)))
                continue
            cc, m = mulform(atom)
            inside, outside = {}, {}
            for a, e in m.items():
                (inside if any(x.eq(j) for x in free_consts([a])) else outside)[a] = e
            k = mul(c * cc, frommul(Fraction(1), outside))
            if not inside:
                total = add(total, mul(k, real(n)))
                continue
            parts = self._splittable(inside, j)
            if parts is not None:
                total = add(total, mul(k, self._sumparts(n, parts, j)))
                continue
            b = frommul(Fraction(1), inside)
            e, args = self.opaque('sum', [n], lambda i: [zr(subst(b, [(j, i)]))], [('', [], R)])
            total = add(total, mul(k, self.app(e, '', args)))
        return total

    def _splittable(self, inside, j):
        """a product with a sum factor whose terms have coefficients independent of j: its terms"""
        for a, e in inside.items():
            if e == 1 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD and len(inside) > 1:
                lf = linform(a)
                for x in lf:
                    if x is None or lf[x] == 0:
                        continue
                    m = mulform(x)[1]
                    if len(m) > 1 and any(not any(y.eq(j) for y in free_consts([f])) for f in m):
                        rest = {b: q for b, q in inside.items() if b is not a}
                        r = frommul(Fraction(1), rest)
                        return [mul(lf[x], mul(x, r) if x is not None else r) for x in lf if lf[x] != 0]
        return None

    def _sumparts(self, n, parts, j):
        t = Fraction(0)
        for p in parts:
            t = add(t, self.sum(n, lambda k: subst(p, [(j, k)])))
        return t

    # ---- lemmas ---------------------------------------------------------
    def index_terms(self, nodes, limit=14):
        limit = 30 if self.wide else limit
        out, seen = [], set()
        for n in nodes:
            if n.bound:
                continue
            if n.isint and n.uf and (n.kids or n.ivar) and n.id not in seen:
                seen.add(n.id)
                out.append(n)
            if n.uf and n.kids:
                for a in n.kids:
                    if a.isint and not a.bound and not a.ite and a.id not in seen:
                        seen.add(a.id)
                        out.append(a)
        out.sort(key=lambda n: (n.size > 3, n.size, n.id))
        return [n.e for n in out[:limit]]

    def matches(self, fi, bv, tmpl, nodes, limit=60):
        """arguments at which the functions a fact speaks about occur"""
        pats = self.__dict__.setdefault('patcache', {}).get(tmpl.get_id())
        if pats is None:
            pats = set()
            for t in subterms([tmpl]):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for k, a in enumerate(t.children()):
                        if a.eq(bv):
                            pats.add((t.decl().name(), k))
            self.patcache[tmpl.get_id()] = pats
        out, seen = [], set()
        names = {p[0] for p in pats}
        for n in nodes:
            if n.bound or not n.uf or n.name not in names:
                continue
            for nm, k in pats:
                if n.name == nm and k < len(n.kids) and n.kids[k].isint and not n.kids[k].bound and n.kids[k].id not in seen:
                    seen.add(n.kids[k].id)
                    out.append(n.kids[k].e)
        return out[:limit]

    def lem(self, key, thunk, new, done):
        if key in done:
            return
        done.add(key)
        c = self.lemcache.get(key)
        if c is None:
            c = const(thunk())
            if not isinstance(c, bool):
                node(c)
            elif c is False:
                c = z3.BoolVal(False)
            self.lemcache[key] = c
        if c is True:
            return
        new.append(c)

    def lemmas(self, ts, done, quick=False, nodes=None):
        new = []
        nodes = nodes if nodes is not None else subnodes(ts)

        def emit(key, thunk):
            self.lem(key, thunk, new, done)
        apps = {}
        for n in nodes:
            if not n.uf or n.bound:
                continue
            nm = n.name
            if nm in F1:
                if len(n.kids) == 1:
                    apps.setdefault(nm, []).append(n.e)
            elif nm in self.bysym:
                e, suf = self.bysym[nm]
                apps.setdefault('@' + e.kind, []).append((n.e, e, suf))
        self._analytic(apps, emit, quick)
        idx = None
        I0 = z3.IntVal(0)
        # existence
        for t, e, suf in apps.get('@ex', []):
            if suf != '':
                continue
            args = t.children()

            def wit(t=t, e=e, args=args):
                w = [self.app(e, 'w%d' % k, args) for k in range(len(e.dims))]
                dims, body = self.inst(e, args, w)
                return Implies(t, And(*[And(x >= 0, x < d) for x, d in zip(w, dims)], body[0]))
            emit(('exw', t.get_id()), wit)
            if idx is None:
                idx = self.index_terms(nodes)
            for tup in itertools.islice(itertools.product(idx + [I0], repeat=len(e.dims)), 150):
                def ins(t=t, e=e, args=args, tup=tup):
                    dims, body = self.inst(e, args, tup)
                    return Implies(And(*[And(x >= 0, x < d) for x, d in zip(tup, dims)], body[0]), t)
                emit(('exi', t.get_id()) + tuple(x.get_id() for x in tup), ins)
        # selections
        for t, e, suf in apps.get('@sel', []):
            na = len(e.holes)
            args = t.children()[:na]
            aid = tuple(a.get_id() for a in args)
            cnt = self.app(e, 'c', args)
            ar = len(e.bvs)
            if suf.startswith('p'):
                k = t.children()[na]

                def selp(e=e, args=args, k=k, cnt=cnt, ar=ar):
                    p = [self.app(e, 'p%d' % d, args, [k]) for d in range(ar)]
                    dims, body = self.inst(e, args, p)
                    return Implies(And(k >= 0, k < cnt), And(body[0], *[And(x >= 0, x < d) for x, d in zip(p, dims)],
                                                             self.app(e, 'r', args, p) == k))
                emit(('selp', e.id, aid, k.get_id()), selp)
            emit(('selc', e.id, aid), lambda: cnt >= 0)
            if idx is None:
                idx = self.index_terms(nodes)
            tups = list(itertools.islice(itertools.product(idx + [I0], repeat=ar), 60))
            if suf == 'r':
                tups.append(tuple(t.children()[na:]))
            for tup in tups:
                def seli(e=e, args=args, tup=tup, cnt=cnt, ar=ar):
                    dims, body = self.inst(e, args, tup)
                    r = self.app(e, 'r', args, tup)
                    return Implies(And(body[0], *[And(x >= 0, x < d) for x, d in zip(tup, dims)]),
                                   And(r >= 0, r < cnt, *[self.app(e, 'p%d' % d, args, [r]) == tup[d] for d in range(ar)]))
                emit(('seli', e.id, aid) + tuple(x.get_id() for x in tup), seli)
            if ar == 1 and suf == 'p0':
                k = t.children()[na]
                for k2 in idx[:6] + [x[0].children()[na] for x in apps['@sel'] if x[2] == 'p0' and x[1] is e][:6]:
                    def selm(e=e, args=args, k=k, k2=k2, t=t, cnt=cnt):
                        p2 = self.app(e, 'p0', args, [k2])
                        return And(Implies(And(0 <= k, k < k2, k2 < cnt), t < p2), Implies(And(0 <= k2, k2 < k, k < cnt), p2 < t))
                    emit(('selm', t.get_id(), k2.get_id()), selm)
        self._order_lemmas(nodes, apps, emit, quick)
        # sums and other congruent symbols
        for kindname in ('sum', 'itp', 'nnls', 'proj', 'projo', 'maxel', 'uniq', 'sort', 'root', 'cnt', 'op'):
            lst = apps.get('@' + kindname, [])
            for t, e, suf in lst:
                if kindname != 'sum':
                    break
                na = len(e.holes)
                args = t.children()[:na]
                emit(('sum0', t.get_id()), lambda: Implies(self.inst(e, args, [0])[0][0] <= 0, t == 0))
                if not quick:
                    def nn(sg, e=e, args=args, t=t):
                        sk = z3.Int('sk!n%s%d' % ('n' if sg > 0 else 'p', self._skid((t.get_id(), sg))))
                        dims, body = self.inst(e, args, [sk])
                        if sg > 0:
                            return Or(And(sk >= 0, sk < dims[0], body[0] < 0), t >= 0)
                        return Or(And(sk >= 0, sk < dims[0], body[0] > 0), t <= 0)
                    emit(('sumnn', t.get_id()), lambda: nn(1))
                    emit(('sumnp', t.get_id()), lambda: nn(-1))
            if quick:
                continue
            for (t, e, suf), (t2, e2, suf2) in itertools.combinations(lst[:24], 2):
                if suf != suf2 or len(e.bvs) != len(e2.bvs) or e.extra != e2.extra or len(e.body) != len(e2.body) or len(e.dims) != len(e2.dims):
                    continue
                key = ('ext', t.get_id(), t2.get_id())
                if key in done:
                    continue

                def ext(t=t, e=e, t2=t2, e2=e2):
                    na, na2 = len(e.holes), len(e2.holes)
                    c1, c2 = t.children(), t2.children()
                    a1, a2 = c1[:na], c2[:na2]
                    r1, r2 = c1[na:], c2[na2:]
                    if len(r1) != len(r2) or t.sort() != t2.sort():
                        return True
                    if e is e2 and all(x.eq(y) for x, y in zip(a1, a2)):
                        return True
                    sk = [z3.Int('sk!e%d_%d' % (self._skid((t.get_id(), t2.get_id())), q)) for q in range(len(e.bvs))]
                    d1, b1 = self.inst(e, a1, sk)
                    d2, b2 = self.inst(e2, a2, sk)
                    if any(x.sort() != y.sort() for x, y in zip(b1, b2)):
                        return True
                    same_ = And(*[x == y for x, y in zip(d1, d2)], *[x == y for x, y in zip(r1, r2)])
                    # bound variables of body terms range below dims where dims are given per variable
                    rng = And(*[And(s >= 0, s < d) for s, d in zip(sk, d1)]) if len(d1) >= len(sk) else True
                    small = [k for k, d in enumerate(d1) if k < len(sk) and z3.is_int_value(d) and d.as_long() <= 12]
                    if small:
                        # an extent known to be small: the difference is sought value by value
                        ds = []
                        for vals in itertools.islice(itertools.product(*[range(d1[k].as_long()) for k in small]), 40):
                            ix = list(sk)
                            for k, v in zip(small, vals):
                                ix[k] = z3.IntVal(v)
                            c1, c2 = self.inst(e, a1, ix)[1], self.inst(e2, a2, ix)[1]
                            ds += [And(*[sk[k] == v for k, v in zip(small, vals)], x != y)
                                   for x, y in zip([T.acsort(smart(z3.simplify(c))) for c in c1], [T.acsort(smart(z3.simplify(c))) for c in c2]) if not x.eq(y)]
                        if len(ds) <= 40:
                            return Implies(same_, Or(t == t2, And(rng, Or(*ds))))
                    diff = Or(*[x != y for x, y in zip(b1, b2)])
                    return Implies(same_, Or(t == t2, And(rng, diff)))
                emit(key, ext)
        # quantified facts
        if self.facts:
            if idx is None:
                idx = self.index_terms(nodes)
            for fi, (bvs, tmpl) in enumerate(self.facts):
                own = idx + [I0]
                if len(bvs) == 1:
                    have = {x.get_id() for x in own}
                    for x in self.matches(fi, bvs[0], tmpl, nodes):
                        if x.get_id() not in have:
                            have.add(x.get_id())
                            own.append(x)
                for tup in itertools.islice(itertools.product(own, repeat=len(bvs)), 200):
                    emit(('fact', tmpl.get_id()) + tuple(x.get_id() for x in tup),
                         lambda: z3.substitute(tmpl, list(zip(bvs, tup))))
        self.keep.extend(new)
        return new

    def _order_lemmas(self, nodes, apps, emit, quick):
        if not any(k in apps for k in ('@maxel', '@sort', '@uniq', '@itp', '@ss')):
            return
        idx = self.index_terms(nodes)
        I0 = z3.IntVal(0)
        for t, e, suf in apps.get('@maxel', []):
            args = t.children()
            nd_ = len(e.dims)
            m = self.app(e, '', args)
            w = [self.app(e, 'w%d' % k, args) for k in range(nd_)]
            dims, body = self.inst(e, args, w)
            emit(('mxw', e.id) + tuple(a.get_id() for a in args),
                 lambda: Implies(And(*[d > 0 for d in dims]), And(body[0] == m, *[And(x >= 0, x < d) for x, d in zip(w, dims)])))
            cand = idx + [I0] + [z3.simplify(d - 1) for d in dims]
            for tup in itertools.islice(itertools.product(cand, repeat=nd_), 60):
                def mxi(e=e, args=args, tup=tup, m=m):
                    dims, body = self.inst(e, args, tup)
                    return Implies(And(*[And(x >= 0, x < d) for x, d in zip(tup, dims)]), body[0] <= m)
                emit(('mxi', e.id) + tuple(a.get_id() for a in args) + ('/',) + tuple(x.get_id() for x in tup), mxi)
        for t, e, suf in apps.get('@sort', []):
            na = len(e.holes)
            args, k = t.children()[:na], t.children()[na]
            dims, _ = self.inst(e, args, [k])
            n = dims[0]
            if suf == 'p':
                emit(('so1', t.get_id()), lambda: Implies(And(k >= 0, k < n), And(t >= 0, t < n, self.app(e, 'r', args, [t]) == k)))
                # a strictly increasing array is sorted already
                def so4(e=e, args=args, t=t, k=k, n=n):
                    j = z3.Int('sk!o%d' % self._skid(('so4', e.id) + tuple(a.get_id() for a in args)))
                    _, b1 = self.inst(e, args, [j])
                    _, b2 = self.inst(e, args, [z3.simplify(j + 1)])
                    return Implies(And(k >= 0, k < n), Or(t == k, And(j >= 0, j < n - 1, b1[0] >= b2[0])))
                emit(('so4', t.get_id()), so4)
                ks = [x[0].children()[na] for x in apps['@sort'] if x[2] == 'p' and x[1] is e][:8]
                for k2 in ks + [I0, z3.simplify(n - 1)] + idx[:6]:
                    def so2(e=e, args=args, t=t, k=k, k2=k2, n=n):
                        p2 = self.app(e, 'p', args, [k2])
                        _, b1 = self.inst(e, args, [t])
                        _, b2 = self.inst(e, args, [p2])
                        return And(Implies(And(0 <= k, k <= k2, k2 < n), b1[0] <= b2[0]),
                                   Implies(And(0 <= k2, k2 <= k, k < n), b2[0] <= b1[0]))
                    emit(('so2', t.get_id(), k2.get_id()), so2)
            else:
                emit(('so3', t.get_id()), lambda: Implies(And(k >= 0, k < n), And(t >= 0, t < n, self.app(e, 'p', args, [t]) == k)))
        # position in an increasing array (shown to be increasing where the symbol was made)
        for t, e, suf in apps.get('@ss', []):
            args = t.children()[:len(e.holes)]
            dims, _ = self.inst(e, args, [I0])
            emit(('ssr', t.get_id()), lambda: And(t >= 0, Implies(dims[0] >= 0, t <= dims[0])))
            for k in idx[:12] + [I0, z3.simplify(dims[0] - 1), t, z3.simplify(t - 1)]:
                def ssk(e=e, args=args, k=k, t=t, dims=dims):
                    _, body = self.inst(e, args, [k])
                    return Implies(And(k >= 0, k < dims[0]), (k < t) == body[0])
                emit(('ssk', t.get_id(), k.get_id()), ssk)
        for t, e, suf in apps.get('@uniq', []):
            na = len(e.holes)
            args = t.children()[:na]
            aid = tuple(a.get_id() for a in args)
            c = self.app(e, 'c', args)
            dims, _ = self.inst(e, args, [I0])
            emit(('uqc', e.id) + aid, lambda: And(c >= 0, c <= dims[0], Implies(dims[0] > 0, c > 0)))
            ks = ([t.children()[na]] if suf == 'v' else []) + [I0, z3.simplify(c - 1)]
            for k in ks:
                def uqw(e=e, args=args, k=k, c=c, dims=dims):
                    w = self.app(e, 'w', args, [k])
                    v = self.app(e, 'v', args, [k])
                    _, body = self.inst(e, args, [w])
                    return Implies(And(k >= 0, k < c), And(w >= 0, w < dims[0], body[0] == v))
                emit(('uqw', e.id, k.get_id()) + aid, uqw)
            vs = [x[0].children()[na] for x in apps['@uniq'] if x[2] == 'v' and x[1] is e][:8]
            if suf == 'v':
                k = t.children()[na]
                for k2 in vs + [I0, z3.simplify(c - 1)]:
                    def uqm(e=e, args=args, k=k, k2=k2, c=c, t=t):
                        v2 = self.app(e, 'v', args, [k2])
                        return And(Implies(And(0 <= k, k < k2, k2 < c), t < v2), Implies(And(0 <= k2, k2 < k, k < c), v2 < t))
                    emit(('uqm', t.get_id(), k2.get_id()), uqm)
            for j in idx[:8] + [I0, z3.simplify(dims[0] - 1), z3.simplify(dims[0] - 2)]:
                def uqq(e=e, args=args, j=j, c=c, dims=dims):
                    q = self.app(e, 'q', args, [j])
                    _, body = self.inst(e, args, [j])
                    return Implies(And(j >= 0, j < dims[0]), And(q >= 0, q < c, self.app(e, 'v', args, [q]) == body[0]))
                emit(('uqq', e.id, j.get_id()) + aid, uqq)
        for t, e, suf in apps.get('@itp', []):
            if not e.extra.endswith('+'):
                continue
            na = len(e.holes)
            args, q = t.children()[:na], t.children()[na]
            for k in idx + [I0, z3.simplify(e_dim_last(self, e, args))]:
                def itn(e=e, args=args, k=k, q=q, t=t):
                    dims, body = self.inst(e, args, [k])
                    return Implies(And(k >= 0, k < dims[0], q == body[0]), t == body[1])
                emit(('itn', t.get_id(), k.get_id()), itn)

    def _skid(self, key):
        d = self.__dict__.setdefault('_sk', {})
        return d.setdefault(key, len(d))

    def _analytic(self, apps, emit, quick):
        for t in apps.get('pow10', []):
            emit(('p10', t.get_id()), lambda: t > 0)
            a = t.arg(0)
            if z3.is_app(a) and a.decl().eq(F1['log10']):
                emit(('p10l', t.get_id()), lambda: Implies(a.arg(0) > 0, t == a.arg(0)))
            c = const(a)
            if not is_sym(c):
                import math
                lo = Fraction(10 ** (float(c) - 1e-9)).limit_denominator(10**12) * Fraction(999999999, 10**9)
                hi = lo * Fraction(1000000003, 10**9)
                emit(('p10c', t.get_id()), lambda: And(t > zr(lo), t < zr(hi)))
            else:
                lin = {k: v for k, v in linform(a).items() if v != 0}
                if list(lin) and len(lin) == 1:
                    (k, v), = lin.items()
                    if k is not None and k.decl().eq(F1['log10']) and v.denominator == 1 and abs(v) <= 4 and v != 1:
                        emit(('p10k', t.get_id()), lambda: Implies(k.arg(0) > 0, t == zr(power(k.arg(0), int(v)))))
            emit(('p10s', t.get_id()), lambda: And(Implies(a == 0, t == 1), Implies(a > 0, t > 1), Implies(a < 0, t < 1)))
        for t in apps.get('exp', []):
            emit(('exp', t.get_id()), lambda: t > 0)
            a = t.arg(0)
            if z3.is_app(a) and a.decl().eq(F1['ln']):
                emit(('expl', t.get_id()), lambda: Implies(a.arg(0) > 0, t == a.arg(0)))
        for nm in ('log10', 'ln'):
            for t in apps.get(nm, []):
                a = t.arg(0)
                if not is_sym(const(a)):
                    v = const(a)
                    if v > 0:
                        import math
                        f = math.log10(v) if nm == 'log10' else math.log(v)
                        lo, hi = Fraction(f) - Fraction(1, 10**9), Fraction(f) + Fraction(1, 10**9)
                        emit(('lgc', t.get_id()), lambda: And(t > zr(lo), t < zr(hi)))
                        if v == 1:
                            emit(('lg1', t.get_id()), lambda: t == 0)
                    continue
                emit(('lgs', t.get_id()), lambda: And(Implies(a == 1, t == 0), Implies(a > 1, t > 0), Implies(And(a > 0, a < 1), t < 0)))
                c, m = mulform(a)
                if c > 0 and (len(m) > 1 or c != 1 or any(e != 1 for e in m.values())):
                    rhs = logv(nm, c)
                    for at, e in m.items():
                        rhs = add(rhs, mul(Fraction(e), logv(nm, at)))
                    emit(('lgm', t.get_id()), lambda: Implies(And(*[at > 0 for at in m]), t == zr(rhs)))
                p = F1['pow10'] if nm == 'log10' else F1['exp']
                if a.decl().eq(p):
                    emit(('lgp', t.get_id()), lambda: t == a.arg(0))
            if not quick:
                for t, t2 in itertools.combinations(apps.get(nm, [])[:10], 2):
                    a, b = t.arg(0), t2.arg(0)
                    emit(('lgo', t.get_id(), t2.get_id()), lambda: Implies(And(a > 0, b > 0), And(Implies(a < b, t < t2), Implies(a == b, t == t2), Implies(a > b, t > t2))))
        for t in apps.get('sqrt', []):
            a = t.arg(0)
            emit(('sq', t.get_id()), lambda: And(t >= 0, Implies(a >= 0, t * t == a), Implies(a > 0, t > 0)))
            if not is_sym(const(a)) and const(a) >= 0:
                pass
        if not quick:
            for t, t2 in itertools.combinations(apps.get('sqrt', [])[:8], 2):
                emit(('sqo', t.get_id(), t2.get_id()), lambda: Implies(And(t.arg(0) >= 0, t2.arg(0) >= 0),
                     And(Implies(t.arg(0) < t2.arg(0), t < t2), Implies(t2.arg(0) < t.arg(0), t2 < t))))
            for t in apps.get('sqrt', []):
                a = t.arg(0)
                c, m = mulform(a)
                if c > 0 and (len(m) > 1 or c != 1 or any(e != 1 for e in m.values())):
                    rhs = sqrtv(c)
                    for at, e in m.items():
                        rhs = mul(rhs, atompow(at, e) if Fraction(e).denominator > 1 and False else zr(power(sqrtv(at), int(e)) if Fraction(e).denominator == 1 else F_pow(at, zr(Fraction(e) / 2))))
                    emit(('sqm', t.get_id()), lambda: Implies(And(*[at > 0 for at in m]), t == zr(rhs)))
        for t in apps.get('cosh', []):
            emit(('ch', t.get_id()), lambda: t >= 1)

    def normal_lemma(self, t):
        """t equals its polynomial normal form where every divisor is nonzero"""
        if not is_sym(t) or not z3.is_real(t):
            return None
        lin = linform(t)
        r = Fraction(0)
        for a, c in sorted(lin.items(), key=lambda x: '' if x[0] is None else x[0].sexpr()):
            if c != 0:
                r = add(r, c if a is None else mul(c, a))
        divs = []
        for s in subterms([t]):
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_DIV:
                c, m = mulform(s.arg(1))
                for at in m:
                    divs.append(at != 0)
            if z3.is_app(s) and s.decl().eq(F1['sqrt']):
                divs.append(s.arg(0) > 0)
                c, m = mulform(s.arg(0))
                for at in m:
                    divs.append(at > 0)
        return Implies(And(*divs), z(t) == zr(r))

    # ---- proof ----------------------------------------------------------
    def _check(self, hyps, ms, quick=False, want_model=False):
        done, seen = set(), set()
        allh = list(hyps)
        rounds = 1 if quick else 5 if self.wide else 3
        nodes = subnodes(allh, seen)
        for r in range(rounds):
            new = self.lemmas(None, done, quick, nodes)
            allh = allh + new
            if not new or len(allh) > (6000 if self.wide else 3000):
                break
            if r + 1 < rounds:
                nodes = nodes + subnodes(new, seen)
        t0 = time.time()
        s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 1)
        for h in allh:
            s.add(h)
        res = str(s.check())
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if want_model and res == 'sat':
            return res, s.model(), allh
        if want_model:
            return res, None, allh
        return res

    def prove(self, goal, hyps=None, ms=None, full=True):
        """('proved'|'refuted'|'unknown', backend or model)"""
        goal = const(goal)
        if goal is True:
            return 'proved', 'simplifier', None
        self.check_time()
        ms = ms or self.__dict__.get('prove_ms', 4000) * (3 if goal is False else 1)
        hyps = list(self.pcs() if hyps is None else hyps)
        g = z(goal)
        s = z3.simplify(g)
        if z3.is_true(s):
            return 'proved', 'simplifier', None
        key = (g.get_id(), tuple(sorted(h.get_id() for h in hyps)), tuple(f.get_id() for b, f in self.facts))
        if key in self.proofcache:
            return self.proofcache[key]
        self.keep.append(g)
        self.keep.extend(hyps)
        r = self._prove1(g, hyps, ms, True)
        if r[0] != 'proved':
            if not full:
                return r
            r = self._prove_cases(g, hyps, ms)
        self.proofcache[key] = r
        return r

    def _prove_cases(self, g, hyps, ms, depth=0):
        """split on the conditions of conditional terms in the goal"""
        self.check_time()
        if depth == 0:
            g = fold(g, None, None)
        c = innermost_cond(g) if depth < 10 else None
        if c is None:
            g2 = self.rewrite(g, hyps, ms)
            if g2 is not None:
                if z3.is_true(g2) or z3.is_true(z3.simplify(g2)) or self._prove1(g2, hyps, ms, True)[0] == 'proved':
                    return ('proved', 'z3', None)
                g = g2
            return self._prove1(g, hyps, ms, False)
        best = None
        for v in (True, False):
            h = c if v else z3.Not(c)
            hs = hyps + [h]
            self.keep.extend([c, h])
            if self._check(hs, 400, quick=True) == 'unsat':
                continue
            g2 = fold(g, c, v)
            self.keep.append(g2)
            if z3.is_true(g2) or z3.is_true(z3.simplify(g2)):
                continue
            r = self._prove1(g2, hs, ms, True)
            if r[0] != 'proved':
                r = self._prove_cases(g2, hs, ms, depth + 1)
            if r[0] == 'refuted':
                return r
            if r[0] != 'proved':
                best = r
        return best or ('proved', 'z3', None)

    def rewrite(self, g, hyps, ms):
        """proved equalities applied to the goal: pow10(log10 x) = x, equal sums"""
        pairs = []
        apps = {}
        for t in subterms([g]):
            if not z3.is_app(t):
                continue
            if t.decl().eq(F1['pow10']) and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(F1['log10']):
                x = t.arg(0).arg(0)
                if self._prove1(z3.simplify(x > 0), hyps, ms, True)[0] == 'proved':
                    pairs.append((t, x))
            e = self.bysym.get(t.decl().name())
            if e is not None and e[0].kind == 'sum':
                apps.setdefault(t.get_id(), (t, e[0]))
        sums = sorted(apps.values(), key=lambda x: x[0].get_id())
        reps = []
        for t, e in sums:
            if self._pinned(t):
                continue
            for u, e2 in reps:
                if e2 is e:
                    continue
                sk = z3.Int('sk!q%d' % self._skid((t.get_id(), u.get_id(), 'q')))
                d1, b1 = self.inst(e, t.children(), [sk])
                d2, b2 = self.inst(e2, u.children(), [sk])
                eqn = z(And(d1[0] == d2[0], b1[0] == b2[0]))
                self.keep.append(eqn)
                lin = [h for h in hyps if not nonlinear(h)]
                if self._prove1(eqn, lin + [z3.And(sk >= 0, sk < d1[0])], 800, True)[0] == 'proved':
                    pairs.append((t, u))
                    break
            else:
                reps.append((t, e))
        if not pairs:
            return None
        g2 = g
        for t, x in pairs:
            g2 = fold(z3.substitute(g2, (t, x)), None, None)
        self.keep.append(g2)
        return g2

    def _pinned(self, t):
        return any(z3.is_var(x) for x in subterms([t]))

    def _prove1(self, g, hyps, ms, quick):
        base = hyps + [z3.Not(g)]
        extra = []
        if z3.is_eq(g) and z3.is_real(g.arg(0)):
            for side in (g.arg(0), g.arg(1), g.arg(0) - g.arg(1)):
                nl = self.normal_lemma(side)
                if nl is not None and nl is not True:
                    extra.append(z(nl))
        self.keep.extend(extra)
        if quick:
            if self._check(base + extra, min(ms, 1500), quick=True) == 'unsat':
                return ('proved', 'z3', None)
            return ('unknown', 'z3', None)
        res, m, h = self._check(base + extra, ms, quick=False, want_model=True)
        if res == 'unsat':
            return ('proved', 'z3', None)
        if res == 'sat':
            if self.wide_left > 0:
                t0 = time.time()
                self.wide = True
                try:
                    if self._check(base + extra, 3 * ms, quick=False) == 'unsat':
                        return ('proved', 'z3', None)
                finally:
                    self.wide = False
                    self.wide_left -= time.time() - t0
            return ('refuted', 'z3', m)
        if self.cvc5(h, ms) == 'unsat':
            return ('proved', 'cvc5', None)
        return ('unknown', 'z3+cvc5', None)

    def cvc5(self, hyps, ms):
        try:
            import cvc5
        except Exception:
            return 'unknown'
        s = z3.Solver()
        for h in hyps:
            s.add(h)
        txt = s.to_smt2()
        t0 = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(ms))
            slv.setOption('nl-ext-tplanes', 'true')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'q')
            sm = p.getSymbolManager()
            out = 'unknown'
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                o = str(o)
                if 'unsat' in o:
                    out = 'unsat'
                elif o.strip() == 'sat':
                    out = 'sat'
            return out
        except Exception:
            return 'unknown'
        finally:
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0


E = Engine()
