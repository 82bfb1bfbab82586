"""Interpreter of the repository's Python source over the value domain (VC generation).

The source is parsed from /repo on every run; nothing is annotated by hand.  What
extraction drops: comments, docstrings, type annotations, decorators other than
staticmethod/classmethod/property, and calls into matplotlib and warnings."""
import ast
import os

from .arrays import *
from .engine import Frame, PathEnd
from . import arrays as AR
MANY = 64        # iterations taken one by one; more are one arbitrary iteration

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'kcorrect')


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def constant_step(m, pv, vals):
    """the integer constant by which every path advances counter m, or None"""
    if kind(pv) != 'i' or not vals:
        return None
    g = None
    for x in vals:
        x = x.item() if is_arr(x) and x.ndim == 0 else x
        if not is_num(x) or isinstance(x, bool) or kind(x) != 'i':
            return None
        d = linform(sub(x, m))
        if any(k is not None and c != 0 for k, c in d.items()):
            return None
        c = Fraction(d.get(None, 0))
        if c.denominator != 1 or (g is not None and c != g):
            return None
        g = c
    return int(g)


class NeedPeel(Exception):
    pass


class Poison:
    def __init__(self, what):
        self.what = what


class Seg:
    """symbolic segment of a list: item(i) for i in [start, n) where keep(i)"""

    def __init__(self, n, item, keep=None, start=0):
        self.n, self.item, self.keep, self.start = n, item, keep, start


class Env:
    def __init__(self, vars_=None, parent=None, module=None, func=None, cls=None, self_=None):
        self.vars = vars_ if vars_ is not None else {}
        self.parent, self.module, self.func, self.cls, self.self_ = parent, module, func, cls, self_
        self.locals = None
        self.globals_decl = set()


def plist_norm(l):
    """PList with one symbolic segment -> SymList"""
    if isinstance(l, PList) and any(isinstance(x, Seg) for x in l.items):
        if len(l.items) == 1:
            s = l.items[0]
            if not is_sym(s.start) and s.start == 0:
                return SymList(s.n, s.item, s.keep)
            st = s.start
            return SymList(sub(s.n, st), lambda i: s.item(add(i, st)), (lambda i: s.keep(add(i, st))) if s.keep else None)
        # concrete heads then one segment
        head = l.items[:-1]
        s = l.items[-1]
        if isinstance(s, Seg) and s.keep is None and not any(isinstance(x, Seg) for x in head):
            h = len(head)
            n = add(sub(s.n, s.start), h)

            def item(i):
                i = const(i)
                if not is_sym(i):
                    return head[i] if i < h else s.item(add(i - h, s.start))
                if h == 1 and E.known(eq(i, 0)) is False:
                    return s.item(add(sub(i, h), s.start))
                vals = s.item(add(sub(i, h), s.start))
                r = vals
                for k in range(h):
                    r = merge_vals([(eq(i, k), head[k])], r)
                return r
            return SymList(n, item)
        raise Unsupported('list with several symbolic segments')
    return l


def merge_vals(cases, default):
    """If-merge of values: cases [(cond, value)] else default"""
    r = default
    for c, v in reversed(cases):
        c = const(c)
        if c is True:
            r = v
            continue
        if c is False or v is r:
            continue
        r = merge2(c, v, r)
    return r


def merge2(c, a, b):
    if a is b:
        return a
    if is_arr(a) or is_arr(b):
        if not is_arr(a):
            a = npscalar(a, guess_dtype(a)) if is_num(a) else None
        if not is_arr(b):
            b = npscalar(b, guess_dtype(b)) if is_num(b) else None
        if a is None or b is None or a.ndim != b.ndim:
            raise Unsupported('merge of different shapes')
        shape = []
        for x, y in zip(a.shape, b.shape):
            if not same_dim(x, y):
                shape.append(If(c, x, y))
            else:
                shape.append(x)
        ra, rb = a.reader(), b.reader()
        dt = a.dtype if a.dtype == b.dtype else result_dtype([a, b])
        return mk(tuple(shape), lambda *ix: If(c, ra(*ix), rb(*ix)), dt, scalar=a.scalar and b.scalar)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return SStr(z3.If(z(c), strterm(a), strterm(b)))
    if a is None and b is None:
        return None
    if is_num(a) and is_num(b):
        return If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Inst) and isinstance(b, Inst) and 'itp' in a.ghost and 'itp' in b.ghost:
        from . import npmodel
        r = npmodel.merge_itp(c, a, b)
        if r is not None:
            return r
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def deep_subst(v, pairs, memo=None):
    """value with index variables replaced"""
    memo = {} if memo is None else memo
    if is_sym(v):
        return subst(v, pairs)
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.term, [(a, z(b)) for a, b in pairs]))
    if is_arr(v):
        if v.buf.label == 'global' and False:
            return v
        rd = v.reader()

        def fn(*ix):
            r = rd(*ix)
            if isinstance(r, SStr):
                return deep_subst(r, pairs)
            # rename indices apart from the substituted variables
            return subst(r, pairs) if not any(_mentions(x, pairs) for x in ix) else _subst_apart(rd, ix, pairs)
        return mk(tuple(subst(d, pairs) if is_sym(d) else d for d in v.shape), fn, v.dtype, meta={}, scalar=v.scalar)
    if isinstance(v, tuple):
        return tuple(deep_subst(x, pairs, memo) for x in v)
    if isinstance(v, PList):
        if id(v) not in memo:
            memo[id(v)] = PList([deep_subst(x, pairs, memo) if not isinstance(x, Seg) else x for x in v.items])
        return memo[id(v)]
    if isinstance(v, PDict):
        if id(v) not in memo:
            memo[id(v)] = PDict({k: deep_subst(x, pairs, memo) for k, x in v.d.items()})
        return memo[id(v)]
    if isinstance(v, SymList):
        return SymList(subst(v.n, pairs) if is_sym(v.n) else v.n, lambda i: deep_subst(v.item(i), pairs),
                       (lambda i: subst(v.keep(i), pairs)) if v.keep else None)
    if isinstance(v, Inst) and v.ghost.get('fresh') is not None:
        if id(v) not in memo:
            c = Inst(v.cls)
            c.ghost = dict(v.ghost)
            memo[id(v)] = c
            c.attrs = {k: deep_subst(x, pairs, memo) for k, x in v.attrs.items()}
            c.data = v.data
        return memo[id(v)]
    return v


def _mentions(x, pairs):
    return is_sym(x) and any(a.eq(c) for c in free_consts([x]) for a, _ in pairs)


def _subst_apart(rd, ix, pairs):
    tmp = [E.fresh('ix!r') if _mentions(x, pairs) else x for x in ix]
    r = subst(rd(*tmp), pairs)
    return subst(r, [(t, x) for t, x in zip(tmp, ix) if t is not x])


class Interp:
    def __init__(self):
        self.modules = {}
        self.contracts = {}        # qual -> contract
        self.inline = set()        # quals verified right now (body, not contract)
        self.used_contracts = set()
        self.inlined = set()
        self.externals = set()
        self.builtins = {}
        self.depth = 0
        self.loaded_sources = {}
        from . import npmodel
        self.np = npmodel
        npmodel.install(self)

    # ---- modules --------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.np.external(self, name)
        if m is not None:
            self.modules[name] = m
            return m
        if name == 'kcorrect' or name.startswith('kcorrect.'):
            short = name.split('.', 1)[1] if '.' in name else '__init__'
            path = os.path.join(SRC, *short.split('.')) + '.py'
            if not os.path.exists(path):
                path2 = os.path.join(SRC, *short.split('.'), '__init__.py')
                if not os.path.exists(path2):
                    raise PyExc('ImportError', name)
                path = path2
            src = open(path).read()
            self.loaded_sources[name] = path
            tree = ast.parse(src)
            mod = ModuleVal(name, {}, path)
            self.modules[name] = mod
            mod.env['__file__'] = self.np.PKGFILE if short == '__init__' else path
            mod.env['__name__'] = name
            env = Env(mod.env, None, mod)
            mod.topenv = env
            self.exec_block(tree.body, env)
            if '.' in name:
                parent = self.module(name.rsplit('.', 1)[0])
                parent.env[name.rsplit('.', 1)[1]] = mod
            return mod
        raise Unsupported('module %s' % name)

    # ---- functions ------------------------------------------------------
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, Bound):
            return self.call(f.fn, (f.self_,) + tuple(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            if f is self.builtins['type'] and len(args) == 1 and not kw:
                return self.np.type_of(args[0])
            if f.meta is not None:
                m, _ = f.meta.find('__call__')
                if m is not None:
                    return self.call(m, (f,) + tuple(args), kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass):
            return ('exc', f.name, args)
        if isinstance(f, Inst):
            if callable(f.ghost.get('call')):
                return f.ghost['call'](*args, **kw)
            m = self.lookup_method(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
        if isinstance(f, Dtype):
            return self.np.dtype_call(f, *args, **kw)
        if f is None or is_num(f) or isinstance(f, (str, SStr, tuple)) or is_arr(f):
            raise PyExc('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        if cls is self.builtins['dict']:
            d = PDict()
            for k, v in kw.items():
                d.d[k] = v
            if args:
                src = args[0]
                if isinstance(src, PDict):
                    d.d = dict(list(src.d.items()) + list(d.d.items()))
                elif isinstance(src, (PList, tuple)):
                    for it in (src.items if isinstance(src, PList) else src):
                        k, v = self.np.unpack(self, it, 2, None)
                        d.d[self.np.dictkey(self, k)] = v
                else:
                    raise Unsupported('dict()')
            return d
        o = Inst(cls)
        o.ghost['fresh'] = True
        for c in cls.mro():
            if c is self.builtins['dict']:
                o.data = PDict()
            elif c is self.builtins.get('list'):
                raise Unsupported('list subclass')
        init, owner = cls.find('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyExc('TypeError', 'too many positional arguments')
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in konly:
                if k in out:
                    raise PyExc('TypeError', 'multiple values for argument')
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', 'unexpected keyword argument %s' % k)
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(extra)
        nd_ = len(f.defaults)
        for n, v in zip(names[len(names) - nd_:], f.defaults):
            out.setdefault(n, v)
        for n, v in f.kwdefaults.items():
            out.setdefault(n, v)
        for n in names + konly:
            if n not in out:
                raise PyExc('TypeError', 'missing argument %s' % n)
        return out

    def call_func(self, f, args, kw):
        if isinstance(f.deco, str) and f.deco == 'staticmethod':
            pass
        b = self.bind(f, args, kw)
        c = self.contracts.get(f.qual)
        if c is not None and f.qual not in self.inline and c.applicable(self, f, b):
            self.used_contracts.add(f.qual)
            return c.apply(self, b)
        if f.qual:
            self.inlined.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            env = Env(b, f.closure, f.module, f)
            env.cls = f.owner
            first = (f.node.args.posonlyargs + f.node.args.args)[:1]
            env.self_ = b.get(first[0].arg) if first else None
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if f.deco == 'generator':
                raise Unsupported('generator function')
            env.locals = assigned_names(f.node)
            try:
                self.exec_block(f.node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def lookup_method(self, o, name):
        v, owner = o.cls.find(name)
        if v is None:
            return None
        if isinstance(v, FuncVal):
            if v.deco == 'staticmethod':
                return v
            if v.deco == 'classmethod':
                return Bound(v, o.cls)
            return Bound(v, o)
        return v

    # ---- attributes ------------------------------------------------------
    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise NeedPeel(o.what)
        if isinstance(o, Inst):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise NeedPeel(v.what)
                return v
            if name == '__dict__':
                raise Unsupported('__dict__')
            if name == '__class__':
                return o.cls
            if o.cls is not None:
                v, owner = o.cls.find(name)
                if owner is not None:
                    if isinstance(v, FuncVal):
                        if v.deco == 'property':
                            return self.call(v, (o,))
                        if v.deco == 'staticmethod':
                            return v
                        if v.deco == 'classmethod':
                            return Bound(v, o.cls)
                        return Bound(v, o)
                    return v
            h = o.ghost.get('getattr')
            if h is not None:
                return h(name)
            if o.data is not None:
                return self.np.dict_attr(self, o.data, name)
            raise PyExc('AttributeError', name)
        if isinstance(o, ClassVal):
            v, owner = o.find(name)
            if owner is not None:
                if isinstance(v, FuncVal) and v.deco == 'classmethod':
                    return Bound(v, o)
                return v
            if name == '__name__':
                return o.name
            if o.meta is not None:
                v, owner = o.meta.find(name)
                if owner is not None:
                    return Bound(v, o) if isinstance(v, FuncVal) else v
            raise PyExc('AttributeError', name)
        if isinstance(o, ModuleVal):
            if name in o.env:
                return o.env[name]
            if o.path is not None:
                try:
                    return self.module(o.name + '.' + name)
                except PyExc:
                    pass
                raise PyExc('AttributeError', name)
            v = self.np.module_attr(self, o, name)
            return v
        if isinstance(o, FuncVal):
            if name in ('__name__',):
                return o.node.name
            if name == '__doc__':
                return ''
        return self.np.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if o.ghost.get('frozen'):
                o.ghost.setdefault('modified', set()).add(name)
            missing = name not in o.attrs
            old = o.attrs.get(name)

            def undo():
                if missing:
                    o.attrs.pop(name, None)
                else:
                    o.attrs[name] = old
            E.undoable(undo)
            o.attrs[name] = v
            self.log(('attr', o, name))
            return
        if isinstance(o, ModuleVal):
            o.env[name] = v
            return
        if isinstance(o, ClassVal):
            o.attrs[name] = v
            return
        if is_arr(o):
            raise Unsupported('attribute store on array: %s' % name)
        raise PyExc('AttributeError', name)

    effects = None

    def log(self, e):
        if self.effects is not None:
            self.effects.append(e)

    # ---- truth --------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Poison):
            raise NeedPeel(v.what)
        if v is None:
            return False
        if is_arr(v):
            if v.ndim == 0:
                return E.decide(T.truth(v.item()))
            if all(not is_sym(d) for d in v.shape) and math.prod(v.shape) == 1:
                return E.decide(T.truth(v.read((0,) * v.ndim)))
            if E.decide(eq(size_of(v.shape), 1)):
                return E.decide(T.truth(v.read((0,) * v.ndim)))
            raise PyExc('ValueError', 'truth value of an array is ambiguous')
        if is_num(v):
            return E.decide(T.truth(v))
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, (PList, SymList, PDict, tuple, SymDict)):
            return E.decide(ne(self.np.length(self, v), 0))
        if isinstance(v, SStr):
            return E.decide(Not(str_eq(v, '')))
        if isinstance(v, Inst) and v.data is not None:
            return self.truth(v.data)
        if isinstance(v, Inst) and callable(v.ghost.get('truth')):
            return E.decide(v.ghost['truth']())
        return True

    # ---- statements -----------------------------------------------------------
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(s).__name__, s.lineno))
        E.check_time()
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise Brk()

    def x_Continue(self, s, env):
        raise Cont()

    def x_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def x_Nonlocal(self, s, env):
        raise Unsupported('nonlocal')

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                self.np.delitem(self, o, k)
            else:
                raise Unsupported('del')

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyExc('AssertionError', '')

    def x_Import(self, s, env):
        for a in s.names:
            if a.asname:
                env.vars[a.asname] = self.module_path(a.name)
            else:
                self.module_path(a.name)
                env.vars[a.name.split('.')[0]] = self.module(a.name.split('.')[0])

    def module_path(self, name):
        m = self.module(name.split('.')[0])
        for k in range(1, len(name.split('.'))):
            full = '.'.join(name.split('.')[:k + 1])
            m = self.module(full)
        return m

    def x_ImportFrom(self, s, env):
        if s.level:
            base = env.module.name
            if not env.module.path.endswith('__init__.py'):
                base = base.rsplit('.', 1)[0]
            name = base + ('.' + s.module if s.module else '')
        else:
            name = s.module
        m = self.module_path(name)
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            try:
                v = self.getattr(m, a.name)
            except PyExc:
                v = self.module(name + '.' + a.name)
            env.vars[a.asname or a.name] = v

    def make_func(self, s, env, name):
        qual = None
        mod = env.module.name.split('.', 1)[-1] if env.module else ''
        if env.func is None:
            qual = '%s.%s' % (mod, (env.cls.name + '.' if env.cls else '') + name)
        else:
            qual = '%s.<local>.%s' % (env.func.qual, name)
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        clo = env if env.func is not None else None
        if clo is None and env.cls is not None:
            clo = None
        f = FuncVal(s, env.module, qual, clo, defaults, kwd, env.cls)
        return f

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in s.decorator_list:
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                f.deco = d.id
            else:
                raise Unsupported('decorator')
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                f.deco = 'generator'
        env.vars[s.name] = f

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        meta = None
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, env)
        c = ClassVal(s.name, [b for b in bases if b is not self.builtins['object']], {}, env.module, meta)
        for b in bases:
            if isinstance(b, ClassVal) and b.meta is not None and meta is None:
                c.meta = b.meta
        e2 = Env({}, env if env.func is not None else None, env.module, env.func, c)
        e2.func = None
        self.exec_block(s.body, e2)
        c.attrs = e2.vars
        if any(isinstance(b, ExcClass) for b in bases):
            EXC_BASES.setdefault(s.name, tuple(b.name for b in bases if isinstance(b, ExcClass)))
            env.vars[s.name] = ExcClass(s.name)
            return
        env.vars[s.name] = c

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), env)
            v = self.ev(s.value, env)
            self.assign(t, self.inplace(s.op, cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, env)
            self.setattr(o, t.attr, self.inplace(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.np.getitem(self, o, k)
            v = self.ev(s.value, env)
            if is_arr(cur) and is_arr(o) and cur.ndim > 0 and cur.buf is o.buf:
                # augmented assignment writes through a view
                r = self.binop(s.op, cur, v)
                self.np.setitem(self, cur, Ellipsis, r)
            else:
                self.np.setitem(self, o, k, self.binop(s.op, cur, v))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, cur, v):
        if is_arr(cur) and not cur.scalar and cur.ndim > 0:
            r = self.binop(op, cur, v)
            if kind_of_dtype(cur.dtype) == 'i' and is_arr(r) and kind_of_dtype(r.dtype) == 'f':
                raise PyExc('TypeError', 'cannot cast output')
            self.np.setitem(self, cur, Ellipsis, r)
            return cur
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            v = plist_norm(v)
            if isinstance(v, SymList):
                self.list_set(cur, cur.items + [Seg(v.n, v.item, v.keep)])
            else:
                self.list_set(cur, cur.items + (list(v.items) if isinstance(v, PList) else list(v)))
            return cur
        return self.binop(op, cur, v)

    def list_set(self, l, items):
        old = l.items

        def undo():
            l.items = old
        E.undoable(undo)
        l.items = items
        self.log(('list', l))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_decl:
                env.module.env[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.np.unpack(self, v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                after = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], vals[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, PList(vals[k:len(vals) - after]), env)
                for x, y in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
                return
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            self.np.setitem(self, o, k, v)
        else:
            raise Unsupported('assignment target')

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur is None:
                raise PyExc('RuntimeError', 'no active exception')
            raise cur
        v = self.ev(s.exc, env)
        if isinstance(v, ExcClass):
            raise PyExc(v.name)
        if isinstance(v, tuple) and v and v[0] == 'exc':
            raise PyExc(v[1], v[2][0] if v[2] else '')
        if isinstance(v, PyExc):
            raise v
        raise PyExc('TypeError', 'exceptions must derive from BaseException')

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = self.ev(h.type, env)
                        cs = c if isinstance(c, tuple) else (c,)
                        ok = any(exc_isa(e.kind, x.name) for x in cs if isinstance(x, ExcClass))
                    if ok:
                        if h.name:
                            env.vars[h.name] = e
                        old = getattr(self, 'handling', None)
                        self.handling = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (PyExc, Ret, Brk, Cont)):
                    self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        opened = []
        for it in s.items:
            c = self.ev(it.context_expr, env)
            v = self.np.enter(self, c)
            opened.append(c)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        finally:
            for c in reversed(opened):
                self.np.leave(self, c)

    # ---- loops -----------------------------------------------------------------
    def iteration(self, v):
        """(count, item function) of an iterable"""
        v = plist_norm(v)
        if isinstance(v, Poison):
            raise NeedPeel(v.what)
        if isinstance(v, (PList, tuple)):
            items = v.items if isinstance(v, PList) else list(v)
            return len(items), lambda i: items[i]
        if isinstance(v, SymList):
            if v.keep is not None:
                raise Unsupported('iteration over a filtered list')
            return v.n, v.item
        if isinstance(v, Range):
            return v.n, lambda i: add(v.start, mul(v.step, i))
        if is_arr(v):
            if v.ndim == 0:
                raise PyExc('TypeError', 'iteration over a 0-d array')
            if v.dtype == 'U' and v.ndim == 1:
                rd = v.reader()
                return v.shape[0], lambda i: rd(i)
            return v.shape[0], lambda i: AR.getitem(v, i)
        if isinstance(v, str):
            return len(v), lambda i: v[i]
        if isinstance(v, PDict):
            ks = list(v.d)
            return len(ks), lambda i: ks[i]
        if isinstance(v, Inst) and v.data is not None:
            return self.iteration(v.data)
        if isinstance(v, Inst) and callable(v.ghost.get('iter')):
            return v.ghost['iter']()
        if v is None or is_num(v):
            raise PyExc('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (type(v).__name__,))

    def x_For(self, s, env):
        n, item = self.iteration(self.ev(s.iter, env))
        n = const(n)

        def one(i):
            self.assign(s.target, item(i), env)
            self.exec_block(s.body, env)
        if not is_sym(n) and n <= MANY:
            for i in range(n):
                try:
                    one(i)
                except Cont:
                    continue
                except Brk:
                    break
            else:
                self.exec_block(s.orelse, env)
            return
        if s.orelse:
            raise Unsupported('for-else over a symbolic iterable')
        self.symloop(n, one, env, stored_names(s.body) | stored_names([s.target]))

    def x_While(self, s, env):
        k = 0
        conv = self.while_as_for(s, env)
        if conv:
            return
        while self.truth(self.ev(s.test, env)):
            k += 1
            if k > 200:
                raise Unsupported('while loop without bound')
            try:
                self.exec_block(s.body, env)
            except Cont:
                continue
            except Brk:
                return
        self.exec_block(s.orelse, env)

    def while_as_for(self, s, env):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return False
        v = t.left.id
        inc = [b for b in s.body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == v
               and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1]
        if len(inc) != 1 or s.body[-1] is not inc[0] or any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            return False
        body = [b for b in s.body if b is not inc[0]]
        if v in stored_names(body):
            return False
        start = scal(self.ev(t.left, env))
        stop = scal(self.ev(t.comparators[0], env))
        n = const(sub(stop, start))
        if not is_sym(n) and n <= MANY:
            return False
        if not E.decide(gt(n, 0)):
            return True

        def one(i):
            env.vars[v] = add(start, i)
            self.exec_block(body, env)
        self.symloop(n, one, env, stored_names(body) | {v})
        env.vars[v] = stop
        return True

    def symloop(self, n, one, env, names):
        start = 0
        if not E.decide(gt(n, 0)):
            return
        while True:
            mark = len(E.trail)
            saved = dict(env.vars)
            nsel = list(E.sels)
            try:
                self.generic(n, start, one, env, names)
                return
            except NeedPeel as e:
                E.rollback(mark)
                env.vars.clear()
                env.vars.update(saved)
                E.sels[:] = nsel
                if start >= 2:
                    raise Unsupported('loop-carried state (%s)' % (e.args[0] if e.args else '?'))
            try:
                one(start)
            except Cont:
                pass
            except Brk:
                return
            start += 1
            if not E.decide(gt(n, start)):
                return

    def inner_paths(self, q, lo, n, run, env, names=()):
        """explore one generic iteration; each path: frame, outcome, snapshot of effects"""
        out, stack = [], [[]]
        while stack:
            prefix = stack.pop()
            f = Frame(prefix, own=[q], names=names)
            base = [ge(q, lo), lt(q, n)]
            f.pc = [z(c) for c in base if const(c) is not True]
            nb = len(f.pc)
            E.frames.append(f)
            mark = len(E.trail)
            saved = dict(env.vars)
            nsel = list(E.sels)
            oldeff, self.effects = self.effects, []
            oldtouched = list(touched)
            del touched[:]
            cnt = dict(E.counter)
            keepit = True
            depth0 = self.depth
            try:
                try:
                    run()
                    res = ('ok',)
                except Cont:
                    res = ('ok',)
                except PyExc as e:
                    res = ('raise', e)
                except (Brk, Ret):
                    raise Unsupported('early exit from a loop of symbolic length')
                except PathEnd:
                    keepit = False
                if keepit:
                    snap = {
                        'pc': [c for c in f.pc[nb:] if not any(c.eq(z(e[1])) for e in self.effects if e[0] == 'fact')], 'res': res, 'frame': f,
                        'bufs': [(b, b.elem, list(b.writes or [])) for b in uniq(touched)],
                        'env': dict(env.vars), 'effects': list(self.effects),
                        'attrs': [(o, a, o.attrs.get(a)) for (t, o, a) in [e for e in self.effects if e[0] == 'attr']],
                        'lists': [(l, list(l.items)) for (t, l) in [e for e in self.effects if e[0] == 'list']],
                        'sets': [e for e in self.effects if e[0] == 'symdict'],
                        'facts': [e[1] for e in self.effects if e[0] == 'fact'],
                        'dicts': [(d, dict(d.d)) for (t, d) in [e for e in self.effects if e[0] == 'dict']],
                    }
                    out.append(snap)
            finally:
                self.depth = depth0
                E.frames.pop()
                E.rollback(mark)
                env.vars.clear()
                env.vars.update(saved)
                E.sels[:] = nsel
                self.effects = oldeff
                touched[:] = oldtouched
            stack.extend(f.alts)
            if len(out) > 60:
                raise Unsupported('too many paths in a loop body')
        return out

    def generic(self, n, start, one, env, names):
        q = E.fresh('ix!q')
        pre = dict(env.vars)
        run = lambda: one(q)
        serial = Buf._n
        paths = self.inner_paths(q, start, n, run, env)
        if not paths:
            return
        # what the body changes
        pre_bufs = []
        alive = reachable_bufs(env, self)
        for p in paths:
            for b, el, w in p['bufs']:
                if b not in pre_bufs and (id(b) in alive):
                    pre_bufs.append(b)
        okp = [p for p in paths if p['res'][0] == 'ok']
        changed = [v for v in names if v in pre and any(p['env'].get(v) is not pre[v] for p in okp)]
        changed_attrs = []
        for p in okp:
            for o, a, v in p['attrs']:
                if o.ghost.get('loopfresh') or (o, a) in changed_attrs:
                    continue
                if a in o.attrs and v is not o.attrs[a]:
                    changed_attrs.append((o, a))
                elif a not in o.attrs:
                    changed_attrs.append((o, a))
        live = reachable_insts(env, self)
        changed_attrs = [(o, a) for o, a in changed_attrs if id(o) in live]
        markers = {}
        envmark = {}
        mark = len(E.trail)
        if pre_bufs or changed or changed_attrs:
            for b in pre_bufs:
                nm = E.freshname('mk!b')
                srt = {'f': R, 'i': I, 'b': B}.get(kind_of_dtype(b.dtype))
                if srt is None:
                    raise Unsupported('loop writes to a non-numeric array')
                uf = z3.Function(nm, *([I] * b.ndim + [srt]))
                markers[nm] = (b, uf, b.elem, b.writes)
                oldel, oldw = b.elem, b.writes

                def undo(b=b, oldel=oldel, oldw=oldw):
                    b.elem, b.writes = oldel, oldw
                E.undoable(undo)
                b.elem = (lambda uf: lambda idx: uf(*[z(i) for i in idx]))(uf)
                b.writes = []
            for v in changed:
                pv = pre[v]
                if is_num(pv) and not isinstance(pv, bool):
                    m = z3.Const(E.freshname('mk!v'), {'i': I, 'f': R, 'b': B}[kind(pv)])
                    m2 = z3.Const(m.decl().name() + 'r', R)
                    vals = [p['env'].get(v) for p in okp]
                    if any(is_num(x) and kind(x) == 'f' for x in vals):
                        m = m2
                    envmark[v] = (m, pv)
                    env.vars[v] = m
                elif is_arr(pv) and pv.ndim == 0 and kind_of_dtype(pv.dtype) in 'fi':
                    m = z3.Const(E.freshname('mk!v'), {'i': I, 'f': R}[kind_of_dtype(pv.dtype)])
                    envmark[v] = (m, pv.item())
                    env.vars[v] = npscalar(m, pv.dtype)
                else:
                    env.vars[v] = Poison(v)
            for o, a in changed_attrs:
                if a in o.attrs:
                    old = o.attrs[a]

                    def undo2(o=o, a=a, old=old):
                        o.attrs[a] = old
                    E.undoable(undo2)
                    o.attrs[a] = Poison(a)
            # a counter that the first iteration advances by a constant: suppose every iteration does, and verify it
            closed = {}
            for v, (m, pv) in envmark.items():
                g = constant_step(pv, pv, [p['env'].get(v) for p in okp])
                if g is not None:
                    closed[v] = (g, add(pv, mul(g, sub(q, start))))
            marked = {v: env.vars[v] for v in envmark}
            try:
                state = set(markers) | {m.decl().name() for m, _ in envmark.values()}
                while True:
                    for v, x in marked.items():
                        if v in closed:
                            env.vars[v] = npscalar(closed[v][1], x.dtype) if is_arr(x) else closed[v][1]
                        else:
                            env.vars[v] = x
                    paths = self.inner_paths(q, start, n, run, env, state)
                    ends = {v: [p['env'].get(v) for p in paths if p['res'][0] == 'ok'] for v in closed}
                    wrong = [v for v in closed if constant_step(closed[v][1], envmark[v][1], ends[v]) != closed[v][0]]
                    if not wrong:
                        break
                    for v in wrong:
                        del closed[v]
            finally:
                E.rollback(mark)
                env.vars.clear()
                env.vars.update(pre)
            okp = [p for p in paths if p['res'][0] == 'ok']
            for v, (g, t) in closed.items():
                m, pv = envmark[v]
                for p in okp:
                    p['env'][v] = add(m, g)
        qfacts = [z(ge(q, start)), z(lt(q, n))]
        # integer counters and accumulators
        subs_q = []
        accs = {}
        for v, (m, pv) in envmark.items():
            vals = [(And(*p['pc']), p['env'].get(v)) for p in okp]
            vals = [(c, x.item() if is_arr(x) and x.ndim == 0 else x) for c, x in vals]
            if all(is_num(x) and is_sym(const(x)) and const(x).eq(m) for _, x in vals):
                accs[v] = ('same', pv)
                subs_q.append((m, pv))
                continue
            if all(is_num(x) and not mentions(x, m) for _, x in vals):
                accs[v] = ('last', vals)
                continue
            inc = []
            for c, x in vals:
                d = linform(sub(x, m) if kind(x) == 'i' and kind(m) == 'i' else sub(real(x), real(m))) if is_num(x) else None
                if d is None or any(k is not None and mentions(k, m) for k, cc in d.items() if cc != 0):
                    raise NeedPeel(v)
                g = Fraction(0)
                for k, cc in d.items():
                    if cc != 0:
                        g = add(g, cc if k is None else mul(cc, k))
                inc.append((c, g))
            g = merge_vals(inc[:-1], inc[-1][1])
            accs[v] = ('acc', g, pv)
            if not is_sym(const(g)) and Fraction(const(g)).denominator == 1 and kind(pv) == 'i':
                subs_q.append((m, add(pv, mul(int(const(g)), sub(q, start)))))
        pend = [m for v, (m, pv) in envmark.items() if not any(a.eq(m) for a, _ in subs_q)]

        allm = {m.decl().name() for v, (m, pv) in envmark.items()}

        def settle(t):
            if not is_sym(t):
                return t

            def rw(t, hyps):
                t = subst(t, subs_q) if is_sym(t) else t
                if is_sym(t) and any(mentions(t, m) for m in pend):
                    raise NeedPeel('accumulator')
                return t
            return rebuild(t, allm, rw) if allm else t

        mkdecl = {nm: x for nm, x in markers.items()}

        # ownership: which iteration may write a cell
        owners = {}
        effects = {}
        for nm, (b, uf, oldel, oldw) in markers.items():
            def W(idx, b=b):
                cs = []
                for p in okp:
                    w = wr(p, b)
                    if w:
                        cs.append(And(*p['pc'], Or(*[c(idx) for c, _ in w])))
                return settle(Or(*cs)) if cs else False

            def V(idx, b=b):
                r = None
                for p in okp:
                    el = [e for bb, e, w in p['bufs'] if bb is b]
                    if not el:
                        continue
                    v = el[0](idx)
                    r = v if r is None else If(And(*p['pc'], Or(*[c(idx) for c, _ in wr(p, b)])), v, r)
                return settle(r)
            effects[nm] = (W, V)
            sk = [E.fresh('sk!w') for _ in range(b.ndim)]
            w = const(W(tuple(sk)))
            hyp = E.pcs() + qfacts + [s >= 0 for s in sk]
            own = None
            if not mentions(w, q):
                v = V(tuple(sk))
                mks = marker_apps([v], mkdecl) or opaque_apps(v, set(mkdecl))
                if not mks:
                    own = ('last',)
                else:
                    d = linform(sub(real(v), real(uf(*sk))))
                    rest = Fraction(0)
                    for k, cc in d.items():
                        if cc != 0:
                            rest = add(rest, cc if k is None else mul(cc, k))
                    if marker_apps([rest] if is_sym(rest) else [], mkdecl) or opaque_apps(rest, set(mkdecl)):
                        raise NeedPeel('loop-carried array content')
                    own = ('sum',)
            else:
                cands = list(owner_candidates(w, q, sk))
                for full in (False, True):
                    for cand in cands:
                        if E.prove(Implies(w, eq(q, cand)), hyp, ms=2000, full=full)[0] == 'proved':
                            own = ('own', cand, sk)
                            break
                    if own is not None:
                        break
            if own is None:
                raise Unsupported('no iteration owns the cells a loop writes: ' + str(w)[:int(os.environ.get('VC_OWN', '0'))])
            owners[nm] = (own, sk)

        def resolve(t, cell_hyps):
            """marker applications -> content before the loop, when they belong to iteration q"""
            if not is_sym(t):
                return t
            def check(nm, a, hyps):
                own, sk = owners[nm]
                if own[0] != 'own':
                    raise NeedPeel('loop-carried array content')
                o = subst(own[1], list(zip(own[2], a.children())))
                ok = E.prove(eq(o, q), E.pcs() + qfacts + list(hyps), ms=2000)[0] == 'proved'
                if not ok:
                    # never written before iteration q?
                    ok = E.prove(Or(ge(o, q), lt(o, start)), E.pcs() + qfacts + list(hyps), ms=2000)[0] == 'proved'
                if not ok:
                    raise NeedPeel('loop-carried array content')
            return replace_markers(t, mkdecl, check, cell_hyps)

        # exceptional iterations
        rp = [p for p in paths if p['res'][0] == 'raise']
        if rp:
            kinds = {p['res'][1].kind for p in rp}
            conds = [And(*p['pc']) for p in rp]
            cond = resolve(settle(Or(*conds)), [])
            cf = lambda j: subst(cond, [(q, add(j, start))])
            if E.decide(E.exists((sub(n, start),), cf)):
                if len(kinds) > 1:
                    raise Unsupported('different exceptions from one loop')
                raise PyExc(rp[0]['res'][1].kind, rp[0]['res'][1].msg)
        # writes
        for nm, (b, uf, oldel, oldw) in markers.items():
            W, V = effects[nm]
            own, sk = owners[nm]
            w0 = W(tuple(sk))
            v0 = V(tuple(sk))
            if own[0] != 'sum':
                resolve(v0, [z(w0)] if const(w0) is not True else [])
                if const(w0) is not True and const(w0) is not False:
                    resolve(w0, [])
            last = sub(n, 1)

            def cell(idx, own=own, W=W, V=V, uf=uf, b=b):
                """(written by the loop?, value then)"""
                tmp = [E.fresh('ix!z') for _ in idx]
                w, v = W(tuple(tmp)), V(tuple(tmp))
                back = list(zip(tmp, idx))
                q2 = E.fresh('ix!y')
                if own[0] == 'own':
                    o = subst(subst(own[1], list(zip(own[2], tmp))), back)
                    # substitute q first by a fresh name so that q inside idx is untouched
                    fin = lambda t: subst(subst(subst(replace_markers(t, mkdecl), [(q, q2)]), back), [(q2, o)]) if is_sym(t) else t
                    c = And(ge(o, start), lt(o, n), fin(w))
                    return c, (fin(v) if const(c) is not False else None)
                if own[0] == 'last':
                    fin = lambda t: subst(subst(subst(t, [(q, q2)]), back), [(q2, last)]) if is_sym(t) else t
                    return fin(w), fin(v)
                inc = Fraction(0)
                for k, cc in linform(sub(real(v), real(uf(*tmp)))).items():
                    if cc != 0:
                        inc = add(inc, cc if k is None else mul(cc, k))
                inc = subst(subst(inc, [(q, q2)]), back) if is_sym(inc) else inc
                return (subst(w, back) if is_sym(const(w)) else w), ('sum', inc, q2)

            def elem(idx, cell=cell, oldel=oldel, b=b):
                c, v = cell(idx)
                if const(c) is False:
                    return oldel(idx)
                if isinstance(v, tuple):
                    _, inc, q2 = v
                    tot = E.sum(sub(n, start), lambda j: subst(inc, [(q2, add(j, start))]) if is_sym(inc) else inc)
                    if kind_of_dtype(b.dtype) == 'i':
                        tot = T.trunc(tot)
                    v = add(oldel(idx), tot)
                return If(c, v, oldel(idx))
            b.set(elem, lambda idx, cell=cell: cell(idx)[0], elem)
        # locals
        at_last = [(q, sub(n, 1))]
        for v in names:
            if v in accs:
                k = accs[v]
                if k[0] == 'same':
                    continue
                if k[0] == 'last':
                    m = merge_vals(k[1][:-1], k[1][-1][1])
                    env.vars[v] = deep_subst(resolve(settle(m), []) if is_sym(m) else m, at_last)
                else:
                    g, pv = k[1], k[2]
                    g = resolve(settle(g), [])
                    tot = E.sum(sub(n, start), lambda j: subst(g, [(q, add(j, start))]) if is_sym(g) else g)
                    if kind(pv) == 'i' and (not is_sym(tot) or z3.is_int(tot)):
                        tot = T.trunc(tot)
                    elif kind(pv) == 'i' and not is_sym(const(g)) and Fraction(const(g)).denominator == 1:
                        tot = mul(int(const(g)), sub(n, start))
                    was = pre.get(v)
                    r = add(pv, tot)
                    env.vars[v] = npscalar(r, was.dtype) if is_arr(was) else r
                continue
            vals = [(And(*p['pc']), p['env'].get(v, UNSET)) for p in okp]
            if v in pre and all(x is pre[v] for _, x in vals):
                continue
            if any(x is UNSET for _, x in vals):
                env.vars.pop(v, None)
                continue
            try:
                m = merge_vals(vals[:-1], vals[-1][1]) if len(vals) > 1 else vals[0][1]
            except Unsupported:
                env.vars[v] = Poison(v + ' after a loop')
                continue
            env.vars[v] = finish(m, at_last, settle, lambda t: resolve(t, []))
        # attributes
        for o, a in changed_attrs:
            vals = []
            for p in okp:
                x = UNSET
                for oo, aa, vv in p['attrs']:
                    if oo is o and aa == a:
                        x = vv
                vals.append((And(*p['pc']), x))
            if any(x is UNSET for _, x in vals):
                raise NeedPeel(a)
            m = merge_vals(vals[:-1], vals[-1][1]) if len(vals) > 1 else vals[0][1]
            self.setattr(o, a, finish(m, at_last, settle, lambda t: resolve(t, [])))
        # lists
        lists = []
        for p in okp:
            for l, items in p['lists']:
                if l not in lists and id(l) in reachable_lists(env, self):
                    lists.append(l)
        for l in lists:
            n0 = len(l.items)
            keep, its = [], []
            for p in okp:
                cur = [items for ll, items in p['lists'] if ll is l]
                if not cur:
                    continue
                new = cur[-1]
                if any(x is not y for x, y in zip(new[:n0], l.items)) or len(new) < n0:
                    raise Unsupported('loop rewrites a list')
                if len(new) == n0:
                    continue
                if len(new) > n0 + 1:
                    raise Unsupported('several appends per iteration')
                keep.append(And(*p['pc']))
                its.append((And(*p['pc']), new[-1]))
            if not its:
                continue
            cond = resolve(settle(Or(*keep)), [])
            m = merge_vals(its[:-1], its[-1][1]) if len(its) > 1 else its[0][1]
            kf = None if len(keep) == len(okp) else (lambda i, cond=cond: subst(cond, [(q, i)]) if is_sym(cond) else cond)

            def itf(i, m=m):
                return finish(m, [(q, i)], settle, lambda t: resolve(t, []))
            self.list_set(l, l.items + [Seg(n, itf, kf, start)])
        # monotone key sets
        for p in okp:
            for e in p['sets']:
                sd, kf, vf = e[1], e[2], e[3]
                pc = And(*p['pc'])
                self.np.symdict_addrange(self, sd, sub(n, start),
                                         lambda j, kf=kf: deep_subst(kf, [(q, add(j, start))]),
                                         lambda j, vf=vf: deep_subst(vf, [(q, add(j, start))]),
                                         lambda j, pc=pc: subst(pc, [(q, add(j, start))]) if is_sym(const(pc)) else pc)
        # what callees established in every iteration
        for p in okp:
            pc = And(*p['pc'])
            for t in p['facts']:
                c = resolve(settle(Implies(pc, t)), [])
                E.fact((sub(n, start),), lambda j, c=c: subst(c, [(q, add(j, start))]) if is_sym(const(c)) else c)
        for p in okp:
            for d, cont in p['dicts']:
                if id(d) in reachable_dicts(env, self):
                    for k in cont:
                        if k not in d.d or cont[k] is not d.d[k]:
                            raise NeedPeel('dictionary store')

    # ---- comprehensions ----------------------------------------------------------
    def comp(self, node, env):
        if len(node.generators) == 1:
            g = node.generators[0]
            n, item = self.iteration(self.ev(g.iter, env))
            n = const(n)
            e2 = Env(dict(), env, env.module, env.func, env.cls, env.self_)
            e2.is_comp = True
            if is_sym(n) or n > MANY:
                return self.symcomp(node, g, n, item, e2)
            out = []
            for i in range(n):
                self.assign(g.target, item(i), e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    out.append(self.ev(node.elt, e2))
            return PList(out)
        out = []

        def go(k, e):
            if k == len(node.generators):
                out.append(self.ev(node.elt, e))
                return
            g = node.generators[k]
            n, item = self.iteration(self.ev(g.iter, e))
            if is_sym(const(n)):
                raise Unsupported('nested symbolic comprehension')
            for i in range(n):
                e2 = Env({}, e, env.module, env.func, env.cls, env.self_)
                self.assign(g.target, item(i), e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    go(k + 1, e2)
        go(0, env)
        return PList(out)

    def symcomp(self, node, g, n, item, env):
        if not E.decide(gt(n, 0)):
            return PList([])
        q = E.fresh('ix!c')
        res = []

        def run():
            self.assign(g.target, item(q), env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                env.vars['.elt'] = self.ev(node.elt, env)
            else:
                env.vars['.elt'] = UNSET
        paths = self.inner_paths(q, 0, n, run, env)
        rp = [p for p in paths if p['res'][0] == 'raise']
        if rp:
            cond = Or(*[And(*p['pc']) for p in rp])
            if E.decide(E.exists((n,), lambda j: subst(cond, [(q, j)]) if is_sym(const(cond)) else cond)):
                raise PyExc(rp[0]['res'][1].kind)
        ok = [p for p in paths if p['res'][0] == 'ok']
        vals = [(And(*p['pc']), p['env']['.elt']) for p in ok if p['env']['.elt'] is not UNSET]
        for p in ok:
            for e in p['sets']:
                raise Unsupported('effects in a comprehension')
        if not vals:
            return PList([])
        m = merge_vals(vals[:-1], vals[-1][1]) if len(vals) > 1 else vals[0][1]
        keep = None
        if len(vals) < len(ok):
            kc = Or(*[c for c, _ in vals])
            keep = lambda i: subst(kc, [(q, i)]) if is_sym(const(kc)) else kc
        return SymList(n, lambda i: deep_subst(m, [(q, i)]), keep)

    # ---- expressions ---------------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            import math
            if math.isinf(v) or math.isnan(v):
                raise Unsupported('non-finite literal')
            return Fraction(repr(v))
        if isinstance(v, (complex, bytes)):
            raise Unsupported('literal')
        return v

    def e_Name(self, e, env):
        n = e.id
        x = env
        while x is not None:
            if n in x.vars and n not in x.globals_decl:
                v = x.vars[n]
                if isinstance(v, Poison):
                    raise NeedPeel(v.what)
                return v
            if x.locals is not None and n in x.locals and n not in x.globals_decl:
                raise PyExc('UnboundLocalError', n)
            x = x.parent
        if env.module is not None and n in env.module.env:
            return env.module.env[n]
        if n in self.builtins:
            return self.builtins[n]
        if n in EXC_BASES:
            return ExcClass(n)
        raise PyExc('NameError', n)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                n, it = self.iteration(self.ev(x.value, env))
                if is_sym(const(n)):
                    raise Unsupported('starred symbolic')
                out += [it(i) for i in range(n)]
            else:
                out.append(self.ev(x, env))
        return tuple(out)

    def e_List(self, e, env):
        return PList(list(self.e_Tuple(e, env)))

    def e_Set(self, e, env):
        raise Unsupported('set')

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, PDict):
                    raise Unsupported('** of non-dict')
                d.d.update(o.d)
            else:
                d.d[self.np.dictkey(self, self.ev(k, env))] = self.ev(v, env)
        return d

    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def e_SetComp(self, e, env):
        raise Unsupported('set comprehension')

    def e_DictComp(self, e, env):
        g = e.generators[0]
        if len(e.generators) > 1:
            raise Unsupported('dict comprehension')
        n, item = self.iteration(self.ev(g.iter, env))
        if is_sym(const(n)):
            raise Unsupported('symbolic dict comprehension')
        d = PDict()
        for i in range(n):
            e2 = Env({}, env, env.module, env.func, env.cls, env.self_)
            self.assign(g.target, item(i), e2)
            if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                d.d[self.np.dictkey(self, self.ev(e.key, e2))] = self.ev(e.value, e2)
        return d

    def e_Lambda(self, e, env):
        f = FuncVal(e, env.module, None, env, [self.ev(d, env) for d in e.args.defaults], {}, env.cls)
        return f

    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.np.unary(self, type(e.op).__name__, v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise NeedPeel('value')
        return self.np.binary(self, type(op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            v = self.np.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return True

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env.vars:
            return self.make_super(e, env)
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                n, it = self.iteration(self.ev(a.value, env))
                if is_sym(const(n)):
                    raise Unsupported('starred symbolic call')
                args += [it(i) for i in range(n)]
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                d = v.d if isinstance(v, PDict) else None
                if d is None:
                    raise Unsupported('** call')
                kw.update(d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def make_super(self, e, env):
        x = env
        while x is not None and x.cls is None:
            x = x.parent
        cls = x.cls if x else None
        selfv = x.self_ if x else None
        if e.args:
            cls = self.ev(e.args[0], env)
            selfv = self.ev(e.args[1], env)
        if cls is None:
            raise Unsupported('super() outside a class')
        return self.np.Super(self, cls, selfv)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev_index(e.slice, env)
        return self.np.getitem(self, o, k)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return Slice(self.ev(s.lower, env) if s.lower else None, self.ev(s.upper, env) if s.upper else None,
                         self.ev(s.step, env) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                parts.append(self.np.to_str(self, x))
        return str_cat(*parts) if parts else ''

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported('starred')


UNSET = object()


def uniq(l):
    out = []
    for x in l:
        if not any(x is y for y in out):
            out.append(x)
    return out


def wr(p, b):
    for bb, e, w in p['bufs']:
        if bb is b:
            return w
    return []


def mentions(t, c):
    if not is_sym(t):
        return False
    nm = c.decl().name()
    for x in subterms([t]):
        if x.eq(c):
            return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in E.bysym:
            if nm in entry_names(E.bysym[x.decl().name()][0]):
                return True
    return False


def marker_apps(ts, mk_):
    out = []
    for t in subterms([x for x in ts if is_sym(x)]):
        if z3.is_app(t) and t.num_args() >= 0 and t.decl().name() in mk_:
            out.append((t.decl().name(), t))
    return out


def entry_names(e):
    """declaration names an opaque symbol's definition mentions (transitively)"""
    if not hasattr(e, 'names'):
        e.names = set()
        out = set()
        for t in subterms(list(e.dims) + list(e.body)):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                out.add(nm)
                if nm in E.bysym and E.bysym[nm][0] is not e:
                    out |= entry_names(E.bysym[nm][0])
        e.names = out
    return e.names


def opaque_apps(t, names):
    out = []
    if not is_sym(t):
        return out
    for a in subterms([t]):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in E.bysym:
            e, suf = E.bysym[a.decl().name()]
            if entry_names(e) & names:
                out.append((len(a.sexpr()), a, e, suf))
    out.sort(key=lambda x: x[0])
    return out


def rebuild(t, names, rw, hyps=()):
    """rewrite t with rw(term, hyps), also inside the definitions of opaque symbols"""
    hyps = list(hyps)
    guard = 0
    while is_sym(t):
        apps = opaque_apps(t, names)
        if not apps:
            break
        guard += 1
        if guard > 60:
            raise Unsupported('rewriting of opaque symbols')
        _, a, e, suf = apps[0]
        na = len(e.holes)
        args, rest = a.children()[:na], a.children()[na:]
        ix = [E.fresh('ix!m') for _ in e.bvs]
        dims, body = E.inst(e, args, ix)
        h = hyps + [z(ge(i, 0)) for i in ix]
        nd_ = [rebuild(const(d), names, rw, hyps) for d in dims]
        if len(dims) == len(ix):
            h += [z(lt(i, d)) for i, d in zip(ix, nd_)]
        nb = [rebuild(const(b), names, rw, h) for b in body]
        if e.kind == 'sum':
            new = z(real(E.sum(nd_[0], lambda j: subst(nb[0], [(ix[0], j)]))))
        else:
            outs = [(sf, [d.domain(k) for k in range(na, d.arity())], d.range()) for sf, d in e.syms.items()]
            e2, a2 = E.opaque(e.kind, nd_, lambda *jj: [subst(b, list(zip(ix, jj))) for b in nb], outs, arity=len(e.bvs), extra=e.extra)
            new = E.app(e2, suf, a2, rest)
        t = const(z3.substitute(t, (a, new)))
    return rw(t, hyps)


def replace_markers(t, mk_, check=None, hyps=()):
    def rw(t, hyps):
        while is_sym(t):
            apps = marker_apps([t], mk_)
            if not apps:
                return t
            # innermost first
            apps.sort(key=lambda x: len(x[1].sexpr()))
            nm, a = apps[0]
            if check is not None:
                check(nm, a, hyps)
            b, uf, oldel, oldw = mk_[nm]
            v = oldel(tuple(const(c) for c in a.children()))
            t = const(z3.substitute(t, (a, z(cast_elem(v, b.dtype)))))
        return t
    return rebuild(t, set(mk_), rw, hyps)


def finish(m, pairs, settle, fix):
    """a body value as seen after the loop"""
    if is_sym(m):
        return subst(fix(settle(m)), pairs)
    if is_arr(m):
        rd = m.reader()
        base = mk(m.shape, lambda *ix: fix(settle(rd(*ix))) if not isinstance(rd(*ix), (SStr, str)) else rd(*ix), m.dtype, scalar=m.scalar)
        r = deep_subst(base, pairs)
        return r
    if isinstance(m, tuple):
        return tuple(finish(x, pairs, settle, fix) for x in m)
    return deep_subst(m, pairs)


def owner_candidates(w, q, sk):
    cands = []
    for s in sk:
        cands.append(s)
    for t in subterms([w]):
        if not z3.is_app(t):
            continue
        k = t.decl().kind()
        if k == z3.Z3_OP_EQ and z3.is_int(t.arg(0)):
            l = linform(sub(t.arg(0), t.arg(1)))
            c = l.get(q)
            if c is None:
                c = [v for a, v in l.items() if a is not None and a.eq(q)]
                c = c[0] if c else None
            if c in (1, -1):
                r = 0
                for a, v in l.items():
                    if a is not None and a.eq(q):
                        continue
                    r = add(r, mul(int(-v / c), a) if a is not None else int(-v / c))
                cands.append(r)
            # sk == pos(q)
            for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                ent = E.entry_of(y) if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
                if ent and ent[0].kind == 'sel' and ent[1] == 'p0' and len(ent[0].bvs) == 1 and y.children() and y.children()[-1].eq(q):
                    cands.append(E.app(ent[0], 'r', y.children()[:-1], [x]))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and z3.is_int(t.arg(0)):
            l = linform(sub(t.arg(0), t.arg(1)))
            for a, v in list(l.items()):
                if a is not None and a.eq(q) and abs(v) > 1:
                    r = 0
                    for a2, v2 in l.items():
                        if a2 is not None and a2.eq(q):
                            continue
                        r = add(r, mul(int(-v2 * (1 if v > 0 else -1)), a2) if a2 is not None else 0)
                    cands.append(floordiv(r, int(abs(v))))
                    for s in sk:
                        cands.append(floordiv(s, int(abs(v))))
    return cands


def _walk(env, ip):
    seen, stack = set(), []
    e = env
    while e is not None:
        stack.extend(e.vars.values())
        e = e.parent
    stack.extend(getattr(ip, 'roots', []))
    # frames of callers are reachable through self-like arguments only; include every active root
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        yield v
        if isinstance(v, tuple):
            stack.extend(v)
        elif isinstance(v, PList):
            stack.extend(v.items)
        elif isinstance(v, PDict):
            stack.extend(v.d.values())
        elif isinstance(v, Inst):
            stack.extend(v.attrs.values())
            if v.data is not None:
                stack.append(v.data)
        elif isinstance(v, Bound):
            stack.append(v.self_)


def reachable_bufs(env, ip):
    return {id(v.buf) for v in _walk(env, ip) if is_arr(v)}


def reachable_insts(env, ip):
    return {id(v) for v in _walk(env, ip) if isinstance(v, Inst)}


def reachable_lists(env, ip):
    return {id(v) for v in _walk(env, ip) if isinstance(v, PList)}


def reachable_dicts(env, ip):
    return {id(v) for v in _walk(env, ip) if isinstance(v, PDict)}


def stored_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def assigned_names(fn):
    out = set()
    glob = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, ast.Global):
                glob.update(c.names)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            walk(c)
    walk(fn)
    return out - glob
