"""Values of the interpreted program: arrays as index functions, objects, strings, exceptions."""
from .engine import E
from .terms import *
from . import terms as T


class PyExc(Exception):
    """an exception of the interpreted program"""

    def __init__(self, kind, msg='', value=None):
        super().__init__(kind, msg)
        self.kind, self.msg, self.value = kind, msg, value


EXC_BASES = {
    'BaseException': (), 'Exception': ('BaseException',), 'ValueError': ('Exception',), 'TypeError': ('Exception',),
    'IndexError': ('LookupError',), 'KeyError': ('LookupError',), 'LookupError': ('Exception',),
    'RuntimeError': ('Exception',), 'AttributeError': ('Exception',), 'NotImplementedError': ('RuntimeError',),
    'OSError': ('Exception',), 'FileNotFoundError': ('OSError',), 'IOError': ('OSError',), 'ArithmeticError': ('Exception',),
    'ZeroDivisionError': ('ArithmeticError',), 'AssertionError': ('Exception',), 'NameError': ('Exception',),
    'UnboundLocalError': ('NameError',), 'ImportError': ('Exception',), 'StopIteration': ('Exception',),
    'UserWarning': ('Exception',), 'Warning': ('Exception',), 'RuntimeWarning': ('Exception',), 'DeprecationWarning': ('Exception',),
}


def exc_isa(kind, base):
    if kind == base:
        return True
    return any(exc_isa(b, base) for b in EXC_BASES.get(kind, ('Exception',) if kind != 'BaseException' and kind not in EXC_BASES else ()))


# ---- strings ---------------------------------------------------------------
NameSort = z3.DeclareSort('Name')
_lits = {}


class SStr:
    """a string the generator knows only as a term"""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return 'SStr(%s)' % self.term


def strterm(s):
    if isinstance(s, SStr):
        return s.term
    if isinstance(s, str):
        if s not in _lits:
            _lits[s] = z3.Const('str!' + s, NameSort)
        return _lits[s]
    raise Unsupported('not a string: %r' % (s,))


_cat = z3.Function('str.cat', NameSort, NameSort, NameSort)
_strfn = {}


def strfn(name, *args):
    """string-valued function of strings"""
    k = (name, len(args))
    if k not in _strfn:
        _strfn[k] = z3.Function('str.' + name, *([NameSort] * (len(args) + 1)))
    return SStr(_strfn[k](*[strterm(a) for a in args]))


def strpred(name, *args):
    k = (name, len(args), 'p')
    if k not in _strfn:
        _strfn[k] = z3.Function('str.' + name, *([NameSort] * len(args) + [B]))
    return _strfn[k](*[strterm(a) for a in args])


def str_parts(s):
    """flatten a concatenation into literal/atom parts"""
    t = strterm(s)
    if t.decl().eq(_cat):
        return str_parts(SStr(t.arg(0))) + str_parts(SStr(t.arg(1)))
    for k, v in _lits.items():
        if v.eq(t):
            return [k] if k else []
    return [SStr(t)]


def str_cat(*parts):
    flat = []
    for p in parts:
        for q in str_parts(p):
            if flat and isinstance(flat[-1], str) and isinstance(q, str):
                flat[-1] += q
            else:
                flat.append(q)
    if not flat:
        return ''
    if len(flat) == 1:
        return flat[0]
    t = strterm(flat[0])
    for q in flat[1:]:
        t = _cat(t, strterm(q))
    return SStr(t)


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = str_parts(a), str_parts(b)
    # strip common literal ends
    while pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
        pa, pb = ([pa[0][n:]] if pa[0][n:] else []) + pa[1:], ([pb[0][n:]] if pb[0][n:] else []) + pb[1:]
    while pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if pa[-1][-n:] != pb[-1][-n:]:
            return False
        pa, pb = pa[:-1] + ([pa[-1][:-n]] if pa[-1][:-n] else []), pb[:-1] + ([pb[-1][:-n]] if pb[-1][:-n] else [])
    a, b = str_cat(*pa), str_cat(*pb)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    ta, tb = strterm(a), strterm(b)
    if ta.eq(tb):
        return True
    return ta == tb


def literal_facts():
    """distinctness of the string literals used so far"""
    ls = list(_lits.values())
    return [z3.Distinct(*ls)] if len(ls) > 1 else []


# ---- arrays ------------------------------------------------------------------
class Buf:
    """storage: an index function that assignments replace"""
    _n = 0

    def __init__(self, elem, ndim, dtype, label=''):
        self.elem, self.ndim, self.dtype, self.label = elem, ndim, dtype, label
        self.frozen = None         # name of the argument whose data this is (frame condition)
        self.writes = None
        self.version = 0

    def set(self, elem, cond, val):
        old, ow, ver = self.elem, self.writes, self.version

        def undo():
            self.elem, self.writes, self.version = old, ow, ver
        E.undoable(undo)
        self.elem = elem
        self.writes = (ow or []) + [(cond, val)]
        self.version = ver + 1
        touched.append(self)


touched = []


def kind_of_dtype(dt):
    return {'f2': 'f', 'f4': 'f', 'f8': 'f', 'i4': 'i', 'i8': 'i', 'i2': 'i', 'u1': 'i', 'b': 'b', 'O': 'o', 'U': 's'}[dt]


def cast_elem(v, dt):
    """element conversion on storing into dtype dt"""
    k = kind_of_dtype(dt)
    if k == 'f':
        if isinstance(v, (SStr, str)):
            return parse_float(v)
        return ROUND16(zr(v)) if dt == 'f2' else real(v)
    if k == 'i':
        if isinstance(v, (SStr, str)):
            return parse_int(v)
        return T.trunc(v)
    if k == 'b':
        return T.truth(v)
    return v


# half precision does not keep physical values
ROUND16 = z3.Function('half_precision', R, R)
_pf = z3.Function('parse_float', NameSort, R)
_pi = z3.Function('parse_int', NameSort, I)


def parse_float(s):
    return _pf(strterm(s))


def parse_int(s):
    return _pi(strterm(s))


def parses_float(s):
    if isinstance(s, str):
        try:
            float(s)
            return True
        except ValueError:
            return False
    return strpred('isfloat', s)


class Arr:
    """an array or view: shape, and the map of its indices to storage indices"""

    def __init__(self, buf, shape, fwd=None, inv=None, meta=None, scalar=False):
        self.buf, self.shape, self.fwd, self.inv = buf, tuple(const(d) if is_sym(d) else d for d in shape), fwd, inv
        self._meta, self._el = meta or {}, buf.elem
        self.scalar = scalar

    @property
    def meta(self):
        """what is known of the content; nothing once it has been written to"""
        return self._meta if self.buf.elem is self._el else {}

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def read(self, idx):
        idx = tuple(idx)
        return self.buf.elem(self.fwd(idx) if self.fwd else idx)

    def reader(self):
        """the element function as of now"""
        el, fwd = self.buf.elem, self.fwd
        if fwd is None:
            return lambda *idx: el(tuple(idx))
        return lambda *idx: el(fwd(tuple(idx)))

    def item(self):
        return self.read(())

    def __repr__(self):
        return 'Arr(%s,%s)' % (self.dtype, self.shape)


def mk(shape, fn, dtype, meta=None, scalar=False, label=''):
    """fresh array with element function fn(*idx)"""
    b = Buf(lambda idx: fn(*idx), len(shape), dtype, label)
    return Arr(b, shape, meta=meta, scalar=scalar)


def npscalar(v, dtype):
    return Arr(Buf(lambda idx: v, 0, dtype), (), scalar=True)


def is_arr(x):
    return isinstance(x, Arr)


def guess_dtype(v):
    if isinstance(v, (SStr, str)):
        return 'U'
    k = kind(v)
    return {'f': 'f8', 'i': 'i8', 'b': 'b'}[k]


# ---- containers --------------------------------------------------------------
class PList:
    """list; items are a concrete list of values, then optional symbolic segments"""

    def __init__(self, items):
        self.items = list(items)


class SymList:
    """list of symbolic length n with item function; keep(i) selects (None: all)"""

    def __init__(self, n, item, keep=None, label=''):
        self.n, self.item, self.keep, self.label = n, item, keep, label


class PDict:
    def __init__(self, d=None):
        self.d = dict(d or {})


class SymDict:
    """dictionary keyed by strings whose content is not enumerated: has(k), get(k), overlaid by writes"""

    def __init__(self, has, get):
        self.has, self.get = has, get
        self.log = []        # (key, value | DELETED) newest last


class Inst:
    _n = 0

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.data = None
        self.ghost = {}
        Inst._n += 1
        self.serial = Inst._n

    def __repr__(self):
        return 'Inst(%s)' % (self.cls.name if self.cls else '?')


class ClassVal:
    def __init__(self, name, bases, attrs, module=None, meta=None):
        self.name, self.bases, self.attrs, self.module, self.meta = name, bases, attrs, module, meta

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def isa(self, other):
        return other in self.mro()


class FuncVal:
    def __init__(self, node, module, qual, closure=None, defaults=None, kwdefaults=None, owner=None):
        self.node, self.module, self.qual, self.closure = node, module, qual, closure
        self.defaults, self.kwdefaults, self.owner = defaults or [], kwdefaults or {}, owner
        self.deco = None


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class ModuleVal:
    def __init__(self, name, env=None, path=None):
        self.name, self.env, self.path = name, env if env is not None else {}, path


class ExcClass:
    def __init__(self, name):
        self.name = name


class Dtype:
    def __init__(self, name, fields=None):
        self.name, self.fields = name, fields


class Range:
    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step
