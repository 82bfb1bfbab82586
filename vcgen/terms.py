"""Term layer: arithmetic on concrete numbers and z3 terms, with normal forms.

Machine numbers are treated as mathematical ones: Python/numpy floats are reals
(float literals are read as the decimal number the source text shows), ints are
unbounded integers.  Every value is a Python bool/int/Fraction or a z3 term.
"""
import z3
from fractions import Fraction

R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()

F1 = {n: z3.Function(n, R, R) for n in
      ('log10', 'ln', 'exp', 'pow10', 'sqrt', 'sinh', 'cosh', 'sin', 'cos', 'tan', 'atan', 'tanh', 'asinh')}
F_pow = z3.Function('rpow', R, R, R)


class Unsupported(Exception):
    """The source text leaves the subset the generator accepts."""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return isinstance(x, (bool, int, Fraction)) or (is_sym(x) and not z3.is_array(x))


def const(x):
    """concrete Python number of a z3 numeral, else the value itself"""
    if is_sym(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def z(x):
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        return z3.RealVal(str(Fraction(repr(x))))
    raise Unsupported('no term for %r' % (type(x),))


def kind(x):
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, (Fraction, float)):
        return 'f'
    if is_sym(x):
        s = x.sort_kind()
        return {z3.Z3_BOOL_SORT: 'b', z3.Z3_INT_SORT: 'i', z3.Z3_REAL_SORT: 'f'}[s]
    raise Unsupported('kind of %r' % (type(x),))


def b2i(x):
    if isinstance(x, bool):
        return int(x)
    if is_sym(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def real(x):
    x = b2i(x)
    if isinstance(x, (int, float)):
        return Fraction(x) if isinstance(x, int) else Fraction(repr(x))
    if is_sym(x) and z3.is_int(x):
        return z3.ToReal(x)
    return x


def zr(x):
    return z(real(x))


def zi(x):
    return z(b2i(x))


def truth(x):
    """element value as condition"""
    if is_sym(x):
        if z3.is_bool(x):
            return x
        return ne(x, 0)
    return bool(x)


# ---- boolean ---------------------------------------------------------------
def And(*a):
    out = []
    for x in a:
        x = const(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        x = const(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = const(x)
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    c = const(c)
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    ka, kb = kind(a), kind(b)
    if ka == 'b' and kb == 'b':
        return z3.If(c, z(a), z(b))
    if 'f' in (ka, kb):
        return z3.If(c, zr(a), zr(b))
    return z3.If(c, zi(a), zi(b))


def same(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        a, b = const(a), const(b)
        if is_sym(a) or is_sym(b):
            return False
    return type(a) is type(b) and a == b


# ---- arithmetic ------------------------------------------------------------
def _two(a, b):
    a, b = b2i(const(a)), b2i(const(b))
    if kind(a) == 'f' or kind(b) == 'f':
        return real(a), real(b)
    return a, b


def add(a, b):
    a, b = _two(a, b)
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0:
        return b
    if not is_sym(b) and b == 0:
        return a
    return fold(z(a) + z(b))


def sub(a, b):
    a, b = _two(a, b)
    if not is_sym(a) and not is_sym(b):
        return a - b
    if not is_sym(b) and b == 0:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return Fraction(0) if kind(a) == 'f' else 0
    return fold(z(a) - z(b))


def fold(t):
    """keep integer index terms small"""
    if z3.is_int(t):
        return const(z3.simplify(t))
    return t


def neg(a):
    a = b2i(const(a))
    if not is_sym(a):
        return -a
    return fold(-a)


def mul(a, b):
    a, b = _two(a, b)
    if not is_sym(a) and not is_sym(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_sym(x):
            if x == 0:
                return x
            if x == 1:
                return y
    return fold(z(a) * z(b))


def div(a, b):
    """real division"""
    a, b = real(const(a)), real(const(b))
    if not is_sym(b):
        if b == 0:
            return z(a) / z(b)
        if not is_sym(a):
            return a / b
        if b == 1:
            return a
        return mul(a, 1 / b)
    # 1/(c/10^x) = 10^x/c: the constructors write 10^-x as 1/10^x, which is never zero
    todo, rest, up = [b], [], []
    while todo:
        f = todo.pop(0)
        k = f.decl().kind()
        if k == z3.Z3_OP_MUL:
            todo = f.children() + todo
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(f.arg(0)) and z3.is_app(f.arg(1)) and f.arg(1).decl().eq(F1['pow10']) and f.arg(0).as_fraction() != 0:
            up.append(div_c(f.arg(1), f.arg(0).as_fraction()))
        elif k == z3.Z3_OP_UNINTERPRETED and f.decl().eq(F1['pow10']):
            up.append(div_raw(1, f))
        else:
            rest.append(f)
    if len(up) == 1 and not rest and not is_sym(a) and a == 1:
        return up[0]
    if up:
        for u in up:
            a = mul(a, u)
        b = Fraction(1)
        for f in rest:
            b = mul(b, f)
        return div(a, b)
    return div_raw(a, b)


def div_c(t, c):
    return t if c == 1 else mul(t, 1 / c)


def div_raw(a, b):
    return zr(a) / zr(b)


def floordiv(a, b):
    a, b = b2i(const(a)), b2i(const(b))
    if kind(a) == 'i' and kind(b) == 'i':
        if not is_sym(b) and b != 0:
            if not is_sym(a):
                return a // b
            if b > 0:
                return fold(z(a) / z3.IntVal(b))
            return fold((-z(a)) / z3.IntVal(-b))
        q = z3.If(z(b) > 0, z(a) / z(b), (-z(a)) / (-z(b)))
        return q
    return floor(div(a, b), as_real=True)


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


def floor(a, as_real=False):
    a = b2i(const(a))
    if not is_sym(a):
        import math
        r = math.floor(a)
    elif z3.is_int(a):
        r = a
    else:
        r = z3.ToInt(a)
    return real(r) if as_real else r


def trunc(a):
    a = b2i(const(a))
    if not is_sym(a):
        return int(a)
    if z3.is_int(a):
        return a
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def cmp(op, a, b):
    a, b = const(a), const(b)
    if op in ('==', '!=') and kind(a) == 'b' and kind(b) == 'b':
        if not is_sym(a) and not is_sym(b):
            return (a == b) if op == '==' else (a != b)
        r = z(a) == z(b)
        return r if op == '==' else Not(r)
    a, b = _two(a, b)
    if not is_sym(a) and not is_sym(b):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if is_sym(a) and is_sym(b) and a.eq(b):
        return op in ('==', '<=', '>=')
    a, b = z(a), z(b)
    r = {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
         '>': lambda: a > b, '>=': lambda: a >= b}[op]()
    if z3.is_int(a):
        return const(z3.simplify(r))
    return r


def eq(a, b):
    return cmp('==', a, b)


def ne(a, b):
    return cmp('!=', a, b)


def lt(a, b):
    return cmp('<', a, b)


def le(a, b):
    return cmp('<=', a, b)


def gt(a, b):
    return cmp('>', a, b)


def ge(a, b):
    return cmp('>=', a, b)


def absv(a):
    a = b2i(const(a))
    if not is_sym(a):
        return abs(a)
    return z3.If(a >= 0, a, -a)


def maxv(a, b):
    return If(ge(a, b), a, b)


def minv(a, b):
    return If(le(a, b), a, b)


# ---- normal forms ----------------------------------------------------------
def _is_ite(t):
    return is_sym(t) and z3.is_app_of(t, z3.Z3_OP_ITE)


def linform(t, scale=Fraction(1), out=None):
    """t as {atom: coefficient} with None the constant"""
    if out is None:
        out = {}
    t = const(t)
    if not is_sym(t):
        out[None] = out.get(None, Fraction(0)) + scale * Fraction(t)
        return out
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        for c in t.children():
            linform(c, scale, out)
    elif k == z3.Z3_OP_SUB:
        ch = t.children()
        linform(ch[0], scale, out)
        for c in ch[1:]:
            linform(c, -scale, out)
    elif k == z3.Z3_OP_UMINUS:
        linform(t.arg(0), -scale, out)
    elif k == z3.Z3_OP_MUL:
        c, rest = Fraction(1), []
        for a in t.children():
            a = const(a)
            if is_sym(a):
                rest.append(a)
            else:
                c *= Fraction(a)
        if not rest:
            out[None] = out.get(None, Fraction(0)) + scale * c
        elif len(rest) == 1:
            linform(rest[0], scale * c, out)
        else:
            # distribute over one sum factor
            for j, a in enumerate(rest):
                if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                    others = rest[:j] + rest[j + 1:]
                    ch = a.children()
                    for n, b in enumerate(ch):
                        s = -1 if (a.decl().kind() == z3.Z3_OP_SUB and n > 0) else 1
                        p = b
                        for o in others:
                            p = mul(p, o)
                        linform(p, scale * c * s, out)
                    return out
            p = monomial(rest)
            if p is None:
                atom = rest[0]
                for r_ in rest[1:]:
                    atom = z3.simplify(atom * r_)
            else:
                cc, atom = p
                c = c * cc
            if not is_sym(atom):
                out[None] = out.get(None, Fraction(0)) + scale * c * Fraction(atom)
            else:
                out[atom] = out.get(atom, Fraction(0)) + scale * c
    elif k == z3.Z3_OP_DIV and not is_sym(const(t.arg(1))) and const(t.arg(1)) != 0:
        linform(t.arg(0), scale / Fraction(const(t.arg(1))), out)
    elif k == z3.Z3_OP_DIV and is_sym(t.arg(0)) and t.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        ch = t.arg(0).children()
        for n, b in enumerate(ch):
            s = -1 if (t.arg(0).decl().kind() == z3.Z3_OP_SUB and n > 0) else 1
            linform(b / t.arg(1), scale * s, out)
    elif k in (z3.Z3_OP_DIV,):
        c, m = mulform(t)
        atom = frommul(Fraction(1), m)
        if is_sym(atom):
            out[atom] = out.get(atom, Fraction(0)) + scale * c
        else:
            out[None] = out.get(None, Fraction(0)) + scale * c * Fraction(atom)
    else:
        out[t] = out.get(t, Fraction(0)) + scale
    return out


def monomial(factors):
    c, m = Fraction(1), {}
    for f in factors:
        _mul(f, 1, m_box := [c], m)
        c = m_box[0]
    return c, frommul(Fraction(1), m)


def _mul(t, e, cbox, m):
    t = const(t)
    if not is_sym(t):
        if t == 0 and e < 0:
            m[z3.RealVal(0)] = m.get(z3.RealVal(0), 0) + e
            return
        if Fraction(e).denominator == 1:
            cbox[0] *= Fraction(t) ** int(e)
        else:
            a = zr(t)
            m[a] = m.get(a, Fraction(0)) + e
        return
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        for c in t.children():
            _mul(c, e, cbox, m)
    elif k == z3.Z3_OP_DIV:
        _mul(t.arg(0), e, cbox, m)
        _mul(t.arg(1), -e, cbox, m)
    elif k == z3.Z3_OP_UMINUS:
        if Fraction(e).denominator == 1:
            cbox[0] *= Fraction(-1) ** int(e)
            _mul(t.arg(0), e, cbox, m)
        else:
            m[t] = m.get(t, Fraction(0)) + e
    elif k == z3.Z3_OP_POWER and not is_sym(const(t.arg(1))):
        _mul(t.arg(0), e * Fraction(const(t.arg(1))), cbox, m)
    elif t.decl().eq(F1['sqrt']):
        _mul(t.arg(0), Fraction(e) / 2, cbox, m)
    else:
        m[t] = m.get(t, Fraction(0)) + e
    for a in [a for a, x in m.items() if x == 0]:
        del m[a]


def mulform(t):
    """t as coefficient * prod(atom**exponent); sqrt counts as exponent 1/2.

    The decomposition is an identity where every atom is positive; callers guard it."""
    m, c = {}, [Fraction(1)]
    _mul(t, Fraction(1), c, m)
    return c[0], m


def atompow(a, e):
    e = Fraction(e)
    if e.denominator == 1:
        n = int(e)
        r = None
        for _ in range(abs(n)):
            r = a if r is None else r * a
        if n < 0:
            r = z3.RealVal(1) / r
        return r
    if e.denominator == 2:
        s = F1['sqrt'](zr(a))
        return atompow(s, e * 2)
    return F_pow(zr(a), zr(e))


def frommul(c, m):
    num, den = [], []
    for a, e in sorted(m.items(), key=lambda x: x[0].get_id()):
        if e > 0:
            num.append(atompow(zr(a), e))
        else:
            den.append(atompow(zr(a), -e))
    if not num and not den:
        return c
    t = None
    if c != 1 or not num:
        t = zr(c)
    for x in num:
        t = x if t is None else t * x
    if den:
        d = None
        for x in den:
            d = x if d is None else d * x
        t = t / d
    return t


def lift_ite(f, t):
    """push a unary function into if-then-else"""
    if _is_ite(t):
        return If(t.arg(0), f(const(t.arg(1))), f(const(t.arg(2))))
    return None


def pow10(t):
    """10**t, split over sums"""
    t = real(const(t))
    r = lift_ite(pow10, t)
    if r is not None:
        return r
    if not is_sym(t):
        return pow10c(t)
    lin = linform(t)
    num = Fraction(1)
    out = None
    c0 = lin.pop(None, Fraction(0))
    out = pow10c(c0) if c0 != 0 else Fraction(1)
    for a, c in sorted(lin.items(), key=lambda x: x[0].get_id()):
        if c == 0:
            continue
        if a.decl().eq(F1['log10']) and c.denominator == 1 and False:
            pass
        p = F1['pow10'](z3.simplify(zr(abs(c)) * a) if abs(c) != 1 else a)
        out = mul(out, p) if c > 0 else div(out, p)
    return out


def pow10c(c):
    c = Fraction(c)
    if c.denominator == 1 and abs(c) < 400:
        return Fraction(10) ** int(c)
    if c > 0:
        return F1['pow10'](zr(c))
    return div(1, F1['pow10'](zr(-c)))


def expv(t):
    t = real(const(t))
    r = lift_ite(expv, t)
    if r is not None:
        return r
    if not is_sym(t):
        return Fraction(1) if t == 0 else (F1['exp'](zr(t)) if t > 0 else div(1, F1['exp'](zr(-t))))
    lin = linform(t)
    out = Fraction(1)
    for a, c in sorted(lin.items(), key=lambda x: -1 if x[0] is None else x[0].get_id()):
        if c == 0:
            continue
        if a is None:
            out = mul(out, expv(c))
            continue
        p = F1['exp'](z3.simplify(zr(abs(c)) * a) if abs(c) != 1 else a)
        out = mul(out, p) if c > 0 else div(out, p)
    return out


def logv(name, t):
    t = real(const(t))
    r = lift_ite(lambda x: logv(name, x), t)
    if r is not None:
        return r
    if not is_sym(t):
        if t == 1:
            return Fraction(0)
        if name == 'log10' and t > 0:
            n = 0
            while t >= 10:
                t /= 10
                n += 1
            while t < 1:
                t *= 10
                n -= 1
            if t == 1:
                return Fraction(n)
            return add(F1[name](zr(t)), Fraction(n))
        if name == 'ln' and 0 < t < 1:
            return neg(F1[name](zr(1 / t)))
    return F1[name](zr(t))


def sqrtv(t):
    t = real(const(t))
    r = lift_ite(sqrtv, t)
    if r is not None:
        return r
    if not is_sym(t) and t >= 0:
        import math
        n, d = math.isqrt(t.numerator), math.isqrt(t.denominator)
        if n * n == t.numerator and d * d == t.denominator:
            return Fraction(n, d)
    return F1['sqrt'](zr(t))


def fun1(name, t):
    t = real(const(t))
    r = lift_ite(lambda x: fun1(name, x), t)
    if r is not None:
        return r
    if not is_sym(t) and t == 0 and name in ('sinh', 'sin', 'tan', 'atan', 'tanh', 'asinh'):
        return Fraction(0)
    if name in ('sinh', 'cosh') and is_sym(t):
        # canonical sign of the argument, through the linear normal form
        lin = linform(t)
        lin = {a: c for a, c in lin.items() if c != 0}
        if not lin:
            return Fraction(0) if name == 'sinh' else Fraction(1)
        key = sorted(lin, key=lambda a: '' if a is None else a.sexpr())
        lead = lin[key[-1]]
        s = 1 if lead > 0 else -1
        arg = Fraction(0)
        for a in key:
            arg = add(arg, s * lin[a] if a is None else mul(s * lin[a], a))
        r = F1[name](zr(arg))
        return neg(r) if (name == 'sinh' and s < 0) else r
    return F1[name](zr(t))


def power(a, e):
    """a**e for float-valued arithmetic"""
    a, e = const(a), const(e)
    if not is_sym(e):
        ef = Fraction(e) if not isinstance(e, bool) else Fraction(int(e))
        if not is_sym(a) and real(a) == 10 and kind(e) == 'f':
            return pow10(e)
        if ef.denominator == 1 and abs(ef) <= 12:
            n = int(ef)
            base = real(a) if (kind(e) == 'f' or kind(a) == 'f' or n < 0) else b2i(a)
            if n == 0:
                return Fraction(1) if kind(base) == 'f' else 1
            r = None
            for _ in range(abs(n)):
                r = base if r is None else mul(r, base)
            return div(1, r) if n < 0 else r
        if ef == Fraction(1, 2):
            return sqrtv(a)
        if ef == Fraction(-1, 2):
            return div(1, sqrtv(a))
        if ef.denominator == 2:
            return power(sqrtv(a), int(ef * 2))
    if not is_sym(a) and real(a) == 10:
        return pow10(e)
    return F_pow(zr(a), zr(e))


# ---- traversal ------------------------------------------------------------
class Node:
    """cached structure of a z3 term (the term is kept alive, so its id stays unique)"""
    __slots__ = ('e', 'id', 'kids', 'uf', 'name', 'const', 'isint', 'ivar', 'bound', 'ite', 'cv', 'size')


NODES = {}


def node(t):
    i = t.get_id()
    n = NODES.get(i)
    if n is not None:
        return n
    stack = [t]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in NODES:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            raise Unsupported('quantifier')
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in NODES]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        n = Node()
        n.e, n.id = x, xi
        n.kids = [NODES[c.get_id()] for c in ch]
        d = x.decl()
        k = d.kind()
        n.uf = k == z3.Z3_OP_UNINTERPRETED
        n.name = d.name() if n.uf else None
        n.const = n.uf and not ch
        n.isint = z3.is_int(x)
        n.ivar = n.const and n.isint and n.name[:3] in ('ix!', 'sk!', 'bv!')
        n.bound = (n.const and n.name[:3] in ('bv!', 'ho!')) or any(c.bound for c in n.kids)
        n.ite = k == z3.Z3_OP_ITE
        n.size = 1 + sum(c.size for c in n.kids)
        NODES[xi] = n
    return NODES[i]


def subnodes(ts, seen=None):
    """distinct nodes below the terms; with `seen`, only those not seen before"""
    seen = set() if seen is None else seen
    out = []
    stack = []
    for t in ts:
        if is_sym(t):
            n = node(t)
            if n.id not in seen:
                seen.add(n.id)
                stack.append(n)
    while stack:
        n = stack.pop()
        out.append(n)
        for c in n.kids:
            if c.id not in seen:
                seen.add(c.id)
                stack.append(c)
    return out


def subterms(ts):
    return [n.e for n in subnodes(ts)]


def free_consts(ts):
    return [n.e for n in subnodes(ts) if n.const]


def subst(t, pairs):
    if not is_sym(t) or not pairs:
        return t
    return const(z3.substitute(t, [(a, z(b)) for a, b in pairs]))


def smart(t):
    """t rebuilt through the normalising constructors (after a substitution)"""
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        ch = t.children()
        r = t
        if ch and z3.is_app(t):
            c = [const(go(x)) for x in ch]
            k, d = t.decl().kind(), t.decl()
            if t.sort() == R and k == z3.Z3_OP_MUL:
                r = Fraction(1)
                for x in c:
                    r = mul(r, x)
            elif t.sort() == R and k == z3.Z3_OP_ADD:
                r = Fraction(0)
                for x in c:
                    r = add(r, x)
            elif k == z3.Z3_OP_DIV:
                r = div(c[0], c[1]) if is_sym(c[1]) or c[1] != 0 else div_raw(c[0], c[1])
            elif k == z3.Z3_OP_ITE:
                r = If(c[0], c[1], c[2])
            elif d.eq(F1['pow10']):
                r = pow10(c[0])
            elif d.eq(F1['exp']):
                r = expv(c[0])
            elif d.eq(F1['sqrt']):
                r = sqrtv(c[0])
            else:
                try:
                    r = d(*[zr(x) if d.domain(n) == R else z(x) for n, x in enumerate(c)]) if k == z3.Z3_OP_UNINTERPRETED else t.decl()(*[zr(x) if y.sort() == R else z(x) for x, y in zip(c, ch)])
                except z3.Z3Exception:
                    r = t
        r = zr(r) if t.sort() == R else z(r)
        memo[i] = (r, t)
        return r
    return go(t)


def acsort(t):
    """t with the real sums and products in it flattened, in an order that does not depend on index terms"""
    masks, memo = {}, {}

    def mask(x):
        i = x.get_id()
        if i not in masks:
            if z3.is_int(x):
                masks[i] = (x, '_')
            elif not x.children():
                masks[i] = (x, str(x))
            else:
                ch = [mask(c) for c in x.children()]
                masks[i] = (x, x.decl().name() + '(' + ','.join(ch) + ')')
        return masks[i][1]

    def flat(x, k):
        return [y for c in x.children() for y in (flat(c, k) if z3.is_app(c) and c.decl().kind() == k else [c])]

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if x.children() and z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and x.sort() == R:
                ch = sorted([go(c) for c in flat(x, k)], key=mask)
                r = z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Product(ch)
            else:
                ch = [go(c) for c in x.children()]
                r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else x.decl()(*ch)
        memo[i] = (x, r)
        return r
    return go(t)
