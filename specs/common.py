"""Shared pieces of the contracts."""
import z3
from vcgen.engine import E
from vcgen.values import *
from vcgen.terms import *
from vcgen import terms as T
from vcgen.verify import *
from vcgen.npmodel import Rec
F = Fraction
LN10 = logv('ln', F(10))


def lead_dims(nd):
    """symbolic leading dimensions"""
    return tuple(dim('n%d' % k) for k in range(nd))


def table(vals, k):
    """element k of a concrete table of terms"""
    from vcgen.arrays import pick
    return pick(list(vals), k)


def reject(ctx, label, f, *args, **kw):
    """the call must raise"""
    r = ctx.call(f, *args, **kw)
    if r[0] == 'ok':
        ctx.fail(label, 'returned instead of raising')
    else:
        ctx.goal(label, True)
