"""Single elements of numpy arrays of any type: what they are as plain Python values, and their kind."""
import numpy as np
import z3
from .values import *
from . import schema as S
from .ops import mk_bool


class NpValue:
    def __init__(self, e): self.e = e
    def pv_same(self, cmp, b, path):
        if not isinstance(b, NpValue):
            return cmp.no(path, 'array elements') if not isinstance(b, SAny) else cmp.unlike(path, 'values')
        return True if self.e.eq(b.e) else self.e == b.e
    def pv_freeze(self, memo, freeze):
        return self
    def pv_type(self):
        raise Unsupported('type of an array element')
    def pv_truth(self, it):
        return it.ctx.decide(self.pv_bool(it).e)
    def pv_bool(self, it):
        return SBool(it.ctx.func('numpy truth', (AnySort,), BoolSort)(self.e))
    def pv_isinstance(self, it, t):
        return is_type(it, self.e, t)
    def pv_getattr(self, it, name):
        if name == 'dtype':
            return Kind(self.e)
        if name in ('item', 'tolist'):
            return Builtin(name, lambda i, a, k: SAny(i.ctx.func('numpy item', (AnySort,), AnySort)(self.e)))
        raise Unsupported('array element.' + name)


class Kind:
    """the type of an array element"""
    def __init__(self, e): self.e = e
    def pv_eq(self, it, a, b):
        o = b if a is self else a
        if isinstance(o, Kind):
            return mk_bool(it.ctx.func('numpy same kind', (AnySort, AnySort), BoolSort)(self.e, o.e))
        return is_type(it, self.e, o)


def is_type(it, e, t):
    if isinstance(t, str) or isinstance(t, type) and issubclass(t, np.generic):
        t = np.dtype(t)
    if not isinstance(t, np.dtype):
        raise Unsupported('type of an array element')
    return mk_bool(it.ctx.func('numpy is ' + t.newbyteorder('<').str, (AnySort,), BoolSort)(e))


class NpSchema(S.Schema):
    def make(self, ctx, name, idx=(), owner=None):
        return NpValue(S._uf(ctx, name, idx, AnySort))
    def conforms(self, ctx, v):
        return isinstance(v, (NpValue, SInt)) or isinstance(v, SFloat) and v.np
