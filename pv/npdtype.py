"""numpy record types and arrays made from a buffer, as opaque values.

Trusted: np.dtype and newbyteorder are functions of their arguments; frombuffer yields
len(buffer) / itemsize records whose columns are functions of buffer, type and name (the
64-bit unsigned times for 'timestamp'); the names of a type are those it was made of.
"""
import numpy as np
import z3
from .values import *
from . import ops, schema as S
from .ops import IV, simp, zs, mk_int
from .models import model
from .nparr import NArr
from .compare import freeze

DTypeSort = z3.DeclareSort('DType')


class DType:
    def __init__(self, e): self.e = e
    def pv_type(self): return np.dtype
    def pv_isinstance(self, it, t): return t is np.dtype
    def pv_same(self, cmp, b, path):
        if not isinstance(b, DType):
            return cmp.no(path, 'record types')
        return True if self.e.eq(b.e) else self.e == b.e
    def pv_getattr(self, it, name):
        from .interp import Builtin
        ctx = it.ctx
        if name == 'itemsize':
            v = ctx.func('dtype.itemsize', (DTypeSort,), IntSort)(self.e)
            ctx.assume(v >= 0)
            return mk_int(v)
        if name == 'names':
            n = ctx.func('dtype.count', (DTypeSort,), IntSort)(self.e)
            ctx.assume(n >= 0)
            at = ctx.func('dtype.name', (DTypeSort, IntSort), StrSort)
            return NArr(n, lambda i: SStr(at(self.e, i)))
        if name == 'newbyteorder':
            def order(it, a, k):
                o = a[0] if a else k.get('new_order', 'S')
                return DType(it.ctx.func('dtype.newbyteorder:%s' % o, (DTypeSort,), DTypeSort)(self.e))
            return Builtin('dtype.newbyteorder', order)
        raise Unsupported('dtype.' + name)


class DTypeSchema(S.Schema):
    def make(self, ctx, name, idx=(), owner=None):
        return DType(S._uf(ctx, name, idx, DTypeSort))
    def conforms(self, ctx, v):
        return isinstance(v, DType)


class Records:
    """np.frombuffer(buffer, dtype)"""
    def __init__(self, name, n, dtype):
        self.name = name; self.n = n; self.dtype = dtype
    def pv_type(self): return np.ndarray
    def pv_len(self, it): return mk_int(self.n)
    def pv_same(self, cmp, b, path):
        if not isinstance(b, Records) or self.name != b.name:
            return cmp.no(path, 'records of different buffers')
        return True
    def pv_getattr(self, it, name):
        if name == 'dtype':
            return self.dtype
        if name == 'size':
            return mk_int(self.n)
        raise Unsupported('ndarray.' + name)
    def pv_getitem(self, it, k):
        ctx = it.ctx
        if not ops.is_str(k):
            raise Unsupported('record subscript')
        key = zs(k)
        if ctx.decide(key == z3.StringVal('timestamp')):
            f = ctx.func(self.name + '.t', (IntSort,), IntSort)
            def at(i):
                ctx.assume(z3.And(f(i) >= 0, f(i) < 2**64))
                return SInt(f(i))
            return NArr(self.n, at)
        f = ctx.func(self.name + '.column', (StrSort, IntSort), AnySort)
        return NArr(self.n, lambda i: SAny(f(key, i)))


@model(np.dtype)
def _(it, a, k):
    from .methods import opaque_result
    if k or len(a) != 1:
        raise Unsupported('numpy.dtype')
    return DType(z3.Const(opaque_result(it, 'np.dtype', a), DTypeSort))


@model(np.frombuffer)
def _(it, a, k):
    from .methods import opaque_result
    k = dict(k)
    dt = k.pop('dtype', None) if len(a) < 2 else a[1]
    if k or not (isinstance(dt, DType) or fixed_type(dt)):
        raise Unsupported('numpy.frombuffer')
    buf = ops.as_bytes(a[0])
    if buf is None:
        raise Unsupported('numpy.frombuffer')
    if not isinstance(dt, DType):
        return elements(it, buf, np.dtype(dt))
    n = ops.bytes_len(it.ctx, buf)
    size = zi_(dt.pv_getattr(it, 'itemsize'))
    if not it.ctx.decide(z3.And(size > 0, n % size == 0)):
        raise PyExc(ValueError)
    name = opaque_result(it, 'np.frombuffer', (buf, dt))
    rows = z3.Int(name + '.rows')
    it.ctx.assume(rows >= 0)
    it.ctx.assume(rows == n / size)
    return Records(name, rows, dt)


def zi_(v):
    return ops.zi(v)


def fixed_type(dt):
    return isinstance(dt, np.dtype) or isinstance(dt, type) and issubclass(dt, np.generic)


def elements(it, buf, dt):
    """np.frombuffer of elements of a known type"""
    from .methods import opaque_result
    ctx = it.ctx
    n = ops.bytes_len(ctx, buf)
    if not ctx.decide(n % dt.itemsize == 0):
        raise PyExc(ValueError)
    name = opaque_result(it, 'np.frombuffer', (buf, dt.str))
    f = ctx.func(name + '.element', (IntSort,), AnySort)
    return NArr(simp(n / dt.itemsize), lambda i: SAny(f(i)), dtype=dt)
