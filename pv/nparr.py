"""numpy arrays of one dimension, as immutable functions from index to element.

Trusted facts about numpy used here: elementwise arithmetic and comparison, slicing,
selection by a boolean or an index array, where(mask) (the increasing indices at which
the mask holds), array_equal, and that the elementwise mathematical functions are
functions of their arguments.
"""
import ast
import numpy as np
import z3
from .values import *
from .compare import Cmp
from . import ops, schema as S
from .ops import IV, simp, zi, zs, is_int, mk_int, mk_bool
from .schema import Schema
from .models import M, model, Zip


class FnSchema(Schema):
    """elements given by a function of the index"""
    def __init__(self, at):
        self.at = at
    def make(self, ctx, name, idx=(), owner=None):
        return self.at(idx[-1])


def probe(it, n, split=True):
    """an arbitrary index below n (the same one for equal n); None when n is 0.
    Without split there is no case distinction: below n if there is such an index"""
    ctx = it.ctx
    n = simp(n)
    if z3.is_int_value(n) and n.as_long() <= 0:
        return None
    if split and not ctx.decide(n > 0):
        return None
    for (m, k) in ctx.kprobes:
        if m.eq(n) or ctx.prove(m == n):
            if split:
                ctx.assume(z3.And(k >= 0, k < n))
            return k
    k = z3.Int('any%d' % len(ctx.kprobes))
    ctx.kprobes.append((n, k))
    ctx.assume(z3.Implies(n > 0, z3.And(k >= 0, k < n)))
    return k


def fseq(it, n, at, schema=None):
    """a list with elements at(0) .. at(n-1); equal lists get the same name"""
    from .methods import opaque_result
    k = probe(it, n)
    if k is None:
        return SList(it.ctx, (), schema=schema)
    name = opaque_result(it, 'sequence', (mk_int(n), at(k)))
    sch = FnSchema(at)
    return SList(it.ctx, (OpqSeq(name, sch, IV(0), simp(n)),), schema=schema or sch)


def select(it, n, pred, elem):
    """the elements at the indices below n where pred holds, in order"""
    from .methods import opaque_result
    from .interp import StateChanged
    ctx = it.ctx
    k = probe(it, n, False)
    if k is None:
        return NArr(IV(0), elem)
    p = pred(k)
    pe = ops.zb(p)
    name = opaque_result(it, 'select', (mk_int(n), mk_bool(pe)))
    m = z3.Int(name + '.n')
    ix = ctx.func(name + '.ix', (IntSort,), IntSort)
    ctx.assume(z3.And(m >= 0, m <= n))
    ctx.assume(z3.Implies(z3.And(n > 0, pe), m > 0))
    ctx.assume(z3.Implies(z3.And(n > 0, z3.Not(pe)), m < n))
    ctx.assume(z3.Implies(z3.And(m > 0, k < ix(IV(0))), z3.Not(pe)))
    ctx.assume(z3.Implies(m > 0, z3.And(ix(IV(0)) >= 0, ix(IV(0)) < n)))
    def index(i):
        i = simp(i)
        j = ix(i)
        inr = z3.And(i >= 0, i < m)
        ctx.assume(z3.Implies(inr, z3.And(j >= 0, j < n)))
        try:
            ctx.assume(z3.Implies(inr, ops.zb(pred(j))))
        except StateChanged:
            pass                # it held when the elements were selected
        return j
    r = NArr(m, lambda i: elem(index(i)))
    r.index = index
    return r


def is_scalar(v):
    return is_int(v) or isinstance(v, (float, SFloat, SAny, str, SStr, bool, SBool))


class NArr:
    def __init__(self, n, at, boolean=False, dtype=None):
        self.n = n
        self.at = at
        self.boolean = boolean
        self.dtype = dtype
        self.index = None

    def pv_type(self):
        return np.ndarray
    def pv_len(self, it):
        return mk_int(self.n)
    def pv_sym_seq(self, it):
        return self.n, self.at
    def pv_truth(self, it):
        raise Unsupported('truth value of an array')
    def pv_as_list(self, it):
        return fseq(it, self.n, self.at)
    def pv_isinstance(self, it, t):
        return t is np.ndarray

    def pv_getitem(self, it, k):
        ctx = it.ctx
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            a = IV(0) if k.start is None else ops.clamp(ctx, zi(k.start), self.n)
            e = self.n if k.stop is None else ops.clamp(ctx, zi(k.stop), self.n)
            if not ctx.prove(a <= e):
                e = ops.zmax(a, e)
            a = simp(a)
            return NArr(simp(e - a), lambda i: self.at(simp(a + i)), self.boolean, self.dtype)
        if isinstance(k, NArr):
            if k.boolean:
                if not ctx.prove(k.n == self.n):
                    raise Unsupported('mask of another length')
                r = select(it, self.n, k.at, self.at)
                r.boolean = self.boolean; r.dtype = self.dtype
                return r
            j = probe(it, k.n)
            if j is not None:
                x = zi(k.at(j))
                if not ctx.decide(z3.And(x >= -self.n, x < self.n)):
                    raise PyExc(IndexError)
                if not ctx.prove(x >= 0):
                    raise Unsupported('negative indices')
            return NArr(k.n, lambda i: self.at(zi(k.at(i))), self.boolean, self.dtype)
        if is_int(k):
            return self.at(it.norm_index(zi(k), self.n))
        raise Unsupported('array subscript %r' % (k,))

    def pv_unary(self, it, op):
        if op == 'Invert' and self.boolean:
            return NArr(self.n, lambda i: mk_bool(z3.Not(ops.zb(self.at(i)))), True)
        if op == 'USub':
            return NArr(self.n, lambda i: it.binop(ast.Sub(), 0, self.at(i)))
        raise Unsupported('unary operator on an array')

    def pair(self, it, a, b):
        """aligned element functions of two operands"""
        fs = []
        n = self.n
        for x in (a, b):
            if isinstance(x, NArr):
                if x is not self and not it.ctx.prove(x.n == n):
                    raise Unsupported('arrays of different lengths')
                fs.append(x.at)
            elif is_scalar(x):
                fs.append(lambda i, x=x: x)
            else:
                return None
        return fs

    def pv_binop(self, it, t, a, b):
        fs = self.pair(it, a, b)
        if fs is None:
            return NotImplemented
        f, g = fs
        if t in ('BitAnd', 'BitOr') and all(not isinstance(x, NArr) or x.boolean for x in (a, b)):
            z = z3.And if t == 'BitAnd' else z3.Or
            return NArr(self.n, lambda i: mk_bool(z(ops.zb(f(i)), ops.zb(g(i)))), True)
        return NArr(self.n, lambda i: elementwise(it, t, f(i), g(i)))

    def pv_cmp(self, it, t, a, b):
        fs = self.pair(it, a, b)
        if fs is None:
            return NotImplemented
        f, g = fs
        op = getattr(ast, t)()
        return NArr(self.n, lambda i: mk_bool(ops.zb(compare_elem(it, op, f(i), g(i)))), True)

    def pv_eq(self, it, a, b):
        return self.pv_cmp(it, 'Eq', a, b)

    def pv_same(self, cmp, b, path):
        if not isinstance(b, NArr):
            return cmp.no(path, 'array against %r' % (b,))
        ctx = cmp.ctx
        if simp(self.n).eq(simp(b.n)):
            c = True
        else:
            c = self.n == b.n
        k = z3.Int(ctx.fresh('cmp'))
        inr = z3.And(k >= 0, k < self.n)
        e = cmp.same(self.at(k), b.at(k), path + '[k]')
        if e is True:
            return c
        e = z3.Implies(inr, z3.BoolVal(False) if e is False else e)
        return e if c is True else z3.And(c, e)

    def pv_method(self, it, name, a, k):
        ctx = it.ctx
        if name == 'item' and a:
            return self.pv_getitem(it, a[0])
        if name in ('tolist',):
            return fseq(it, self.n, self.at)
        if name == 'copy':
            return self
        if name == 'tobytes' and not a and not k:
            from .methods import opaque_result
            return S.Bytes().make(ctx, opaque_result(it, 'ndarray.tobytes', (self,)))
        if name in ('max', 'min', 'mean', 'sum', 'any', 'all'):
            return reduce_(it, name, self)
        if name == 'astype':
            from .methods import opaque_result
            t = a[0]
            return NArr(self.n, lambda i: cast(it, t, self.at(i)), False)
        if name == 'view':
            t = a[0] if a else k.get('dtype')
            return NArr(self.n, lambda i: cast(it, ('view', t), self.at(i)))
        raise Unsupported('ndarray.%s' % name)

    def pv_getattr(self, it, name):
        if name in ('size',):
            return mk_int(self.n)
        if name == 'shape':
            return (mk_int(self.n),)
        if name == 'ndim':
            return 1
        if name == 'dtype':
            if self.dtype is not None:
                return self.dtype
        raise Unsupported('ndarray.%s' % name)


def cast(it, t, x):
    key = 'cast:%r' % (t,)
    if isinstance(x, SAny):
        return SAny(it.ctx.func(key, (AnySort,), AnySort)(x.e))
    if is_int(x):
        return SAny(it.ctx.func(key, (IntSort,), AnySort)(zi(x)))
    if isinstance(x, (SFloat, float)):
        return SAny(it.ctx.func(key, (FlSort,), AnySort)(ops.zf(it.ctx, x)))
    raise Unsupported('cast of %r' % (x,))


def elementwise(it, t, x, y):
    if isinstance(x, SAny) or isinstance(y, SAny):
        return SFloat(it.ctx.func('np' + t, (FlSort, FlSort), FlSort)(ops.zf(it.ctx, x), ops.zf(it.ctx, y)), 8, True)
    if is_int(x) and is_int(y) and t in ('Add', 'Sub', 'Mult'):
        return it.binop(getattr(ast, t)(), x, y)
    a, b = ops.zf(it.ctx, x), ops.zf(it.ctx, y)
    if t in ('Add', 'Mult') and str(a) > str(b):
        a, b = b, a
    return SFloat(it.ctx.func('np' + t, (FlSort, FlSort), FlSort)(a, b), 8, True)


def compare_elem(it, op, x, y):
    t = type(op).__name__
    if is_int(x) and is_int(y):
        return it.compare(op, x, y)
    ctx = it.ctx
    a, b = ops.zf(ctx, x), ops.zf(ctx, y)
    if t in ('Eq', 'NotEq'):
        if str(a) > str(b):
            a, b = b, a
        e = ctx.func('fl_eq', (FlSort, FlSort), BoolSort)(a, b)
        return mk_bool(e if t == 'Eq' else z3.Not(e))
    if t in ('Gt', 'GtE'):
        a, b = b, a
        t = {'Gt': 'Lt', 'GtE': 'LtE'}[t]
    return mk_bool(ctx.func('fl_' + t, (FlSort, FlSort), BoolSort)(a, b))


def reduce_(it, name, a):
    from .methods import opaque_result
    ctx = it.ctx
    k = probe(it, a.n)
    if k is None:
        if name in ('max', 'min'):
            raise PyExc(ValueError)
        if name in ('any', 'all'):
            return name == 'all'
        raise Unsupported('reduction of an empty array')
    v = a.at(k)
    r = opaque_result(it, 'reduce:' + name, (mk_int(a.n), v))
    if name in ('any', 'all'):
        e = z3.Bool(r)
        ctx.assume(z3.Implies(ops.zb(v), e) if name == 'any' else z3.Implies(e, ops.zb(v)))
        return mk_bool(e)
    if is_int(v):
        e = z3.Int(r)
        if name == 'max':
            ctx.assume(e >= zi(v))
        if name == 'min':
            ctx.assume(e <= zi(v))
        if name != 'mean':
            return mk_int(e)
    return SFloat(z3.Const(r + '.f', FlSort), 8, True)


def elementwise_fn(name, nargs):
    def f(it, a, k):
        if k:
            raise Unsupported('keyword arguments of numpy.%s' % name)
        arrs = [x for x in a if isinstance(x, NArr)]
        g = it.ctx.func('np.' + name, (FlSort,) * nargs, FlSort)
        def at(i):
            return SFloat(g(*[ops.zf(it.ctx, x.at(i) if isinstance(x, NArr) else x) for x in a]), 8, True)
        if not arrs:
            return at(None)
        for x in arrs[1:]:
            if not it.ctx.prove(x.n == arrs[0].n):
                raise Unsupported('arrays of different lengths')
        return NArr(arrs[0].n, at)
    return f


for _n, _k in (('arctan2', 2), ('arcsin', 1), ('sqrt', 1), ('sin', 1), ('cos', 1), ('isnan', 1)):
    M[getattr(np, _n)] = elementwise_fn(_n, _k)


@model(np.where)
def _(it, a, k):
    if len(a) != 1 or not isinstance(a[0], NArr) or not a[0].boolean:
        raise Unsupported('numpy.where')
    return (select(it, a[0].n, a[0].at, lambda i: mk_int(i)),)


@model(np.flatnonzero)
def _(it, a, k):
    if not isinstance(a[0], NArr) or not a[0].boolean:
        raise Unsupported('numpy.flatnonzero')
    return select(it, a[0].n, a[0].at, lambda i: mk_int(i))


@model(np.nonzero)
def _(it, a, k):
    return (M[np.flatnonzero](it, a, k),)


@model(np.array_equal)
def _(it, a, k):
    from .methods import opaque_result
    x, y = a
    nan = bool(k.get('equal_nan', False))
    if x is y and nan:
        return True
    ctx = it.ctx
    if not isinstance(x, NArr) or not isinstance(y, NArr):
        raise Unsupported('array_equal')
    if not ctx.decide(x.n == y.n):
        return False
    j = probe(it, x.n)
    if j is None:
        return True
    r = opaque_result(it, 'array_equal:%s' % nan, (mk_int(x.n), x.at(j), y.at(j)))
    return mk_bool(z3.Bool(r))


for _n in ('any', 'all', 'max', 'min', 'mean', 'sum', 'amax', 'amin'):
    def _f(it, a, k, _n=_n):
        if not isinstance(a[0], NArr):
            raise Unsupported('numpy.' + _n)
        return reduce_(it, {'amax': 'max', 'amin': 'min'}.get(_n, _n), a[0])
    M[getattr(np, _n)] = _f


class Arr(Schema):
    """an array of `rows` elements; rows(ctx, owner) gives the z3 length"""
    def __init__(self, elem, rows=None):
        self.elem = elem
        self.rows = rows
    def make(self, ctx, name, idx=(), owner=None):
        n = length_of(ctx, name, idx, owner) if self.rows is None else self.rows(ctx, name, idx, owner)
        ctx.assume(n >= 0)
        return NArr(n, lambda i: self.elem.make(ctx, name + '.at', tuple(idx) + (i,), owner))


def length_of(ctx, name, idx, owner):
    return S._uf(ctx, name + '.rows', idx, IntSort)


def same_rows(ctx, name, idx, owner):
    """all arrays of one dataset have the same length"""
    o = owner[0] if owner else None
    while o is not None and not isinstance(o, SObj):
        o = o.owner[0] if o.owner else None
    if o is None:
        return length_of(ctx, name, idx, owner)
    return S._uf(ctx, (o.name or 'object') + '.rows', getattr(o, 'idx', ()), IntSort)


class FieldArr(Schema):
    """the samples of a field: 64-bit unsigned times for 'timestamp', the given types for the
    given fields, else `elem`"""
    def __init__(self, elem=None, rows=same_rows, **special):
        self.elem = elem or S.Any()
        self.rows = rows
        special['timestamp'] = S.U64
        self.special = special
        self.time = {k: Arr(v, rows) for k, v in special.items()}
        self.other = Arr(self.elem, rows)
    def pv_repr(self, repr_of):
        return ('FieldArr', repr_of(self.elem), self.rows) + tuple((k, repr_of(v)) for k, v in sorted(self.special.items()))
    def conforms(self, ctx, v):
        return isinstance(v, NArr)
    def make(self, ctx, name, idx=(), owner=None):
        k = idx[-1]
        for n, a in self.time.items():
            if ctx.decide(k == z3.StringVal(n)):
                return a.make(ctx, name + '.' + n[0], idx, owner)
        return self.other.make(ctx, name, idx, owner)
