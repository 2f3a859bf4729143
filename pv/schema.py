"""Types (with ranges) of contract inputs and how arbitrary values of them are made."""
import z3
from .values import *


class Schema:
    def make(self, ctx, name, idx=(), owner=None):
        raise NotImplementedError
    def __repr__(self):
        return type(self).__name__


def _uf(ctx, name, idx, sort):
    if not idx:
        return z3.Const(name, sort)
    f = ctx.func(name, tuple(i.sort() for i in idx), sort)
    return f(*idx)


class Int(Schema):
    def __init__(self, lo=None, hi=None): self.lo = lo; self.hi = hi
    def make(self, ctx, name, idx=(), owner=None):
        e = _uf(ctx, name, idx, IntSort)
        if self.lo is not None: ctx.assume(e >= self.lo)
        if self.hi is not None: ctx.assume(e <= self.hi)
        return SInt(e)


U8 = Int(0, 255)
U16 = Int(0, 65535)
U32 = Int(0, 2**32 - 1)
U64 = Int(0, 2**64 - 1)
I32 = Int(-2**31, 2**31 - 1)
Nat = Int(0)


class Small(Schema):
    """integer of a small range: decided by complete case enumeration"""
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi
    def make(self, ctx, name, idx=(), owner=None):
        e = _uf(ctx, name, idx, IntSort)
        key = ('small', name, tuple(str(i) for i in idx))
        if key not in ctx.choice_memo:
            ctx.choice_memo[key] = ctx.choose(self.hi - self.lo + 1) + self.lo
            ctx.assume(e == ctx.choice_memo[key])
        return ctx.choice_memo[key]


class Any(Schema):
    """a value whose contents do not matter; its type is one of the given ones"""
    def __init__(self, *types): self.types = types
    def make(self, ctx, name, idx=(), owner=None):
        e = _uf(ctx, name, idx, AnySort)
        if self.types:
            is_ = lambda t: ctx.func('is_' + t.__name__, (AnySort,), BoolSort)(e)
            ctx.assume(z3.Or(*[z3.And(*[is_(t) if t is u else z3.Not(is_(t)) for t in self.types]) for u in self.types]))
        return SAny(e)


class Bool(Schema):
    def make(self, ctx, name, idx=(), owner=None):
        return SBool(_uf(ctx, name, idx, BoolSort))


class Str(Schema):
    """text without lone surrogates"""
    def __init__(self, pred=None): self.pred = pred
    def make(self, ctx, name, idx=(), owner=None):
        e = _uf(ctx, name, idx, StrSort)
        if self.pred: ctx.assume(self.pred(e))
        return SStr(e)


class EveryStr(Str):
    """keys of a mapping that has every key it is asked for"""
    every = True


class Key(Schema):
    """a key of a dictionary of which only the contents count: the last index is the place in a
    list of as many keys as there are"""
    def __init__(self, base): self.base = base
    def make(self, ctx, name, idx=(), owner=None):
        v = self.base.ks.make(ctx, name, idx, owner)
        if idx and isinstance(v, (SStr, SInt)):
            b = self.base
            f = ctx.func(b.name + '.has', tuple(i.sort() for i in b.idx) + (v.e.sort(),), BoolSort)
            n = _uf(ctx, b.name + '.count', b.idx, IntSort)
            ctx.assume(z3.Implies(z3.And(idx[-1] >= 0, idx[-1] < n), f(*(tuple(b.idx) + (v.e,)))))
        return v


class Bytes(Schema):
    def __init__(self, n=None, lo=0, hi=None): self.n = n; self.lo = lo; self.hi = hi
    def make(self, ctx, name, idx=(), owner=None):
        arr = _uf(ctx, name + '.b', idx, ByteArr)
        if self.n is not None:
            ln = z3.IntVal(self.n) if isinstance(self.n, int) else self.n
        else:
            ln = _uf(ctx, name + '.len', idx, IntSort)
            ctx.assume(ln >= self.lo)
            if self.hi is not None: ctx.assume(ln <= self.hi)
        return SBytes([BSlice(arr, z3.IntVal(0), ln)])


class Buf(Schema):
    def make(self, ctx, name, idx=(), owner=None):
        return SBuf(ctx, Bytes().make(ctx, name, idx), name=name, owner=owner)


class Float(Schema):
    def __init__(self, w=8, np=False): self.w = w; self.np = np
    def make(self, ctx, name, idx=(), owner=None):
        return SFloat(_uf(ctx, name, idx, FlSort), self.w, self.np)


class Const(Schema):
    def __init__(self, v): self.v = v
    def make(self, ctx, name, idx=(), owner=None):
        return self.v


class OneOf(Schema):
    """a value of one of several types; the alternatives are enumerated"""
    def __init__(self, *alts): self.alts = alts
    def make(self, ctx, name, idx=(), owner=None):
        tag = _uf(ctx, name + '.tag', idx, IntSort)
        ctx.assume(z3.And(tag >= 0, tag < len(self.alts)))
        for i, a in enumerate(self.alts[:-1]):
            if ctx.decide(tag == i):
                return a.make(ctx, name + '.' + str(i), idx, owner)
        return self.alts[-1].make(ctx, name + '.' + str(len(self.alts) - 1), idx, owner)


class Lazy(Schema):
    def __init__(self, fn): self.fn = fn
    def make(self, ctx, name, idx=(), owner=None):
        return self.fn().make(ctx, name, idx, owner)


class Tup(Schema):
    def __init__(self, *alts): self.alts = alts
    def make(self, ctx, name, idx=(), owner=None):
        return tuple(a.make(ctx, '%s.%d' % (name, i), idx, owner) for i, a in enumerate(self.alts))


class ListOf(Schema):
    def __init__(self, elem, n=None, lo=0): self.elem = elem; self.n = n; self.lo = lo
    def make(self, ctx, name, idx=(), owner=None):
        if self.n is not None:
            l = SList(ctx, (), name=name, owner=owner, schema=self.elem)
            l.segs = tuple(Unit(self.elem.make(ctx, '%s.%d' % (name, i), idx, (l, ('elem',))))
                           for i in range(self.n))
            return l
        ln = _uf(ctx, name + '.len', idx, IntSort)
        ctx.assume(ln >= self.lo)
        return SList(ctx, (OpqSeq(name, self.elem, z3.IntVal(0), ln, idx),), name=name, owner=owner,
                     schema=self.elem)


class ListUpTo(Schema):
    """list of 0..n elements, lengths enumerated"""
    def __init__(self, elem, n): self.elem = elem; self.n = n
    def make(self, ctx, name, idx=(), owner=None):
        key = ('upto', name, tuple(str(i) for i in idx))
        if key not in ctx.choice_memo:
            ctx.choice_memo[key] = ctx.choose(self.n + 1)
        return ListOf(self.elem, ctx.choice_memo[key]).make(ctx, name, idx, owner)


class DictOf(Schema):
    def __init__(self, ks, vs): self.ks = ks; self.vs = vs
    def make(self, ctx, name, idx=(), owner=None):
        d = SDict(ctx, name=name, owner=owner)
        d.base = DictBase(name, self.ks, self.vs)
        d.base.idx = idx
        return d


class SetOf(Schema):
    def __init__(self, ks): self.ks = ks
    def make(self, ctx, name, idx=(), owner=None):
        d = SSet(ctx, name=name, owner=owner)
        d.base = DictBase(name, self.ks, Const(None))
        d.base.idx = idx
        return d


class DictBase(DictBase):
    __slots__ = ('idx',)


class FixedDict(Schema):
    """dict with exactly the given (concrete) keys"""
    def __init__(self, **items): self.items = items
    def make(self, ctx, name, idx=(), owner=None):
        d = SDict(ctx, name=name, owner=owner)
        for k, s in self.items.items():
            d.log.append((k, s.make(ctx, name + '.' + k, idx, (d, ('elem',)))))
        return d


class ByKey(Schema):
    """values of a dictionary whose type depends on the key"""
    def __init__(self, keys, special, other): self.keys = keys; self.special = special; self.other = other
    def make(self, ctx, name, idx=(), owner=None):
        e = z3.Or(*[idx[-1] == z3.StringVal(k) for k in self.keys])
        return self.special.make(ctx, name + '.s', idx, owner) if ctx.decide(e) else self.other.make(ctx, name, idx, owner)
    def pv_repr(self, repr_of):
        return ('ByKey', self.keys, repr_of(self.special), repr_of(self.other))


class Obj(Schema):
    """instance of cls whose attributes have the given types (made on first use)"""
    def __init__(self, cls, attrs, inv=None, ignore=(), frozen=False):
        self.cls = cls; self.attrs = attrs; self.inv = inv; self.ignore = set(ignore)
        self.frozen = frozen    # only read: elements of a list need not be told apart
    def make(self, ctx, name, idx=(), owner=None):
        o = SObj(ctx, self.cls, self, name=name, owner=owner)
        o.idx = idx
        return o
    def with_attrs(self, **kw):
        return Obj(self.cls, dict(self.attrs, **kw), self.inv, self.ignore, self.frozen)


class File(Schema):
    """readable seekable binary file with arbitrary content at an arbitrary position, open or closed"""
    def __init__(self, closed=False): self.closed = closed
    def make(self, ctx, name, idx=(), owner=None):
        c = Bytes().make(ctx, name + '.content', idx)
        pos = _uf(ctx, name + '.pos', idx, IntSort)
        ctx.assume(pos >= 0)
        f = SFile(ctx, c, SInt(pos), name=name, owner=owner)
        f.closed = self.closed
        f.path = SStr(_uf(ctx, name + '.path', idx, StrSort))
        return f


class OutFile(Schema):
    """writable binary stream that already holds arbitrary bytes"""
    def make(self, ctx, name, idx=(), owner=None):
        c = Bytes().make(ctx, name + '.content', idx)
        return SFile(ctx, c, None, name=name, owner=owner, writable=True)


def frozen(s):
    """the same type, for programs that only read objects of it"""
    if isinstance(s, Obj):
        return Obj(s.cls, {n: frozen(a) for n, a in s.attrs.items()}, s.inv, s.ignore, True)
    if isinstance(s, ListOf):
        return ListOf(frozen(s.elem), s.n, s.lo)
    if type(s) is DictOf:
        return DictOf(s.ks, frozen(s.vs))
    if isinstance(s, OneOf):
        return OneOf(*[frozen(a) for a in s.alts])
    return s
