"""Models of built-in functions and of the libraries pyulog uses."""
import ast
import builtins
import collections
import contextlib
import hashlib
import copy
import io
import struct
import sys
import types
import numpy as np
import z3
from .values import *
from . import ops, schema as S
from .ops import IV, simp, zi, zs, zb, mk_int, mk_bool, mk_str, is_int, is_str, as_bytes, concat_str
from .compare import freeze, norm_seq
from .interp import (View, SymRange, NullContext, kind_of, SExc)
from .methods import sorted_list, opaque_list_of, opaque_result

M = {}


def model(fn):
    def deco(f):
        M[fn] = f
        return f
    return deco


@model(len)
def _(it, a, k):
    return it.length(a[0])


@model(print)
def _(it, a, k):
    out = it.ctx.world.out
    if out is None:
        return None
    parts = []
    sep = k.get('sep', ' ')
    for i, x in enumerate(a):
        if i:
            parts.append(sep)
        parts.append(it.to_str(x))
    end = k.get('end', '\n')
    parts.append('\n' if end is None else end)
    emit(it, k.get('file') or None, concat_str(parts))
    return None


def emit(it, f, text):
    """append text to an output stream (a list of text pieces)"""
    if isinstance(f, SFile):
        raise Unsupported('print to a binary file')
    if f is not None and not isinstance(f, TextOut) and not hasattr(f, 'write'):
        raise Unsupported('print to %r' % (f,))
    if f is None or f is sys.stdout:
        tgt = it.ctx.world.out
    elif isinstance(f, TextOut):
        tgt = f.lst
    else:
        raise Unsupported('print to %r' % (f,))
    if tgt is None or text == '':
        return
    # consecutive texts are one text
    segs = tgt.segs
    it.note_write(tgt, 'content')
    if segs and isinstance(segs[-1], Unit):
        tgt.segs = segs[:-1] + (Unit(concat_str([segs[-1].v, text])),)
    else:
        tgt.segs = segs + (Unit(text),)


class TextOut:
    """a text stream opened for writing"""
    def __init__(self, lst):
        self.lst = lst
    def pv_method(self, it, name, a, k):
        if name == 'write':
            emit(it, self, a[0])
            return None
        if name in ('flush', 'close'):
            return None
        raise Unsupported('text stream.' + name)
    def pv_context(self, it):
        return (lambda: self), (lambda e: False)
    def pv_getattr(self, it, name):
        return Builtin(name, lambda i, a, k: self.pv_method(i, name, a, k))


@model(isinstance)
def _(it, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    return any(inst(it, v, x) for x in ts)


def pytype(v):
    if isinstance(v, SObj): return v.cls
    if isinstance(v, SInt): return int
    if isinstance(v, SBool): return bool
    if isinstance(v, SStr): return str
    if isinstance(v, SFloat): return float
    if isinstance(v, SBytes): return bytes
    if isinstance(v, SBuf): return bytearray
    if isinstance(v, (SList, SSplit)): return list
    if isinstance(v, SSet): return set
    if isinstance(v, SDict): return dict
    if isinstance(v, (SFunc,)): return types.FunctionType
    if isinstance(v, SExc): return v.cls
    if isinstance(v, SAny):
        raise Unsupported('type of a value of unknown type')
    h = getattr(v, 'pv_type', None)
    if h is not None:
        return h()
    return type(v)


def inst(it, v, t):
    if not isinstance(t, type):
        raise Unsupported('isinstance against %r' % (t,))
    h = getattr(v, 'pv_isinstance', None)
    if h is not None:
        return h(it, t)
    if isinstance(v, SAny):
        if t not in (int, float, str, bytes, bool):
            raise Unsupported('isinstance of a value of unknown type')
        return it.ctx.decide(it.ctx.func('is_' + t.__name__, (AnySort,), BoolSort)(v.e))
    if isinstance(v, SFile):
        import io
        if t in (str, int, bytes, list, dict, type(None), tuple, float):
            return False
        raise Unsupported('isinstance of a file')
    if isinstance(v, SFloat) and v.np:
        import numpy as np
        base = np.float32 if v.w == 4 else np.float64
        return issubclass(base, t)
    return issubclass(pytype(v), t)


@model(type)
def _(it, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    if isinstance(a[0], SAny) or hasattr(a[0], 'pv_bool'):
        return TypeOf(a[0])
    return pytype(a[0])


class TypeOf:
    """the type of a value that may have any"""
    def __init__(self, v): self.v = v
    def name(self, ctx):
        return SStr(ctx.func('type name', (AnySort,), StrSort)(self.v.e))


@model(id)
def _(it, a, k):
    raise Unsupported('id')


@model(hasattr)
def _(it, a, k):
    h = getattr(a[0], 'pv_has', None)
    if h is not None:
        return h(it, a[1])
    try:
        it.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(getattr)
def _(it, a, k):
    h = getattr(a[0], 'pv_attribute', None)
    if not isinstance(a[1], str) and h is None:
        raise Unsupported('getattr with symbolic name')
    try:
        return h(it, a[1]) if h is not None else it.getattr(a[0], a[1])
    except PyExc as e:
        if len(a) > 2 and issubclass(e.cls, AttributeError):
            return a[2]
        raise


@model(setattr)
def _(it, a, k):
    if not isinstance(a[1], str):
        h = getattr(a[0], 'pv_set_attribute', None)
        if h is None:
            raise Unsupported('setattr with symbolic name')
        h(it, a[1], a[2])
        return
    it.setattr(a[0], a[1], a[2])


@model(range)
def _(it, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if not is_int(x):
            raise PyExc(TypeError)
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if step == -1:
        return SymRange(zi(lo), simp(zi(lo) - zi(hi)), -1)
    if not isinstance(step, int) or step <= 0:
        raise Unsupported('range step')
    n = zi(hi) - zi(lo)
    if step != 1:
        n = (n + IV(step - 1)) / IV(step)
    return SymRange(zi(lo), simp(n), step)


@model(enumerate)
def _(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    items = it.concrete_items(a[0])
    if items is not None:
        return [(it.binop(ast.Add(), start, i), x) for i, x in enumerate(items)]
    return Enum(a[0], start)


class Enum:
    def __init__(self, v, start):
        self.v = v; self.start = start
    def pv_sym_seq(self, it):
        n, at = it.sym_seq(self.v)
        return n, lambda i: (mk_int(zi(self.start) + i), at(i))
    def pv_truth(self, it):
        return True


@model(zip)
def _(it, a, k):
    lists = [it.concrete_items(x) for x in a]
    if all(l is not None for l in lists):
        return list(zip(*lists))
    return Zip(a)


class Zip:
    def __init__(self, vs):
        self.vs = vs
    def pv_sym_seq(self, it):
        seqs = [it.sym_seq(v) if it.concrete_items(v) is None else conc_seq(it, v) for v in self.vs]
        n = seqs[0][0]
        for s in seqs[1:]:
            if not simp(n).eq(simp(s[0])):
                n = ops.zmin(n, s[0])
        return n, lambda i: tuple(s[1](i) for s in seqs)
    def pv_truth(self, it):
        return True
    def pv_as_list(self, it):
        from . import nparr
        n, at = self.pv_sym_seq(it)
        return nparr.fseq(it, simp(n), at)


def conc_seq(it, v):
    items = it.concrete_items(v)
    def at(i):
        return items[ops.concretize(it.ctx, i, 0, len(items) - 1)]
    return IV(len(items)), at


@model(reversed)
def _(it, a, k):
    items = it.concrete_items(a[0])
    if items is not None:
        return list(reversed(items))
    return Rev(a[0])


class Rev:
    def __init__(self, v):
        self.v = v
    def pv_sym_seq(self, it):
        n, at = it.sym_seq(self.v)
        return n, lambda i: at(simp(n - 1 - i))


@model(list)
def _(it, a, k):
    ctx = it.ctx
    if not a:
        return SList(ctx, ())
    v = a[0]
    if isinstance(v, SList):
        r = SList(ctx, v.segs, schema=v.schema)
        it.carry_elems(r, v)
        return r
    items = it.concrete_items(v)
    if items is not None:
        return SList(ctx, tuple(Unit(x) for x in items))
    if hasattr(v, 'pv_as_list'):
        return v.pv_as_list(it)
    return opaque_list_of(it, v)


@model(tuple)
def _(it, a, k):
    if not a:
        return ()
    items = it.concrete_items(a[0])
    if items is None:
        raise Unsupported('tuple of symbolic length')
    return tuple(items)


@model(dict)
def _(it, a, k):
    d = SDict(it.ctx)
    if a:
        if isinstance(a[0], (SDict,)):
            d.base = a[0].base; d.log = list(a[0].log); d.mat = [list(m) for m in a[0].mat]
        elif isinstance(a[0], dict):
            for kk, v in a[0].items():
                it.dict_set(d, kk, v)
        else:
            items = it.concrete_items(a[0])
            if items is None:
                raise Unsupported('dict of symbolic sequence')
            for x in items:
                kk, v = it.concrete_items(x)
                it.dict_set(d, kk, v)
    for kk, v in k.items():
        it.dict_set(d, kk, v)
    return d


class Unordered:
    """the elements of a list in any order, each once"""
    def __init__(self, v): self.v = v
    def pv_as_list(self, it):
        return self
    def pv_contains(self, it, x):
        return it.contains(self.v, x)


@model(collections.defaultdict)
def _(it, a, k):
    d = SDict(it.ctx)
    if len(a) > 1 or k:
        raise Unsupported('defaultdict with contents')
    d.factory = a[0] if a else None
    return d


@model(set)
def _(it, a, k):
    s = SSet(it.ctx)
    if a:
        items = it.concrete_items(a[0])
        if items is None:
            if isinstance(a[0], SList):
                return Unordered(a[0])
            raise Unsupported('set of symbolic sequence')
        for x in items:
            it.dict_set(s, x, None)
    return s


@model(str)
def _(it, a, k):
    if not a:
        return ''
    v = a[0]
    if len(a) > 1 or 'encoding' in k:
        b = as_bytes(v)
        if b is None:
            raise PyExc(TypeError)
        enc = a[1] if len(a) > 1 else k['encoding']
        err = a[2] if len(a) > 2 else k.get('errors', 'strict')
        if enc not in ('utf-8', 'utf8'):
            raise Unsupported('encoding')
        return ops.utf8_decode(it.ctx, b, err)
    return it.to_str(v)


@model(bytes)
def _(it, a, k):
    if not a:
        return b''
    v = a[0]
    if is_str(v):
        if len(a) < 2 and 'encoding' not in k:
            raise PyExc(TypeError)
        return ops.norm_bytes(ops.utf_segs(v))
    if (len(a) > 1 or k) and not isinstance(v, SAny):
        raise PyExc(TypeError)
    b = as_bytes(v)
    if b is not None:
        return b
    if isinstance(v, int):
        return bytes(v)
    items = it.concrete_items(v)
    if items is not None:
        segs = []
        for x in items:
            if not it.ctx.decide(z3.And(zi(x) >= 0, zi(x) <= 255)):
                raise PyExc(ValueError)
            segs.append(BInt(zi(x), 1))
        return ops.norm_bytes(segs)
    h = getattr(v, 'pv_bytes', None)
    if h is not None:
        return h(it)
    if isinstance(v, SList):    # of bytes, by their type
        for q in v.segs:
            if isinstance(q, Unit):
                if not (is_int(q.v) and it.ctx.prove(z3.And(zi(q.v) >= 0, zi(q.v) <= 255))):
                    raise Unsupported('bytes of a list')
            elif not (type(q.schema) is S.Int and q.schema.lo is not None and q.schema.lo >= 0 and
                      q.schema.hi is not None and q.schema.hi <= 255):
                raise Unsupported('bytes of a list')
        return S.Bytes(zi(it.length(v))).make(it.ctx, opaque_result(it, 'bytes', (v,)))
    raise Unsupported('bytes(%r)' % (v,))


@model(bytearray)
def _(it, a, k):
    if not a:
        return SBuf(it.ctx, b'')
    return SBuf(it.ctx, M[bytes](it, a, k))


@model(int)
def _(it, a, k):
    ctx = it.ctx
    if not a:
        return 0
    v = a[0]
    if is_int(v):
        return int(v) if isinstance(v, int) else mk_int(zi(v))
    if isinstance(v, SStr) and len(a) == 1:
        ok = ctx.func('int_ok', (StrSort,), BoolSort)(v.e)
        f = ctx.func('int_of', (StrSort,), IntSort)(v.e)
        e = v.e
        if e.decl().name() in ('int.to.str', 'str.from_int'):
            n = e.children()[0]
            ctx.assume(z3.Implies(n >= 0, z3.And(ok, f == n)))
        if not ctx.decide(ok):
            raise PyExc(ValueError)
        return SInt(f)
    if isinstance(v, SFloat):
        return SInt(ctx.func('f2i', (FlSort,), IntSort)(v.e))
    if it.concrete(a):
        try:
            return int(*a)
        except Exception as e:
            raise PyExc(type(e), e.args)
    h = getattr(v, 'pv_int', None)
    if h is not None:
        return h(it)
    raise Unsupported('int(%r)' % (v,))


@model(float)
def _(it, a, k):
    v = a[0]
    if isinstance(v, SFloat):
        return SFloat(v.e, v.w, False)
    if isinstance(v, (int, float)):
        return float(v)
    if is_int(v):
        return SFloat(ops.zf(it.ctx, v), 8)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            raise PyExc(ValueError, e.args)
    raise Unsupported('float(%r)' % (v,))


@model(bool)
def _(it, a, k):
    if not a:
        return False
    if isinstance(a[0], (SBool, bool)):
        return a[0]
    if isinstance(a[0], SInt):
        return mk_bool(a[0].e != 0)
    h = getattr(a[0], 'pv_bool', None)
    if h is not None:
        return h(it)
    return it.truth(a[0])


@model(ord)
def _(it, a, k):
    if isinstance(a[0], str):
        return ord(a[0])
    b = as_bytes(a[0])
    if b is not None:
        return mk_int(ops.byte_at(it.ctx, b, IV(0)))
    e = zs(a[0])
    c = ops.code_of(it.ctx, e)
    return mk_int(z3.StrToCode(e) if c is None else c)


@model(chr)
def _(it, a, k):
    if isinstance(a[0], int):
        return chr(a[0])
    return SStr(z3.StrFromCode(zi(a[0])))


@model(abs)
def _(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, SInt):
        return mk_int(z3.If(v.e >= 0, v.e, -v.e))
    if isinstance(v, SFloat):
        return SFloat(it.ctx.func('fabs', (FlSort,), FlSort)(v.e), v.w, v.np)
    raise Unsupported('abs')


def an_element(it, l):
    """an arbitrary element of a list of any length; None when it is empty"""
    from . import nparr
    k = nparr.probe(it, zi(it.length(l)))
    return None if k is None else it.seq_at(l, k)


def number(it, name, like, what):
    if is_int(like):
        return SInt(z3.Int(name))
    if isinstance(like, SFloat):
        return SFloat(z3.Const(name, FlSort), like.w, like.np)
    raise Unsupported('%s of %r' % (what, like))


def minmax(is_min):
    def f(it, a, k):
        if len(a) == 1:
            items = it.concrete_items(a[0])
            if items is None:
                v = a[0]
                if not isinstance(v, SList) or k.get('key'):
                    raise Unsupported('min/max of symbolic sequence')
                x = an_element(it, v)
                if x is not None:
                    nm = 'min' if is_min else 'max'
                    return number(it, opaque_result(it, nm, (v,)), x, nm)
                items = []
        else:
            items = list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise PyExc(ValueError)
        key = k.get('key')
        best = items[0]
        bk = it.call(key, [best]) if key else best
        for x in items[1:]:
            xk = it.call(key, [x]) if key else x
            if not key and is_int(xk) and is_int(bk):
                best = bk = mk_int((ops.zmin if is_min else ops.zmax)(zi(bk), zi(xk)))
                continue
            if it.truth(it.compare(ast.Lt() if is_min else ast.Gt(), xk, bk)):
                best, bk = x, xk
        return best
    return f


M[min] = minmax(True)
M[max] = minmax(False)


@model(sum)
def _(it, a, k):
    items = it.concrete_items(a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if items is None:
        v = a[0]
        if isinstance(v, SList):
            # sum of an arbitrary sequence of numbers: a function of its contents
            if an_element(it, v) is None:
                return start
            return number(it, opaque_result(it, 'sum', (v, start)), an_element(it, v), 'sum')
        raise Unsupported('sum')
    for x in items:
        start = it.binop(ast.Add(), start, x)
    return start


@model(all)
def _(it, a, k):
    items = it.concrete_items(a[0])
    if items is None:
        raise Unsupported('all()')
    for x in items:
        if not it.truth(x):
            return False
    return True


@model(any)
def _(it, a, k):
    items = it.concrete_items(a[0])
    if items is None:
        raise Unsupported('any()')
    for x in items:
        if it.truth(x):
            return True
    return False


@model(sorted)
def _(it, a, k):
    return sorted_list(it, a[0], k.get('key'), k.get('reverse', False))


class Iter:
    def __init__(self, v):
        self.v = v; self.i = 0


@model(iter)
def _(it, a, k):
    return Iter(a[0])


@model(next)
def _(it, a, k):
    x = a[0]
    if not isinstance(x, Iter):
        if isinstance(x, SList) or hasattr(x, 'pv_items'):      # a generator expression
            x = Iter(x)
        else:
            raise Unsupported('next')
    ln = it.length(x.v)
    if type(x.v).__name__ == 'NArr' and x.i == 0 and len(a) > 1 and is_int(a[1]) and isinstance(ln, SInt):
        v = x.v.at(IV(0))
        if is_int(v):
            x.i = None          # used up: only the first element is looked at
            return mk_int(z3.If(zi(ln) > 0, zi(v), zi(a[1])))
    if it.truth(it.compare(ast.Lt(), x.i, ln)):
        v = it.getitem(x.v, x.i)
        x.i += 1
        return v
    if len(a) > 1:
        return a[1]
    raise PyExc(StopIteration)


@model(callable)
def _(it, a, k):
    return isinstance(a[0], (SFunc, Bound, Builtin)) or callable(a[0])


@model(struct.unpack)
def _(it, a, k):
    return ops.unpack(it.ctx, a[0], a[1])


@model(struct.unpack_from)
def _(it, a, k):
    n = struct.calcsize(a[0])
    off = a[2] if len(a) > 2 else k.get('offset', 0)
    b = as_bytes(a[1])
    if not it.ctx.decide(ops.bytes_len(it.ctx, b) >= zi(off) + n):
        raise PyExc(struct.error)
    return ops.unpack(it.ctx, a[0], ops.bytes_slice(it.ctx, b, zi(off), simp(zi(off) + n)))


@model(struct.pack)
def _(it, a, k):
    return ops.pack(it.ctx, a[0], a[1:])


@model(struct.calcsize)
def _(it, a, k):
    return struct.calcsize(a[0])


@model(int.from_bytes)
def _(it, a, k):
    order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
    b = as_bytes(a[0])
    n = simp(ops.bytes_len(it.ctx, b))
    if k.get('signed') or not z3.is_int_value(n):
        raise Unsupported('int.from_bytes')
    n = n.as_long()
    v = IV(0)
    for i in range(n):
        sh = i if order == 'little' else n - 1 - i
        v = v + ops.byte_at(it.ctx, b, IV(i)) * IV(1 << (8 * sh))
    return mk_int(v)


@model(copy.deepcopy)
def _(it, a, k):
    v = a[0]
    if isinstance(v, SList) and all(isinstance(s, Unit) and not isinstance(s.v, HObj) for s in v.segs):
        return SList(it.ctx, v.segs, schema=v.schema)
    if not isinstance(v, HObj):
        return v
    raise Unsupported('deepcopy')


@model(copy.copy)
def _(it, a, k):
    v = a[0]
    if isinstance(v, SList):
        return M[list](it, [v], {})
    if isinstance(v, SDict):
        return M[dict](it, [v], {})
    if not isinstance(v, HObj):
        return v
    raise Unsupported('copy')


@model(contextlib.nullcontext)
def _(it, a, k):
    return NullContext(a[0] if a else None)


@model(hashlib.sha256)
def _(it, a, k):
    if it.loop_stack:
        raise Unsupported('digest in a loop')
    w = it.ctx.world
    n = '$sha256 %d' % sum(1 for r in w.roots if r.startswith('$sha256'))
    h = SHash(it.ctx, b'', None, name=n[1:], writable=True)
    w.roots[n] = h
    if a:
        it.call_method(h, 'update', a[:1], {})
    return h


@model(open)
def _(it, a, k):
    ctx = it.ctx
    path = a[0]
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    hook = it.options.get('open')
    if hook is not None:
        r = hook(it, path, mode, k)
        if r is not NotImplemented:
            return r
    if not is_str(path):
        raise Unsupported('open(%r)' % (path,))
    if mode == 'rb':
        ok = ctx.func('file_readable', (StrSort,), BoolSort)(zs(path))
        if not ctx.decide(ok):
            raise PyExc(FileNotFoundError)
        c = S.Bytes().make(ctx, 'file_at', (zs(path),))
        f = SFile(ctx, c, 0)
        f.path = path
        return f
    if mode == 'wb' and '$files' in ctx.world.roots:
        from . import tools
        return tools.open_out(it, path, mode, k)
    if mode == 'wb':
        # what is written where is observable: the file becomes part of the state
        ok = ctx.func('file_writable', (StrSort,), BoolSort)(zs(path))
        if not ctx.decide(ok):
            raise PyExc(OSError)
        if it.loop_stack:
            raise Unsupported('open in a loop')
        n = 'opened%d' % sum(1 for r in ctx.world.roots if r.startswith('opened') and not r.endswith(' name'))
        f = SFile(ctx, b'', None, name=n, writable=True)
        ctx.world.roots[n + ' name'] = (path,)
        ctx.world.roots[n] = f
        return f
    if mode in ('r', 'rt'):
        from . import tools
        return tools.open_in(it, path, k)
    if mode in ('w', 'wt'):
        from . import tools
        return tools.open_out(it, path, 'w', k)
    raise Unsupported('open mode %s' % mode)


@model(io.BytesIO)
def _(it, a, k):
    if a:
        b = ops.as_bytes(a[0])
        if b is None:
            raise Unsupported('BytesIO(%r)' % (a[0],))
        return SFile(it.ctx, b, 0)
    return SFile(it.ctx, b'', None, writable=True)


@model(sys.exit)
def _(it, a, k):
    raise PyExc(SystemExit, tuple(a))


def np_unsigned(t, hi):
    def f(it, a, k):
        if len(a) == 1 and type(a[0]) is int and 0 <= a[0] <= hi:
            return t(a[0])
        raise Unsupported('numpy scalar')
    M[t] = f


for _t, _n in ((np.uint8, 8), (np.uint16, 16), (np.uint32, 32), (np.uint64, 64)):
    np_unsigned(_t, 2 ** _n - 1)


@model(divmod)
def _(it, a, k):
    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))
