"""Symbolic values of the verification-condition generator.

Everything that is known concretely is a native Python value; the classes here
stand for values that depend on the (arbitrary) input.
"""
import itertools
import z3

IntSort = z3.IntSort()
StrSort = z3.StringSort()
BoolSort = z3.BoolSort()
FlSort = z3.DeclareSort('Float')          # floating point numbers: uninterpreted
ByteArr = z3.ArraySort(IntSort, IntSort)  # byte contents, index -> 0..255


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation)."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, cls, args=(), obj=None):
        super().__init__(cls.__name__ if isinstance(cls, type) else str(cls))
        self.cls = cls
        self.eargs = args
        self.obj = obj


class SInt:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'SInt(%s)' % self.e


class SBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'SBool(%s)' % self.e
    def __bool__(self): raise Unsupported('truth value of a symbolic boolean')


class SStr:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'SStr(%s)' % self.e


class SFloat:
    """a float; `e` of sort Float, w = width (4 or 8 bytes) it is known to fit"""
    __slots__ = ('e', 'w', 'np')
    def __init__(self, e, w=8, np=False): self.e = e; self.w = w; self.np = np
    def __repr__(self): return 'SFloat(%s)' % self.e


AnySort = z3.DeclareSort('Any')


class SAny:
    """a value that is only passed on"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'SAny(%s)' % self.e


# ---------------------------------------------------------------- bytes
class BConst:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __repr__(self): return repr(self.b)


class BSlice:
    __slots__ = ('arr', 'off', 'len')
    def __init__(self, arr, off, ln): self.arr = arr; self.off = off; self.len = ln
    def __repr__(self): return '%s[%s:+%s]' % (self.arr, self.off, self.len)


class BInt:
    """n bytes, little endian two's complement of val"""
    __slots__ = ('val', 'n')
    def __init__(self, val, n): self.val = val; self.n = n
    def __repr__(self): return 'int%d(%s)' % (self.n * 8, self.val)


class BUtf:
    """UTF-8 encoding of a string"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'utf8(%s)' % self.s


class BFlt:
    __slots__ = ('f', 'n')
    def __init__(self, f, n): self.f = f; self.n = n
    def __repr__(self): return 'flt%d(%s)' % (self.n * 8, self.f)


class SBytes:
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = tuple(segs)
    def __repr__(self): return 'SBytes(%s)' % (list(self.segs),)


# ---------------------------------------------------------------- sequences
class Unit:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'U(%r)' % (self.v,)


class OpqSeq:
    """elements lo..hi-1 of an arbitrary sequence called `name`"""
    __slots__ = ('name', 'schema', 'lo', 'hi', 'fn')
    def __init__(self, name, schema, lo, hi, fn=None):
        self.name = name; self.schema = schema; self.lo = lo; self.hi = hi; self.fn = fn
    def __repr__(self): return 'Q(%s,%s,%s)' % (self.name, self.lo, self.hi)


# ---------------------------------------------------------------- heap
_ids = itertools.count(1)


class HObj:
    """base of all mutable heap objects"""
    kind = 'h'
    def __init__(self, ctx, name=None, owner=None):
        self.name = name
        self.owner = owner
        self.world = ctx.world if ctx is not None else None
        self.birth = ctx.tick() if ctx is not None else 0


class SList(HObj):
    kind = 'list'
    def __init__(self, ctx, segs, name=None, owner=None, schema=None):
        super().__init__(ctx, name, owner)
        self.segs = tuple(segs)
        self.schema = schema            # element schema (when known)


class SBuf(HObj):
    kind = 'buf'
    def __init__(self, ctx, val, name=None, owner=None):
        super().__init__(ctx, name, owner)
        self.val = val                  # bytes or SBytes


class DictBase:
    """an arbitrary mapping called `name`"""
    __slots__ = ('name', 'ks', 'vs', 'pops')
    def __init__(self, name, ks, vs, pops=0):
        self.name = name; self.ks = ks; self.vs = vs; self.pops = pops
    def __repr__(self): return 'D(%s,%d)' % (self.name, self.pops)


class SDict(HObj):
    kind = 'dict'
    def __init__(self, ctx, base=None, name=None, owner=None):
        super().__init__(ctx, name, owner)
        self.base = base                # None (empty) or DictBase
        self.log = []                   # [(key, value)] later entries win; insertion ordered
        self.mat = []                   # [(key, value, known)] materialised entries of base
        self.isset = False
        self.factory = None             # of a defaultdict


class SSet(SDict):
    kind = 'set'
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.isset = True


class SObj(HObj):
    kind = 'obj'
    def __init__(self, ctx, cls, schema=None, name=None, owner=None):
        super().__init__(ctx, name, owner)
        self.cls = cls
        self.attrs = {}
        self.schema = schema            # Obj schema or None
        self.deleted = set()


class SFile(HObj):
    """a seekable binary file (reading) or an output stream (writing)"""
    kind = 'file'
    path = None                         # the name it was opened by
    def __init__(self, ctx, content, pos, name=None, owner=None, writable=False, text=False):
        super().__init__(ctx, name, owner)
        self.content = content          # SBytes/bytes
        self.pos = pos
        self.closed = False
        self.writable = writable
        self.text = text
        self.out = ()                   # text output: sequence segments


class SHash(SFile):
    """a message digest: its content are the bytes hashed so far"""


class SFunc:
    """a function defined by interpreted code (closure)"""
    def __init__(self, node, env, glb, qual, defaults=(), kwdefaults=None):
        self.node = node; self.env = env; self.glb = glb; self.qual = qual
        self.defaults = defaults; self.kwdefaults = kwdefaults or {}


class Bound:
    def __init__(self, fn, obj): self.fn = fn; self.obj = obj


class Builtin:
    """a modelled operation: fn(interp, args, kwargs)"""
    def __init__(self, name, fn): self.name = name; self.fn = fn
    def __repr__(self): return '<model %s>' % self.name


class SSplit:
    """str.split(sep) of a symbolic string"""
    __slots__ = ('s', 'sep')
    def __init__(self, s, sep): self.s = s; self.sep = sep


class Undef:
    def __repr__(self): return '<undefined>'
UNDEF = Undef()


def is_sym(v):
    return isinstance(v, (SInt, SBool, SStr, SFloat, SBytes, SSplit, SAny))
