"""What a command-line tool sees and leaves behind.

Options: what argparse makes of an arbitrary command line (help texts are not modelled; an option is
identified by its option strings, a positional argument by its position).
Printed text and text files: observed when the contract says io=True, as lists of text pieces.
Objects made by the environment (options env={class: schema}): an arbitrary object of the declared type;
class and arguments of every such call are observed.
"""
import argparse
import os
import pathlib
import re
import sys
import types
import z3
from .values import *
from . import ops, schema as S
from .ops import zi, zs, is_str, is_int, mk_bool, mk_int, mk_str, IV
from .models import M, model, TextOut, emit
from .methods import opaque_result
from .compare import freeze
from .ops import simp


def start(it, world):
    """roots of the observed effects"""
    ctx = it.ctx
    if it.options['io'] != 'calls':         # what is printed is not observed then
        world.out = SList(ctx, (), name='out', schema=S.Str())
        world.roots['$out'] = world.out
    world.roots['$files'] = SList(ctx, (), name='files', schema=S.Any())
    world.roots['$calls'] = SList(ctx, (), name='calls', schema=S.Any())


def finish(it, world):
    """files that are still open when the program ends"""
    for f in list(getattr(world, 'open_files', {}).values()):
        f.close(it)


def record(it, *event):
    r = it.ctx.world.roots.get('$calls')
    if r is None:
        return
    at = simp(zi(it.length(r)))
    it.note_write(r, 'content')
    r.segs = tuple(r.segs) + (Unit(freeze(tuple(event))),)
    return at


def outcome(it, name, at, result, raises):
    """what the observed call number `at` comes to"""
    ctx = it.ctx
    if at is not None and z3.is_int_value(at):
        name, idx = '%s %d' % (name, at.as_long()), ()
    else:
        idx = () if at is None else (at,)
    v = lambda n, sort: z3.Const(name + n, sort) if not idx else ctx.func(name + n, (IntSort,), sort)(*idx)
    out = v(' outcome', IntSort)
    for i, e in enumerate(raises):
        if ctx.decide(out == i + 1):
            raise PyExc(e, (SStr(v(' text', StrSort)),))
    return None if result is None else result.make(ctx, name + ' result', idx)


# ---------------------------------------------------------------- files
class TextFile(TextOut):
    PIECE = S.Str()
    def __init__(self, it, path, mode):
        self.path = path
        self.mode = mode
        world = it.ctx.world
        files = world.__dict__.setdefault('open_files', {})
        world.nfiles = getattr(world, 'nfiles', 0) + 1
        i = 0
        while '$open%d' % i in files:
            i += 1
        self.name = '$open%d' % i
        super().__init__(SList(it.ctx, (), name='%s.%d' % (self.name, world.nfiles), schema=self.PIECE))
        files[self.name] = self
        world.roots[self.name] = self.lst
        self.depth = len(it.loop_stack)

    def close(self, it):
        world = it.ctx.world
        if world.open_files.pop(self.name, None) is None:
            return
        del world.roots[self.name]
        r = world.roots['$files']
        it.note_write(r, 'content')
        r.segs = tuple(r.segs) + (Unit((self.path, self.mode, self.lst)),)

    def pv_method(self, it, name, a, k):
        if name == 'close':
            return self.close(it)
        if name == 'write' and self.name not in it.ctx.world.open_files:
            raise PyExc(ValueError)
        if name == 'writelines':
            items = it.concrete_items(a[0])
            if items is None:
                raise Unsupported('writelines of a symbolic list')
            for x in items:
                super().pv_method(it, 'write', [x], {})
            return None
        return super().pv_method(it, name, a, k)

    def pv_context(self, it):
        return (lambda: self), (lambda e: self.close(it))

    def pv_truth(self, it):
        return True


class BinaryFile(TextFile):
    """what is written, piece by piece: bytes, or samples of one byte"""
    PIECE = S.U8
    def pv_method(self, it, name, a, k):
        if name == 'write':
            if self.name not in it.ctx.world.open_files:
                raise PyExc(ValueError)
            it.note_write(self.lst, 'content')
            self.lst.segs = tuple(self.lst.segs) + (Unit(a[0]),)
            return None
        return super().pv_method(it, name, a, k)


def open_out(it, path, mode, k):
    if '$files' not in it.ctx.world.roots:
        raise Unsupported('text file outside an observed program')
    ok = it.ctx.func('file_writable', (StrSort,), BoolSort)(zs(path))
    if not it.ctx.decide(ok):
        raise PyExc(OSError)
    return (BinaryFile if 'b' in mode else TextFile)(it, path, mode + ':' + str(k.get('encoding')) + ':' + str(k.get('newline')))


class TextIn:
    """a text file opened for reading: its text is a function of its name and encoding"""
    def __init__(self, path, encoding):
        self.path = path; self.encoding = encoding; self.done = False
    def pv_truth(self, it):
        return True
    def pv_context(self, it):
        return (lambda: self), (lambda e: False)
    def pv_getattr(self, it, name):
        return Builtin(name, lambda i, a, k: self.pv_method(i, name, a, k))
    def pv_method(self, it, name, a, k):
        if name == 'close':
            return None
        if name != 'read' or a or k or self.done or it.loop_stack != self.loops:
            raise Unsupported('text file.' + name)
        self.done = True
        ctx = it.ctx
        if not ctx.decide(ctx.func('decodable ' + self.encoding, (StrSort,), BoolSort)(zs(self.path))):
            raise PyExc(UnicodeDecodeError)
        return SStr(ctx.func('text of file ' + self.encoding, (StrSort,), StrSort)(zs(self.path)))


def open_in(it, path, k):
    w = it.ctx.world
    if getattr(w, 'nfiles', 0) or k.get('newline') is not None or set(k) - {'encoding', 'newline', 'mode'}:
        raise Unsupported('text file for reading')
    enc = str(k.get('encoding')).lower().replace('-', '').replace('_', '')
    if not it.ctx.decide(it.ctx.func('file_readable', (StrSort,), BoolSort)(zs(path))):
        raise PyExc(FileNotFoundError)
    f = TextIn(path, enc)
    f.loops = list(it.loop_stack)
    return f


class StdOut(TextOut):
    pass


def stdout(it):
    if it.ctx.world.out is None:
        raise Unsupported('sys.stdout outside an observed program')
    return StdOut(it.ctx.world.out)


# ---------------------------------------------------------------- options
class Namespace:
    def __init__(self, attrs, loops):
        self.attrs = attrs
        self.loops = loops
    def pv_getattr(self, it, name):
        if name not in self.attrs:
            raise PyExc(AttributeError, (name,))
        v = self.attrs[name]
        return v(it) if isinstance(v, Delayed) else v
    def pv_setattr(self, it, name, v):
        if len(it.loop_stack) != self.loops:
            raise Unsupported('option changed in a loop')
        self.attrs[name] = v
    def pv_truth(self, it):
        return True


class Delayed:
    """the value of an option, decided when it is first looked at"""
    def __init__(self, fn):
        self.fn = fn
        self.v = self
    def __call__(self, it):
        if self.v is self:
            self.v = self.fn(it)
        return self.v


class Parser:
    def __init__(self):
        self.args = []

    def pv_method(self, it, name, a, k):
        if name == 'add_argument':
            self.args.append((tuple(a), dict(k)))
            return None
        if name == 'parse_args' and not a and not k:
            return self.parse(it)
        if name == 'error':
            raise PyExc(SystemExit, (2,))
        raise Unsupported('ArgumentParser.%s' % name)

    def pv_getattr(self, it, name):
        return Builtin(name, lambda i, a, k: self.pv_method(i, name, a, k))

    def parse(self, it):
        attrs = {}
        npos = 0
        for (flags, k) in self.args:
            if not all(isinstance(f, str) for f in flags):
                raise Unsupported('option strings')
            extra = set(k) - {'dest', 'help', 'metavar', 'action', 'default', 'type', 'nargs'}
            if extra:
                raise Unsupported('add_argument(%s)' % sorted(extra))
            if flags and not flags[0].startswith('-'):
                dest, key, positional = flags[0], 'argument %d' % npos, True
                npos += 1
            else:
                long = [f for f in flags if f.startswith('--')]
                dest = k.get('dest') or (long or flags)[0].lstrip('-').replace('-', '_')
                key, positional = 'option ' + ' '.join(sorted(flags)), False
            action = k.get('action', 'store')
            if action in ('store_true', 'store_false'):
                given = SBool(z3.Bool(key))
                attrs[dest] = given if action == 'store_true' else mk_bool(z3.Not(given.e))
                d = k.get('default', action == 'store_false')
                if d is not (action == 'store_false'):
                    raise Unsupported('default of a switch')
                continue
            if action != 'store':
                raise Unsupported('action %s' % action)
            nargs = k.get('nargs')
            if nargs not in (None, '?'):
                raise Unsupported('nargs')
            attrs[dest] = self.value(it, key, k, not positional or nargs == '?')
        return Namespace(attrs, len(it.loop_stack))

    def value(self, it, key, k, optional):
        ctx = it.ctx
        default, ty = k.get('default'), k.get('type')
        if ty in (None, str):
            if optional and isinstance(default, (str, type(None), int, bool)):
                def fn(it):
                    if not it.ctx.decide(z3.Bool(key + ' given')):
                        return default
                    return SStr(z3.Const(key, StrSort))
                return Delayed(fn)
            if not optional:
                return SStr(z3.Const(key, StrSort))
            raise Unsupported('default of an option')
        # conversions are made when the command line is parsed
        if optional and not ctx.decide(z3.Bool(key + ' given')):
            if isinstance(default, str):
                raise Unsupported('converted default')
            return default
        raw = SStr(z3.Const(key, StrSort))
        if ty in (int, float):
            if not ctx.decide(z3.Bool('%s is %s' % (key, ty.__name__))):
                raise PyExc(SystemExit, (2,))
            return SInt(z3.Int(key + ' as int')) if ty is int else SFloat(z3.Const(key + ' as float', FlSort), 8)
        if isinstance(ty, (SFunc, Bound)):
            try:
                return it.call(ty, [raw])
            except PyExc as e:
                if e.cls in (ValueError, TypeError) or issubclass(e.cls, argparse.ArgumentTypeError):
                    raise PyExc(SystemExit, (2,))
                raise
        raise Unsupported('type of an option')


@model(argparse.ArgumentParser)
def _(it, a, k):
    return Parser()


# ---------------------------------------------------------------- paths
def path_fn(fn, name):
    def f(it, a, k):
        if it.concrete(a):
            return fn(*a)
        if not all(is_str(x) for x in a):
            raise PyExc(TypeError)
        g = it.ctx.func('path.' + name + str(len(a)), (StrSort,) * len(a), StrSort)
        return SStr(g(*[zs(x) for x in a]))
    M[fn] = f


for _n in ('basename', 'dirname', 'join', 'realpath', 'abspath', 'normpath', 'expanduser'):
    path_fn(getattr(os.path, _n), _n)


def path_test(fn, name):
    def f(it, a, k):
        if not is_str(a[0]):
            raise PyExc(TypeError)
        sql = it.ctx.world.roots.get('$sql')        # connecting to a database makes its file
        n = name + (' once connected' if sql is not None and sql.segs else '')
        return mk_bool(it.ctx.func('path.' + n, (StrSort,), BoolSort)(zs(a[0])))
    M[fn] = f


for _n in ('isdir', 'isfile', 'exists'):
    path_test(getattr(os.path, _n), _n)


class PurePath:
    def __init__(self, s): self.s = s
    def pv_getattr(self, it, name):
        if name in ('name', 'stem', 'suffix'):
            return SStr(it.ctx.func('pathlib ' + name, (StrSort,), StrSort)(zs(self.s)))
        raise Unsupported('path.' + name)
    def pv_str(self, it):
        return SStr(it.ctx.func('pathlib str', (StrSort,), StrSort)(zs(self.s)))


@model(pathlib.Path)
@model(pathlib.PurePath)
def _(it, a, k):
    if len(a) != 1 or not is_str(a[0]):
        raise Unsupported('pathlib.Path')
    return PurePath(a[0])


@model(os.mkdir)
def _(it, a, k):
    record(it, 'mkdir', a[0])


# ---------------------------------------------------------------- objects of the environment
def make(it, cls, args, kw):
    """an arbitrary object of a class whose construction is another property's business"""
    import inspect
    ctx = it.ctx
    sch = it.options['env'][cls]
    world = ctx.world
    sig = inspect.signature(cls.__init__)
    try:
        b = sig.bind(None, *args, **kw)
    except TypeError:
        raise PyExc(TypeError)
    b.apply_defaults()
    vals = tuple(v for n, v in list(b.arguments.items())[1:])
    record(it, cls.__qualname__, *vals)
    n = world.made = getattr(world, 'made', 0) + 1
    if it.loop_stack:
        raise Unsupported('%s made in a loop' % cls.__qualname__)
    if ctx.decide(z3.Bool('%s %d fails' % (cls.__name__, n))):
        raise PyExc(ValueError)
    name = '%s%d' % (cls.__name__.lower(), n)
    o = sch.make(ctx, name)
    world.roots['$' + name] = o
    return o


# ---------------------------------------------------------------- text patterns
class Match:
    def __init__(self, groups):
        self.g = groups
    def pv_truth(self, it):
        return True
    def pv_getattr(self, it, name):
        if name == 'groups':
            return Builtin(name, lambda i, a, k: tuple(self.g))
        if name == 'group':
            return Builtin(name, lambda i, a, k: self.g[a[0] - 1] if a and a[0] else Unsupported('group'))
        raise Unsupported('match.%s' % name)


def fullmatch(it, pat, s):
    """(.*)\\[(.*?)\\]: the last bracket opens the index (texts without line breaks)"""
    ctx = it.ctx
    if pat.pattern not in (r'(.*)\[(.*?)\]', r'(.*)\[(.*)\]') or pat.flags != re.compile('').flags:
        raise Unsupported('pattern %s' % pat.pattern)
    e = zs(s)
    ctx.assume(z3.Not(z3.Contains(e, z3.StringVal('\n'))))
    f = ctx.func('bracket.name', (StrSort,), StrSort)
    g = ctx.func('bracket.index', (StrSort,), StrSort)
    ok = z3.And(z3.SuffixOf(z3.StringVal(']'), e), z3.Contains(e, z3.StringVal('[')))
    if not ctx.decide(ok):
        return None
    ctx.assume(e == z3.Concat(f(e), z3.StringVal('['), g(e), z3.StringVal(']')))
    ctx.assume(z3.Not(z3.Contains(g(e), z3.StringVal('['))))
    return Match([SStr(f(e)), SStr(g(e))])


class Effect:
    """what a foreign function or method does as far as a program can tell: an error of one of the
    given classes (with some text) or a result of the given type.  A pure one is a function of its
    arguments (and of what was done to its object before); a call of another one is observed."""
    def __init__(self, result=None, raises=(), pure=False, stable=False):
        self.result = result; self.raises = tuple(raises); self.pure = pure
        self.stable = stable    # does nothing to its object

    def call(self, it, name, args, kw, ident=()):
        ctx, world = it.ctx, it.ctx.world
        args = tuple(args) + tuple(x for k in sorted(kw) for x in (k, kw[k]))
        if self.pure:
            return outcome(it, opaque_result(it, name, tuple(ident) + args), None, self.result, self.raises)
        if '$calls' not in world.roots:
            raise Unsupported('%s outside an observed program' % name)
        at = record(it, name, *(tuple(ident) + args))
        for i in ident:
            if isinstance(i, ForeignObj) and not self.stable:
                world.__dict__.setdefault('touched', {}).setdefault(i.name, []).append(name)
        return outcome(it, name, at, self.result, self.raises)


SET = object()      # an attribute that can be set


class Foreign(S.Schema):
    """an object of a class outside the verified code"""
    def __init__(self, cls, call=None, enter=None, attrs=None, set_attrs=None, items=None, **methods):
        self.cls = cls; self.methods = methods; self.fn = call; self.enter = enter
        self.attrs = attrs          # type of the attributes it may have, whatever their names
        self.set_attrs = set_attrs  # what setting one of them comes to
        self.items = items          # what setting an element comes to
    def make(self, ctx, name, idx=(), owner=None):
        return ForeignObj(self, name, idx)
    def conforms(self, ctx, v):
        if self.fn is not None and isinstance(v, (SFunc, Bound, types.FunctionType)):
            return True
        return isinstance(v, ForeignObj) and v.schema.cls == self.cls
    def pv_repr(self, repr_of):
        return ('Foreign', self.cls)


class ForeignObj:
    def __init__(self, schema, name, idx):
        self.schema = schema; self.name = name; self.idx = tuple(idx)
    def pv_freeze(self, memo, freeze):
        return self
    def pv_same(self, cmp, b, path):
        from .compare import idx_same
        if not isinstance(b, ForeignObj) or b.name != self.name:
            return cmp.unlike(path, 'objects') if isinstance(b, ForeignObj) else cmp.no(path, 'different objects')
        return idx_same(cmp.ctx, self.idx, b.idx)
    def pv_truth(self, it):
        return True
    def pv_method(self, it, name, a, k):
        e = self.schema.methods.get(name)
        if not isinstance(e, Effect):
            raise Unsupported('%s.%s' % (self.schema.cls, name))
        hist = tuple(getattr(it.ctx.world, 'touched', {}).get(self.name, ())) if e.pure else ()
        return e.call(it, '%s.%s' % (self.schema.cls, name), a, k, (self,) + hist)
    def pv_getattr(self, it, name):
        e = self.schema.methods.get(name)
        if isinstance(e, Foreign):
            return ForeignObj(e, '%s.%s' % (self.name, name), self.idx)
        if isinstance(e, S.Schema):
            return e.make(it.ctx, '%s.%s' % (self.name, name), self.idx)
        return Builtin(name, lambda i, a, k: self.pv_method(i, name, a, k))
    def pv_has(self, it, name):
        if self.schema.attrs is None or not is_str(name):
            raise Unsupported('attributes of %s' % self.schema.cls)
        idx = self.idx + (zs(name),)
        return mk_bool(it.ctx.func(self.name + ' has', tuple(i.sort() for i in idx), BoolSort)(*idx))
    def pv_attribute(self, it, name):
        if self.schema.attrs is None and isinstance(name, str):
            return self.pv_getattr(it, name)
        if not it.truth(self.pv_has(it, name)):
            raise PyExc(AttributeError)
        return self.schema.attrs.make(it.ctx, self.name + ' attribute', self.idx + (zs(name),))
    def pv_set_attribute(self, it, name, v):
        if self.schema.set_attrs is None:
            raise Unsupported('attributes of %s' % self.schema.cls)
        self.schema.set_attrs.call(it, self.schema.cls + ' attribute =', (name, v), {}, (self,))
    def pv_setitem(self, it, k, v):
        if self.schema.items is None:
            raise Unsupported('elements of %s' % self.schema.cls)
        self.schema.items.call(it, self.schema.cls + ' element =', (k, v), {}, (self,))
    def pv_setattr(self, it, name, v):
        if self.schema.methods.get(name) is not SET:
            if self.schema.set_attrs is not None:
                return self.pv_set_attribute(it, name, v)
            raise Unsupported('%s.%s' % (self.schema.cls, name))
        if record(it, '%s.%s =' % (self.schema.cls, name), self, v) is None:
            raise Unsupported('%s outside an observed program' % self.schema.cls)
    def pv_context(self, it):
        if self.schema.enter is None:
            raise Unsupported('with %s' % self.schema.cls)
        return (lambda: self.schema.enter.call(it, self.schema.cls + '.__enter__', (), {}, (self,)) or self), \
            (lambda e: self.leave(it))
    def leave(self, it):
        record(it, self.schema.cls + '.__exit__', self)
        return False
    def pv_call(self, it, a, k):
        if self.schema.fn is None:
            raise Unsupported('call of %s' % self.schema.cls)
        return self.schema.fn.call(it, self.schema.cls, a, k, (self,))


def traced(result=None, raises=()):
    """at call sites: the call is an observed event; what the function does is its own contract"""
    def at_call(it, contract, args, kwargs):
        from .contract import bind_args
        b = bind_args(it, contract, args, kwargs)
        at = record(it, contract.name, *b.values())
        if at is None:
            raise Unsupported('%s outside an observed program' % contract.name)
        return outcome(it, contract.name, at, result, raises)
    return at_call
