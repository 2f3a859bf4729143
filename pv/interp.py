"""Symbolic interpreter for the Python subset used by pyulog.

The AST comes from the source files of the real modules (read on every run).
"""
import ast
import builtins
import os
import re
import struct
import sys
import inspect
import types
import numpy as np
import z3

from .values import *
from .ctx import Ctx, PathEnd, CutReached, NoMerge
from . import ops, schema as S
from .ops import (IV, simp, zi, zs, zb, mk_int, mk_bool, mk_str, is_int, is_str, as_bytes, concat_str)
from .compare import (Cmp, conj, freeze, get_raw, has_attr, keys_identical, zkey, dict_raw, compact,
                      seq_segs, norm_seq, tname)


class Dirty(Exception):
    """the loop tables changed in a way that makes continuing pointless"""


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


# --------------------------------------------------------------- source access
_src = {}


def title(fn):
    """name of a library function, for the record"""
    mod = getattr(fn, '__module__', None)
    own = getattr(getattr(fn, '__self__', None), '__module__', None)
    name = getattr(fn, '__qualname__', None) or getattr(fn, '__name__', None) or type(fn).__name__
    mod = mod or own
    return name if mod in (None, 'builtins') else '%s.%s' % (mod, name)


def module_ast(path):
    if path not in _src:
        text = open(path, encoding='utf-8').read()
        tree = ast.parse(text, path)
        funcs = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(d.lineno for d in n.decorator_list)
                funcs.setdefault((ln, getattr(n, 'name', '<lambda>')), []).append(n)
        _src[path] = (text, tree, funcs)
    return _src[path]


def func_node(fn):
    code = fn.__code__
    _, _, funcs = module_ast(code.co_filename)
    c = funcs.get((code.co_firstlineno, code.co_name))
    if not c:
        raise Unsupported('no source for %s' % fn.__qualname__)
    return c[0]


NPU = (np.uint8, np.uint16, np.uint32, np.uint64)


class World:
    def __init__(self, side):
        self.side = side
        self.statics = {}
        self.loops = []
        self.out = None         # SList of printed text when observed
        self.roots = {}
        self.nested = 0
        self.writes = []        # (when, birth of the object)


class Env:
    """local variables of one call, with an enclosing scope for closures"""
    __slots__ = ('vars', 'parent', 'glb', 'local_names', 'nonlocals')
    def __init__(self, glb, parent=None, local_names=None):
        self.vars = {}
        self.parent = parent
        self.glb = glb
        self.local_names = local_names
        self.nonlocals = set()

    def snapshot(self):
        e = Env(self.glb, self.parent.snapshot() if self.parent is not None else None, self.local_names)
        e.vars = dict(self.vars)
        e.nonlocals = set(self.nonlocals)
        return e


def chain_of(env):
    while env is not None:
        yield env
        env = env.parent


def local_names(node):
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg: names.add(a.vararg.arg)
    if a.kwarg: names.add(a.kwarg.arg)
    if isinstance(node, ast.Lambda):
        return names

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for st in node.body:
        visit(st)
    return names


PURE_CALLS = {'startswith', 'endswith', 'str', 'len', 'int', 'float', 'ord', 'get', 'lower', 'upper', 'strip', 'isinstance'}


def pure_expr(n, pure_call=None):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if pure_call is not None and pure_call(f):
                continue
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm == 'format' and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant):
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 're':
                continue
            if nm not in PURE_CALLS:
                return False
        elif not isinstance(x, (ast.Name, ast.Attribute, ast.Compare, ast.BoolOp, ast.Constant, ast.Subscript, ast.BinOp,
                                ast.UnaryOp, ast.Tuple, ast.operator, ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context,
                                ast.IfExp, ast.Slice, ast.JoinedStr, ast.FormattedValue, ast.Starred)):
            return False
    return True


SIMPLE_CALLS = PURE_CALLS | {'replace', 'join', 'basename', 'dirname', 'where', 'iter', 'min', 'max', 'abs', 'round'}


def simple_expr(n):
    """evaluation has no effect on anything that exists"""
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm == 'next' and x.args and isinstance(x.args[0], ast.Call) and isinstance(x.args[0].func, ast.Name) and \
                    x.args[0].func.id == 'iter':
                continue
            if nm not in SIMPLE_CALLS:
                return False
        elif isinstance(x, (ast.Lambda, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp,
                            ast.Yield, ast.YieldFrom, ast.Await)):
            return False
    return True


def simple_block(body):
    for st in body:
        if isinstance(st, ast.Assign):
            if not all(isinstance(t, ast.Name) for t in st.targets) or not simple_expr(st.value):
                return False
        elif isinstance(st, ast.If):
            if not (simple_expr(st.test) and simple_block(st.body) and simple_block(st.orelse)):
                return False
        elif not isinstance(st, ast.Pass):
            return False
    return True


class LoopInfo:
    """facts about one loop, kept across re-executions"""
    def __init__(self):
        self.heap = {}          # location -> set of kinds
        self.locals = {}        # local name -> set of kinds
        self.pairs = None       # alive (code local, spec local) equalities
        self.unary = None       # alive one-sided invariants (code side)
        self.unary_s = None
        # a pass works with a fixed state; what it finds is taken over at its end
        self.dropped = set()
        self.more_heap = {}
        self.more_locals = {}
        self.elem_types = {}    # local list -> which of the contract's types its elements have
        self.selected = False   # does it go over what a comprehension with a condition selected?
        self.own = set()        # what iterations of this loop modify, whatever those of its counterpart do

    def grow_heap(self, it, loc, kinds):
        have = self.heap.get(loc)
        if have is None or not set(kinds) <= have:
            self.more_heap.setdefault(loc, set()).update(kinds)
            it.dirty = True

    def grow_locals(self, it, n, kinds, matters):
        have = self.locals.get(n)
        if matters and (have is None or not set(kinds) <= have):
            self.more_locals.setdefault(n, set()).update(kinds)
            it.dirty = True

    def promote(self, again):
        if again:
            for loc, kinds in self.more_heap.items():
                self.heap.setdefault(loc, set()).update(kinds)
            for n, kinds in self.more_locals.items():
                self.locals.setdefault(n, set()).update(kinds)
            # what an iteration of some loop may modify was incomplete: look for invariants again
            self.pairs = self.unary = self.unary_s = None
        else:
            for name, x in self.dropped:
                s = getattr(self, name)
                if s is not None:
                    s.discard(x)
        self.dropped = set()
        self.more_heap = {}
        self.more_locals = {}


class Interp:
    UNROLL = 40

    def __init__(self, ctx, contracts=None, roots=(), loops=None, models=None, options=None):
        self.ctx = ctx
        self.contracts = contracts or {}    # real function -> Contract used at call sites
        self.inline_roots = [os.path.realpath(r) for r in roots]
        self.loopinfo = loops if loops is not None else {}
        self.models = models or {}
        self.options = options or {}
        self.stack = []
        self.verifying = None
        self.dirty = False
        self.used_contracts = set()
        self.inlined = set()
        self.modelled = set()
        self.loop_stack = []
        self.depth = 0
        self.steps = 0

    # ================================================================ calls
    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.obj] + list(args), kwargs)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), kwargs)
        if isinstance(fn, SFunc):
            return self.call_node(fn.node, fn.env, fn.glb, fn.qual, fn.defaults, fn.kwdefaults, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        m = None
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            self.modelled.add(title(fn))
            return m(self, list(args), kwargs)
        h = getattr(fn, 'pv_call', None)
        if h is not None:
            return h(self, list(args), kwargs)
        try:
            e = self.options.get('foreign', {}).get(fn)
        except TypeError:
            e = None
        if e is not None:
            self.modelled.add('foreign: ' + title(fn))
            if isinstance(fn, types.FunctionType):      # however the arguments are passed
                try:
                    b = inspect.signature(fn).bind(*args, **kwargs)
                except TypeError as x:
                    raise PyExc(TypeError, x.args)
                b.apply_defaults()
                args = [v for v in b.arguments.values() if not isinstance(v, dict)]
                kwargs = {n: v for d in b.arguments.values() if isinstance(d, dict) for n, v in d.items()}
            return e.call(self, getattr(fn, '__qualname__', str(fn)), args, kwargs)
        if isinstance(fn, type) and fn in self.options.get('env', ()):
            from . import tools
            return tools.make(self, fn, args, kwargs)
        if isinstance(fn, types.FunctionType):
            c = self.contracts.get(fn)
            if c is not None and (self.verifying is not c or self.depth > 0) and self.ctx.world.nested >= 0:
                r = c.apply(self, list(args), kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        # native callables: only with concrete arguments
        if callable(fn):
            bs = getattr(fn, '__self__', None)
            if isinstance(bs, re.Pattern) and fn.__name__ == 'fullmatch' and len(args) == 1 and isinstance(args[0], SStr):
                from . import tools
                return tools.fullmatch(self, bs, args[0])
            if isinstance(bs, re.Pattern) and not self.concrete(args):
                from . import regex
                return regex.method(self, bs, fn.__name__, args)
            if isinstance(bs, struct.Struct):
                if fn.__name__ == 'unpack':
                    return ops.unpack(self.ctx, bs.format, args[0])
                if fn.__name__ == 'pack':
                    return ops.pack(self.ctx, bs.format, args)
            if self.concrete(args) and self.concrete(kwargs.values()) and self.native_ok(fn):
                try:
                    return fn(*args, **kwargs)
                except Unsupported:
                    raise
                except Exception as e:
                    raise PyExc(type(e), e.args)
        raise Unsupported('call of %r' % (fn,))

    def native_ok(self, fn):
        mod = getattr(fn, '__module__', None) or getattr(type(getattr(fn, '__self__', None)), '__module__', '')
        return mod in ('builtins', 're', 'math', '_struct', 'struct', 'posixpath', 'itertools', 'datetime')

    def concrete(self, vals):
        for v in vals:
            if is_sym(v) or isinstance(v, (HObj, SFunc, Bound, Builtin)) or type(v).__module__.startswith('pv.'):
                return False
            if isinstance(v, tuple) and not self.concrete(v):
                return False
        return True

    def call_function(self, fn, args, kwargs):
        path = fn.__code__.co_filename
        rp = os.path.realpath(path)
        if not any(rp.startswith(r + os.sep) or rp == r for r in self.inline_roots):
            if self.concrete(args) and self.concrete(kwargs.values()) and self.native_ok(fn):
                try:
                    return fn(*args, **kwargs)
                except Exception as e:
                    raise PyExc(type(e), e.args)
            raise Unsupported('external function %s.%s' % (fn.__module__, fn.__qualname__))
        if self.ctx.world is not None and self.ctx.world.side == 'code':
            self.inlined.add('%s.%s' % (fn.__module__, fn.__qualname__))
        node = func_node(fn)
        env = None
        if fn.__closure__:
            env = Env(fn.__globals__)
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                env.vars[n] = c.cell_contents
        return self.call_node(node, env, fn.__globals__, fn.__qualname__, fn.__defaults__ or (),
                              fn.__kwdefaults__ or {}, args, kwargs)

    def bind(self, node, defaults, kwdefaults, args, kwargs, qual):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                raise PyExc(TypeError, ('too many arguments for ' + qual,))
            out[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for p, v in zip(params, args):
            out[p] = v
        kwargs = dict(kwargs)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in kwargs:
                if p in out:
                    raise PyExc(TypeError, ('multiple values',))
                out[p] = kwargs.pop(p)
        if kwargs:
            if a.kwarg is None:
                raise PyExc(TypeError, ('unexpected keyword %s' % list(kwargs),))
        if a.kwarg is not None:
            d = SDict(self.ctx)
            for k, v in kwargs.items():
                d.log.append((k, v))
            out[a.kwarg.arg] = d
        nd = len(defaults)
        for i, p in enumerate(params):
            if p not in out:
                j = i - (len(params) - nd)
                if j < 0:
                    raise PyExc(TypeError, ('missing argument %s of %s' % (p, qual),))
                out[p] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in kwdefaults:
                    raise PyExc(TypeError, ('missing argument %s' % x.arg,))
                out[x.arg] = kwdefaults[x.arg]
        return out

    def call_node(self, node, env, glb, qual, defaults, kwdefaults, args, kwargs):
        if self.depth > 60:
            raise Unsupported('recursion without contract: ' + qual)
        ln = getattr(node, '_pv_locals', None)
        if ln is None:
            ln = node._pv_locals = local_names(node)
        e = Env(glb, env, ln)
        e.vars.update(self.bind(node, defaults, kwdefaults, args, kwargs, qual))
        self.depth += 1
        self.stack.append((qual, node))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, e)
            if getattr(node, '_pv_gen', None) is None:
                node._pv_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
            if node._pv_gen:
                raise Unsupported('generator function ' + qual)
            self.exec_body(node.body, e)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()

    def instantiate(self, cls, args, kwargs):
        m = self.models.get(cls)
        if m is not None:
            self.modelled.add(title(cls))
            return m(self, list(args), kwargs)
        if issubclass(cls, BaseException):
            return SExc(cls, tuple(args))
        mod = __import__('sys').modules.get(cls.__module__)
        f = getattr(mod, '__file__', None)
        rp = os.path.realpath(f) if f else ''
        if not any(rp.startswith(r + os.sep) or rp == r for r in self.inline_roots):
            raise Unsupported('instance of external class %s' % cls.__qualname__)
        o = SObj(self.ctx, cls)
        o.is_new = True
        init = None
        for c in cls.__mro__:
            if '__init__' in c.__dict__:
                init = c.__dict__['__init__']
                break
        if isinstance(init, types.FunctionType):
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise PyExc(TypeError)
        return o

    # ================================================================ attributes
    def getattr(self, o, name):
        ctx = self.ctx
        if isinstance(o, SObj):
            if has_attr(o, name):
                # data descriptors of the class (properties) come first
                cv = self.class_lookup(o.cls, name)
                if not isinstance(cv, property):
                    return get_raw(ctx, o, name)
            if name == '__dict__':
                d = SDict(ctx)
                names = list(o.schema.attrs) if (o.schema is not None and not getattr(o, 'is_new', False)) else []
                for n in o.attrs:
                    if n not in names:
                        names.append(n)
                for n in names:
                    if n not in o.deleted:
                        d.log.append((n, get_raw(ctx, o, n)))
                return d
            if name == '__class__':
                return o.cls
            cv = self.class_lookup(o.cls, name)
            if cv is UNDEF:
                ga = self.class_lookup(o.cls, '__getattr__')
                if isinstance(ga, types.FunctionType):
                    return self.call(ga, [o, name])
                raise PyExc(AttributeError, (name,))
            return self.bind_class_attr(cv, o, o.cls, name)
        if isinstance(o, type):
            for c in o.__mro__:
                key = (c, name)
                if key in ctx.world.statics:
                    return ctx.world.statics[key]
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return Bound(v.__func__, o)
                    if isinstance(v, property):
                        return v
                    return v if not isinstance(v, types.FunctionType) else v
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(AttributeError, e.args)
        if isinstance(o, types.ModuleType):
            if o is sys and name == 'stdout':
                from . import tools
                return tools.stdout(self)
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(AttributeError, e.args)
        if isinstance(o, SExc):
            if name == 'args':
                return tuple(o.eargs)
            raise Unsupported('exception attribute ' + name)
        if isinstance(o, SFile) and name == 'closed':
            return o.closed
        if isinstance(o, SFile) and name == 'name':
            if o.path is None:
                raise Unsupported('name of a file')
            return o.path
        h = getattr(o, 'pv_getattr', None)
        if h is not None:
            return h(self, name)
        if self.has_methods(o):
            return Builtin('%s.%s' % (type(o).__name__, name),
                           lambda it, a, k, o=o, name=name: it.call_method(o, name, a, k))
        if isinstance(o, (int, float, str, bytes, tuple, dict)) or o is None:
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(AttributeError, e.args)
        if not isinstance(o, (SFunc, Bound)):
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(AttributeError, e.args)
        raise Unsupported('attribute %s of %r' % (name, o))

    def has_methods(self, o):
        return isinstance(o, (str, SStr, bytes, bytearray, SBytes, SBuf, SList, SDict, SFile, int, SInt,
                              SFloat, float, tuple, dict, list, SSplit, SAny)) and not isinstance(o, bool)

    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if (c, name) in self.ctx.world.statics:
                return self.ctx.world.statics[(c, name)]
            if name in c.__dict__:
                return c.__dict__[name]
        return UNDEF

    def bind_class_attr(self, v, o, cls, name):
        if isinstance(v, property):
            return self.call(v.fget, [o])
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(v.__func__, cls)
        if isinstance(v, types.FunctionType):
            return Bound(v, o)
        if isinstance(v, (types.MemberDescriptorType, types.WrapperDescriptorType)):
            raise Unsupported('slot %s' % name)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            cv = self.class_lookup(o.cls, name)
            if isinstance(cv, property):
                if cv.fset is None:
                    raise PyExc(AttributeError, (name,))
                return self.call(cv.fset, [o, v])
            self.note_write(o, name, v)
            o.attrs[name] = v
            o.deleted.discard(name)
            return None
        if isinstance(o, type):
            self.note_static(o, name, v)
            self.ctx.world.statics[(o, name)] = v
            return None
        h = getattr(o, 'pv_setattr', None)
        if h is not None:
            return h(self, name, v)
        raise Unsupported('attribute assignment to %r' % (o,))

    # ================================================================ write tracking
    def note_write(self, o, what, v=None, inner=False):
        if is_frozen(o):
            raise Unsupported('modification of a read-only %s' % tname(o))
        self.ctx.world.writes.append((self.ctx.tick(), getattr(o, 'birth', 0), o))
        if isinstance(o, SList) and not inner:
            o.shape = self.ctx.tick()
        for fr in self.loop_stack:
            loc = fr.locate(o)
            if loc is None:
                continue
            if loc[0] == 'elem':
                fr.add(loc[1], 'content', 'inner')
            elif inner:
                fr.add(loc[1], 'content', 'inner')
            else:
                fr.add(loc[1], what, kind_of(v) if what not in ('content', 'pos') else what)

    def note_static(self, cls, name, v):
        for fr in self.loop_stack:
            fr.add(('static', cls, name), 'value', kind_of(v))

    # ================================================================ statements
    def exec_body(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        try:
            return m(st, env)
        except PyExc as e:
            if not hasattr(e, 'line'):
                e.line = (self.stack[-1][0] if self.stack else '?', st.lineno)
            raise

    def x_Expr(self, st, env):
        c = st.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'extend' and len(c.args) == 1 and \
                isinstance(c.args[0], (ast.ListComp, ast.GeneratorExp)) and not c.keywords:
            o = self.eval(c.func.value, env)
            if isinstance(o, SList):
                return self.extend_by(o, c.args[0], env)
            return self.call_method(o, 'extend', [self.eval(c.args[0], env)], {})
        self.eval(c, env)

    def extend_by(self, o, n, env):
        """o.extend(comprehension): the elements are appended one after the other, but those of a list that cannot be finished"""
        made = self.e_ListComp(n, env, o)
        if made is not o:
            self.list_extend(o, made)

    def x_Pass(self, st, env):
        pass

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(st.op, ast.Add) and isinstance(st.value, ast.ListComp) and isinstance(t, (ast.Name, ast.Attribute)):
            o = self.lookup(t.id, env) if isinstance(t, ast.Name) else self.getattr(self.eval(t.value, env), t.attr)
            if isinstance(o, SList):
                return self.extend_by(o, st.value, env)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.augop(st.op, old, self.eval(st.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            new = self.augop(st.op, old, self.eval(st.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            new = self.augop(st.op, old, self.eval(st.value, env))
            self.setitem(o, k, new)
        else:
            raise Unsupported('augmented assignment')

    def augop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, SList):
                self.list_extend(a, b)
                return a
            if isinstance(a, SBuf):
                self.buf_extend(a, b)
                return a
        if isinstance(a, SSet) and isinstance(op, ast.BitOr):
            self.call_method(a, 'update', [b], {})
            return a
        return self.binop(op, a, b)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env_of(t.id, env).vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if not isinstance(o, SObj) or not has_attr(o, t.attr):
                    raise PyExc(AttributeError, (t.attr,))
                self.note_write(o, t.attr, None)
                o.attrs.pop(t.attr, None)
                if o.schema is not None and t.attr in o.schema.attrs and not getattr(o, 'is_new', False):
                    o.deleted.add(t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
            else:
                raise Unsupported('del')

    def merged(self, test, a, b, env, run):
        """run(branch) for both branches of a conditional, when that has no effect other than
        its values; None when a branch is impossible or the values cannot be joined"""
        if not self.options.get('merge'):
            return None
        if isinstance(test, SBool):
            c = test.e
        elif isinstance(test, SInt):
            c = test.e != 0
        elif isinstance(test, SStr):
            c = test.e != z3.StringVal('')
        else:
            return None
        ctx = self.ctx
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c) or c.get_id() in ctx.known or ctx.prove(c) or ctx.prove(z3.Not(c)):
            return None
        try:
            return c, ctx.under(c, lambda: run(a)), ctx.under(z3.Not(c), lambda: run(b))
        except (NoMerge, Unsupported, PyExc):
            return None

    def join(self, c, x, y):
        if x is y:
            return x
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if ops.is_str(x) and ops.is_str(y):
            return SStr(z3.If(c, ops.zs(x), ops.zs(y)))
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
            return ops.mk_bool(z3.If(c, ops.zb(x), ops.zb(y)))
        if all(isinstance(v, SInt) or type(v) is int for v in (x, y)):
            return ops.mk_int(z3.If(c, zi(x), zi(y)))
        if isinstance(x, SAny) and isinstance(y, SAny):
            return SAny(z3.If(c, x.e, y.e))
        raise NoMerge()

    def merge_if(self, st, test, env):
        if env.nonlocals or not (simple_block(st.body) and simple_block(st.orelse)):
            return False
        before = dict(env.vars)

        def run(block):
            try:
                self.exec_body(block, env)
                return dict(env.vars)
            finally:
                env.vars.clear()
                env.vars.update(before)
        r = self.merged(test, st.body, st.orelse, env, run)
        if r is None:
            return False
        c, x, y = r
        try:
            new = {n: self.join(c, x.get(n, UNDEF), y.get(n, UNDEF)) for n in list(x) + [n for n in y if n not in x]}
        except NoMerge:
            return False
        env.vars.update(new)
        return True

    def x_If(self, st, env):
        v = self.eval(st.test, env)
        if self.options.get('merge') and self.merge_if(st, v, env):
            return
        if self.truth(v):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc(AssertionError)

    def x_Global(self, st, env):
        raise Unsupported('global')

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)
        env.local_names = env.local_names - set(st.names)

    def x_Import(self, st, env):
        for al in st.names:
            m = __import__(al.name)
            if al.asname:
                for p in al.name.split('.')[1:]:
                    m = getattr(m, p)
            env.vars[(al.asname or al.name).split('.')[0]] = m

    def x_ImportFrom(self, st, env):
        import importlib
        pkg = env.glb.get('__package__') or env.glb.get('__name__', '').rpartition('.')[0]
        name = '.' * st.level + (st.module or '')
        m = importlib.import_module(name, pkg)
        for al in st.names:
            if hasattr(m, al.name):
                env.vars[al.asname or al.name] = getattr(m, al.name)
            else:
                env.vars[al.asname or al.name] = importlib.import_module(name + '.' + al.name, pkg)

    def x_FunctionDef(self, st, env):
        if st.decorator_list:
            raise Unsupported('decorated local function')
        d = tuple(self.eval(x, env) for x in st.args.defaults)
        kd = {a.arg: self.eval(x, env) for a, x in zip(st.args.kwonlyargs, st.args.kw_defaults) if x is not None}
        env.vars[st.name] = SFunc(st, env, env.glb, st.name, d, kd)

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, 'current_exc', None)
            if cur is None:
                raise PyExc(RuntimeError)
            raise cur
        v = self.eval(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v)
        if isinstance(v, SExc):
            raise PyExc(v.cls, v.eargs, v)
        if isinstance(v, BaseException):
            raise PyExc(type(v), v.args)
        raise Unsupported('raise of %r' % (v,))

    def x_Try(self, st, env):
        try:
            try:
                self.exec_body(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if self.exc_matches(e, h.type, env):
                        saved = getattr(self, 'current_exc', None)
                        self.current_exc = e
                        if h.name:
                            env.vars[h.name] = e.obj or SExc(e.cls, e.eargs)
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            self.current_exc = saved
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_body(st.finalbody, env)
            raise
        else:
            self.exec_body(st.finalbody, env)

    def exc_matches(self, e, t, env):
        if t is None:
            return True
        c = self.eval(t, env)
        cs = c if isinstance(c, tuple) else (c,)
        for x in cs:
            if not isinstance(x, type):
                raise Unsupported('except clause %r' % (x,))
        return any(issubclass(e.cls, x) for x in cs)

    def x_With(self, st, env):
        def go(i):
            if i == len(st.items):
                return self.exec_body(st.body, env)
            it = st.items[i]
            cm = self.eval(it.context_expr, env)
            enter, leave = self.context_manager(cm)
            v = enter()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                go(i + 1)
            except PyExc as e:
                if not leave(e):
                    raise
                return
            except (ReturnEx, BreakEx, ContinueEx):
                leave(None)
                raise
            leave(None)
        go(0)

    def context_manager(self, cm):
        h = getattr(cm, 'pv_context', None)
        if h is not None:
            return h(self)
        if isinstance(cm, SFile):
            def leave(e):
                self.note_write(cm, 'closed', True)
                cm.closed = True
                return False
            return (lambda: cm), leave
        if isinstance(cm, NullContext):
            return (lambda: cm.v), (lambda e: False)
        if isinstance(cm, SObj):
            en = self.getattr(cm, '__enter__')
            ex = self.getattr(cm, '__exit__')
            return (lambda: self.call(en, [])), \
                (lambda e: self.truth(self.call(ex, [e.cls if e else None, None, None])))
        raise Unsupported('with %r' % (cm,))

    # ================================================================ names
    def env_of(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and name not in e.nonlocals:
                return e
            if e.local_names is not None and name in e.local_names and name not in e.nonlocals and e is env:
                return e
            e = e.parent
        return env

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is UNDEF:
                    raise Unsupported('variable %s may be unbound' % name)
                return v
            if e.local_names is not None and name in e.local_names:
                raise PyExc(UnboundLocalError, (name,))
            e = e.parent
        if name in env.glb:
            return env.glb[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack_seq(v, t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y, env)
                else:
                    self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack_seq(self, v, elts):
        n = len(elts)
        star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if isinstance(v, SList) and any(isinstance(s, OpqSeq) for s in v.segs) or isinstance(v, SSplit):
            ln = self.length(v)
            if star:
                raise Unsupported('starred unpacking of a symbolic sequence')
            if not self.ctx.decide(zi(ln) == n):
                raise PyExc(ValueError)
            return [self.getitem(v, i) for i in range(n)]
        items = self.concrete_items(v)
        if items is None:
            raise Unsupported('unpacking of %r' % (v,))
        if star:
            i = star[0]
            if len(items) < n - 1:
                raise PyExc(ValueError)
            k = len(items) - (n - 1)
            mid = SList(self.ctx, tuple(Unit(x) for x in items[i:i + k]))
            return items[:i] + [mid] + items[i + k:]
        if len(items) != n:
            raise PyExc(ValueError)
        return items

    # ================================================================ iteration
    def concrete_items(self, v):
        """list of items when the length is known, else None"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, range):
            return list(v) if len(v) <= 4096 else None
        if isinstance(v, SList):
            if any(isinstance(s, OpqSeq) for s in norm_seq(v.segs)):
                return None
            return [s.v for s in norm_seq(v.segs)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SStr):
            return ops.characters(self.ctx, v.e)
        if isinstance(v, (bytes, bytearray)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, SDict):
            if v.base is not None:
                return None
            return [k for k, _ in self.dict_entries(v)]
        if isinstance(v, View):
            return v.concrete(self)
        if isinstance(v, (type({}.items()), type({}.keys()), type({}.values()))):
            return list(v)
        h = getattr(v, 'pv_items', None)
        if h is not None:
            return h(self)
        if isinstance(v, (zip, enumerate, map, filter)) or type(v).__name__ in ('list_iterator', 'tuple_iterator'):
            return list(v)
        return None

    def sym_seq(self, v):
        """(length z3, at(index z3) -> value) of a sequence of symbolic length"""
        ctx = self.ctx
        if isinstance(v, SymRange):
            return v.n, v.at
        if isinstance(v, SList):
            return zi(self.length(v)), lambda i: self.seq_at(v, i)
        if isinstance(v, SSplit):
            return self.split_len(v), lambda i: self.split_at(v, i)
        if isinstance(v, View):
            return v.sym(self)
        if isinstance(v, SDict):
            return View(v, 'keys').sym(self)
        if isinstance(v, (SBytes, SBuf)):
            b = as_bytes(v)
            return ops.bytes_len(ctx, b), lambda i: mk_int(ops.byte_at(ctx, b, i))
        if isinstance(v, SStr):
            return ops.t_len(ctx, v.e), lambda i: SStr(z3.SubString(v.e, i, IV(1)))
        h = getattr(v, 'pv_sym_seq', None)
        if h is not None:
            return h(self)
        raise Unsupported('iteration over %r' % (v,))

    def split_len(self, v):
        f = self.ctx.func('split_len:' + v.sep, (StrSort,), IntSort)
        n = f(v.s)
        self.ctx.assume(n >= 1)
        return n

    def split_at(self, v, i):
        if z3.is_int_value(i):
            r = ops.split_item(self.ctx, v, i.as_long())
            if r is not None:
                return r
        f = self.ctx.func('split_item:' + v.sep, (StrSort, IntSort), StrSort)
        return SStr(f(v.s, i))

    def iterate(self, it, node, env, bind, body, key_extra=''):
        """run body for every item of it; handles concrete and symbolic lengths.
        body() executes one iteration; BreakEx propagates as early exit (True)"""
        items = self.concrete_items(it)
        if items is not None:
            live = isinstance(it, SList)
            i = 0
            while True:
                if live:
                    cur = norm_seq(it.segs)
                    if any(isinstance(s, OpqSeq) for s in cur):
                        raise Unsupported('list modified while iterating')
                    if i >= len(cur):
                        break
                    x = cur[i].v
                else:
                    if i >= len(items):
                        break
                    x = items[i]
                i += 1
                if i > 5000:
                    raise Unsupported('too many iterations')
                bind(x)
                try:
                    body()
                except ContinueEx:
                    continue
                except BreakEx:
                    return True
            return False
        n, at = self.sym_seq(it)
        n = simp(n)
        if z3.is_int_value(n) and n.as_long() <= 64:
            for i in range(n.as_long()):
                bind(at(IV(i)))
                try:
                    body()
                except ContinueEx:
                    continue
                except BreakEx:
                    return True
            return False
        idx = '$i%d' % id(node)
        env.vars[idx] = 0
        def test():
            return self.ctx.decide(zi(env.vars[idx]) < n)
        def step():
            i = zi(env.vars[idx])
            bind(at(i))
            env.vars[idx] = mk_int(i + 1)
            body()
        li = self.loopinfo.setdefault(self.loop_key(node, key_extra), LoopInfo())
        li.selected = isinstance(it, SList) and any(isinstance(q, OpqSeq) and isinstance(q.schema, RefSchema) for q in it.segs)
        try:
            return self.cut_loop(node, env, test, step, key_extra)
        finally:
            env.vars.pop(idx, None)

    def inserts(self, st, env):
        """for x in xs: cursor.execute(statement, row): the same as executemany, if it inserts"""
        if len(st.body) != 1 or st.orelse or not isinstance(st.body[0], ast.Expr):
            return False
        c = st.body[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'execute' and len(c.args) == 2 and
                not c.keywords and isinstance(c.func.value, ast.Name) and isinstance(c.args[0], ast.Constant) and
                isinstance(c.args[0].value, str) and c.args[0].value.split()[:1] and c.args[0].value.split()[0].upper() == 'INSERT'):
            return False
        if not all(isinstance(x, (ast.Tuple, ast.Name, ast.Attribute, ast.Constant, ast.expr_context)) for x in ast.walk(c.args[1])):
            return False
        from .sql import Cursor
        o = self.eval(c.func.value, env)
        if not isinstance(o, Cursor):
            return False
        if not hasattr(st, 'pv_rows'):
            st.pv_rows = ast.copy_location(ast.ListComp(c.args[1], [ast.comprehension(st.target, st.iter, [], 0)]), st)
        o.pv_method(self, 'executemany', [c.args[0].value, self.eval(st.pv_rows, env)], {})
        return True

    def x_For(self, st, env):
        if self.inserts(st, env):
            return
        it = self.eval(st.iter, env)
        broke = self.iterate(it, st, env, lambda x: self.assign(st.target, x, env),
                             lambda: self.exec_body(st.body, env))
        if not broke:
            self.exec_body(st.orelse, env)

    def x_While(self, st, env):
        key = self.loop_key(st)
        li = self.loopinfo.get(key)
        const_true = isinstance(st.test, ast.Constant) and st.test.value
        if li is None and not const_true:
            # try to unroll; a loop that does not end is cut instead
            n = 0
            while True:
                if not self.truth(self.eval(st.test, env)):
                    self.exec_body(st.orelse, env)
                    return
                n += 1
                if n > self.options.get('unroll', 9):
                    self.loopinfo[key] = LoopInfo()
                    self.dirty = True
                    raise Dirty()
                try:
                    self.exec_body(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
        for _ in range(self.options.get('peel', 0)):
            # the first iterations are executed as they are, the invariant is for the others
            if not self.truth(self.eval(st.test, env)):
                self.exec_body(st.orelse, env)
                return
            try:
                self.exec_body(st.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                return
        broke = self.cut_loop(st, env, lambda: self.truth(self.eval(st.test, env)),
                              lambda: self.exec_body(st.body, env))
        if not broke:
            self.exec_body(st.orelse, env)

    def loop_key(self, node, extra=''):
        return (self.ctx.world.side, tuple(q for q, _ in self.stack),
                getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), extra)

    # ---------------------------------------------------------------- loops
    def cut_loop(self, node, env, test, step, key_extra=''):
        """a loop with an unbounded number of iterations"""
        from .loops import run_cut_loop
        return run_cut_loop(self, node, env, test, step, self.loop_key(node, key_extra))

    # ================================================================ expressions
    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.concrete_items(self.eval(x.value, env))
                if items is None:
                    raise Unsupported('starred symbolic sequence')
                out.extend(items)
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, n, env):
        return SList(self.ctx, tuple(Unit(v) for v in self.elts(n.elts, env)))

    def e_Set(self, n, env):
        s = SSet(self.ctx)
        for v in self.elts(n.elts, env):
            self.dict_set(s, v, None)
        return s

    def e_Dict(self, n, env):
        d = SDict(self.ctx)
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                for kk, vv in self.pairs_of(src):
                    self.dict_set(d, kk, vv)
                continue
            kk = self.eval(k, env)
            self.dict_set(d, kk, self.eval(v, env))
        return d

    def pairs_of(self, d):
        if isinstance(d, dict):
            return list(d.items())
        if isinstance(d, SDict) and d.base is None:
            return self.dict_entries(d)
        raise Unsupported('mapping %r' % (d,))

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                    if not isinstance(spec, str):
                        raise Unsupported('symbolic format spec')
                if v.conversion == ord('r'):
                    if self.concrete([x]):
                        x = repr(x)
                    else:
                        raise Unsupported('!r')
                elif v.conversion == ord('s'):
                    x = self.to_str(x)
                parts.append(self.fmt_value(x, spec))
        return concat_str(parts)

    def fmt_value(self, x, spec):
        if isinstance(x, (SObj, SList, SDict, SExc)):
            if spec == '':
                return self.to_str(x)
            raise Unsupported('format of object')
        return ops.to_text(self.ctx, x, spec)

    def e_IfExp(self, n, env):
        if self.options.get('merge') and simple_expr(n.body) and simple_expr(n.orelse):
            t = self.eval(n.test, env)
            r = self.merged(t, n.body, n.orelse, env, lambda x: self.eval(x, env))
            if r is not None:
                try:
                    return self.join(*r)
                except NoMerge:
                    pass
            return self.eval(n.body if self.truth(t) else n.orelse, env)
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            if isinstance(v, SBool):
                t = self.ctx.decide(v.e)
                v = t
            else:
                t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return mk_bool(z3.Not(v.e))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if is_int(v):
                return mk_int(-zi(v)) if not isinstance(v, int) else -v
            if isinstance(v, float):
                return -v
            if isinstance(v, SFloat):
                return SFloat(self.ctx.func('fneg', (FlSort,), FlSort)(v.e), v.w, v.np)
        if isinstance(n.op, ast.Invert) and is_int(v):
            return mk_int(-zi(v) - 1) if not isinstance(v, int) else ~v
        if isinstance(n.op, ast.UAdd) and is_int(v):
            return v
        h = getattr(v, 'pv_unary', None)
        if h is not None:
            return h(self, type(n.op).__name__)
        if type(v) in NPU and isinstance(n.op, ast.Invert):
            return ~v
        raise Unsupported('unary %s of %r' % (type(n.op).__name__, v))

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                if res is None:
                    return c
                return c
            if not self.truth(c):
                return False
            res = c
            left = right
        return res

    def e_Lambda(self, n, env):
        return SFunc(n, env, env.glb, '<lambda>', tuple(self.eval(x, env) for x in n.args.defaults))

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        return self.getitem(o, self.eval_index(n.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Call(self, n, env):
        # all()/any() over a generator stop early
        if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any') and len(n.args) == 1 and \
                isinstance(n.args[0], ast.GeneratorExp) and n.func.id not in env.vars:
            return self.all_any(n.func.id == 'all', n.args[0], env)
        if isinstance(n.func, ast.Attribute):
            o = self.eval(n.func.value, env)
            args, kw = self.call_args(n, env)
            if isinstance(o, SuperProxy):
                return o.call(self, n.func.attr, args, kw)
            if self.has_methods(o):
                return self.call_method(o, n.func.attr, args, kw)
            h = getattr(o, 'pv_method', None)
            if h is not None:
                return h(self, n.func.attr, args, kw)
            return self.call(self.getattr(o, n.func.attr), args, kw)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return SuperProxy(self, env)
        f = self.eval(n.func, env)
        args, kw = self.call_args(n, env)
        return self.call(f, args, kw)

    def call_args(self, n, env):
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.pairs_of(self.eval(k.value, env)):
                    if not isinstance(kk, str):
                        raise Unsupported('symbolic keyword')
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        return args, kw

    # ---------------------------------------------------------- comprehensions
    def comp_env(self, env):
        return Env(env.glb, env, None)

    def run_comp(self, gens, env, emit, node, first=None):
        def go(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]
            it = self.eval(g.iter, env) if i or first is None else first
            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, env)):
                        raise ContinueEx()
                go(i + 1)
            self.iterate(it, g.target, env, lambda x: self.assign(g.target, x, env), body, 'comp%d' % i)
        go(0)

    def e_ListComp(self, n, env, into=None):
        e = self.comp_env(env)
        first = None
        g = n.generators[0]
        pure_call = lambda f: self.pure_function(f, env)
        if len(n.generators) == 1 and pure_expr(n.elt, pure_call) and all(pure_expr(c, pure_call) for c in g.ifs):
            first = self.eval(g.iter, e)
            if self.concrete_items(first) is None:
                cnt, at = self.sym_seq(first)
                cnt = simp(cnt)
                if not (z3.is_int_value(cnt) and cnt.as_long() <= 64):
                    return self.pure_comp(n, g, env, cnt, at, first)
        if into is not None and self.apart(n, env):
            segs, elems = into.segs, dict(getattr(into, 'elems', {}))
            try:
                self.run_comp(n.generators, e, lambda: self.list_append(into, self.eval(n.elt, e)), n, first)
            except PyExc:
                if isinstance(n, ast.ListComp):
                    into.segs, into.elems = segs, elems
                raise
            return into
        out = SList(self.ctx, ())
        e.vars['$out'] = out
        self.run_comp(n.generators, e, lambda: self.list_append(out, self.eval(n.elt, e)), n, first)
        return out

    def apart(self, n, env):
        """what a comprehension computes depends on nothing that appending its elements changes: besides what it goes over, only on
        modules, classes and plain values"""
        own = set()
        for g in n.generators:
            own |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        first = n.generators[0].iter
        # a name, or what a cursor found
        if not (isinstance(first, ast.Name) or isinstance(first, ast.Call) and isinstance(first.func, ast.Attribute) and
                first.func.attr == 'fetchall'):
            return False
        skip = {id(x) for x in ast.walk(first)}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and id(x) not in skip and x.id not in own:
                for e in chain_of(env):
                    if x.id in e.vars:
                        v = e.vars[x.id]
                        if not isinstance(v, (int, str, float, bytes, type, type(None), SInt, SStr, SBool)):
                            return False
        return True

    def pure_function(self, f, env):
        """does the expression name a function that, by its contract, only has a result?"""
        path = []
        while isinstance(f, ast.Attribute):
            path.insert(0, f.attr)
            f = f.value
        if not isinstance(f, ast.Name) or any(f.id in e.vars for e in chain_of(env)):
            return False
        o = env.glb.get(f.id)
        for a in path:
            if not isinstance(o, (type, types.ModuleType)):
                return False
            o = o.__dict__.get(a)
        if isinstance(o, staticmethod):
            o = o.__func__
        try:
            k = self.contracts.get(o)
        except TypeError:
            return False
        return k is not None and k.effect and k.enabled and not k.modifies and not k.sets and k.opaque is None

    def reachable(self, n, env, source):
        """identities of the heap objects that a comprehension may read"""
        seen, todo = {}, [source]
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                e = env
                while e is not None:
                    if x.id in e.vars:
                        todo.append(e.vars[x.id])
                        break
                    e = e.parent
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                todo.extend(v)
                continue
            if v is None or isinstance(v, (int, str, float, bytes, type)) or is_sym(v) and not isinstance(v, HObj) \
                    or id(v) in seen:
                continue
            seen[id(v)] = v
            if isinstance(v, SObj):
                todo.extend(v.attrs.values())
            elif isinstance(v, SList):
                for q in v.segs:
                    if isinstance(q, Unit):
                        todo.append(q.v)
                    elif isinstance(q.schema, RefSchema):
                        todo.append(q.schema.src)
                    elif q.schema is not None and type(q.schema).__name__ == 'FnSchema':
                        return None
                todo.extend(x for _, x in getattr(v, 'elems', {}).values())
            elif isinstance(v, SDict):
                for ent in list(v.log) + list(v.mat):
                    todo.extend(ent[:2])
            elif isinstance(v, View):
                todo.append(v.d)
            elif type(v).__name__ == 'Enum':
                todo.extend(vars(v).values())
            elif isinstance(v, (SBuf, SFile)) or type(v).__name__ in ('NArr', 'SymRange', 'Pattern', 'DbHandle'):
                pass
            else:
                return None
        return seen

    def pure_comp(self, n, g, env, cnt, at, source):
        """[elt for x in items if cond] without effects: the list is a function of the
        index; evaluated on demand, so that nothing it reads may have changed"""
        from . import nparr
        ctx = self.ctx
        frozen = env.snapshot()
        made = ctx.tick()
        world = ctx.world
        reach = self.reachable(n, frozen, source)
        checked = [len(world.writes)]
        def env_at(j):
            for (t, birth, o) in world.writes[checked[0]:]:
                if t > made and birth <= made and not separate(world, o, reach):
                    raise StateChanged('state changed after a comprehension over it')
            e = self.comp_env(frozen)
            self.assign(g.target, at(j), e)
            return e
        def cond(j):
            e = env_at(j)
            for c in g.ifs[:-1]:
                if not self.truth(self.eval(c, e)):
                    return False
            v = self.eval(g.ifs[-1], e)
            return v if isinstance(v, (bool, SBool)) else self.truth(v)
        def elem(j):
            return self.eval(n.elt, env_at(j))
        if g.ifs:
            r = nparr.select(self, cnt, cond, elem)
            src = self.eval(g.iter, frozen)
            if isinstance(src, SList) and isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) \
                    and n.elt.id == g.target.id and r.index is not None:
                l = nparr.fseq(self, r.n, r.at)
                ref = RefSchema(src, r.index)
                l.segs = tuple(OpqSeq(q.name, ref, q.lo, q.hi, q.fn) for q in l.segs)
                l.schema = ref
                return l
            return nparr.fseq(self, r.n, r.at)
        return nparr.fseq(self, cnt, elem)

    def e_GeneratorExp(self, n, env):
        return self.e_ListComp(n, env)

    def e_SetComp(self, n, env):
        e = self.comp_env(env)
        g = n.generators[0]
        pure_call = lambda f: self.pure_function(f, env)
        if len(n.generators) == 1 and all(pure_expr(c, pure_call) for c in [n.elt, g.iter] + g.ifs):
            listed = ast.copy_location(ast.ListComp(n.elt, n.generators), n)
            first = self.eval(g.iter, env)
            if self.concrete_items(first) is None:
                from .models import Unordered
                made = self.e_ListComp(listed, env)
                items = self.concrete_items(made)
                if items is None:
                    return Unordered(made)
                out = SSet(self.ctx)
                for x in items:
                    self.dict_set(out, x, None)
                return out
        out = SSet(self.ctx)
        e.vars['$out'] = out
        self.run_comp(n.generators, e, lambda: self.dict_set(out, self.eval(n.elt, e), None), n)
        return out

    def e_DictComp(self, n, env):
        e = self.comp_env(env)
        out = SDict(self.ctx)
        e.vars['$out'] = out
        self.run_comp(n.generators, e,
                      lambda: self.dict_set(out, self.eval(n.key, e), self.eval(n.value, e)), n)
        return out

    def all_any(self, is_all, gen, env):
        e = self.comp_env(env)
        class Stop(Exception):
            pass
        def emit():
            t = self.truth(self.eval(gen.elt, e))
            if t != is_all:
                raise BreakEx()
        if len(gen.generators) != 1:
            raise Unsupported('nested all/any')
        g = gen.generators[0]
        def body():
            for c in g.ifs:
                if not self.truth(self.eval(c, e)):
                    raise ContinueEx()
            emit()
        source = self.eval(g.iter, e)
        if type(source).__name__ == 'Unordered' and pure_expr(gen.elt) and all(pure_expr(c) for c in g.ifs):
            source = source.v
        broke = self.iterate(source, g.target, e, lambda x: self.assign(g.target, x, e), body, 'allany')
        return (not is_all) if broke else is_all

    # ================================================================ truth
    def truth(self, v):
        if isinstance(v, SBool):
            return self.ctx.decide(v.e)
        if isinstance(v, SInt):
            return self.ctx.decide(v.e != 0)
        if isinstance(v, SStr):
            return self.ctx.decide(v.e != z3.StringVal(''))
        if isinstance(v, (SBytes, SBuf, SList, SDict, SSplit)):
            return self.ctx.decide(zi(self.length(v)) != 0)
        if isinstance(v, SFloat):
            return self.ctx.decide(self.ctx.func('fl_truth', (FlSort,), z3.BoolSort())(v.e))
        if isinstance(v, SObj):
            for nm in ('__bool__', '__len__'):
                f = self.class_lookup(v.cls, nm)
                if isinstance(f, types.FunctionType):
                    return self.truth(self.call(f, [v]))
            return True
        if isinstance(v, (SFile, SFunc, Bound, Builtin, SExc)):
            return True
        h = getattr(v, 'pv_truth', None)
        if h is not None:
            return h(self)
        return bool(v)

    def length(self, v):
        ctx = self.ctx
        if isinstance(v, (SBytes, SBuf)):
            return mk_int(ops.bytes_len(ctx, as_bytes(v)))
        if isinstance(v, SStr):
            return mk_int(ops.t_len(ctx, v.e))
        if isinstance(v, SList):
            e = IV(0)
            for s in v.segs:
                e = e + (IV(1) if isinstance(s, Unit) else s.hi - s.lo)
            return mk_int(e)
        if isinstance(v, SSplit):
            return mk_int(self.split_len(v))
        if isinstance(v, SDict):
            if v.base is None:
                return len(self.dict_entries(v))
            b = v.base
            n = self.base_len(b) - b.pops
            # entries that are not in the base
            extra = 0
            for k, _ in self.dict_entries(v):
                if not self.base_has(v, k):
                    extra += 1
            return mk_int(n + extra)
        if isinstance(v, SObj):
            f = self.class_lookup(v.cls, '__len__')
            if isinstance(f, types.FunctionType):
                return self.call(f, [v])
        if isinstance(v, SymRange):
            return mk_int(v.n)
        if isinstance(v, View):
            return self.length(v.d)
        h = getattr(v, 'pv_len', None)
        if h is not None:
            return h(self)
        try:
            return len(v)
        except TypeError as e:
            raise PyExc(TypeError, e.args)

    # ================================================================ operators
    def binop(self, op, a, b):
        ctx = self.ctx
        t = type(op).__name__
        for x in (a, b):
            h = getattr(x, 'pv_binop', None)
            if h is not None:
                r = h(self, t, a, b)
                if r is not NotImplemented:
                    return r
        if not is_sym(a) and not is_sym(b) and not isinstance(a, HObj) and not isinstance(b, HObj) and \
                self.concrete([a, b]):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
                 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'LShift': operator.lshift,
                 'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_,
                 'BitXor': operator.xor, 'Pow': operator.pow}.get(t)
            if f is None:
                raise Unsupported(t)
            try:
                return f(a, b)
            except Exception as e:
                raise PyExc(type(e), e.args)
        if (type(a) in NPU or type(b) in NPU) and t == 'BitAnd':
            # the bits of a non-negative number, whatever the width
            a, b = [int(x) if type(x) in NPU else x for x in (a, b)]
        if is_int(a) and is_int(b):
            return self.int_op(t, a, b)
        if t == 'Add':
            if is_str(a) and is_str(b):
                return concat_str([a, b])
            if isinstance(a, SList) and isinstance(b, SList):
                r = SList(ctx, a.segs + b.segs, schema=a.schema or b.schema)
                self.carry_elems(r, a, b)
                return r
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            x, y = as_bytes(a), as_bytes(b)
            if x is not None and y is not None:
                r = ops.norm_bytes(ops.segs_of(x) + ops.segs_of(y))
                return SBuf(ctx, r) if isinstance(a, SBuf) else r
            if (is_str(a) or is_str(b) or x is not None or y is not None) :
                raise PyExc(TypeError)
        if t == 'Mod' and is_str(a):
            return self.percent(a, b)
        if t == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (SList,)) and isinstance(y, int):
                    return SList(ctx, x.segs * y, schema=x.schema)
                if isinstance(x, (str, bytes)) and isinstance(y, int):
                    return x * y
                if isinstance(x, SList) and isinstance(y, SInt) and len(x.segs) == 1 and isinstance(x.segs[0], Unit) and \
                        (is_int(x.segs[0].v) or is_str(x.segs[0].v) or x.segs[0].v is None):
                    v = x.segs[0].v
                    sch = S.Const(v)
                    return SList(ctx, (OpqSeq('repeat:%s' % (v,), sch, IV(0), simp(z3.If(y.e > 0, y.e, 0))),), schema=sch)
        if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
            return self.float_op(t, a, b)
        if t == 'Div' and is_int(a) and is_int(b):
            return self.float_op(t, a, b)
        raise Unsupported('%s of %s and %s' % (t, tname(a), tname(b)))

    def percent(self, fmt, args):
        ctx = self.ctx
        def conv(v):
            if isinstance(v, (SObj, SList, SDict)):
                return self.to_str(v)
            return v
        if isinstance(args, tuple):
            args = tuple(conv(v) for v in args)
        else:
            args = conv(args)
        return ops.percent_format(ctx, fmt, args)

    def float_op(self, t, a, b):
        ctx = self.ctx
        if t in ('Add', 'Sub', 'Mult', 'Div', 'Mod', 'FloorDiv', 'Pow'):
            x, y = ops.zf(ctx, a), ops.zf(ctx, b)
            if t in ('Div', 'Mod', 'FloorDiv') and not (isinstance(b, (int, float)) and b != 0):
                if not getattr(a, 'np', False) and not getattr(b, 'np', False):
                    if is_int(b):
                        if ctx.decide(zi(b) == 0):
                            raise PyExc(ZeroDivisionError)
                    elif ctx.decide(y == z3.Const('fl:0.0', FlSort)):
                        raise PyExc(ZeroDivisionError)
            return SFloat(ctx.func('f' + t, (FlSort, FlSort), FlSort)(x, y), 8)
        raise Unsupported('float ' + t)

    def int_op(self, t, a, b):
        ctx = self.ctx
        x, y = zi(a), zi(b)
        if t == 'Add': return mk_int(x + y)
        if t == 'Sub': return mk_int(x - y)
        if t == 'Mult':
            return mk_int(x * y)
        if t in ('FloorDiv', 'Mod'):
            if isinstance(b, int) and not isinstance(b, bool) and b > 0:
                return mk_int(x / y if t == 'FloorDiv' else x % y)
            if ctx.decide(y == 0):
                raise PyExc(ZeroDivisionError)
            if ctx.decide(y > 0):
                return mk_int(x / y if t == 'FloorDiv' else x % y)
            raise Unsupported('division by a negative number')
        if t == 'Div':
            return self.float_op(t, a, b)
        if t == 'LShift':
            if isinstance(b, int):
                return mk_int(x * (1 << b))
            k = ops.concretize(ctx, y, 0, 63)
            return mk_int(x * (1 << k))
        if t == 'RShift':
            if not isinstance(b, int):
                b = ops.concretize(ctx, y, 0, 63)
            return mk_int(x / IV(1 << b))
        if t in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                f = {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[t]
                return mk_bool(f(zb(a), zb(b)))
            if isinstance(a, int) and not isinstance(b, int):
                a, b, x, y = b, a, y, x
            if isinstance(b, int) and t == 'BitAnd':
                if b >= 0 and (b & (b + 1)) == 0:
                    return mk_int(x % IV(b + 1))
                if b < 0 and ((~b) & ((~b) + 1)) == 0:
                    return mk_int(x - x % IV(~b + 1))
                if b >= 0:
                    e = IV(0)
                    for i in range(b.bit_length()):
                        if b >> i & 1:
                            e = e + ((x / IV(1 << i)) % 2) * IV(1 << i)
                    return mk_int(e)
                # negative mask: x - (x & ~b)
                e = IV(0)
                c = ~b
                for i in range(c.bit_length()):
                    if c >> i & 1:
                        e = e + ((x / IV(1 << i)) % 2) * IV(1 << i)
                return mk_int(x - e)
            if isinstance(b, int) and b >= 0:
                e = x
                for i in range(b.bit_length()):
                    if b >> i & 1:
                        bit = (x / IV(1 << i)) % 2
                        if t == 'BitOr':
                            e = e + (1 - bit) * IV(1 << i)
                        else:
                            e = e + (1 - 2 * bit) * IV(1 << i)
                return mk_int(e)
            # two symbolic bytes
            if ctx.prove(z3.And(x >= 0, x < 256, y >= 0, y < 256)):
                e = IV(0)
                for i in range(8):
                    p, q = (x / IV(1 << i)) % 2, (y / IV(1 << i)) % 2
                    r = {'BitAnd': p * q, 'BitOr': p + q - p * q, 'BitXor': (p + q) % 2}[t]
                    if t == 'BitAnd':
                        r = z3.If(z3.And(p == 1, q == 1), IV(1), IV(0))
                    elif t == 'BitOr':
                        r = z3.If(z3.Or(p == 1, q == 1), IV(1), IV(0))
                    e = e + r * IV(1 << i)
                return mk_int(e)
        raise Unsupported('%s of symbolic integers' % t)

    # ---------------------------------------------------------------- equality
    def eq(self, a, b):
        """a == b: python bool, SBool, or other value from __eq__"""
        ctx = self.ctx
        if isinstance(a, SObj) or isinstance(b, SObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj):
                    f = self.class_lookup(x.cls, '__eq__')
                    if isinstance(f, types.FunctionType):
                        r = self.call(f, [x, y])
                        if r is not NotImplemented:
                            return r
            return a is b
        for x in (a, b):
            h = getattr(x, 'pv_eq', None)
            if h is not None:
                r = h(self, a, b)
                if r is not NotImplemented:
                    return r
        if is_int(a) and is_int(b):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return mk_bool(zb(a) == zb(b))
            return mk_bool(zi(a) == zi(b))
        if is_str(a) and is_str(b):
            return mk_bool(zs(a) == zs(b))
        if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
            if (is_int(a) or isinstance(a, (SFloat, float))) and (is_int(b) or isinstance(b, (SFloat, float))):
                if is_int(a) != is_int(b):
                    # exact in Python: the float is integral, with this value
                    i, x = (a, b) if is_int(a) else (b, a)
                    if isinstance(x, float):
                        return mk_bool(zi(i) == int(x)) if x.is_integer() else False
                    x = ops.zf(ctx, x)
                    integral = ctx.func('f_integral', (FlSort,), BoolSort)(x)
                    return mk_bool(z3.And(integral, ctx.func('f_int', (FlSort,), IntSort)(x) == zi(i)))
                f = ctx.func('feq', (FlSort, FlSort), BoolSort)
                x, y = ops.zf(ctx, a), ops.zf(ctx, b)
                ctx.assume(f(x, y) == f(y, x))
                if not x.eq(y):
                    ctx.assume(z3.Implies(f(x, y), z3.And(f(x, x), f(y, y))))
                return mk_bool(f(x, y))
            return False
        x, y = as_bytes(a), as_bytes(b)
        if x is not None and y is not None:
            r = ops.bytes_eq(ctx, x, y)
            if r is None:
                i = z3.Int(ctx.fresh('q'))
                la, lb = ops.bytes_len(ctx, x), ops.bytes_len(ctx, y)
                f = z3.Function('byteseq!%d' % ctx.tick(), BoolSort) if False else None
                raise Unsupported('equality of symbolic byte strings')
            return mk_bool(r)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            for p, q in zip(a, b):
                if not self.truth(self.eq(p, q)):
                    return False
            return True
        if isinstance(a, SList) and isinstance(b, SList):
            return self.list_eq(a, b)
        if isinstance(a, SDict) and isinstance(b, SDict):
            return self.dict_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SAny):
                if isinstance(y, SAny):
                    f = ctx.func('any_eq', (AnySort, AnySort), BoolSort)
                    ctx.assume(f(x.e, y.e) == f(y.e, x.e))
                    return mk_bool(f(x.e, y.e))
                if is_int(y):
                    return mk_bool(z3.And(ctx.func('any_integral', (AnySort,), BoolSort)(x.e),
                                          ctx.func('any2i', (AnySort,), IntSort)(x.e) == zi(y)))
                if is_str(y):
                    return mk_bool(z3.And(ctx.func('any_is_text', (AnySort,), BoolSort)(x.e),
                                          ctx.func('any2s', (AnySort,), StrSort)(x.e) == zs(y)))
                if y is None:
                    return mk_bool(ctx.func('any_is_none', (AnySort,), BoolSort)(x.e))
                raise Unsupported('== of %s and %s' % (tname(a), tname(b)))
        if is_sym(a) or is_sym(b) or isinstance(a, HObj) or isinstance(b, HObj):
            if kind_of(a) != kind_of(b):
                return False
            raise Unsupported('== of %s and %s' % (tname(a), tname(b)))
        if isinstance(a, View) and isinstance(b, View) and a.what == b.what and a.what != 'values' \
                and isinstance(a.d, SDict) and isinstance(b.d, SDict):
            if a.d is b.d:
                return True
            if a.what == 'keys':
                ka, kb = a.concrete(self), b.concrete(self)
                if ka is None or kb is None:
                    return self.opaque_eq('keys', a.d, b.d)
                return self.dict_eq(self.set_of(ka), self.set_of(kb))
        for x in (a, b):
            if type(x).__module__.startswith('pv.') and not isinstance(x, (SFunc, Bound, Builtin)):
                raise Unsupported('== of %s and %s' % (tname(a), tname(b)))
        r = a == b
        return bool(r)

    def list_eq(self, a, b):
        sa, sb = norm_seq(a.segs), norm_seq(b.segs)
        if all(isinstance(s, Unit) for s in sa + sb):
            if len(sa) != len(sb):
                return False
            for x, y in zip(sa, sb):
                if not self.truth(self.eq(x.v, y.v)):
                    return False
            return True
        f = self.opaque_eq('list', a, b)
        return f

    def dict_eq(self, a, b):
        if a.base is None and b.base is None:
            ea, eb = self.dict_entries(a), self.dict_entries(b)
            if len(ea) != len(eb):
                return False
            for k, v in ea:
                i = self.log_find(b, k)
                if i is None:
                    return False
                if not self.truth(self.eq(v, b.log[i][1])):
                    return False
            return True
        return self.opaque_eq('dict', a, b)

    def set_of(self, keys):
        d = SSet(self.ctx)
        for k in keys:
            self.dict_set(d, k, None)
        return d

    def opaque_eq(self, kind, a, b):
        """== of two arbitrary containers: an uninterpreted, reflexive and symmetric
        relation of their contents"""
        def ident(x):
            if isinstance(x, SList):
                s = norm_seq(x.segs)
                if len(s) == 1 and isinstance(s[0], OpqSeq) and not s[0].fn:
                    return (s[0].name, s[0].lo, s[0].hi)
                if not s:
                    return ('empty', IV(0), IV(0))
            elif x.base is not None and not x.log and not x.base.pops and not x.base.idx:
                return (x.base.name, IV(0), IV(0))
        na, nb = ident(a), ident(b)
        if na is None or nb is None:
            if len(a.log if isinstance(a, SDict) else a.segs) < len(b.log if isinstance(b, SDict) else b.segs):
                a, b = b, a
            from .methods import opaque_result
            return SBool(z3.Bool(opaque_result(self, '==' + kind, (a, b))))
        if na[0] == nb[0] and na[1].eq(nb[1]) and na[2].eq(nb[2]):
            return True
        x, y = sorted([na, nb], key=lambda q: q[0])
        p = z3.Bool('eq:%s<%s|%s>' % (kind if kind == 'keys' else '', x[0], y[0]))
        return SBool(p)

    def compare(self, op, a, b):
        ctx = self.ctx
        t = type(op).__name__
        if t == 'Is' or t == 'IsNot':
            r = self.identical(a, b)
            return r if t == 'Is' else (not r if isinstance(r, bool) else mk_bool(z3.Not(r.e)))
        if t in ('Eq', 'NotEq'):
            if t == 'NotEq':
                for x in (a, b):
                    h = getattr(x, 'pv_cmp', None)
                    if h is not None:
                        r = h(self, t, a, b)
                        if r is not NotImplemented:
                            return r
            r = self.eq(a, b)
            if t == 'Eq':
                return r
            if isinstance(r, SBool):
                return mk_bool(z3.Not(r.e))
            return not self.truth(r)
        if t in ('In', 'NotIn'):
            r = self.contains(b, a)
            if t == 'In':
                return r
            return mk_bool(z3.Not(r.e)) if isinstance(r, SBool) else not r
        for x in (a, b):
            h = getattr(x, 'pv_cmp', None)
            if h is not None:
                r = h(self, t, a, b)
                if r is not NotImplemented:
                    return r
        if is_int(a) and is_int(b):
            x, y = zi(a), zi(b)
            return mk_bool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[t])
        if (is_int(a) or isinstance(a, (float, SFloat))) and (is_int(b) or isinstance(b, (float, SFloat))):
            if self.concrete([a, b]):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[t]
            x, y = ops.zf(ctx, a), ops.zf(ctx, b)
            if t in ('Gt', 'GtE'):
                x, y = y, x
            f = ctx.func('flt' if t in ('Lt', 'Gt') else 'fle', (FlSort, FlSort), BoolSort)
            return mk_bool(f(x, y))
        if is_str(a) and is_str(b):
            if self.concrete([a, b]):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[t]
            x, y = zs(a), zs(b)
            return mk_bool({'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[t])
        if isinstance(a, tuple) and isinstance(b, tuple):
            for p, q in zip(a, b):
                if self.truth(self.eq(p, q)):
                    continue
                return self.compare(op, p, q)
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[t]
        if self.concrete([a, b]):
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b,
                        'GtE': lambda: a >= b}[t]()
            except TypeError as e:
                raise PyExc(TypeError, e.args)
        raise Unsupported('comparison %s of %s and %s' % (t, tname(a), tname(b)))

    def identical(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mk_bool(zb(a) == zb(b))
        if isinstance(a, HObj) or isinstance(b, HObj):
            if isinstance(a, HObj) and isinstance(b, HObj) and is_frozen(a) and is_frozen(b) and kind_of(a) == kind_of(b):
                raise Unsupported('identity of read-only objects')
            return False
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        if is_sym(a) or is_sym(b):
            if kind_of(a) != kind_of(b):
                return False
            raise Unsupported('is')
        return a is b

    def contains(self, c, x):
        ctx = self.ctx
        if isinstance(c, SDict):
            return self.dict_has(c, x)
        if isinstance(c, View):
            if c.what == 'keys':
                return self.dict_has(c.d, x)
            items = c.concrete(self)
            if items is None:
                raise Unsupported('in values')
            return self.contains(tuple(items), x)
        if isinstance(c, (str, SStr)):
            if not is_str(x):
                raise PyExc(TypeError)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, str):
                return mk_bool(ops.t_has(ctx, zs(c), x))
            return mk_bool(z3.Contains(zs(c), zs(x)))
        if isinstance(c, SList) and any(isinstance(s, OpqSeq) for s in norm_seq(c.segs)):
            s = norm_seq(c.segs)
            rest = [u for u in s if isinstance(u, Unit)]
            for u in rest:
                if self.truth(self.eq(x, u.v)):
                    return True
            for o in s:
                if isinstance(o, OpqSeq):
                    if not (is_str(x) or is_int(x)):
                        raise Unsupported('membership')
                    k = zkey(x)
                    f = ctx.func('in:%s' % o.name, tuple(i.sort() for i in (o.fn or ())) + (k.sort(),), BoolSort)
                    if not (simp(o.lo).eq(IV(0))):
                        raise Unsupported('membership in a part')
                    r = f(*(tuple(o.fn or ()) + (k,)))
                    ctx.assume(z3.Implies(r, o.hi > 0))
                    if ctx.decide(r):
                        return True
            return False
        if isinstance(c, range) and is_int(x):
            if c.step == 1:
                return mk_bool(z3.And(zi(x) >= c.start, zi(x) < c.stop))
        bx, bc = as_bytes(x), as_bytes(c)
        if bc is not None:
            if bx is not None and isinstance(bx, bytes) and isinstance(bc, bytes):
                return bx in bc
            if bx is not None:
                return mk_bool(zi(self.bytes_find(bc, bx)) >= 0)
        items = self.concrete_items(c)
        if items is None:
            h = getattr(c, 'pv_contains', None)
            if h is not None:
                return h(self, x)
            raise Unsupported('in %r' % (c,))
        if isinstance(c, (dict, set, frozenset)) and not is_sym(x) and not isinstance(x, HObj):
            try:
                return x in c
            except TypeError as e:
                raise PyExc(TypeError, e.args)
        conds = []
        for y in items:
            if y is x:
                return True
            r = self.eq(x, y)
            if r is True:
                return True
            if isinstance(r, SBool):
                conds.append(r.e)
            elif r is not False and self.truth(r):
                return True
        if not conds:
            return False
        return mk_bool(z3.Or(*conds)) if len(conds) > 1 else mk_bool(conds[0])

    # ================================================================ subscripts
    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, SDict):
            return self.dict_get(o, k)
        if isinstance(o, dict):
            if not is_sym(k):
                if isinstance(k, (SList, SDict)):
                    raise PyExc(TypeError)
                if k in o:
                    return o[k]
                raise PyExc(KeyError, (k,))
            for kk in o:
                if self.truth(self.eq(k, kk)):
                    return o[kk]
            raise PyExc(KeyError, (k,))
        b = as_bytes(o)
        if b is not None:
            if isinstance(k, slice):
                if k.step is not None:
                    raise Unsupported('slice step')
                lo = None if k.start is None else zi(k.start)
                hi = None if k.stop is None else zi(k.stop)
                r = ops.bytes_slice(ctx, b, lo, hi)
                return SBuf(ctx, r) if isinstance(o, (SBuf, bytearray)) else r
            ln = ops.bytes_len(ctx, b)
            i = self.norm_index(zi(k), ln)
            return mk_int(ops.byte_at(ctx, b, i))
        if isinstance(o, (str, SStr)):
            if isinstance(k, slice):
                if k.step is not None:
                    if isinstance(o, str) and self.concrete([k.start, k.stop, k.step]):
                        return o[k]
                    raise Unsupported('slice step')
                if isinstance(o, str) and self.concrete([k.start, k.stop]):
                    return o[k]
                return ops.str_slice(ctx, o, None if k.start is None else zi(k.start),
                                     None if k.stop is None else zi(k.stop))
            if isinstance(o, str) and isinstance(k, int):
                try:
                    return o[k]
                except IndexError as e:
                    raise PyExc(IndexError, e.args)
            ln = ops.t_len(ctx, zs(o))
            i = self.norm_index(zi(k), ln)
            ctx.path_abstract = True
            return mk_str(ctx.func('strchar', (StrSort, IntSort), StrSort)(zs(o), i))
        if isinstance(o, SSplit):
            if isinstance(k, int) and k >= 0:
                r = ops.split_item(ctx, o, k)
                if r is None:
                    raise PyExc(IndexError)
                return r
            if isinstance(k, slice):
                raise Unsupported('slice of split')
            if isinstance(k, int) and k == -1:
                # last item: text after the last separator
                if not ctx.decide(ops.t_has(ctx, o.s, o.sep)):
                    return SStr(o.s)
                r = ctx.func('split_last:' + o.sep, (StrSort,), StrSort)(o.s)
                return SStr(r)
            raise Unsupported('split index')
        if isinstance(o, SList):
            return self.list_get(o, k)
        if isinstance(o, (tuple, list, range)):
            if isinstance(k, slice):
                if not self.concrete([k.start, k.stop, k.step]):
                    raise Unsupported('slice')
                return o[k]
            if isinstance(k, (SInt, SBool)):
                n = len(o)
                j = ops.concretize(ctx, self.norm_index(zi(k), IV(n)), 0, n - 1)
                return o[j]
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                raise PyExc(type(e), e.args)
        if isinstance(o, SObj):
            f = self.class_lookup(o.cls, '__getitem__')
            if isinstance(f, types.FunctionType):
                return self.call(f, [o, k])
        h = getattr(o, 'pv_getitem', None)
        if h is not None:
            return h(self, k)
        if o is None:
            raise PyExc(TypeError)
        raise Unsupported('subscript of %r' % (o,))

    def norm_index(self, i, ln):
        """index in 0..ln-1 (raises IndexError)"""
        ctx = self.ctx
        i = simp(i)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = simp(ln + i)
        elif not z3.is_int_value(i) and not ctx.prove(i >= 0):
            if not ctx.decide(i >= 0):
                i = simp(ln + i)
        if not ctx.decide(z3.And(i >= 0, i < ln)):
            raise PyExc(IndexError)
        return i

    def list_get(self, l, k):
        ctx = self.ctx
        if isinstance(k, slice):
            segs = norm_seq(l.segs)
            if k.step is not None:
                raise Unsupported('slice step')
            if all(isinstance(s, Unit) for s in segs) and self.concrete([k.start, k.stop]):
                return SList(ctx, tuple(segs[k.start:k.stop]), schema=l.schema)
            n = zi(self.length(l))
            a = IV(0) if k.start is None else ops.clamp(ctx, zi(k.start), n)
            e = n if k.stop is None else ops.clamp(ctx, zi(k.stop), n)
            if len(segs) == 1 and isinstance(segs[0], OpqSeq):
                s = segs[0]
                if not ctx.prove(a <= e):
                    e = ops.zmax(a, e)
                return SList(ctx, (OpqSeq(s.name, s.schema, simp(s.lo + a), simp(s.lo + e), s.fn),),
                             schema=l.schema)
            raise Unsupported('slice of a composed list')
        if not is_int(k):
            raise PyExc(TypeError)
        segs = norm_seq(l.segs)
        if isinstance(k, int):
            # count units from either end
            if k < 0:
                i = -1
                for s in reversed(segs):
                    if isinstance(s, Unit):
                        if i == k:
                            return s.v
                        i -= 1
                    else:
                        break
                else:
                    raise PyExc(IndexError)
            else:
                i = 0
                for s in segs:
                    if isinstance(s, Unit):
                        if i == k:
                            return s.v
                        i += 1
                    else:
                        break
                else:
                    raise PyExc(IndexError)
        n = zi(self.length(l))
        i = self.norm_index(zi(k), n)
        return self.seq_at(l, i)

    def seq_at(self, l, i):
        """element at z3 index i (within range)"""
        ctx = self.ctx
        off = IV(0)
        segs = norm_seq(l.segs)
        for j, s in enumerate(segs):
            n = IV(1) if isinstance(s, Unit) else s.hi - s.lo
            last = j == len(segs) - 1
            if last or ctx.decide(i < off + n):
                if isinstance(s, Unit):
                    return s.v
                return self.opq_elem(l, s, simp(s.lo + i - off))
            off = simp(off + n)
        raise PyExc(IndexError)

    def opq_elem(self, l, s, i):
        """element i (absolute) of an arbitrary sequence"""
        ctx = self.ctx
        if isinstance(s.schema, RefSchema):
            return s.schema.get(self, i)
        if not hasattr(l, 'elems'):
            l.elems = {}
        if s.schema is None:
            raise Unsupported('element of a sequence without type (%s)' % s.name)
        for k, (j, v) in l.elems.items():
            if k[0] == s.name and (j.eq(i) or ctx.prove(j == i)):
                return v
        v = s.schema.make(ctx, s.name + '.e', tuple(s.fn or ()) + (i,), (l, ('elem',)))
        if isinstance(v, HObj) and not is_frozen(v):
            for k, (j, v2) in list(l.elems.items()):
                if k[0] == s.name and ctx.decide(j == i):
                    return v2
        l.elems[(s.name, str(i))] = (i, v)
        return v

    def carry_elems(self, r, *srcs):
        for x in srcs:
            for k, v in getattr(x, 'elems', {}).items():
                if not hasattr(r, 'elems'):
                    r.elems = {}
                r.elems[k] = v

    def setitem(self, o, k, v):
        if isinstance(o, SDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, SList):
            segs = list(norm_seq(o.segs))
            if isinstance(k, int) and all(isinstance(s, Unit) for s in segs):
                if not -len(segs) <= k < len(segs):
                    raise PyExc(IndexError)
                self.note_write(o, 'content')
                segs[k] = Unit(v)
                o.segs = tuple(segs)
                return
            if isinstance(k, int) and k < 0 and segs and all(isinstance(s, Unit) for s in segs[k:]):
                self.note_write(o, 'content')
                segs[k] = Unit(v)
                o.segs = tuple(segs)
                return
            if isinstance(k, SInt) and all(isinstance(s, Unit) for s in segs):
                j = ops.concretize(self.ctx, self.norm_index(k.e, IV(len(segs))), 0, len(segs) - 1)
                self.note_write(o, 'content')
                segs[j] = Unit(v)
                o.segs = tuple(segs)
                return
        h = getattr(o, 'pv_setitem', None)
        if h is not None:
            return h(self, k, v)
        raise Unsupported('item assignment to %s' % tname(o))

    def delitem(self, o, k):
        if isinstance(o, SDict):
            i = self.log_find(o, k)
            if i is not None and o.base is None:
                self.note_write(o, 'content')
                o.log.pop(i)
                return
            if o.base is None:
                raise PyExc(KeyError)
        if isinstance(o, SList) and isinstance(k, int):
            segs = list(norm_seq(o.segs))
            if all(isinstance(s, Unit) for s in segs):
                self.note_write(o, 'content')
                try:
                    del segs[k]
                except IndexError:
                    raise PyExc(IndexError)
                o.segs = tuple(segs)
                return
            if k == -1:
                self.call_method(o, 'pop', [], {})
                return
        raise Unsupported('del item')

    # ================================================================ dicts
    def log_find(self, d, k):
        for i in range(len(d.log) - 1, -1, -1):
            kk = d.log[i][0]
            if keys_identical(kk, k):
                return i
            if not is_sym(kk) and not is_sym(k) and not isinstance(kk, tuple) and not isinstance(k, tuple):
                if kk == k:
                    return i
                continue
            if not keys_comparable(kk, k):
                continue
            if self.truth(self.eq(kk, k)):
                return i
        return None

    def dict_entries(self, d):
        """entries of the log with pairwise different keys"""
        out = []
        for k, v in d.log:
            for ent in out:
                if keys_identical(ent[0], k) or (
                        (is_sym(ent[0]) or is_sym(k)) and keys_comparable(ent[0], k) and
                        self.truth(self.eq(ent[0], k))):
                    ent[1] = v
                    break
            else:
                out.append([k, v])
        d.log = [(k, v) for k, v in out]
        return d.log

    def base_len(self, b):
        n = S._uf(self.ctx, b.name + '.count', b.idx, IntSort)
        self.ctx.assume(n >= 0)
        return n

    def base_has_expr(self, d, k):
        b = d.base
        zk = zkey(k)
        f = self.ctx.func(b.name + '.has', tuple(i.sort() for i in b.idx) + (zk.sort(),), BoolSort)
        e = f(*(tuple(b.idx) + (zk,)))
        if getattr(b.ks, 'every', False):       # every key that is looked up is there
            self.ctx.assume(e)
        self.ctx.assume(z3.Implies(e, self.base_len(b) > 0))
        if b.pops:
            g = self.ctx.func(b.name + '.pos', tuple(i.sort() for i in b.idx) + (zk.sort(),), IntSort)
            return z3.And(e, g(*(tuple(b.idx) + (zk,))) < self.base_len(b) - b.pops)
        return e

    def base_key_kind_ok(self, d, k):
        ks = d.base.ks
        if isinstance(ks, S.Str):
            return is_str(k)
        if isinstance(ks, (S.Int, S.Small)):
            return is_int(k)
        return is_str(k) or is_int(k)

    def base_has(self, d, k):
        if d.base is None or not self.base_key_kind_ok(d, k):
            return False
        for ent in d.mat:
            if keys_identical(ent[0], k):
                return ent[2]
        r = self.ctx.decide(self.base_has_expr(d, k))
        return r

    def dict_has(self, d, k):
        if isinstance(k, (SList, SDict)):
            raise PyExc(TypeError)
        if self.log_find(d, k) is not None:
            return True
        if d.base is None or not self.base_key_kind_ok(d, k):
            return False
        for ent in d.mat:
            if keys_identical(ent[0], k):
                return ent[2]
        return mk_bool(self.base_has_expr(d, k))

    def dict_lookup(self, d, k):
        """(found, value)"""
        ctx = self.ctx
        i = self.log_find(d, k)
        if i is not None:
            return True, d.log[i][1]
        if d.base is None or not self.base_key_kind_ok(d, k):
            return False, None
        for ent in d.mat:
            if keys_identical(ent[0], k):
                return ent[2], ent[1]
        if not ctx.decide(self.base_has_expr(d, k)):
            d.mat.append([k, None, False])
            return False, None
        for ent in d.mat:
            if ent[2] and isinstance(ent[1], HObj) and self.truth(self.eq(ent[0], k)):
                return True, ent[1]
        v = dict_raw(ctx, d, k)
        d.mat.append([k, v, True])
        return True, v

    def dict_get(self, d, k):
        if d.isset:
            raise PyExc(TypeError)
        if isinstance(k, (SList, SDict)):
            raise PyExc(TypeError)
        f, v = self.dict_lookup(d, k)
        if not f:
            if d.factory is None:
                raise PyExc(KeyError, (k,))
            v = self.call(d.factory, [])
            self.dict_set(d, k, v)
        return v

    def dict_set(self, d, k, v):
        self.note_write(d, 'content')
        if isinstance(k, (SList, SDict)):
            raise PyExc(TypeError)
        for i in range(len(d.log) - 1, -1, -1):
            kk = d.log[i][0]
            if keys_identical(kk, k):
                d.log[i] = (kk, v)
                return
            if is_sym(kk) or is_sym(k):
                if kind_of(kk) == kind_of(k) and not isinstance(kk, tuple):
                    if self.truth(self.eq(kk, k)):
                        d.log[i] = (kk, v)
                        return
        d.log.append((k, v))

    # ================================================================ lists, buffers
    def list_append(self, l, v):
        self.note_write(l, 'content')
        l.segs = l.segs + (Unit(v),)

    def list_extend(self, l, v):
        self.note_write(l, 'content')
        if isinstance(v, SList):
            l.segs = l.segs + v.segs
            self.carry_elems(l, v)
            return
        items = self.concrete_items(v)
        if items is not None:
            l.segs = l.segs + tuple(Unit(x) for x in items)
            return
        h = getattr(v, 'pv_as_list', None)
        if h is not None:
            l.segs = l.segs + h(self).segs
            return
        raise Unsupported('extend with %r' % (v,))

    def buf_extend(self, b, v):
        x = as_bytes(v)
        if x is None:
            items = self.concrete_items(v)
            if items is not None and all(isinstance(i, int) for i in items):
                x = bytes(items)
            elif is_int(v) or v is None or isinstance(v, (SFloat, float, SBool, SStr, str)):
                if isinstance(v, (SStr, str)) and not self.truth(v):
                    return
                raise PyExc(TypeError)
            else:
                raise Unsupported('extend with %r' % (v,))
        self.note_write(b, 'content')
        b.val = ops.norm_bytes(ops.segs_of(b.val) + ops.segs_of(x))

    # ================================================================ methods
    def call_method(self, o, name, args, kw):
        from . import methods
        return methods.call(self, o, name, args, kw)

    def bytes_find(self, b, pat):
        ctx = self.ctx
        b = as_bytes(b); pat = as_bytes(pat)
        if isinstance(b, bytes) and isinstance(pat, bytes):
            return b.find(pat)
        if not isinstance(pat, bytes) or not isinstance(b, SBytes) or len(b.segs) != 1 or \
                not isinstance(b.segs[0], BSlice):
            raise Unsupported('bytes.find')
        s = b.segs[0]
        for (arr, off, ln, p, r) in ctx.find_memo:
            if arr.eq(s.arr) and p == pat and off.eq(s.off) and ln.eq(s.len):
                return mk_int(r)
        M = ctx.func('occurs:%s' % pat.hex(), (ByteArr, IntSort), BoolSort)
        r = z3.Int(ctx.fresh('find'))
        j = z3.Int('j!find')
        n = len(pat)
        ctx.assume(z3.And(r >= -1, z3.Implies(r >= 0, z3.And(r + n <= s.len, M(s.arr, s.off + r)))))
        last = z3.If(r >= 0, s.off + r, s.off + s.len - n + 1)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= s.off, j < last), z3.Not(M(s.arr, j))),
                             patterns=[M(s.arr, j)]))
        ctx.find_memo.append((s.arr, s.off, s.len, pat, r))
        return mk_int(r)

    def to_str(self, v):
        if isinstance(v, SObj):
            for nm in ('__str__', '__repr__'):
                f = self.class_lookup(v.cls, nm)
                if isinstance(f, types.FunctionType):
                    return self.call(f, [v])
            raise Unsupported('str of object')
        if isinstance(v, (SList, SDict)):
            return self.repr_container(v)
        if isinstance(v, SExc):
            if len(v.eargs) == 1:
                return self.to_str(v.eargs[0])
            raise Unsupported('str of exception')
        h = getattr(v, 'pv_str', None)
        if h is not None:
            return h(self)
        return ops.to_text(self.ctx, v)

    def repr_container(self, v):
        """repr of an arbitrary container: congruent for equal contents"""
        if isinstance(v, SList):
            s = norm_seq(v.segs)
            if len(s) == 1 and isinstance(s[0], OpqSeq):
                o = s[0]
                f = self.ctx.func('repr:' + o.name, tuple(i.sort() for i in (o.fn or ())) + (IntSort, IntSort), StrSort)
                return SStr(f(*(tuple(o.fn or ()) + (o.lo, o.hi))))
        raise Unsupported('repr of container')


class SExc:
    def __init__(self, cls, eargs):
        self.cls = cls; self.eargs = eargs


class NullContext:
    def __init__(self, v):
        self.v = v


class SuperProxy:
    def __init__(self, it, env):
        self.env = env
        qual, node = it.stack[-1]
        self.qual = qual
        self.obj = env.vars[node.args.args[0].arg]

    def find(self, name):
        mro = self.obj.cls.__mro__
        owner = self.qual.split('.')[-2]
        seen = False
        for c in mro:
            if seen and name in c.__dict__:
                return c.__dict__[name], c
            if c.__name__ == owner:
                seen = True
        raise PyExc(AttributeError, (name,))

    def call(self, it, name, args, kw):
        f, c = self.find(name)
        if isinstance(f, types.FunctionType):
            return it.call(f, [self.obj] + list(args), kw)
        raise Unsupported('super().%s' % name)


class SymRange:
    def __init__(self, lo, n, step=1):
        self.lo = lo; self.n = simp(ops.zmax(n, IV(0))); self.step = step
    def at(self, i):
        return mk_int(self.lo + i * self.step)


class StateChanged(Unsupported):
    pass


def is_frozen(o):
    while isinstance(o, HObj):
        if isinstance(o, SObj) and getattr(o.schema, 'frozen', False) and not getattr(o, 'is_new', False):
            return True
        o = o.owner[0] if o.owner else None
    return False


def separate(world, o, reach):
    """o is a container of the program's own, or an argument, that the comprehension does not read"""
    if reach is not None and isinstance(o, SObj) and id(o) not in reach and any(r is o for r in world.roots.values()):
        return True
    if reach is None or not isinstance(o, (SList, SDict)) or o.owner is not None or id(o) in reach:
        return False
    return not any(r is o for n, r in world.roots.items() if not n.startswith('$'))


class RefSchema(S.Schema):
    """elements that are elements of another list (the same objects)"""
    def __init__(self, src, index):
        self.src = src; self.index = index; self.shape = getattr(src, 'shape', None)
    def get(self, it, i):
        if getattr(self.src, 'shape', None) != self.shape:
            raise StateChanged('list changed after its elements were selected')
        return it.seq_at(self.src, self.index(i))
    def make(self, ctx, name, idx=(), owner=None):
        raise Unsupported('element of a selection')


class View:
    """dict.items()/keys()/values()"""
    def __init__(self, d, what):
        self.d = d; self.what = what

    def pick(self, k, v):
        return {'items': (k, v), 'keys': k, 'values': v}[self.what]

    def concrete(self, it):
        d = self.d
        if isinstance(d, dict):
            return [self.pick(k, v) for k, v in d.items()]
        if d.base is not None:
            return None
        return [self.pick(k, v) for k, v in it.dict_entries(d)]

    def sym(self, it):
        d = self.d
        ctx = it.ctx
        if compact(ctx, d):
            raise Unsupported('iteration over a modified dictionary')
        b = d.base
        n = simp(it.base_len(b) - b.pops)
        sort = StrSort if isinstance(b.ks, S.Str) else IntSort

        def at(i):
            f = ctx.func(b.name + '.key', tuple(x.sort() for x in b.idx) + (IntSort,), sort)
            ke = f(*(tuple(b.idx) + (i,)))
            g = ctx.func(b.name + '.pos', tuple(x.sort() for x in b.idx) + (sort,), IntSort)
            ctx.assume(g(*(tuple(b.idx) + (ke,))) == i)
            has = ctx.func(b.name + '.has', tuple(x.sort() for x in b.idx) + (sort,), BoolSort)
            ctx.assume(has(*(tuple(b.idx) + (ke,))))
            k = SStr(ke) if sort == StrSort else SInt(ke)
            if isinstance(b.ks, S.Int):
                if b.ks.lo is not None: ctx.assume(ke >= b.ks.lo)
                if b.ks.hi is not None: ctx.assume(ke <= b.ks.hi)
            if isinstance(b.ks, S.Small):
                k = ops.concretize(ctx, ke, b.ks.lo, b.ks.hi)
            if self.what == 'keys' or d.isset:
                return k
            _, v = it.dict_lookup(d, k)
            return self.pick(k, v)
        return n, at


def keys_comparable(a, b):
    x, y = kind_of(a), kind_of(b)
    num = ('int', 'bool', 'float')
    return x == y or (x in num and y in num)


def kind_of(v):
    if v is None: return 'none'
    if isinstance(v, (bool, SBool)): return 'bool'
    if isinstance(v, (int, SInt)): return 'int'
    if isinstance(v, (float, SFloat)): return 'float'
    if isinstance(v, (str, SStr)): return 'str'
    if isinstance(v, (bytes, SBytes)): return 'bytes'
    if isinstance(v, SAny): return 'any'
    if isinstance(v, SBuf): return 'buf'
    if isinstance(v, SList): return 'list'
    if isinstance(v, SSet): return 'set'
    if isinstance(v, SDict): return 'dict'
    if isinstance(v, SFile): return 'file'
    if isinstance(v, SObj): return 'obj:' + v.cls.__qualname__
    if isinstance(v, tuple): return 'tuple%d' % len(v)
    return type(v).__name__
