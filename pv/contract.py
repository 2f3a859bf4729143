"""Contracts and their verification."""
import copy
import itertools
import os
import time
import traceback
import types
import z3
from .values import *
from .ctx import Ctx, PathEnd, CutReached, TimeUp, Obligation
from . import schema as S
from .compare import Cmp, conj, freeze
from .interp import Interp, World, Dirty, LoopInfo, BreakEx, ContinueEx
from .loops import StructureMismatch, freeze_roots, drop, value_same
from .models import M as MODELS
from . import nparr
from . import tools, sql, regex
from .methods import opaque_result
from .ops import zi, IV
from . import ops
from .compare import norm_seq, get_raw, has_attr


class Contract:
    """target: dotted name of the real function, e.g. 'pyulog.core:ULog._MessageInfo.__init__'
    args:   parameter name -> Schema
    spec:   executable specification with the same parameters
    requires: executable precondition over the parameters (or None)
    opaque: at call sites the result is an uninterpreted function of the arguments
    """

    def __init__(self, target, args, spec, requires=None, opaque=None, statics=None, options=None,
                 result=None, loop_hints=(), name=None, uses=None, observe_print=False, code=None,
                 modifies=None, applicable=None, sets=None, raises=(), reads=None, effect=None, split=(), cases=None):
        self.target = target
        self.args = args
        self.spec = spec
        self.requires = requires
        self.opaque = opaque
        self.statics = statics or {}
        self.options = dict(options or {})
        self.options.setdefault('loop_hints', list(loop_hints))
        self.result = result
        self.name = name or target.split(':')[-1]
        self.observe_print = observe_print
        self.code = code            # alternative code under verification (lemmas)
        self.enabled = True
        self.applicable = applicable
        # signature used at call sites: the call is a deterministic function of what it reads
        self.whole = self
        self.case = ''
        self.split = tuple(split)   # arguments whose alternatives are verified as separate cases
        self.combos = cases         # the combinations of alternatives that the contract speaks about; None: all
        self.sets = sets            # attributes of the new object (for __init__): name -> Schema
        self.raises = tuple(raises)
        self.modifies = tuple(modifies or ())
        self.effect = effect if effect is not None else (
            sets is not None or result is not None or modifies is not None)

    def real(self):
        if self.code is not None:
            return self.code
        mod, _, q = self.target.partition(':')
        import importlib
        o = importlib.import_module(mod)
        parts = q.split('.')
        for i, p in enumerate(parts):
            d = o.__dict__ if isinstance(o, type) else None
            if d is not None and p in d:
                o = d[p]
            else:
                o = getattr(o, p)
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        return o

    def cases(self):
        """the contract restricted to each combination of the alternatives of its split arguments;
        together they cover every argument the contract speaks about"""
        if not self.split:
            return [self]
        r = []
        for combo in itertools.product(*[range(len(self.args[n].alts)) for n in self.split]):
            if self.combos is not None and combo not in self.combos:
                continue
            k = copy.copy(self)
            k.args = dict(self.args)
            for n, i in zip(self.split, combo):
                k.args[n] = self.args[n].alts[i]
            k.case = ''.join(map(str, combo))
            k.whole = self
            r.append(k)
        return r

    def new_attrs(self, binding):
        return self.sets(binding) if callable(self.sets) else self.sets

    # call-site use
    def apply(self, it, args, kwargs):
        side = it.ctx.world.side
        if side == 'code' and not self.enabled:
            return NotImplemented
        if it.verifying is self and side == 'code' and self.opaque is None:
            pass
        if self.applicable is not None and not self.applicable(it, args, kwargs):
            return NotImplemented
        it.used_contracts.add(self.name)
        if side == 'code':
            check_call(it, self, args, kwargs)
        fn = self.spec
        if self.opaque is not None:
            return self.opaque(it, self, args, kwargs)
        if self.effect:
            return apply_effect(it, self, args, kwargs)
        if it.verifying is self:
            raise Unsupported('recursion of %s' % self.name)
        return it.call_function(fn, args, kwargs)


def bind_args(it, contract, args, kwargs):
    from .interp import func_node
    fn = contract.spec
    return it.bind(func_node(fn), fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, contract.name)


def check_call(it, contract, args, kwargs):
    """the caller meets the callee's precondition (types and requires)"""
    ctx = it.ctx
    b = bind_args(it, contract, args, kwargs)
    for n, sch in contract.args.items():
        if n == 'self' and contract.sets is not None:
            continue
        c = conforms(ctx, sch, b[n])
        if c is not True and not ctx.prove(c if c is not False else z3.BoolVal(False)):
            raise Unsupported('argument %s of %s is outside its contract' % (n, contract.name))
    if isinstance(contract.requires, types.FunctionType):
        r = it.call_function(contract.requires, [], b)
        ctx.oblige('%s: precondition at the call in %s' % (contract.name, it.target),
                   r.e if isinstance(r, SBool) else bool(r))


def resolve(it, binding, path):
    """(owner object, attribute or None, value) of 'param.attr.attr'"""
    parts = path.split('.')
    owner, attr, v = None, None, binding[parts[0]]
    for p in parts[1:]:
        owner, attr = v, p
        v = it.getattr(v, p)
    return owner, attr, v


def schema_at(contract, path):
    parts = path.split('.')
    s = contract.args[parts[0]]
    for p in parts[1:]:
        s = s.attrs[p]
    return s


def restricted(it, v, sch):
    """the part of v that the contract's input type mentions"""
    if isinstance(sch, S.Obj) and isinstance(v, SObj):
        return tuple(restricted(it, it.getattr(v, n), a) for n, a in sch.attrs.items() if n not in sch.ignore)
    return v


def apply_effect(it, contract, args, kwargs):
    ctx = it.ctx
    b = bind_args(it, contract, args, kwargs)
    reads = []
    for n, sch in contract.args.items():
        if contract.sets is not None and n == 'self':
            continue
        reads.append(restricted(it, b[n], sch))
    for (cls, attr) in contract.statics:
        reads.append(it.getattr(cls, attr))
    name = opaque_result(it, contract.name, reads)
    out = None
    if contract.raises:
        o = z3.Int(name + '.outcome')
        for i, e in enumerate(contract.raises):
            if ctx.decide(o == i + 1):
                out = e
                break
    for m in contract.modifies:
        owner, attr, v = resolve(it, b, m)
        sch = schema_at(contract, m)
        nm = name + '.' + m
        if isinstance(v, SFile) and v.writable:
            it.note_write(v, 'content')
            v.content = S.Bytes().make(ctx, nm + '.content')
        elif isinstance(v, SFile):
            it.note_write(v, 'pos')
            e = z3.Int(nm + '.pos')
            ctx.assume(e >= 0)
            v.pos = SInt(e)
        elif isinstance(v, (SList, SDict, SBuf)):
            it.note_write(v, 'content')
            n = sch.make(ctx, nm)
            if isinstance(v, SList):
                v.segs = n.segs; v.elems = {}; v.schema = n.schema
            elif isinstance(v, SDict):
                v.base = n.base; v.log = list(n.log); v.mat = []
            else:
                v.val = n.val
        else:
            it.setattr(owner, attr, sch.make(ctx, nm, (), (owner, ('attr', attr))))
    if out is not None:
        raise PyExc(out)
    if contract.sets is not None:
        o = b['self']
        for n, sch in contract.new_attrs(b).items():
            it.setattr(o, n, sch.make(ctx, name + '.' + n, (), (o, ('attr', n))))
        return None
    if contract.result is None:
        return None
    return contract.result.make(ctx, name + '.result')


def conforms(ctx, sch, v, depth=0):
    """is v of the declared type? (z3 Bool or python bool)"""
    from .interp import kind_of
    k = kind_of(v)
    if isinstance(sch, S.OneOf):
        if k == 'bool' and {True, False} <= {a.v for a in sch.alts if type(a) is S.Const and isinstance(a.v, bool)}:
            return True
        cs = [conforms(ctx, a, v, depth) for a in sch.alts]
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return z3.Or(*cs) if cs else False
    if isinstance(sch, (S.Int, S.Small)):
        if k not in ('int', 'bool'):
            return False
        e = zi(v)
        cs = ([e >= sch.lo] if sch.lo is not None else []) + ([e <= sch.hi] if sch.hi is not None else [])
        return z3.And(*cs) if cs else True
    if isinstance(sch, S.Lazy):
        return conforms(ctx, sch.fn(), v, depth)
    if type(sch) is S.Const:
        return v is sch.v or (k == kind_of(sch.v) and v == sch.v)
    if isinstance(sch, S.Tup):
        if not isinstance(v, tuple) or len(v) != len(sch.alts):
            return False
        return conj([conforms(ctx, a, x, depth) for a, x in zip(sch.alts, v)])
    want = {S.Bool: 'bool', S.Str: 'str', S.Bytes: 'bytes', S.Buf: 'buf', S.Float: 'float'}.get(type(sch))
    if want is not None:
        if k == want and want == 'str' and sch.pred is not None:
            return sch.pred(ops.zs(v))
        return k == want
    if isinstance(sch, (S.ListOf, S.ListUpTo)):
        if k != 'list':
            return False
        cs = []
        if isinstance(sch, S.ListOf) and not getattr(sch.elem, 'anything', False) and not (type(sch.elem) is S.Any and not sch.elem.types):
            for sgm in norm_seq(v.segs):
                if isinstance(sgm, Unit):
                    cs.append(conforms(ctx, sch.elem, sgm.v, depth))
                elif hasattr(sgm.schema, 'at'):
                    k = z3.Int(ctx.fresh('typed'))
                    e = conforms(ctx, sch.elem, sgm.schema.at(k), depth)
                    if e is False:
                        return False
                    if e is not True:
                        cs.append(z3.Implies(z3.And(k >= sgm.lo, k < sgm.hi), e))
                elif sgm.schema is not sch.elem and repr_of(sgm.schema) != repr_of(sch.elem):
                    return False
            cs += [conforms(ctx, sch.elem, x, depth) for _, x in getattr(v, 'elems', {}).values() if isinstance(x, HObj)]
            if sch.lo or sch.n is not None:
                n = IV(0)
                for sgm in v.segs:
                    n = n + (IV(1) if isinstance(sgm, Unit) else sgm.hi - sgm.lo)
                cs.append(n >= sch.lo)
                if sch.n is not None:
                    cs.append(n == sch.n)
        return conj(cs)
    if isinstance(sch, S.DictOf):
        if k != 'dict':
            return False
        if v.base is not None and repr_of(v.base.vs) != repr_of(sch.vs):
            return False
        cs = [conforms(ctx, sch.vs, x, depth) for _, x in v.log]
        cs += [conforms(ctx, sch.vs, x, depth) for _, x, present in v.mat if present and isinstance(x, HObj)]
        return conj(cs)
    if isinstance(sch, S.SetOf):
        return k == 'set'
    if isinstance(sch, S.Obj):
        if not (isinstance(v, SObj) and issubclass(v.cls, sch.cls)):
            return False
        if depth > 3:
            return True
        cs = []
        lazy = v.schema if v.schema is not None and not getattr(v, 'is_new', False) else None
        for n, a in sch.attrs.items():
            if n in sch.ignore:
                continue
            if lazy is not None and n not in v.attrs and n not in v.deleted and lazy.attrs.get(n) is a:
                continue
            if not has_attr(v, n):
                return False
            cs.append(conforms(ctx, a, get_raw(ctx, v, n), depth + 1))
        return conj(cs)
    h = getattr(sch, 'conforms', None)
    if h is not None:
        return h(ctx, v)
    return True


def repr_of(sch):
    """structural identity of a type"""
    if sch is None:
        return None
    if isinstance(sch, S.Obj):
        return (sch.cls, id(sch.attrs)) if not sch.attrs else (sch.cls, tuple((n, repr_of(a)) for n, a in sch.attrs.items()))
    if isinstance(sch, S.Tup) or isinstance(sch, S.OneOf):
        return (type(sch), tuple(repr_of(a) for a in sch.alts))
    if isinstance(sch, S.ListOf):
        return (S.ListOf, repr_of(sch.elem), sch.lo, sch.n)
    if isinstance(sch, S.DictOf):
        return (S.DictOf, repr_of(sch.ks), repr_of(sch.vs))
    if isinstance(sch, (S.Int, S.Small)):
        return (type(sch), sch.lo, sch.hi)
    if isinstance(sch, S.Str):
        return (S.Str, sch.pred)
    if isinstance(sch, (S.Bool, S.Any)):
        return type(sch)
    if isinstance(sch, S.Float):
        return (S.Float, sch.w, sch.np)
    if isinstance(sch, S.Bytes):
        return (S.Bytes, sch.n, sch.lo, sch.hi)
    h = getattr(sch, 'pv_repr', None)
    return h(repr_of) if h is not None else id(sch)


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'undecided'     # proved | refuted | undecided
        self.obligations = []
        self.stats = {}
        self.reason = ''
        self.used = set()
        self.inlined = set()
        self.modelled = set()
        self.reached = 0
        self.returned = False
        self.passes = 0
        self.loops = {}
        self.failed = []

    def summary(self):
        return {'function': self.name, 'status': self.status, 'obligations': len(self.obligations),
                'discharged': sum(1 for o in self.obligations if o.status == 'proved'),
                'paths': self.stats.get('paths', 0), 'queries': self.stats.get('queries', 0),
                'solver_s': round(self.stats.get('solver_s', 0), 2), 'passes': self.passes,
                'callee_contracts': sorted(self.used), 'inlined': sorted(self.inlined),
                'models': sorted(self.modelled),
                'reason': self.reason}


SOURCE_ROOTS = [os.environ.get('PV_REPO', '/repo') + '/pyulog',
                os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')]


def run_side(it, world, fn, contract, ctx, is_spec):
    """execute one side; returns (kind, value)"""
    ctx.world = world
    it.loop_stack = []
    it.stack = []
    it.depth = 0
    world.roots = {}
    args = {}
    for n, sch in contract.args.items():
        args[n] = sch.make(ctx, n)
        world.roots[n] = args[n]
    world.roots0 = args
    for (cls, attr), sch in contract.statics.items():
        world.statics[(cls, attr)] = sch.make(ctx, '%s.%s' % (cls.__name__, attr))
    if contract.options.get('io'):
        tools.start(it, world)
    elif contract.observe_print:
        world.out = SList(ctx, (), name='out', schema=S.Str())
        world.roots['$out'] = world.out
    if 'db' in contract.options:
        sql.start(it, world)
    if contract.requires is not None:
        r = it.call(contract.requires, [], dict(args)) if isinstance(contract.requires, types.FunctionType) \
            else contract.requires(it, args)
        if isinstance(r, SBool):
            ctx.assume_feasible(r.e)
        elif r is False or (r is not None and r is not True and not it.truth(r)):
            raise PathEnd()
    if is_spec and contract.effect and it.verifying is contract.whole:
        it.pre_frozen = {n: freeze(v) for n, v in args.items()}
    try:
        if isinstance(fn, types.FunctionType):
            v = it.call_function(fn, [], dict(args))
        else:
            v = fn(it, args)
        if contract.options.get('io'):
            tools.finish(it, world)
        return ('ret', v)
    except PyExc as e:
        if contract.options.get('io'):
            tools.finish(it, world)
        return ('exc', e)
    except CutReached as c:
        return ('cut', c.rec)


def run_path(it, ctx, contract, res):
    code_w, spec_w = World('code'), World('spec')
    it.code_world = code_w
    it.target = contract.name
    it.verifying = contract.whole
    ctx.stats['paths'] += 1
    k1, v1 = run_side(it, code_w, contract.real(), contract, ctx, False)
    if k1 == 'cut' and contract.options.get('code_loops'):
        res.reached += 1
        return          # closed by the one-sided invariants of the code's loop
    try:
        it.pre_frozen = None
        k2, v2 = run_side(it, spec_w, contract.spec, contract, ctx, True)
    except StructureMismatch as e:
        structure(ctx, contract.name, str(e))
        return
    ctx.world = spec_w
    nm = contract.name
    if contract.effect:
        signature(it, ctx, contract, spec_w, k2, v2)
    if k1 == 'cut' or k2 == 'cut':
        if k1 == 'cut' and k2 == 'cut':
            if v1.ordn != v2.ordn:
                structure(ctx, nm, 'loop %d ends an iteration in the code, loop %d in the specification'
                          % (v1.ordn, v2.ordn))
                return
            cmp = Cmp(ctx, goal=True)
            oblige_parts(ctx, '%s: loop %d preserves the equality of' % (nm, v1.ordn), cmp, v1.end_roots, v2.end_roots,
                         root_names(code_w))
            for (a, b) in sorted(v1.li.pairs or ()):
                x = v1.end_locals.get(a, UNDEF); y = v2.end_locals.get(b, UNDEF)
                if x is UNDEF or y is UNDEF:
                    e = False
                else:
                    e = value_same(it, x, y)
                if not ctx.prove(e, 5000):
                    drop(it, v1.li, 'pairs', (a, b))
            res.reached += 1
            return
        def d(k, v):
            return {'cut': lambda: 'iterates loop %d' % v.ordn, 'ret': lambda: 'returns',
                    'exc': lambda: 'raises %s' % v.cls.__name__}[k]()
        ctx.oblige('%s: same loop exits' % nm, False, 'code %s, specification %s' % (d(k1, v1), d(k2, v2)))
        return
    if k1 == 'exc' or k2 == 'exc':
        if contract.options.get('inline') and k1 == 'exc' and v1.cls in (AttributeError, NameError):
            raise Unsupported('a function of the lemma is missing: %s' % (v1.eargs,))
        same = k1 == k2 and (v1.cls is v2.cls)
        if same and v1.cls is SystemExit:
            same = (tuple(v1.eargs) or (None,))[0] == (tuple(v2.eargs) or (None,))[0]
        note = ''
        if not same:
            note = 'code: %s; specification: %s' % (
                '%s raised at %s' % (v1.cls.__name__, getattr(v1, 'line', '')) if k1 == 'exc' else 'returns',
                '%s raised' % v2.cls.__name__ if k2 == 'exc' else 'returns')
            if k1 == 'exc' and k2 == 'exc' and contract.options.get('exc_groups'):
                for g in contract.options['exc_groups']:
                    if issubclass(v1.cls, g) and issubclass(v2.cls, g):
                        same = True
        ctx.oblige('%s: exception' % nm, same, note)
        if contract.options.get('state_on_exc', True) and same:
            compare_state(it, ctx, contract, code_w, spec_w, skip_self=contract.name.endswith('__init__'))
        res.reached += 1
        return
    cmp = Cmp(ctx, goal=True)
    c = cmp.same(v1, v2, 'result')
    ctx.oblige('%s: result' % nm, c, '; '.join(cmp.why[:3]))
    compare_state(it, ctx, contract, code_w, spec_w)
    res.reached += 1
    res.returned = True


def signature(it, ctx, contract, w, kind, v):
    """what call sites rely on: only declared exceptions, results and attributes of the
    declared types, nothing modified that is not declared"""
    nm = contract.name
    if kind == 'exc':
        ctx.oblige('%s: declared exceptions' % nm, v.cls in contract.raises, v.cls.__name__)
    if kind == 'ret':
        if contract.sets is not None:
            o = w.roots['self']
            attrs = contract.new_attrs(w.roots0)
            for n, sch in attrs.items():
                ctx.oblige('%s: type of %s' % (nm, n),
                           has_attr(o, n) and conforms(ctx, sch, get_raw(ctx, o, n)))
            extra = [n for n in o.attrs if n not in attrs]
            ctx.oblige('%s: attributes' % nm, not extra, str(extra))
        elif contract.result is not None:
            ctx.oblige('%s: type of result' % nm, conforms(ctx, contract.result, v))
        else:
            ctx.oblige('%s: no result' % nm, v is None)
    if kind == 'cut':
        return
    def walk(path, pre, post):
        if path in contract.modifies:
            if isinstance(post, SFile):
                return post.closed == pre.closed and (post.writable or conj([Cmp(ctx).same(pre.content, post.content)]))
            return True
        if isinstance(post, SObj) and isinstance(pre, SObj):
            if path == 'self' and contract.sets is not None:
                return True
            ks = [n for n in post.attrs]
            cs = []
            for n in ks:
                if post.schema is not None and n in post.schema.ignore:
                    continue
                if not has_attr(pre, n):
                    return False
                cs.append(walk(path + '.' + n, get_raw(ctx, pre, n), post.attrs[n]))
            return conj(cs) if not post.deleted else False
        return Cmp(ctx).same(pre, post)
    for m in contract.modifies:
        cur = w.roots[m.split('.')[0]]
        for p in m.split('.')[1:]:
            cur = get_raw(ctx, cur, p) if has_attr(cur, p) else UNDEF
        if not isinstance(cur, SFile):
            ctx.oblige('%s: type of %s' % (nm, m), cur is not UNDEF and conforms(ctx, schema_at(contract, m), cur))
    if it.pre_frozen is not None:
        for n in contract.args:
            if isinstance(w.roots[n], HObj):
                ctx.oblige('%s: frame of %s' % (nm, n), walk(n, it.pre_frozen[n], w.roots[n]))


def root_names(w):
    return list(w.roots) + ['statics', 'values of statics']


def oblige_parts(ctx, label, cmp, a, b, names=None):
    # names of the roots: where they are objects, one obligation per attribute
    for loc, c in cmp.parts(a, b, names):
        why = [w for w in cmp.why if w.startswith(loc)]
        ctx.oblige('%s %s' % (label, loc), c, '; '.join(why[:3]))


def compare_state(it, ctx, contract, code_w, spec_w, skip_self=False):
    for w in (code_w, spec_w):
        for n in [n for n in w.roots if n.startswith('$sha256')]:
            del w.roots[n]
    if list(code_w.roots) != list(spec_w.roots):
        ctx.oblige('%s: same files opened' % contract.name, False, '%s / %s' % (list(code_w.roots), list(spec_w.roots)))
        return
    for n in code_w.roots:
        if skip_self and n == 'self':
            continue
        if not isinstance(code_w.roots[n], (HObj, tuple)) :
            continue
        cmp = Cmp(ctx, goal=True)
        oblige_parts(ctx, '%s: state of' % contract.name, cmp, [code_w.roots[n]], [spec_w.roots[n]], [n])
    ks = set(code_w.statics) | set(spec_w.statics)
    for k in sorted(ks, key=repr):
        if contract.statics.get(k) is None and (k not in code_w.statics or k not in spec_w.statics):
            ctx.oblige('%s: state of %s.%s' % (contract.name, k[0].__name__, k[1]), False, 'static attribute set')
            continue
        cmp = Cmp(ctx, goal=True)
        c = cmp.same(code_w.statics[k], spec_w.statics[k])
        ctx.oblige('%s: state of %s.%s' % (contract.name, k[0].__name__, k[1]), c, '; '.join(cmp.why[:2]))


def structure(ctx, name, note):
    """loops of code and specification do not correspond: undecided unless unreachable"""
    if ctx.pos < len(ctx.trace):
        return
    r = ctx.feasible()
    ctx.obligations.append(Obligation('%s: loop structure' % name, 'proved' if r == z3.unsat else 'unknown',
                                      0.0, None, True, note))


def defaults_same(contract):
    """the defaults callers rely on are the specification's"""
    import inspect
    out = []
    try:
        real = inspect.signature(contract.real()).parameters
        spec = inspect.signature(contract.spec).parameters
    except (TypeError, ValueError):
        return out
    for n in contract.args:
        if n not in real or n not in spec:
            continue
        a, b = real[n].default, spec[n].default
        if a is inspect.Parameter.empty and b is inspect.Parameter.empty:
            continue
        ok = type(a) is type(b) and (a is b or a == b)
        out.append(Obligation('%s: default of %s' % (contract.name, n), 'proved' if ok else 'refuted', 0.0,
                              note='' if ok else '%r, specified %r' % (a, b)))
    return out


def verify(contract, contracts, budget=120.0, max_passes=60, verbose=False):
    """all obligations of one contract; contracts: {real function: Contract}"""
    t0 = time.time()
    inline = contract.options.get('inline')
    if inline:      # lemmas speak about the bodies of (these) functions
        contracts = {f: k for f, k in contracts.items() if inline is not True and not k.name.endswith(inline)}
    res = verify_once(contract, contracts, budget, max_passes, verbose)
    if res.status == 'refuted' and res.stats['unknown']:
        # invariants were given up because the solver ran out of time: that refutes nothing
        left = budget - (time.time() - t0)
        if left > 10:
            res = verify_once(contract, contracts, left, max_passes, verbose, 8)
        if res.status == 'refuted' and res.stats['unknown']:
            res.status = 'undecided'
            res.reason = 'solver gave no answer: %d invariants' % res.stats['unknown']
    return res


def verify_once(contract, contracts, budget, max_passes, verbose, patience=1):
    res = Result(contract.name)
    t0 = time.time()
    deadline = t0 + budget
    loops = {}
    total = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'unknown': 0}
    stable = False
    for pno in range(max_passes):
        ctx = Ctx(deadline)
        ctx.patience = patience
        it = Interp(ctx, contracts, SOURCE_ROOTS, loops, MODELS, contract.options)
        it.dirty = False
        restart = stop = False
        grown = 0
        res.reached = 0
        for li in loops.values():
            li.entered = li.ends = False
        ctx.obligations = []
        try:
            while True:
                it.dirty_path = False
                try:
                    run_path(it, ctx, contract, res)
                except PathEnd:
                    pass
                except Dirty:
                    restart = True
                    break
                ctx.flush()
                if time.time() > deadline:
                    raise TimeUp()
                more = any(li.more_heap or li.more_locals for li in loops.values())
                if more or it.dirty and not any(o.status == 'refuted' for o in ctx.obligations):
                    grown += 1
                    if grown > 60:      # another pass is needed anyway
                        restart = True
                        break
                if (stable or not loops) and sum(o.status == 'refuted' for o in ctx.obligations) >= 20 and \
                        not any(li.more_heap or li.more_locals for li in loops.values()):
                    stop = True         # weaker invariants would not help
                    break
                if not ctx.next_path():
                    break
        except TimeUp:
            if (stable or not loops) and any(o.status == 'refuted' for o in ctx.obligations) and \
                    not any(li.more_heap or li.more_locals for li in loops.values()):
                stop = True
            else:
                res.reason = 'time limit (%ds)' % budget
        except Unsupported as e:
            res.reason = 'unsupported: %s' % e
            if verbose:
                traceback.print_exc()
        except RecursionError:
            res.reason = 'recursion limit'
        except z3.Z3Exception as e:
            res.reason = 'solver: %s' % e
            if verbose:
                traceback.print_exc()
        for k in total:
            total[k] += ctx.stats.get(k, 0)
        res.passes = pno + 1
        res.obligations = ctx.obligations
        res.used |= it.used_contracts
        res.inlined |= it.inlined
        res.modelled |= it.modelled
        if verbose:
            print('pass', pno, 'paths', ctx.stats['paths'], 'queries', ctx.stats['queries'],
                  'dirty', it.dirty or restart, 'reason', res.reason,
                  'failed', [(o.label, o.status, o.note[:300]) for o in ctx.obligations if o.status != 'proved'][:4],
                  'time %.1f' % (time.time() - t0))
        if res.reason or stop:
            break
        if not (restart or it.dirty):
            break
        # no further location is modified by the loops: from now on invariants only get weaker
        grew = any(li.more_heap or li.more_locals for li in loops.values())
        stable = not grew and (stable or not restart)
        for li in loops.values():
            li.promote(grew)
        again = True
        while again:        # what one side may modify in an iteration, so may the other
            again = False
            for li in list(loops.values()):
                for other in getattr(li, 'partners', ()):
                    for x, y in ((li, other), (other, li)):
                        for loc, kinds in list(x.heap.items()):
                            if loc[0][0] in ('root', 'static') and not kinds <= y.heap.get(loc, set()):
                                y.heap.setdefault(loc, set()).update(kinds)
                                y.pairs = y.unary = y.unary_s = None
                                again = True
                                stable = False
    else:
        res.reason = 'loop invariants did not stabilise'
    res.stats = total
    res.loops = loops
    res.obligations += defaults_same(contract)
    for key, li in loops.items():
        if key[0] == 'code' and not res.reason and getattr(li, 'entered', False):
            res.obligations.append(Obligation('%s: the loop of line %s can end' % (contract.name, key[2]),
                                              'proved' if li.ends else 'refuted', 0.0, None, True))
    other = ''
    if len({k for k in loops if k[0] == 'code'}) != len({k for k in loops if k[0] != 'code'}):
        for o in res.obligations:
            if o.status == 'unknown' and o.label.endswith(': loop structure'):
                other = o.note
    for key, li in loops.items():
        for p in getattr(li, 'partners', ()):
            if li.selected != p.selected and li.entered:
                other = 'a loop over a selection'
            if li.own != p.own and li.entered:
                other = 'loops that modify %s' % sorted(str(x[1]) for x in li.own ^ p.own)
    if other:
        # loops are matched by their order: where that order differs, or what they modify, a loop
        # may have been compared with another one, which refutes nothing
        for o in res.obligations:
            if o.status == 'refuted' and o.abstract:
                o.status = 'unknown'
    res.failed = [o for o in res.obligations if o.status != 'proved']
    if res.reason:
        res.status = 'undecided'
    elif not res.obligations or not res.reached or contract.options.get('inline') and not res.returned:
        res.status = 'undecided'
        res.reason = 'vacuous: no obligation reached'
    elif not res.failed:
        res.status = 'proved'
    elif any(o.status == 'refuted' for o in res.failed):
        res.status = 'refuted'
    elif other:
        res.status = 'undecided'
        res.reason = 'loops of another structure: ' + other
    else:
        res.status = 'undecided'
        res.reason = 'solver gave no answer: ' + res.failed[0].label
    return res
