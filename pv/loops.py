"""Loops with an unbounded number of iterations.

The loop is cut at its head: everything an iteration may modify is replaced by
arbitrary values that satisfy the loop invariant, and one arbitrary iteration
is executed.  The invariant relates the real function's loop with the loop of
the specification: all shared state is equal, plus those equalities between
local variables (and simple one-sided facts) that are inductive, found by
Houdini: a candidate that is not preserved is dropped and the function is
verified again."""
import z3
from .values import *
from .ctx import PathEnd, CutReached
from . import ops, schema as S
from .ops import IV, simp, zi, mk_int
from .compare import Cmp, conj, freeze, get_raw, has_attr, norm_seq
from .interp import Dirty, BreakEx, ReturnEx, ContinueEx, LoopInfo, kind_of


import ast
import os
DEBUG = bool(os.environ.get('PV_DEBUG'))


class HeadFrame:
    """the heap at a loop head: where every object can be found"""

    def __init__(self, it, env, li):
        self.it = it
        self.li = li
        self.map = {}
        self.keep = []
        todo = []
        for n, v in it.ctx.world.roots.items():
            todo.append((('root', n), v))
        self.walk(todo)
        todo = []
        for n, v in list(env.vars.items()):
            todo.append((('local', n), v))
        p = env.parent
        while p is not None:
            for n, v in list(p.vars.items()):
                todo.append((('outer', n), v))
            p = p.parent
        self.walk(todo)

    def walk(self, todo):
        while todo:
            path, v = todo.pop(0)
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    todo.append((path + (('item', i),), x))
                continue
            if not isinstance(v, HObj) or id(v) in self.map:
                continue
            self.map[id(v)] = path
            self.keep.append(v)
            if isinstance(v, SObj):
                for n, x in v.attrs.items():
                    todo.append((path + (('attr', n),), x))
            elif isinstance(v, SList):
                for i, s in enumerate(v.segs):
                    if isinstance(s, Unit):
                        todo.append((path + (('item', i),), s.v))
            elif isinstance(v, SDict):
                for i, (k, x) in enumerate(v.log):
                    todo.append((path + (('entry', i),), x))

    def locate(self, o):
        steps = []
        while o is not None:
            p = self.map.get(id(o))
            if p is not None:
                for st in steps:
                    if st[0] == 'elem':
                        return ('elem', p)
                    p = p + (st,)
                return ('path', p)
            if o.owner is None:
                return None
            o, st = o.owner
            steps.insert(0, st)
        return None

    def add(self, path, what, kind):
        if isinstance(path, tuple) and path and path[0] == 'elem':
            path = path[1]; what = kind = 'content'
        if path[0] in ('root', 'static'):
            self.li.own.add(path[:3])
        self.li.grow_heap(self.it, (path, what), (kind,))


class LoopRec:
    pass


def navigate(it, env, path):
    if path[0] == 'static':
        return None
    if path[0] == 'root':
        v = it.ctx.world.roots.get(path[1], UNDEF)
    else:
        e = env
        v = UNDEF
        while e is not None:
            if path[1] in e.vars:
                v = e.vars[path[1]]
                break
            e = e.parent
    for st in path[2:]:
        if v is UNDEF:
            return UNDEF
        if st[0] == 'attr':
            if not isinstance(v, SObj) or not has_attr(v, st[1]):
                return UNDEF
            v = get_raw(it.ctx, v, st[1])
        elif st[0] == 'item':
            if isinstance(v, tuple):
                v = v[st[1]]
            else:
                segs = v.segs
                if st[1] >= len(segs) or not isinstance(segs[st[1]], Unit):
                    return UNDEF
                v = segs[st[1]].v
        elif st[0] == 'entry':
            if st[1] >= len(v.log):
                return UNDEF
            v = v.log[st[1]][1]
    return v


def by_kind(it, kinds, name, cur=None, schema=None):
    """an arbitrary value of one of the given kinds"""
    ctx = it.ctx
    if schema is not None:
        return schema.make(ctx, name)
    kinds = sorted(kinds)
    if 'int' in kinds and 'bool' in kinds:
        kinds.remove('bool')
    k = kinds[0]
    if len(kinds) > 1:
        key = ('kind', name)
        if key not in ctx.choice_memo:
            ctx.choice_memo[key] = ctx.choose(len(kinds))
        k = kinds[ctx.choice_memo[key]]
    if k == 'none': return None
    if k == 'int': return SInt(z3.Int(name))
    if k == 'bool': return SBool(z3.Bool(name))
    if k == 'str': return SStr(z3.String(name))
    if k == 'float': return SFloat(z3.Const(name, FlSort))
    if k == 'any': return S.Any().make(ctx, name)
    if k == 'bytes': return S.Bytes().make(ctx, name)
    if k == 'buf': return S.Buf().make(ctx, name)
    if k == 'ForeignObj' and kind_of(cur) == k:
        return type(cur)(cur.schema, name, ())
    if k == 'list':
        sch = cur.schema if isinstance(cur, SList) else None
        if sch is None:
            sch = it.options.get('elem_schema', {}).get(name.split(':')[-1])
        return S.ListOf(sch).make(ctx, name)
    return UNDEF


def content_type(it, env, o, path, li=None):
    """declared type of the elements of a list, (keys, values) of a dictionary"""
    short = pname(path).split(':')[-1].split('.')[-1]
    if len(path) > 2 and path[-1][0] == 'attr':
        p = navigate(it, env, path[:-1])
        t = attr_type(it, p, path[-1][1]) if isinstance(p, SObj) else None
        if isinstance(t, S.ListOf) and isinstance(o, SList):
            return t.elem
        if isinstance(t, S.SetOf):
            return t.ks, S.Const(None)
        if isinstance(t, S.DictOf):
            return t.ks, t.vs
    if len(path) > 2 and path[-1][0] in ('entry', 'item') and not isinstance(navigate(it, env, path[:-1]), tuple):
        p = navigate(it, env, path[:-1])
        t = content_type(it, env, p, path[:-1], li)
        if isinstance(p, SDict) and not isinstance(p, SSet):
            t = t[1]
        if isinstance(t, S.ListOf) and isinstance(o, SList):
            return t.elem
        if isinstance(t, S.DictOf) and isinstance(o, SDict):
            return t.ks, t.vs
    if isinstance(o, SList):
        sch = o.schema
        if sch is None:
            for s in o.segs:
                if isinstance(s, OpqSeq):
                    sch = s.schema
        if sch is not None:
            return sch
        sch = it.options.get('elem_schema', {}).get(short, it.options.get('local_elems'))
        if isinstance(sch, (list, tuple)):
            sch = li.elem_types.get(path) if li is not None else None
        return sch
    b = o.base
    return (b.ks, b.vs) if b is not None else it.options.get('dict_schema', {}).get(short, it.options.get('local_dict', (None, None)))


def havoc_content(it, env, o, name, path, li=None):
    ctx = it.ctx
    if isinstance(o, SList):
        sch = content_type(it, env, o, path, li)
        o.segs = S.ListOf(sch).make(ctx, name).segs
        o.elems = {}
        o.schema = sch
    elif isinstance(o, SDict):
        ks, vs = content_type(it, env, o, path)
        if ks is None:
            raise Unsupported('dictionary without type modified in a loop (%s)' % name)
        nb = S.DictBase(name, ks, vs)
        nb.idx = ()
        o.base = nb
        o.log = []
        o.mat = []
    elif isinstance(o, SBuf):
        o.val = S.Bytes().make(ctx, name)
    elif isinstance(o, SFile):
        o.content = S.Bytes().make(ctx, name)
    elif hasattr(o, 'pv_havoc'):
        o.pv_havoc(it, name)
    else:
        raise Unsupported('havoc of %r' % (o,))


def attr_type(it, o, what):
    if o.schema is not None and not getattr(o, 'is_new', False) and what in o.schema.attrs:
        return o.schema.attrs[what]
    t = it.options.get('types', {}).get(o.cls)
    return t.attrs.get(what) if t is not None else None


def choose_types(it, env, li):
    """the contract lists the types that elements of local lists may have: take the one that fits
    what an iteration appends"""
    from .contract import conforms
    alts = it.options.get('local_elems')
    if not isinstance(alts, (list, tuple)):
        return
    for (path, what) in set(li.heap) | set(li.more_heap):
        if what != 'content' or path in li.elem_types or path[0] == 'static':
            continue
        o = navigate(it, env, path)
        if not isinstance(o, SList):
            continue
        units = [q.v for q in o.segs if isinstance(q, Unit)]
        for sch in alts:
            if units and all(conforms(it.ctx, sch, v) is not False for v in units):
                li.elem_types[path] = sch
                break


def check_types(it, env, li, when):
    """what an arbitrary iteration starts from has the declared types: so have the
    states before the loop and at the end of an iteration"""
    from .contract import conforms
    ctx = it.ctx
    for (path, what), kinds in sorted(li.heap.items(), key=repr):
        if path[0] == 'static':
            continue
        o = navigate(it, env, path)
        if o is UNDEF or o is None:
            continue
        if what == 'content':
            name = pname(path)
            if isinstance(o, SDict):
                ks, vs = content_type(it, env, o, path)
                want = S.SetOf(ks) if isinstance(o, SSet) else S.DictOf(ks, vs) if ks is not None else None
            elif isinstance(o, SList):
                sch = content_type(it, env, o, path, li)
                want = S.ListOf(sch) if sch is not None else None
            else:
                want = None
            v = o
        elif isinstance(o, SObj):
            want = attr_type(it, o, what)
            v = get_raw(ctx, o, what) if has_attr(o, what) else UNDEF
        else:
            want = None
        if want is None:
            continue
        c = v is not UNDEF and conforms(ctx, want, v)
        if c is not True and (c is False or not ctx.prove(c)):
            ctx.open('%s: type of %s %s' % (it.target, pname(path) + ('' if what == 'content' else '.' + str(what)), when))


def pname(path):
    return '.'.join(str(x[1]) if isinstance(x, tuple) else str(x) for x in path[1:])


def havoc_heap(it, env, li, ordn, shared_only=None, side=''):
    ctx = it.ctx
    for (path, what), kinds in sorted(li.heap.items(), key=lambda q: (len(q[0][0]), repr(q[0]))):
        shared = path[0] in ('root', 'static')
        if shared_only is not None and shared != shared_only:
            continue
        name = 'h%d%s:%s' % (ordn, '' if shared else side, pname(path) if path[0] != 'static' else
                             '%s.%s' % (path[1].__name__, path[2]))
        if path[0] == 'static':
            st = it.ctx.world.statics
            st[(path[1], path[2])] = by_kind(it, kinds, name)
            continue
        o = navigate(it, env, path)
        if o is UNDEF or o is None:
            continue
        if not isinstance(o, HObj):
            continue            # another kind of argument on this path
        inner = what == 'content' and kinds == {'inner'} and isinstance(o, SList) and \
            all(isinstance(q, OpqSeq) for q in o.segs)
        it.note_write(o, what if what in ('content', 'pos') else what, inner=inner)
        if inner:       # the elements are the same objects with other contents
            o.segs = tuple(OpqSeq(name + '~' + q.name, q.schema, q.lo, q.hi, q.fn) for q in o.segs)
            o.elems = {}
        elif what == 'content':
            havoc_content(it, env, o, name, path, li)
        elif what == 'pos':
            e = z3.Int(name + '.pos')
            ctx.assume(e >= 0)
            o.pos = SInt(e)
        elif what == 'closed':
            raise Unsupported('file closed in a loop')
        else:
            if not isinstance(o, SObj):
                raise Unsupported('havoc')
            sch = attr_type(it, o, what)
            if sch is not None:
                v = sch.make(ctx, name + '.' + what, (), (o, ('attr', what)))
            else:
                v = by_kind(it, kinds, name + '.' + what, o.attrs.get(what))
                if v is UNDEF:
                    raise Unsupported('attribute %s modified in a loop' % what)
            o.attrs[what] = v
            o.deleted.discard(what)


SCALAR = ('int', 'bool', 'str', 'bytes', 'float', 'none', 'any', 'ForeignObj')
CONT = ('list', 'buf', 'dict', 'set')


def local_items(env, skip=()):
    return {n: v for n, v in env.vars.items() if not n.startswith('$it')}


def private(v):
    """an object made by the function itself, with simple attributes"""
    return isinstance(v, SObj) and getattr(v, 'is_new', False) and all(kind_of(x) in SCALAR for x in v.attrs.values())


def similar(j, k):
    return j == k or {j, k} == {'buf', 'bytes'}


def value_same(it, a, b):
    if isinstance(a, SBuf) != isinstance(b, SBuf):      # same contents
        a = a.val if isinstance(a, SBuf) else a
        b = b.val if isinstance(b, SBuf) else b
        if ops.as_bytes(a) is None or ops.as_bytes(b) is None:
            return False
    c = Cmp(it.ctx).same(a, b)
    return c


def unary_candidates(it, env, li):
    ints = sorted(n for n, v in env.vars.items() if kind_of(v) == 'int' and
                  not isinstance(v, bool) and not n.startswith('$'))
    if len(ints) > 8:
        ints = [n for n in ints if n in li.locals or isinstance(env.vars[n], int)]
    mod = [n for n in ints if n in li.locals]
    count = [n for n in li.locals if n.startswith('$i') and not n.startswith('$it') and n in env.vars]
    flags = [n for n, v in env.vars.items() if isinstance(v, (bool, SBool)) and n in li.locals]
    files = []
    for n, v in it.ctx.world.roots.items():
        if isinstance(v, SFile):
            files.append(('root', n))
        if isinstance(v, SObj):
            for an in list(v.attrs):
                if isinstance(v.attrs[an], SFile):
                    files.append(('root', n, ('attr', an)))
    out = set()
    for i in count:
        out |= {('counts', n, i) for n in mod} | {(k, n, i) for n in flags for k in ('later', 'first')}
    grows = [loc[0][1] for loc in li.heap if loc[0][0] == 'local' and len(loc[0]) == 2 and isinstance(env.vars.get(loc[0][1]), SList)]
    for n in mod:
        out |= {('len', n, x) for x in grows}
    for n in mod:
        out.add(('ge0', n, None))
        out.add(('up', n, None))
        for f in files:
            out.add(('pos', n, f))
        for m in ints:
            if m != n:
                out.add(('le', n, m))
                out.add(('le', m, n))
    for n, v in it.ctx.world.roots.items():
        if isinstance(v, SHash):        # the digest is of what was read of a file so far
            for x, y in env.vars.items():
                if isinstance(y, SFile) and not isinstance(y, SHash):
                    out.add(('digest', n, ('local', x)))
            for f in files:
                if f != ('root', n):
                    out.add(('digest', n, f))
    byt = sorted(n for n, v in env.vars.items() if kind_of(v) == 'bytes' and n in li.locals)
    for x in byt:
        for f in files:
            for a in mod:
                out.add(('poslen', x, (a, f)))
            for a in ints:
                out.add(('slice', x, (a, None, f)))
                for n in ints:
                    if n != a:
                        out.add(('slice', x, (a, n, f)))
    for (path, what), kinds in li.heap.items():
        if path[0] != 'static' and what not in ('content', 'pos') and kinds <= {'int', 'none'} and 'int' in kinds:
            out.add(('age0', what, path))
    if it.options.get('scan_pattern') is not None and mod:
        for f in files:
            for a in ints:
                for b in mod:
                    out.add(('nomark', b, (a, f)))
    return out


def definitions(node, env, li):
    """texts that an iteration computes anew from other locals: name -> expression"""
    out = {}
    for st in (x for b in getattr(node, 'body', ()) for x in ast.walk(b)):
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
            continue
        n, e = st.targets[0].id, st.value
        if n not in env.vars or n not in li.locals or kind_of(env.vars[n]) != 'str' or n in out:
            continue
        if not all(isinstance(x, (ast.JoinedStr, ast.FormattedValue, ast.Constant, ast.Name, ast.BinOp, ast.Add, ast.Sub, ast.Load,
                                  ast.Call)) for x in ast.walk(e)):
            continue
        calls = [x.func.id if isinstance(x.func, ast.Name) else '' for x in ast.walk(e) if isinstance(x, ast.Call)]
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        if set(calls) <= {'len', 'str'} and n not in names and names - set(calls) <= set(env.vars):
            out[n] = e
    return out


def defined_by(it, env, e):
    try:
        return it.eval(e, env)
    except (PyExc, Unsupported):
        return None


def slice_value(it, env, cand):
    _, x, (a, n, f) = cand
    fo = navigate(it, env, f)
    av = env.vars.get(a, UNDEF)
    nv = env.vars.get(n, UNDEF) if n is not None else None
    if not isinstance(fo, SFile) or kind_of(av) != 'int' or (n is not None and kind_of(nv) != 'int'):
        return None
    if n is None:
        if fo.pos is None:
            return None
        hi = zi(fo.pos)
    else:
        hi = zi(av) + zi(nv)
    lo = zi(av)
    if not it.ctx.prove(z3.And(lo >= 0, hi >= lo)):
        return None
    return ops.bytes_slice(it.ctx, fo.content, simp(lo), simp(hi))


def digest_of(it, env, cand):
    """the digest, what it should be of, on which condition"""
    h = navigate(it, env, ('root', cand[1]))
    f = navigate(it, env, cand[2])
    if not isinstance(h, SHash) or not isinstance(f, SFile) or f.pos is None:
        return None, None, None
    p, n = zi(f.pos), ops.bytes_len(it.ctx, f.content)
    return h, (lambda: ops.bytes_slice(it.ctx, f.content, IV(0), simp(p))), z3.And(p >= 0, p <= n)


def unary_expr(it, env, cand, entry=None, defs=None):
    k, a, b = cand
    def val(n):
        v = env.vars.get(n, UNDEF)
        if v is UNDEF or kind_of(v) != 'int':
            return None
        return zi(v)
    if k == 'def':
        x, y = env.vars.get(a, UNDEF), defined_by(it, env, defs[a])
        if kind_of(x) != 'str' or y is None or kind_of(y) != 'str':
            return None
        return value_same(it, x, y)
    if k == 'ge0':
        x = val(a)
        return None if x is None else x >= 0
    if k == 'up':
        x = val(a)
        e = entry.get(a) if entry is not None else None
        return None if x is None or e is None else e <= x
    if k == 'len':
        x, y = val(a), env.vars.get(b)
        return None if x is None or not isinstance(y, SList) else x == zi(it.length(y))
    if k == 'counts':
        x, y = val(a), val(b)
        e = entry.get(a) if entry is not None else None
        return None if x is None or y is None or e is None else x == e + y
    if k in ('later', 'first'):
        x, y = env.vars.get(a, UNDEF), val(b)
        if y is None or not isinstance(x, (bool, SBool)):
            return None
        return ops.zb(x) == (y > 0 if k == 'later' else y == 0)
    if k == 'le':
        x, y = val(a), val(b)
        return None if x is None or y is None else x <= y
    if k == 'pos':
        x = val(a)
        f = navigate(it, env, b)
        if x is None or not isinstance(f, SFile) or f.pos is None:
            return None
        return x == zi(f.pos)
    if k == 'age0':
        o = navigate(it, env, b)
        if not isinstance(o, SObj) or not has_attr(o, a) or kind_of(get_raw(it.ctx, o, a)) != 'int':
            return None
        return zi(get_raw(it.ctx, o, a)) >= 0
    if k == 'hint':
        return b(it, env)
    if k == 'digest':
        h, y, ok = digest_of(it, env, cand)
        if h is None:
            return None
        same = Cmp(it.ctx).same(h.content, y())
        return False if same is False else ok if same is True else z3.And(ok, same)
    if k == 'poslen':
        x = env.vars.get(a, UNDEF)
        y = val(b[0])
        f = navigate(it, env, b[1])
        if y is None or ops.as_bytes(x) is None or not isinstance(f, SFile) or f.pos is None:
            return None
        return zi(f.pos) == y + ops.bytes_len(it.ctx, ops.as_bytes(x))
    if k == 'slice':
        x = env.vars.get(a, UNDEF)
        if kind_of(x) != 'bytes':
            return None
        y = slice_value(it, env, cand)
        if y is None:
            return None
        return Cmp(it.ctx).same(x, y)
    if k == 'nomark':
        y = val(a)
        f = navigate(it, env, b[1])
        e = entry.get(b[0]) if entry is not None else None
        if y is None or e is None or not isinstance(f, SFile):
            return None
        segs = ops.segs_of(f.content)
        if len(segs) != 1 or not isinstance(segs[0], BSlice):
            return None
        pat = it.options['scan_pattern']
        M = it.ctx.func('occurs:%s' % pat.hex(), (ByteArr, S.IntSort), S.BoolSort)
        j = z3.Int('j!nm')
        o = segs[0].off
        return z3.ForAll([j], z3.Implies(z3.And(j >= o + e, j < o + y), z3.Not(M(segs[0].arr, j))),
                         patterns=[M(segs[0].arr, j)])
    return None


def run_cut_loop(it, node, env, test, step, key):
    ctx = it.ctx
    w = ctx.world
    if w.nested:
        raise Unsupported('loop in a nested evaluation')
    ordn = len(w.loops)
    ctx.path_abstract = True
    li = it.loopinfo.get(key)
    if li is None:
        li = it.loopinfo[key] = LoopInfo()
    rec = LoopRec()
    rec.ordn = ordn; rec.key = key; rec.li = li; rec.side = w.side
    code = it.code_world
    hints = it.options.get('loop_hints') or []
    crec = None
    if w.side == 'spec':
        if ordn >= len(code.loops):
            raise StructureMismatch('the specification reaches loop %d, the code does not' % ordn)
        crec = code.loops[ordn]
        if not hasattr(li, 'partners'):
            li.partners = []
        if not any(x is crec.li for x in li.partners):
            li.partners.append(crec.li)
    rec.crec = crec
    # ---- entry: invariants hold initially
    if crec is not None:
        cmp = Cmp(ctx, goal=True)
        from .contract import oblige_parts, root_names
        oblige_parts(ctx, '%s: when loop %d is entered, equality of' % (it.target, ordn), cmp, crec.pre_roots,
                     tuple(freeze_roots(it)), root_names(w))
        lc = crec.pre_locals
        ls = local_items(env)
        if crec.li.pairs is None:
            crec.li.pairs = set((a, b) for a in lc for b in ls
                                if similar(kind_of(lc[a]), kind_of(ls[b])) and (kind_of(ls[b]) in SCALAR + CONT or private(ls[b]))
                                and (a.startswith('$i') == b.startswith('$i')))
        for (a, b) in sorted(crec.li.pairs):
            if a not in lc or b not in ls or lc[a] is UNDEF or ls[b] is UNDEF:
                drop(it, crec.li, 'pairs', (a, b)); continue
            e = value_same(it, lc[a], ls[b])
            if not ctx.prove(e):
                drop(it, crec.li, 'pairs', (a, b))
    unname = 'unary' if w.side == 'code' else 'unary_s'
    un = getattr(li, unname)
    if un is None:
        un = unary_candidates(it, env, li)
        li.defs = definitions(node, env, li)
        un |= {('def', n, None) for n in li.defs}
        if w.side == 'code':
            un |= set(('hint', i, h) for i, h in enumerate(hints))
        setattr(li, unname, un)
    entry = {n: zi(v) for n, v in env.vars.items() if kind_of(v) == 'int'}
    for cnd in sorted(un, key=repr):
        e = unary_expr(it, env, cnd, entry, getattr(li, 'defs', None))
        if e is None or not ctx.prove(e):
            drop(it, li, unname, cnd)
    ctx.flush()
    rec.pre_roots = tuple(freeze_roots(it))
    rec.pre_locals = freeze_locals(env)
    fr = HeadFrame(it, env, li)
    # ---- arbitrary iteration
    if w.side == 'spec':
        # what the specification modifies, the code may modify as well
        for loc, kinds in li.heap.items():
            if loc[0][0] in ('root', 'static'):
                crec.li.grow_heap(it, loc, kinds)
        for loc, kinds in crec.li.heap.items():
            if loc[0][0] in ('root', 'static'):
                li.grow_heap(it, loc, kinds)
    check_types(it, env, li, 'before the loop')
    havoc_heap(it, env, li, ordn, None, w.side)
    alive = () if crec is None else [p for p in crec.li.pairs if ('pairs', p) not in crec.li.dropped]
    for n, kinds in sorted(li.locals.items()):
        if n not in env.vars:
            continue
        cur = env.vars[n]
        src = None
        if crec is not None:
            for (a, b) in sorted(alive):
                if b == n and a in crec.head_locals:
                    src = crec.head_locals[a]
                    break
        if src is not None and isinstance(src, SBuf) and 'bytes' in kinds:
            env.vars[n] = src.val
        elif src is not None and kind_of(src) in SCALAR and src is not UNDEF:
            env.vars[n] = src
        else:
            env.vars[n] = by_kind(it, kinds, 'h%d%s:%s' % (ordn, w.side, n), cur)
            if n.startswith('$i'):
                ctx.assume(zi(env.vars[n]) >= 0)
    if crec is not None:
        for (a, b) in sorted(alive):
            x = crec.head_locals.get(a, UNDEF); y = env.vars.get(b, UNDEF)
            if x is UNDEF or y is UNDEF:
                continue
            if kind_of(x) in SCALAR and kind_of(y) in SCALAR:
                e = value_same(it, x, y)
                if e is False:
                    drop(it, crec.li, 'pairs', (a, b))
                elif e is not True:
                    ctx.assume(e)
            elif private(x) and private(y):
                for n in x.attrs:
                    if kind_of(x.attrs[n]) in SCALAR and n in y.attrs and kind_of(y.attrs[n]) in SCALAR:
                        y.attrs[n] = x.attrs[n]
            elif isinstance(x, SList) and isinstance(y, SList):
                y.segs = x.segs
                y.elems = dict(getattr(x, 'elems', {}))
                y.schema = y.schema or x.schema
            elif isinstance(y, SBuf) and ops.as_bytes(x) is not None:
                y.val = ops.as_bytes(x)
            elif isinstance(x, SBuf) and kind_of(y) == 'bytes':
                e = value_same(it, x, y)
                if e is not True and e is not False:
                    ctx.assume(e)
            elif isinstance(x, SDict) and isinstance(y, SDict):
                y.base = x.base; y.log = list(x.log); y.mat = []
    defined = set()
    for cnd in sorted(un, key=lambda q: (q[0] == 'slice', q[0] == 'poslen', repr(q))):
        if cnd[0] == 'digest' and cnd[1] not in defined:
            h, f, e = digest_of(it, env, cnd)
            if h is not None:
                ctx.assume(e)
                h.content = f()
                defined.add(cnd[1])
                continue
        if cnd[0] == 'slice' and cnd[1] in li.locals:
            if cnd[1] in defined:
                continue
            y = slice_value(it, env, cnd)
            if y is None:
                drop(it, li, unname, cnd)
                continue
            env.vars[cnd[1]] = y
            defined.add(cnd[1])
            for c2 in un:
                if c2[0] == 'poslen' and c2[1] == cnd[1]:
                    e = unary_expr(it, env, c2)
                    if e is not None and e is not True:
                        ctx.assume(e)
            continue
        if cnd[0] == 'def':
            y = defined_by(it, env, li.defs[cnd[1]])
            if y is not None and kind_of(y) == 'str':
                env.vars[cnd[1]] = y
            continue
        e = unary_expr(it, env, cnd, entry, getattr(li, 'defs', None))
        if e is not None and e is not True:
            ctx.assume(e)
    rec.head_locals = freeze_locals(env)
    w.loops.append(rec)
    before = dict(env.vars)
    it.loop_stack.append(fr)
    try:
        li.entered = True
        if not test():
            rec.exit = 'exhausted'
            li.ends = True
            return False
        try:
            step()
        except ContinueEx:
            pass
    except BreakEx:
        rec.exit = 'break'
        li.ends = True
        return True
    except (ReturnEx, PyExc):
        li.ends = True
        raise
    finally:
        it.loop_stack.remove(fr)
    # ---- end of the iteration: back at the head
    for n, v in env.vars.items():
        if n.startswith('$out'):
            pass
        if n in before and before[n] is v:
            continue
        if n in before and n not in li.locals and not isinstance(v, HObj) and not isinstance(before[n], HObj):
            try:
                if value_same(it, before[n], v) is True:
                    continue
            except Unsupported:
                pass
        kinds = {kind_of(v)}
        if n in before and before[n] is not UNDEF:
            kinds.add(kind_of(before[n]))
        li.grow_locals(it, n, kinds, n in before and before[n] is not UNDEF)
    for n in before:
        if n not in env.vars:
            li.grow_locals(it, n, (), True)
    for cnd in sorted(un, key=repr):
        e = unary_expr(it, env, cnd, entry, getattr(li, 'defs', None))
        if e is None or not ctx.prove(e, 4000):
            drop(it, li, unname, cnd)
    choose_types(it, env, li)
    check_types(it, env, li, 'after an iteration')
    rec.end_roots = tuple(freeze_roots(it))
    rec.end_locals = freeze_locals(env)
    rec.exit = 'cut'
    # vars bound only inside the loop are undefined at the head
    raise CutReached(rec)


def freeze_roots(it):
    memo = {}
    out = [freeze(v, memo) for v in it.ctx.world.roots.values()]
    out.append(tuple(sorted(((k[0].__name__ + '.' + k[1]), ) for k in it.ctx.world.statics)))
    out.append(tuple(it.ctx.world.statics[k] for k in sorted(it.ctx.world.statics, key=lambda q: (q[0].__name__, q[1]))))
    return out


def freeze_locals(env):
    memo = {}
    out = {}
    for n, v in env.vars.items():
        try:
            out[n] = freeze(v, memo)
        except Unsupported:
            out[n] = UNDEF
    return out


def drop(it, li, name, x):
    """the candidate is not inductive: gone from the next pass on"""
    if DEBUG:
        import traceback
        print('drop', name, x, traceback.extract_stack()[-2].lineno)
    if x in getattr(li, name):
        li.dropped.add((name, x))
        it.dirty = True


class StructureMismatch(Exception):
    pass
