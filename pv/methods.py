"""Methods of built-in types."""
import ast
import z3
from .values import *
from . import ops, schema as S
from .ops import IV, simp, zi, zs, mk_int, mk_bool, mk_str, is_int, is_str, as_bytes, concat_str
from .compare import Cmp, freeze, norm_seq, conj, compact


def call(it, o, name, args, kw):
    if isinstance(o, (str, SStr)):
        return m_str(it, o, name, args, kw)
    if isinstance(o, SBuf):
        return m_buf(it, o, name, args, kw)
    if isinstance(o, (bytes, bytearray, SBytes)):
        return m_bytes(it, o, name, args, kw)
    if isinstance(o, SList):
        return m_list(it, o, name, args, kw)
    if isinstance(o, (SDict, dict)):
        return m_dict(it, o, name, args, kw)
    if isinstance(o, SFile):
        return m_file(it, o, name, args, kw)
    if isinstance(o, (int, SInt)):
        return m_int(it, o, name, args, kw)
    if it.concrete([o]) and it.concrete(args) and it.concrete(kw.values()):
        try:
            return getattr(o, name)(*args, **kw)
        except Exception as e:
            raise PyExc(type(e), e.args)
    if isinstance(o, SAny):
        return m_any(it, o, name, args, kw)
    if isinstance(o, (SFloat, float)):
        return m_float(it, o, name, args, kw)
    if isinstance(o, tuple) and name in ('index', 'count'):
        if name == 'count':
            return sum(1 for x in o if it.truth(it.eq(x, args[0])))
        for i, x in enumerate(o):
            if it.truth(it.eq(x, args[0])):
                return i
        raise PyExc(ValueError)
    raise Unsupported('method %s of %s' % (name, type(o).__name__))


def m_any(it, o, name, args, kw):
    # an element of an array of unspecified type
    ctx = it.ctx
    if name == 'tobytes' and not args and not kw:
        return S.Bytes().make(ctx, 'any.tobytes', (o.e,))
    if name == 'item' and not args:
        return o
    raise Unsupported('%s of an array element' % name)


def m_float(it, o, name, args, kw):
    if name == 'is_integer':
        return SBool(it.ctx.func('f_isint', (FlSort,), BoolSort)(ops.zf(it.ctx, o)))
    if name in ('item',):
        return SFloat(o.e, o.w, False)
    raise Unsupported('float.%s' % name)


def m_int(it, o, name, args, kw):
    ctx = it.ctx
    if isinstance(o, int):
        return getattr(o, name)(*args, **kw)
    if name == 'bit_length':
        if ctx.prove(z3.And(o.e >= 0, o.e < 65536)):
            e = IV(0)
            for i in range(16):
                e = z3.If(o.e >= (1 << i), IV(i + 1), e)
            return mk_int(e)
        raise Unsupported('bit_length')
    if name == 'item':
        return o
    if name == 'tobytes' and not args and not kw:
        return S.Bytes().make(ctx, 'int.tobytes', (o.e,))
    if name == 'to_bytes':
        n = args[0]
        order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
        if order == 'little' and isinstance(n, int):
            if not ctx.decide(z3.And(o.e >= 0, o.e < (1 << (8 * n)))):
                raise PyExc(OverflowError)
            return SBytes([BInt(o.e, n)])
    raise Unsupported('int.%s' % name)


def m_str(it, o, name, args, kw):
    ctx = it.ctx
    if isinstance(o, str) and it.concrete(args) and it.concrete(kw.values()):
        try:
            r = getattr(o, name)(*args, **kw)
        except Exception as e:
            raise PyExc(type(e), e.args)
        if isinstance(r, list):
            return SList(ctx, tuple(Unit(x) for x in r), schema=S.Str())
        return r
    if name == 'format':
        return str_format(it, o, args, kw)
    if name == 'join':
        return str_join(it, o, args[0])
    if name in ('startswith', 'endswith'):
        p = args[0]
        if len(args) != 1:
            raise Unsupported(name)
        ps = p if isinstance(p, tuple) else (p,)
        for x in ps:
            if not is_str(x):
                raise PyExc(TypeError)
        f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        return mk_bool(z3.Or(*[f(zs(x), zs(o)) for x in ps]) if len(ps) > 1 else f(zs(ps[0]), zs(o)))
    if name == 'split':
        if len(args) == 1 and isinstance(args[0], str) and args[0] and not kw:
            return split(it, o, args[0])
        if len(args) == 2 and args[1] == 1:
            if ctx.decide(ops.t_has(ctx, zs(o), args[0])):
                return SList(ctx, (Unit(mk_str(ops.t_before(ctx, zs(o), args[0]))),
                                   Unit(mk_str(ops.t_after(ctx, zs(o), args[0])))))
            return SList(ctx, (Unit(o),))
        raise Unsupported('split')
    if name == 'partition' and isinstance(args[0], str):
        e = zs(o)
        if ctx.decide(ops.t_has(ctx, e, args[0])):
            return (mk_str(ops.t_before(ctx, e, args[0])), args[0], mk_str(ops.t_after(ctx, e, args[0])))
        return (o, '', '')
    if name == 'find':
        return ops.str_find(ctx, o, args[0], zi(args[1]) if len(args) > 1 else None)
    if name == 'index':
        r = ops.str_find(ctx, o, args[0])
        if it.truth(it.compare(ast.Lt(), r, 0)):
            raise PyExc(ValueError)
        return r
    if name == 'encode':
        enc = args[0] if args else 'utf-8'
        if enc not in ('utf-8', 'utf8'):
            raise Unsupported('encoding')
        return ops.norm_bytes(ops.utf_segs(o))
    if name in ('isalnum', 'isdigit', 'isalpha', 'isupper', 'islower', 'isspace'):
        return mk_bool(ctx.func('str_' + name, (StrSort,), BoolSort)(zs(o)))
    if name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'capitalize', 'title', 'casefold', 'replace',
                'zfill', 'ljust', 'rjust'):
        zargs = []
        for a in args:
            if is_str(a): zargs.append(zs(a))
            elif is_int(a): zargs.append(zi(a))
            else: raise Unsupported(name)
        f = ctx.func('str_' + name, (StrSort,) + tuple(a.sort() for a in zargs), StrSort)
        return SStr(f(*([zs(o)] + zargs)))
    if name in ('count',):
        return SInt(ctx.func('str_count', (StrSort, StrSort), IntSort)(zs(o), zs(args[0])))
    raise Unsupported('str.%s' % name)


def split(it, o, sep):
    """split of a text; exact when it is a concatenation of known pieces"""
    ctx = it.ctx
    out = []
    rest = zs(o)
    while True:
        r = ops.concat_split(ctx, rest, sep)
        if r is None:
            break
        out.append(mk_str(r[0]))
        rest = r[1]
    c = ops.lit(rest)
    if c is not None:
        out.extend(c.split(sep))
    elif ops.known_has(ctx, rest, sep) is False or \
            (out and ctx.prove(z3.And(*[z3.Not(ops.t_has(ctx, x, sep)) for x in ops.pieces(rest)]) if len(sep) == 1
                               else z3.Not(ops.t_has(ctx, rest, sep)))):
        out.append(SStr(rest))
    elif out:
        raise Unsupported('split of a composed text')
    if out:
        return SList(ctx, tuple(Unit(x) for x in out))
    return SSplit(zs(o), sep)


def str_format(it, fmt, args, kw):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if conv:
            raise Unsupported('format conversion')
        if field == '' or field.isdigit():
            i = auto if field == '' else int(field)
            if field == '':
                auto += 1
            if i >= len(args):
                raise PyExc(IndexError)
            v = args[i]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field %s' % field)
        if '{' in (spec or ''):
            raise Unsupported('nested format')
        out.append(it.fmt_value(v, spec or ''))
    return concat_str(out)


def str_join(it, sep, seq):
    ctx = it.ctx
    items = it.concrete_items(seq)
    if items is None:
        if isinstance(seq, SList):
            s = norm_seq(seq.segs)
            if len(s) == 1 and isinstance(s[0], OpqSeq):
                o = s[0]
                f = ctx.func('join:' + o.name, tuple(i.sort() for i in (o.fn or ())) + (StrSort, IntSort, IntSort), StrSort)
                return SStr(f(*(tuple(o.fn or ()) + (zs(sep), o.lo, o.hi))))
            return SStr(z3.Const(opaque_result(it, 'join', (sep, seq)), StrSort))
        raise Unsupported('join of a symbolic sequence')
    out = []
    for i, x in enumerate(items):
        if i and not (isinstance(sep, str) and sep == ''):
            out.append(sep)
        if not is_str(x):
            raise PyExc(TypeError)
        out.append(x)
    return concat_str(out)


def m_bytes(it, o, name, args, kw):
    ctx = it.ctx
    o = as_bytes(o)
    if name == 'find':
        if len(args) == 1:
            return it.bytes_find(o, args[0])
        if isinstance(o, bytes) and it.concrete(args):
            return o.find(*args)
        lo = args[1]
        sub = ops.bytes_slice(ctx, o, zi(lo), zi(args[2]) if len(args) > 2 else None)
        r = it.bytes_find(sub, args[0])
        if it.truth(it.compare(ast.Lt(), r, 0)):
            return -1
        return mk_int(zi(r) + zi(lo))
    if name == 'decode':
        enc = args[0] if args else kw.get('encoding', 'utf-8')
        err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
        if enc in ('utf-8', 'utf8'):
            return ops.utf8_decode(ctx, o, err)
        raise Unsupported('encoding %r' % enc)
    if name == 'startswith':
        p = as_bytes(args[0])
        n = ops.bytes_len(ctx, p)
        if not ctx.decide(ops.bytes_len(ctx, o) >= n):
            return False
        r = ops.bytes_eq(ctx, ops.bytes_slice(ctx, o, IV(0), n), p)
        if r is None:
            raise Unsupported('startswith')
        return mk_bool(r)
    if name == 'hex' and isinstance(o, bytes):
        return o.hex()
    if name == 'tobytes':
        return o
    if name == 'join':
        items = it.concrete_items(args[0])
        if items is None and isinstance(args[0], SList):
            return S.Bytes().make(ctx, opaque_result(it, 'bytes.join', (o, args[0])))
        if items is None:
            raise Unsupported('join')
        segs = ()
        for i, x in enumerate(items):
            if i:
                segs += ops.segs_of(o)
            segs += ops.segs_of(as_bytes(x))
        return ops.norm_bytes(segs)
    if isinstance(o, bytes) and it.concrete(args):
        try:
            r = getattr(o, name)(*args, **kw)
        except Exception as e:
            raise PyExc(type(e), e.args)
        return r
    raise Unsupported('bytes.%s' % name)


def m_buf(it, o, name, args, kw):
    if name == 'extend':
        it.buf_extend(o, args[0])
        return None
    if name == 'append':
        v = args[0]
        if not is_int(v):
            raise PyExc(TypeError)
        if not it.ctx.decide(z3.And(zi(v) >= 0, zi(v) <= 255)):
            raise PyExc(ValueError)
        it.buf_extend(o, ops.norm_bytes([BInt(zi(v), 1)]))
        return None
    if name == 'clear':
        it.note_write(o, 'content')
        o.val = b''
        return None
    if name == 'copy':
        return SBuf(it.ctx, o.val)
    return m_bytes(it, o.val, name, args, kw)


def m_list(it, o, name, args, kw):
    ctx = it.ctx
    if name == 'append':
        it.list_append(o, args[0])
        return None
    if name == 'extend':
        it.list_extend(o, args[0])
        return None
    if name == 'pop':
        segs = list(norm_seq(o.segs))
        k = args[0] if args else -1
        if all(isinstance(s, Unit) for s in segs) and isinstance(k, int):
            if not -len(segs) <= k < len(segs):
                raise PyExc(IndexError)
            it.note_write(o, 'content')
            v = segs.pop(k).v
            o.segs = tuple(segs)
            return v
        if k == -1:
            if not ctx.decide(zi(it.length(o)) > 0):
                raise PyExc(IndexError)
            v = it.list_get(o, -1)
            it.note_write(o, 'content')
            if isinstance(segs[-1], Unit):
                segs.pop()
            else:
                s = segs[-1]
                if len(segs) > 1 and not ctx.prove(s.hi > s.lo):
                    raise Unsupported('pop of a composed list')
                segs[-1] = OpqSeq(s.name, s.schema, s.lo, simp(s.hi - 1), s.fn)
            o.segs = tuple(segs)
            return v
        raise Unsupported('list.pop(%r)' % (k,))
    if name == 'sort':
        it.note_write(o, 'content')
        r = sorted_list(it, o, kw.get('key'), kw.get('reverse', False))
        o.segs = r.segs
        if hasattr(o, 'elems'):
            del o.elems
        it_el = getattr(r, 'elems', None)
        if it_el:
            o.elems = it_el
        return None
    if name == 'copy':
        r = SList(ctx, o.segs, schema=o.schema)
        it.carry_elems(r, o)
        return r
    if name == 'clear':
        it.note_write(o, 'content')
        o.segs = ()
        return None
    if name == 'insert':
        segs = list(norm_seq(o.segs))
        if args[0] == 0:
            it.note_write(o, 'content')
            o.segs = (Unit(args[1]),) + tuple(segs)
            return None
        if isinstance(args[0], int) and all(isinstance(s, Unit) for s in segs):
            it.note_write(o, 'content')
            segs.insert(args[0], Unit(args[1]))
            o.segs = tuple(segs)
            return None
    if name in ('index', 'count', 'remove', 'reverse'):
        segs = list(norm_seq(o.segs))
        if all(isinstance(s, Unit) for s in segs):
            if name == 'reverse':
                it.note_write(o, 'content')
                o.segs = tuple(reversed(segs))
                return None
            n = 0
            for i, s in enumerate(segs):
                if it.truth(it.eq(s.v, args[0])):
                    if name == 'index':
                        return i
                    if name == 'remove':
                        it.note_write(o, 'content')
                        segs.pop(i)
                        o.segs = tuple(segs)
                        return None
                    n += 1
            if name == 'count':
                return n
            raise PyExc(ValueError)
        if name in ('index', 'remove'):
            return list_find(it, o, segs, name, args[0])
    raise Unsupported('list.%s' % name)


def list_find(it, o, segs, name, x):
    # the first element equal to x in a list with parts of unknown length
    ctx = it.ctx
    pos = IV(0)
    for i, s in enumerate(segs):
        if isinstance(s, Unit):
            if it.truth(it.eq(s.v, x)):
                if name == 'index':
                    return mk_int(pos)
                it.note_write(o, 'content')
                o.segs = tuple(segs[:i] + segs[i + 1:])
                return None
            pos = pos + 1
            continue
        part = SList(ctx, (s,), schema=s.schema)
        n = opaque_result(it, 'list.index', (part, x))
        inside, j = z3.Bool(n + '.in'), z3.Int(n)
        at = lambda k: ops.zb(it.eq(it.seq_at(part, k), x))
        ln = simp(s.hi - s.lo)
        if ctx.decide(inside):
            ctx.assume_feasible(z3.And(j >= 0, j < ln))
            ctx.assume_feasible(at(j))
            if ctx.prove(ln > 0):
                ctx.assume(z3.Implies(at(IV(0)), j == 0))
            if name == 'index':
                return mk_int(pos + j)
            it.note_write(o, 'content')
            o.segs = tuple(segs[:i]) + (OpqSeq(s.name, s.schema, s.lo, simp(s.lo + j), s.fn),
                                        OpqSeq(s.name, s.schema, simp(s.lo + j + 1), s.hi, s.fn)) + tuple(segs[i + 1:])
            return None
        if ctx.decide(ln > 0):
            ctx.assume_feasible(z3.Not(at(IV(0))))
        pos = pos + ln
    raise PyExc(ValueError)


def norm_key(key):
    """a sort key function up to the name of its parameter"""
    if key is None:
        return 'None'
    if isinstance(key, SFunc):
        n = key.node
        if isinstance(n, ast.Lambda) and len(n.args.args) == 1:
            p = n.args.args[0].arg
            class R(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.copy_location(ast.Name('_', x.ctx), x) if x.id == p else x
            import copy
            return ast.dump(R().visit(copy.deepcopy(n.body)))
        return ast.dump(n)
    return repr(key)


def sorted_list(it, o, key, reverse=False):
    ctx = it.ctx
    if isinstance(o, SList):
        segs = norm_seq(o.segs)
        schema = o.schema
        src = o
    else:
        items = it.concrete_items(o)
        if items is not None:
            segs = [Unit(x) for x in items]
            schema = None
        else:
            n, at = it.sym_seq(o)
            lst = opaque_list_of(it, o)
            segs = norm_seq(lst.segs)
            schema = lst.schema
            d = o.d if getattr(o, 'what', None) == 'keys' else o
            if isinstance(d, SDict) and d.base is not None and type(schema) in (S.Str, S.Int) and not d.base.pops:
                schema = S.Key(d.base)
        src = SList(ctx, tuple(segs), schema=schema)
    if all(isinstance(s, Unit) for s in segs):
        if len(segs) <= 1:
            return SList(ctx, tuple(segs), schema=schema)
        keys = [it.call(key, [s.v]) if key is not None else s.v for s in segs]
        if it.concrete(keys):
            order = sorted(range(len(segs)), key=lambda i: keys[i], reverse=bool(reverse))
            return SList(ctx, tuple(segs[i] for i in order), schema=schema)
        # insertion sort with symbolic comparisons (stable)
        if len(segs) <= 5 and not reverse:
            out = []
            for i, s in enumerate(segs):
                j = len(out)
                while j > 0 and it.truth(it.compare(ast.Lt(), keys[i], out[j - 1][0])):
                    j -= 1
                out.insert(j, (keys[i], s))
            return SList(ctx, tuple(s for _, s in out), schema=schema)
    kid = norm_key(key) + (':r' if reverse else '')
    if schema is None:
        for s in segs:
            if isinstance(s, OpqSeq) and s.schema is not None:
                schema = s.schema
                break
    probe = None
    if key is not None and schema is not None:
        el = schema.make(ctx, 'sortprobe:%d' % id(schema), (), None)
        probe = it.call(key, [el])
        kid = 'probe' + (':r' if reverse else '')
    name = opaque_result(it, 'sorted:' + kid, (src, probe))
    n = zi(it.length(src))
    return SList(ctx, (OpqSeq(name, schema, IV(0), simp(n)),), schema=schema)


def opaque_list_of(it, v):
    """list(v) of a view or another symbolic iterable, as an arbitrary sequence that
    is a function of the contents of v"""
    from .interp import View
    ctx = it.ctx
    if isinstance(v, View):
        d = v.d
        b = d.base
        if compact(ctx, d):
            raise Unsupported('list of a modified dictionary')
        el = {'keys': b.ks, 'values': b.vs, 'items': S.Tup(b.ks, b.vs)}[v.what]
        name = '%s.%s-%d' % (b.name, v.what, b.pops)
        return SList(ctx, (OpqSeq(name, el, IV(0), simp(it.base_len(b) - b.pops), b.idx),), schema=el)
    if isinstance(v, SDict):
        return opaque_list_of(it, View(v, 'keys'))
    raise Unsupported('list of %r' % (v,))


def opaque_result(it, fname, args):
    """name of the result of an uninterpreted deterministic function: equal
    arguments give the same result"""
    ctx = it.ctx
    fa = freeze(tuple(args))
    for (f, a, n) in ctx.opaque_calls:
        if f == fname:
            c = Cmp(ctx).same(a, fa)
            if c is True or (c is not False and ctx.prove(c, 4000)):
                return n
    n = '%s#%d' % (fname.split('\n')[0][:60], len(ctx.opaque_calls))
    ctx.opaque_calls.append((fname, fa, n))
    return n


def m_dict(it, o, name, args, kw):
    from .interp import View
    ctx = it.ctx
    if isinstance(o, dict):
        if name in ('items', 'keys', 'values'):
            return View(o, name)
        if name == 'get':
            k = args[0]
            if not is_sym(k):
                return o.get(k, args[1] if len(args) > 1 else None)
            for kk in o:
                if it.truth(it.eq(k, kk)):
                    return o[kk]
            return args[1] if len(args) > 1 else None
        raise Unsupported('dict.%s on a shared dictionary' % name)
    if name in ('items', 'keys', 'values') and not o.isset:
        return View(o, name)
    if name == 'get':
        f, v = it.dict_lookup(o, args[0])
        return v if f else (args[1] if len(args) > 1 else None)
    if name == 'setdefault':
        f, v = it.dict_lookup(o, args[0])
        if f:
            return v
        v = args[1] if len(args) > 1 else None
        it.dict_set(o, args[0], v)
        return v
    if name == 'add' and o.isset:
        if it.dict_lookup(o, args[0])[0]:
            return None
        it.dict_set(o, args[0], None)
        return None
    if name in ('update',):
        for a in args:
            if o.isset:
                items = it.concrete_items(a)
                if items is None:
                    raise Unsupported('set.update')
                for x in items:
                    it.dict_set(o, x, None)
            else:
                for k, v in it.pairs_of(a):
                    it.dict_set(o, k, v)
        for k, v in kw.items():
            it.dict_set(o, k, v)
        return None
    if name == 'popitem':
        if o.base is None:
            es = it.dict_entries(o)
            if not es:
                raise PyExc(KeyError)
            it.note_write(o, 'content')
            return o.log.pop()
        if compact(ctx, o):
            raise Unsupported('popitem of a modified dictionary')
        n = zi(it.length(o))
        if not ctx.decide(n > 0):
            raise PyExc(KeyError)
        v = View(o, 'items').sym(it)[1](simp(n - 1))
        it.note_write(o, 'content')
        b = o.base
        nb = S.DictBase(b.name, b.ks, b.vs, b.pops + 1)
        nb.idx = b.idx
        o.base = nb
        return v
    if name == 'clear':
        it.note_write(o, 'content')
        o.base = None; o.log = []; o.mat = []
        return None
    if name == 'pop' and not o.isset:
        i = it.log_find(o, args[0])
        if i is not None and o.base is None:
            it.note_write(o, 'content')
            return o.log.pop(i)[1]
        if o.base is None:
            if len(args) > 1:
                return args[1]
            raise PyExc(KeyError)
        raise Unsupported('dict.pop')
    if name in ('discard', 'remove') and o.isset and o.base is None:
        i = it.log_find(o, args[0])
        if i is not None:
            it.note_write(o, 'content')
            o.log.pop(i)
        elif name == 'remove':
            raise PyExc(KeyError)
        return None
    if name == 'copy':
        r = type(o)(ctx)
        r.base = o.base
        r.log = list(o.log)
        r.mat = [list(m) for m in o.mat]
        return r
    raise Unsupported('%s.%s' % ('set' if o.isset else 'dict', name))


def m_file(it, f, name, args, kw):
    ctx = it.ctx
    if isinstance(f, SHash):
        if name == 'update':
            b = as_bytes(args[0])
            if b is None:
                raise PyExc(TypeError)
            it.note_write(f, 'content')
            f.content = ops.norm_bytes(ops.segs_of(f.content) + ops.segs_of(b))
            return None
        if name in ('hexdigest', 'digest') and not args:
            sch = S.Str() if name == 'hexdigest' else S.Bytes()
            return sch.make(ctx, opaque_result(it, name + ' ' + f.name.split(' ')[0], (ops.norm_bytes(ops.segs_of(f.content)),)))
        raise Unsupported('digest.' + name)
    if f.closed and name not in ('close',):
        raise PyExc(ValueError)
    if name == 'write':
        v = args[0]
        if f.text:
            raise Unsupported('text write')
        b = as_bytes(v)
        if b is None:
            raise PyExc(TypeError)
        it.note_write(f, 'content')
        f.content = ops.norm_bytes(ops.segs_of(f.content) + ops.segs_of(b))
        return mk_int(ops.bytes_len(ctx, b))
    if name == 'getvalue':
        return f.content
    if name == 'tell':
        return f.pos
    if name == 'close':
        it.note_write(f, 'closed', True)
        f.closed = True
        return None
    if name == 'flush':
        return None
    size = ops.bytes_len(ctx, f.content)
    p = zi(f.pos) if f.pos is not None else None
    if name == 'read':
        it.note_write(f, 'pos')
        avail = simp(ops.zmax(size - p, IV(0)))
        if not args or args[0] is None or (isinstance(args[0], int) and args[0] < 0):
            n = avail
        else:
            k = zi(args[0])
            if not ctx.prove(k >= 0):
                if not ctx.decide(k >= 0):
                    k = avail
            n = k if ctx.prove(k <= avail) else simp(ops.zmin(k, avail))
        segs = ops.segs_of(f.content)
        if len(segs) == 1 and isinstance(segs[0], BSlice):
            s = segs[0]
            r = ops.norm_bytes([BSlice(s.arr, simp(s.off + p), simp(n))])
        else:
            if not ctx.decide(p <= size):
                r = b''
            else:
                r = ops.bytes_cut(ctx, f.content, simp(p), simp(p + n))
        f.pos = mk_int(p + n)
        return r
    if name == 'seek':
        off = zi(args[0])
        wh = args[1] if len(args) > 1 else kw.get('whence', 0)
        if wh == 0:
            t = off
        elif wh == 1:
            t = p + off
        elif wh == 2:
            t = size + off
        else:
            raise Unsupported('whence')
        if not ctx.decide(t >= 0):
            raise PyExc(OSError)
        it.note_write(f, 'pos')
        f.pos = mk_int(t)
        return f.pos
    raise Unsupported('file.%s' % name)
