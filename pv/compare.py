"""Deep equality of values and heap states (as proof goals), freezing, paths."""
import z3
from .values import *
from .schema import DictBase
from . import ops
from .ops import simp, zi, zs, IV


def conj(conds):
    cs = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return False
        cs.append(c)
    if not cs:
        return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def idx_same(ctx, a, b):
    a = tuple(a or ()); b = tuple(b or ())
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x.sort() != y.sort():
            return False
        if not x.eq(y):
            cs.append(x == y)
    return conj(cs)


def seq_segs(ctx, v):
    if isinstance(v, (tuple, list)):
        return tuple(Unit(x) for x in v)
    if isinstance(v, SList):
        return v.segs
    raise Unsupported('sequence %r' % (v,))


def norm_seq(segs):
    out = []
    for s in segs:
        if isinstance(s, OpqSeq):
            d = simp(s.hi - s.lo)
            if z3.is_int_value(d) and d.as_long() <= 0:
                continue
            if out and isinstance(out[-1], OpqSeq) and out[-1].name == s.name and \
                    simp(out[-1].hi - s.lo).eq(IV(0)) and out[-1].fn == s.fn:
                out[-1] = OpqSeq(s.name, s.schema, out[-1].lo, s.hi, s.fn)
                continue
        out.append(s)
    return out


class Cmp:
    """comparison of a value of the code world with one of the specification world"""

    def __init__(self, ctx, ignore_extra=True, goal=False):
        self.ctx = ctx
        self.seen = set()
        self.why = []
        self.ignore_extra = ignore_extra
        self.goal = goal

    def no(self, path, msg):
        self.why.append('%s: %s' % (path, msg))
        return False

    def unlike(self, path, msg, nec=True):
        """written in different ways: possibly equal all the same.  nec is what equality
        would need: a goal is refuted only when nec can fail"""
        self.why.append('%s: %s' % (path, msg))
        if not self.goal or nec is False:
            return False
        b = z3.Bool(self.ctx.fresh('unlike'))
        self.ctx.vague.append((b, z3.BoolVal(True) if nec is True else nec))
        return b

    def seq_len(self, segs):
        n = IV(0)
        for s in segs:
            if isinstance(s, Unit):
                n = n + 1
            else:
                n = n + z3.If(s.hi > s.lo, s.hi - s.lo, IV(0))
        return n

    def seq_nec(self, sa, sb, path):
        """equal sequences have equal lengths, first and last elements"""
        cs = [self.seq_len(sa) == self.seq_len(sb)]
        if not self.goal:
            return cs[0]
        for i in (0, -1):
            if not sa or not sb:
                break
            x, y = sa[i], sb[i]
            if isinstance(x, Unit) == isinstance(y, Unit):
                continue
            u, q = (x, y) if isinstance(x, Unit) else (y, x)
            try:
                v = q.schema.make(self.ctx, q.name + '.e', tuple(q.fn or ()) + ((q.lo if i == 0 else q.hi - 1),), None)
                c = Cmp(self.ctx).same(u.v, v)
            except Exception:
                continue
            if c is not True:
                cs.append(z3.Implies(q.hi > q.lo, z3.BoolVal(False) if c is False else c))
        return z3.And(*cs)

    def has_key(self, d, log, k):
        """is key k in dictionary d? (None: not expressible)"""
        cs = []
        for k2, _ in log:
            if ops.is_str(k) and ops.is_str(k2):
                cs.append(zs(k) == zs(k2))
            elif ops.is_int(k) and ops.is_int(k2):
                cs.append(zi(k) == zi(k2))
            else:
                return None
        b = d.base
        if b is not None:
            if b.pops:
                return None
            zk = zkey(k)
            f = self.ctx.func(b.name + '.has', tuple(i.sort() for i in b.idx) + (zk.sort(),), z3.BoolSort())
            cs.append(f(*(tuple(b.idx) + (zk,))))
        return z3.Or(*cs) if cs else z3.BoolVal(False)

    def same(self, a, b, path=''):
        ctx = self.ctx
        if a is b:
            return True
        if isinstance(a, (bool, int, SInt, SBool)) and isinstance(b, (bool, int, SInt, SBool)):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                r = simp(ops.zb(a) == ops.zb(b))
            else:
                r = simp(zi(a) == zi(b))
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return self.no(path, '%r != %r' % (a, b))
            return r
        if ops.is_str(a) and ops.is_str(b):
            r = simp(zs(a) == zs(b))
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return self.no(path, '%r != %r' % (a, b))
            return r
        if isinstance(a, (SFloat, float)) and isinstance(b, (SFloat, float)):
            x, y = ops.zf(ctx, a), ops.zf(ctx, b)
            if x.eq(y):
                return True
            return x == y
        if isinstance(a, SAny) or isinstance(b, SAny):
            if isinstance(a, SAny) and isinstance(b, SAny):
                return True if a.e.eq(b.e) else a.e == b.e
            return self.no(path, 'different values')
        if isinstance(a, (SBuf,)) or isinstance(b, SBuf) or isinstance(a, (bytes, SBytes)):
            x, y = ops.as_bytes(a), ops.as_bytes(b)
            if x is None or y is None:
                return self.no(path, 'bytes against %s' % type(b).__name__)
            r = ops.bytes_same(ctx, x, y)
            if r is False:
                self.no(path, 'bytes differ: %r / %r' % (x, y))
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return self.no(path, 'tuple length')
            return conj(self.same(x, y, '%s[%d]' % (path, i)) for i, (x, y) in enumerate(zip(a, b)))
        if isinstance(a, HObj) and isinstance(b, HObj):
            k = (id(a), id(b))
            if k in self.seen:
                return True
            self.seen.add(k)
        if isinstance(a, SList) and isinstance(b, SList):
            return self.seq(a, b, path)
        if isinstance(a, (SList, tuple)) and isinstance(b, (SList, tuple)):
            return self.no(path, 'list against tuple')
        if isinstance(a, SDict) and isinstance(b, SDict):
            if type(a) is not type(b):
                return self.no(path, 'dict against set')
            return self.dict(a, b, path)
        if isinstance(a, SObj) and isinstance(b, SObj):
            return self.obj(a, b, path)
        if isinstance(a, SFile) and isinstance(b, SFile):
            if type(a) is not type(b):
                return self.no(path, 'file against digest')
            cs = []
            r = ops.bytes_same(ctx, a.content, b.content)
            if r is False:
                self.no(path, 'file content: %r / %r' % (a.content, b.content))
            cs.append(r)
            if a.pos is not None and b.pos is not None:
                cs.append(self.same(a.pos, b.pos, path + '.tell()'))
            if a.closed != b.closed:
                return self.no(path, 'closed')
            return conj(cs)
        if isinstance(a, SSplit) and isinstance(b, SSplit):
            if a.sep != b.sep:
                return self.unlike(path, 'split')
            return simp(a.s == b.s)
        if isinstance(a, HObj) or isinstance(b, HObj) or is_sym(a) or is_sym(b):
            h = getattr(a, 'pv_same', None)
            if h:
                return h(self, b, path)
            return self.no(path, '%s against %s' % (tname(a), tname(b)))
        if hasattr(a, 'pv_same'):
            return a.pv_same(self, b, path)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return conj([self.same(a.obj, b.obj, path), self.same(a.fn, b.fn, path)])
        if isinstance(a, (SFunc, Bound)) or isinstance(b, (SFunc, Bound)):
            return self.unlike(path, 'functions')
        try:
            r = type(a) is type(b) and a == b
            r = bool(r)
        except Exception:
            r = False
        if not r:
            return self.no(path, '%r != %r' % (a, b))
        return True

    def seq(self, a, b, path):
        sa, sb = norm_seq(a.segs), norm_seq(b.segs)
        if len(sa) != len(sb):
            # lengths may be forced to 0 by the path
            sa = [s for s in sa if not (isinstance(s, OpqSeq) and self.ctx.prove(s.hi <= s.lo))]
            sb = [s for s in sb if not (isinstance(s, OpqSeq) and self.ctx.prove(s.hi <= s.lo))]
            if len(sa) != len(sb):
                return self.unlike(path, 'list shapes %r / %r' % (sa, sb), self.seq_nec(sa, sb, path))
        cs = []
        for i, (x, y) in enumerate(zip(sa, sb)):
            p = '%s[%d]' % (path, i)
            if isinstance(x, Unit) and isinstance(y, Unit):
                cs.append(self.same(x.v, y.v, p))
            elif isinstance(x, OpqSeq) and isinstance(y, OpqSeq):
                if x.name != y.name:
                    return self.unlike(p, 'different sequences %s / %s' % (x.name, y.name), self.seq_nec(sa, sb, path))
                cs.append(idx_same(self.ctx, x.fn, y.fn))
                if not (x.lo.eq(y.lo) and x.hi.eq(y.hi)):
                    cs.append(z3.And(x.lo == y.lo, x.hi == y.hi))
            else:
                return self.unlike(p, 'list shapes', self.seq_nec(sa, sb, path))
        # elements of the arbitrary parts that were touched
        ma = getattr(a, 'elems', {}); mb = getattr(b, 'elems', {})
        for k, (ia, va) in ma.items():
            if isinstance(va, HObj) or isinstance(va, tuple):
                vb = None
                for kb, (ib, v2) in mb.items():
                    if kb[0] == k[0] and (ib is ia or ib.eq(ia)):
                        vb = v2
                if vb is None:
                    vb = fresh_elem(self.ctx, b, k, ia)
                if vb is not None:
                    cs.append(self.same(va, vb, '%s[%s]' % (path, ia)))
        for k, (ib, vb) in mb.items():
            if not any(ka[0] == k[0] and ia.eq(ib) for ka, (ia, _) in ma.items()):
                if isinstance(vb, HObj):
                    va = fresh_elem(self.ctx, a, k, ib)
                    if va is not None:
                        cs.append(self.same(va, vb, '%s[%s]' % (path, ib)))
        return conj(cs)

    def dict(self, a, b, path):
        ctx = self.ctx
        ba, bb = a.base, b.base
        cs = []
        if (ba is None) != (bb is None):
            return self.unlike(path, 'dict bases')
        if ba is not None:
            if ba.name != bb.name or ba.pops != bb.pops:
                return self.unlike(path, 'dict bases %s / %s' % (ba, bb))
            cs.append(idx_same(ctx, ba.idx, bb.idx))
        la, lb = compact(ctx, a), compact(ctx, b)
        if len(la) != len(lb):
            nec = []
            for x, lx, y, ly in ((a, la, b, lb), (b, lb, a, la)):
                for k, _ in lx:
                    if not any(keys_identical(k, k2) for k2, _ in ly):
                        h = self.has_key(y, ly, k)
                        if h is not None:
                            nec.append(h)
            return self.unlike(path, 'dict entries %r / %r' % (la, lb), z3.And(*nec) if nec else True)
        for (k1, v1), (k2, v2) in zip(la, lb):
            cs.append(self.same(k1, k2, path + '.key'))
            cs.append(self.same(v1, v2, '%s[%r]' % (path, k1)))
        if ba is not None:
            for m, other in ((a, b), (b, a)):
                for ent in m.mat:
                    k, v, present = ent
                    if not present or not isinstance(v, HObj):
                        continue
                    ov = None
                    for e2 in other.mat:
                        if e2[2] and keys_identical(k, e2[0]):
                            ov = e2[1]
                    if ov is None and m is b:
                        ov = dict_raw(ctx, a, k)
                    elif ov is None:
                        ov = dict_raw(ctx, b, k)
                    if m is a:
                        cs.append(self.same(v, ov, '%s[%r]' % (path, k)))
                    else:
                        cs.append(self.same(ov, v, '%s[%r]' % (path, k)))
        return conj(cs)

    def obj(self, a, b, path):
        return conj([c for _, c in self.obj_parts(a, b, path)])

    def parts(self, roots_a, roots_b, names=None):
        """[(location, condition)]: equality of two states, object attributes apart"""
        out = []
        if len(roots_a) != len(roots_b):
            return [('files', self.no('files', 'different files opened'))]
        for i, (a, b) in enumerate(zip(roots_a, roots_b)):
            p = names[i] if names else '[%d]' % i
            if isinstance(a, SObj) and isinstance(b, SObj) and a is not b and a.cls is b.cls:
                k = (id(a), id(b))
                if k not in self.seen:
                    self.seen.add(k)
                    out += self.obj_parts(a, b, p)
            else:
                out.append((p, self.same(a, b, p)))
        return out

    def obj_parts(self, a, b, path):
        if a.cls is not b.cls:
            return [(path, self.no(path, 'class %s / %s' % (a.cls.__name__, b.cls.__name__)))]
        schema = a.schema or b.schema
        names = list(a.attrs) + list(b.attrs)
        cs = []
        if not same_origin(a, b):       # parts nobody looked at may differ
            for x in (a, b):
                if x.schema is not None and not getattr(x, 'is_new', False):
                    names += [n for n in x.schema.attrs if n not in x.deleted]
        names = list(dict.fromkeys(names))
        for n in names:
            p = path + '.' + n
            if schema is not None and n in schema.ignore:
                continue
            in_a, in_b = has_attr(a, n), has_attr(b, n)
            if in_a and not in_b:
                if self.ignore_extra and not (schema is not None and n in schema.attrs):
                    continue
                cs.append((p, self.no(p, 'extra attribute')))
                continue
            if in_b and not in_a:
                cs.append((p, self.no(p, 'missing attribute')))
                continue
            if not in_a:
                continue
            cs.append((p, self.same(get_raw(self.ctx, a, n), get_raw(self.ctx, b, n), p)))
        if a.deleted != b.deleted:
            cs.append((path, self.no(path, 'deleted attributes')))
        return cs


def same_origin(a, b):
    if a.schema is None or getattr(a, 'is_new', False) or b.schema is None or getattr(b, 'is_new', False):
        return False
    ia, ib = tuple(getattr(a, 'idx', ()) or ()), tuple(getattr(b, 'idx', ()) or ())
    return a.name == b.name and a.schema is b.schema and len(ia) == len(ib) and all(x.eq(y) for x, y in zip(ia, ib))


def tname(v):
    return v.cls.__name__ if isinstance(v, SObj) else type(v).__name__


def keys_identical(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, SStr) and isinstance(b, SStr):
            return a.e.eq(b.e)
        if isinstance(a, SInt) and isinstance(b, SInt):
            return a.e.eq(b.e)
        return False
    return type(a) is type(b) and a == b


def compact(ctx, d):
    out = []
    for k, v in d.log:
        for ent in out:
            if keys_identical(ent[0], k):
                ent[1] = v
                break
        else:
            out.append([k, v])
    return out


def zkey(k):
    if ops.is_str(k):
        return zs(k)
    if ops.is_int(k):
        return zi(k)
    raise Unsupported('dictionary key %r' % (k,))


def dict_raw(ctx, d, k):
    """the value of key k in the arbitrary base"""
    return d.base.vs.make(ctx, d.base.name + '.v', tuple(d.base.idx) + (zkey(k),), (d, ('elem',)))


def fresh_elem(ctx, l, k, i):
    for s in l.segs:
        if isinstance(s, OpqSeq) and s.name == k[0]:
            return s.schema.make(ctx, s.name + '.e', tuple(s.fn or ()) + (i,), (l, ('elem',)))
    return None


def has_attr(o, n):
    if n in o.attrs:
        return True
    if n in o.deleted:
        return False
    return o.schema is not None and n in o.schema.attrs and not getattr(o, 'is_new', False)


def get_raw(ctx, o, n):
    if n not in o.attrs:
        o.attrs[n] = o.schema.attrs[n].make(ctx, o.name + '.' + n, getattr(o, 'idx', ()), (o, ('attr', n)))
    return o.attrs[n]


# ------------------------------------------------------------------ freezing
def freeze(v, memo=None):
    """deep copy of a value: the heap at this moment"""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(freeze(x, memo) for x in v)
    if not isinstance(v, HObj):
        h = getattr(v, 'pv_freeze', None)
        return h(memo, freeze) if h else v
    if id(v) in memo:
        return memo[id(v)]
    c = object.__new__(type(v))
    memo[id(v)] = c
    c.name = v.name; c.owner = v.owner; c.world = v.world; c.birth = v.birth
    if isinstance(v, SObj):
        c.cls = v.cls; c.schema = v.schema; c.deleted = set(v.deleted)
        c.idx = getattr(v, 'idx', ())
        c.is_new = getattr(v, 'is_new', False)
        c.attrs = {}
        for k, x in v.attrs.items():
            c.attrs[k] = freeze(x, memo)
    elif isinstance(v, SList):
        c.schema = v.schema
        c.segs = tuple(Unit(freeze(s.v, memo)) if isinstance(s, Unit) else s for s in v.segs)
        c.elems = {k: (i, freeze(x, memo)) for k, (i, x) in getattr(v, 'elems', {}).items()}
    elif isinstance(v, SDict):
        c.base = v.base; c.isset = v.isset
        c.log = [(k, freeze(x, memo)) for k, x in v.log]
        c.mat = [[k, freeze(x, memo), p] for k, x, p in v.mat]
    elif isinstance(v, SBuf):
        c.val = v.val
    elif isinstance(v, SFile):
        c.content = v.content; c.pos = v.pos; c.closed = v.closed
        c.writable = v.writable; c.text = v.text; c.out = v.out; c.path = v.path
    else:
        h = getattr(v, 'pv_freeze_into', None)
        if h is None:
            raise Unsupported('freeze of %s' % type(v).__name__)
        h(c, memo, freeze)
    return c
