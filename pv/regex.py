"""Regular expressions, as predicates and functions of the text.

A pattern is identified by what Python's parser makes of it.  Texts have no line breaks.  A pattern that only
asks for a fixed text inside, at the start of or as the whole of another is that; of any other the match is an
uninterpreted predicate and every group an uninterpreted text (one of digits, when the pattern says so).
"""
import re
import z3
from re import _parser as sre
from re import _constants as C
from .values import *
from . import ops
from .ops import zs, mk_bool
from .models import M
from .methods import opaque_result


def parse(pattern, flags):
    return sre.parse(pattern, flags)


def canon(pattern, flags):
    return '%d %r' % (flags & ~re.UNICODE, plain(parse(pattern, flags)))


def plain(x):
    if isinstance(x, sre.SubPattern):
        return plain(x.data)
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    return str(x)


def anything(t):
    """.* or .*?, also as a group"""
    op, av = t
    if op is C.SUBPATTERN:
        p = av[3]
        return len(p) == 1 and anything(p[0])
    return op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == 0 and av[1] is C.MAXREPEAT and len(av[2]) == 1 and \
        av[2][0][0] is C.ANY


def literal(ts):
    if all(op is C.LITERAL for op, _ in ts):
        return ''.join(chr(c) for _, c in ts)


def predicate(it, how, pattern, flags, e):
    ctx = it.ctx
    ctx.assume(z3.Not(z3.Contains(e, z3.StringVal('\n'))))
    ts = list(parse(pattern, flags))
    start, end = how != 'search', how == 'fullmatch'
    if not flags & ~re.UNICODE:
        if ts and ts[0] == (C.AT, C.AT_BEGINNING):
            start, ts = True, ts[1:]
        if ts and ts[-1] in ((C.AT, C.AT_END), (C.AT, C.AT_END_STRING)):
            end, ts = True, ts[:-1]
        while ts and anything(ts[0]):
            start, ts = False, ts[1:]
        while ts and anything(ts[-1]):
            end, ts = False, ts[:-1]
        l = literal(ts)
        if l is not None:
            v = z3.StringVal(l)
            if start and end:
                return e == v
            if start or end:
                return ops.zb(it.call_method(SStr(e), 'startswith' if start else 'endswith', [l], {}))
            return ops.zb(it.contains(SStr(e), l))
    return ctx.func('re.%s %s' % (how, canon(pattern, flags)), (StrSort,), BoolSort)(e)


class Match:
    def __init__(self, it, how, pattern, flags, e):
        self.it = it; self.e = e
        self.top = {t[1][0]: t[1][3] for t in parse(pattern, flags) if t[0] is C.SUBPATTERN and t[1][0] is not None}
        self.n = re.compile(pattern, flags).groups
        self.names = {v: k for k, v in re.compile(pattern, flags).groupindex.items()}
        self.key = 're.%s %s' % (how, canon(pattern, flags))

    def group(self, g):
        g = next((k for k, v in self.names.items() if v == g), g)
        if g not in self.top:       # may not be there
            raise Unsupported('group %r' % (g,))
        ctx = self.it.ctx
        e = ctx.func('group %d of %s' % (g, self.key), (StrSort,), StrSort)(self.e)
        ts = list(self.top[g])
        if len(ts) == 1 and ts[0][0] in (C.MAX_REPEAT, C.MIN_REPEAT) and ts[0][1][0] >= 1 and len(ts[0][1][2]) == 1 and \
                ts[0][1][2][0] == (C.IN, [(C.CATEGORY, C.CATEGORY_DIGIT)]):
            ctx.assume(ctx.func('int_ok', (StrSort,), BoolSort)(e))
            ctx.assume(ctx.func('int_of', (StrSort,), IntSort)(e) >= 0)
        return SStr(e)

    def pv_truth(self, it):
        return True

    def pv_getitem(self, it, k):
        return self.group(k)

    def pv_getattr(self, it, name):
        if name == 'groups':
            return Builtin(name, lambda i, a, k: tuple(self.group(g + 1) for g in range(self.n)))
        if name == 'group':
            return Builtin(name, lambda i, a, k: self.group(a[0]) if len(a) == 1 else tuple(self.group(x) for x in a))
        raise Unsupported('match.%s' % name)


def match(it, how, pattern, flags, s):
    if not isinstance(pattern, str) or not isinstance(flags, int):
        raise Unsupported('pattern %r' % (pattern,))
    if not ops.is_str(s):
        raise PyExc(TypeError)
    if isinstance(s, str):
        m = getattr(re, how)(pattern, s, flags)
        if m is None:
            return None
        raise Unsupported('match of a fixed text')
    if not it.ctx.decide(predicate(it, how, pattern, flags, zs(s))):
        return None
    return Match(it, how, pattern, flags, zs(s))


def sub(it, pattern, repl, s, flags=0):
    if not (isinstance(pattern, str) and isinstance(repl, str)):
        raise Unsupported('re.sub')
    if not ops.is_str(s):
        raise PyExc(TypeError)
    if isinstance(s, str):
        return re.sub(pattern, repl, s, flags=flags)
    it.ctx.assume(z3.Not(z3.Contains(zs(s), z3.StringVal('\n'))))
    return SStr(it.ctx.func('re.sub %s -> %r' % (canon(pattern, flags), repl), (StrSort,), StrSort)(zs(s)))


def arg(a, k, i, name, *default):
    return a[i] if len(a) > i else k.get(name, *default)


for _how in ('match', 'search', 'fullmatch'):
    def _f(it, a, k, how=_how):
        return match(it, how, arg(a, k, 0, 'pattern'), arg(a, k, 2, 'flags', 0), arg(a, k, 1, 'string'))
    M[getattr(re, _how)] = _f


def _sub(it, a, k):
    if len(a) > 3 or 'count' in k:
        raise Unsupported('re.sub with a count')
    return sub(it, arg(a, k, 0, 'pattern'), arg(a, k, 1, 'repl'), arg(a, k, 2, 'string'), k.get('flags', 0))


M[re.sub] = _sub


def method(it, pattern, name, args):
    """a method of a compiled pattern"""
    if name in ('match', 'search', 'fullmatch') and len(args) == 1:
        return match(it, name, pattern.pattern, pattern.flags & ~re.UNICODE, args[0])
    if name == 'sub' and len(args) == 2:
        return sub(it, pattern.pattern, args[0], args[1], pattern.flags & ~re.UNICODE)
    raise Unsupported('pattern.' + name)
