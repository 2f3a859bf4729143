"""Floating-point terms that are equal as real expressions.

Arithmetic on floats is uninterpreted, so two ways of writing the same formula are different terms.
A difference of that kind is not a refutation: whether rounding makes them differ is left undecided.
"""
from decimal import Decimal
from fractions import Fraction
import z3
from .values import FlSort, IntSort

LIMIT = 400


class TooBig(Exception):
    pass


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def atom(s):
    return {(s,): Fraction(1)}


def const(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def key(p):
    return repr(sorted((m, str(c)) for m, c in p.items()))


def norm(e, memo):
    i = e.get_id()
    if i not in memo:
        memo[i] = (norm1(e, memo), e)
    return memo[i][0]


def norm1(e, memo):
    name, ch = e.decl().name(), e.children()
    if e.sort() == IntSort:
        if z3.is_int_value(e):
            return {(): Fraction(e.as_long())} if e.as_long() else {}
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            ps = [norm(c, memo) for c in ch]
            if k == z3.Z3_OP_UMINUS:
                return add({}, ps[0], -1)
            r = ps[0]
            for q in ps[1:]:
                r = mul(r, q) if k == z3.Z3_OP_MUL else add(r, q, 1 if k == z3.Z3_OP_ADD else -1)
            return r
        return atom('int:' + e.sexpr())
    if not ch:
        if name.startswith('fl:'):
            try:
                v = Fraction(Decimal(name[3:]))
                return {(): v} if v else {}
            except (ValueError, ArithmeticError, OverflowError):
                pass
        return atom(name)
    if name == 'i2f':
        return norm(ch[0], memo)
    op = name[2:] if name.startswith('np') else name[1:] if name.startswith('f') else ''
    if op in ('Add', 'Sub') and len(ch) == 2:
        return add(norm(ch[0], memo), norm(ch[1], memo), 1 if op == 'Add' else -1)
    if op == 'neg':
        return add({}, norm(ch[0], memo), -1)
    if op == 'Mult' and len(ch) == 2:
        return mul(norm(ch[0], memo), norm(ch[1], memo))
    if op == 'Div' and len(ch) == 2:
        p, q = norm(ch[0], memo), norm(ch[1], memo)
        c = const(q)
        if c:
            return {m: v / c for m, v in p.items()}
        return mul(p, atom('inv:' + key(q)))
    if op == 'Pow' and len(ch) == 2:
        p, q = norm(ch[0], memo), norm(ch[1], memo)
        c = const(q)
        if c is not None and c.denominator == 1 and 0 <= c <= 4:
            r = {(): Fraction(1)}
            for _ in range(int(c)):
                r = mul(r, p)
            return r
    if all(c.sort() in (FlSort, IntSort) for c in ch):
        return atom('%s(%s)' % (name, ','.join(key(norm(c, memo)) for c in ch)))
    return atom(e.sexpr())


def unify(e):
    """e with float terms that are equal as real expressions made identical"""
    memo, seen, reps, pairs = {}, set(), {}, []
    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        for c in t.children():
            walk(c)
        if t.sort() == FlSort:
            k = key(norm(t, memo))
            r = reps.setdefault(k, t)
            if r is not t and not r.eq(t):
                pairs.append((t, r))
    given, e = e, z3.simplify(e)
    try:
        walk(e)
    except (TooBig, RecursionError):
        return given
    return z3.substitute(e, *pairs) if pairs else given
