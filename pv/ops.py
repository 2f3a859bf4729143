"""Operations on symbolic values (Python semantics)."""
import math
import struct
import z3
from .values import *
from .schema import DictBase
from . import schema as S

IV = z3.IntVal


def simp(e):
    return z3.simplify(e)


def is_int(v):
    return isinstance(v, (int, SInt, SBool)) and not isinstance(v, float)


def zi(v):
    """z3 Int of an integer value"""
    if isinstance(v, bool):
        return IV(1 if v else 0)
    if isinstance(v, int):
        return IV(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, IV(1), IV(0))
    raise Unsupported('not an integer: %r' % (v,))


def mk_int(e):
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    raise Unsupported('not a boolean')


def is_str(v):
    return isinstance(v, (str, SStr))


def zs(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SStr):
        return v.e
    raise Unsupported('not a string: %r' % (v,))


def z3str(e):
    """python text of a z3 string literal"""
    s = e.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def mk_str(e):
    e = simp(e)
    if z3.is_string_value(e):
        return z3str(e)
    return SStr(e)


def concat_str(parts):
    acc = []
    for p in parts:
        if isinstance(p, str):
            if p == '':
                continue
            if acc and isinstance(acc[-1], str):
                acc[-1] += p
                continue
        acc.append(p)
    if not acc:
        return ''
    if len(acc) == 1:
        return acc[0]
    return SStr(z3.Concat(*[zs(p) for p in acc]))


def str_parts(v):
    """flatten a string into a list of concrete texts and z3 atoms"""
    if isinstance(v, str):
        return [v] if v else []
    out = []
    def rec(e):
        if z3.is_string_value(e):
            t = z3str(e)
            if t:
                if out and isinstance(out[-1], str):
                    out[-1] += t
                else:
                    out.append(t)
        elif e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in e.children():
                rec(c)
        else:
            out.append(e)
    rec(v.e)
    return out


# ------------------------------------------------------------------ floats
def zf(ctx, v):
    if isinstance(v, SFloat):
        return v.e
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)):
        return z3.Const('fl:%r' % (float(v),), FlSort)
    if isinstance(v, SInt):
        return ctx.func('i2f', (IntSort,), FlSort)(v.e)
    if isinstance(v, SBool):
        return ctx.func('i2f', (IntSort,), FlSort)(zi(v))
    if isinstance(v, SAny):
        return ctx.func('any2f', (AnySort,), FlSort)(v.e)
    raise Unsupported('not a float: %r' % (v,))


# ------------------------------------------------------------------ bytes
def as_bytes(v):
    """bytes | SBytes of any bytes-like value"""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, SBytes):
        return v
    if isinstance(v, SBuf):
        return v.val
    return None


def segs_of(b):
    if isinstance(b, bytes):
        return (BConst(b),) if b else ()
    return b.segs


def utflen(ctx, se):
    f = ctx.func('utf8len', (StrSort,), IntSort)
    r = f(se)
    n = t_len(ctx, se)
    ctx.assume(r >= n)
    ctx.assume(r <= 4 * n)
    return r


def seg_len(ctx, s):
    if isinstance(s, BConst):
        return IV(len(s.b))
    if isinstance(s, BSlice):
        return s.len
    if isinstance(s, (BInt, BFlt)):
        return IV(s.n)
    if isinstance(s, BUtf):
        return utflen(ctx, s.s)
    raise Unsupported('segment')


def bytes_len(ctx, b):
    if isinstance(b, bytes):
        return IV(len(b))
    e = IV(0)
    for s in b.segs:
        e = e + seg_len(ctx, s)
    return simp(e)


def norm_bytes(segs):
    out = []
    for s in segs:
        if isinstance(s, BConst):
            if not s.b:
                continue
            if out and isinstance(out[-1], BConst):
                out[-1] = BConst(out[-1].b + s.b)
                continue
        elif isinstance(s, BSlice):
            if z3.is_int_value(s.len) and s.len.as_long() <= 0:
                continue
            if out and isinstance(out[-1], BSlice) and out[-1].arr.eq(s.arr):
                p = out[-1]
                if simp(p.off + p.len - s.off).eq(IV(0)):
                    out[-1] = BSlice(p.arr, p.off, simp(p.len + s.len))
                    continue
        elif isinstance(s, BInt) and z3.is_int_value(s.val):
            c = BConst((s.val.as_long() % (1 << (8 * s.n))).to_bytes(s.n, 'little'))
            if out and isinstance(out[-1], BConst):
                out[-1] = BConst(out[-1].b + c.b)
            else:
                out.append(c)
            continue
        out.append(s)
    if not out:
        return b''
    if len(out) == 1 and isinstance(out[0], BConst):
        return out[0].b
    return SBytes(out)


def utf_segs(s):
    out = []
    for p in str_parts(s):
        if isinstance(p, str):
            out.append(BConst(p.encode('utf-8')))
        else:
            out.append(BUtf(p))
    return out


def seg_byte(ctx, s, k):
    """byte k (z3 int, in range) of a segment"""
    if isinstance(s, BConst):
        if z3.is_int_value(k):
            i = k.as_long()
            return IV(s.b[i]) if 0 <= i < len(s.b) else IV(0)
        e = IV(0)
        for i, c in enumerate(s.b):
            e = z3.If(k == i, IV(c), e)
        return e
    if isinstance(s, BSlice):
        e = simp(z3.Select(s.arr, s.off + k))
        if not z3.is_int_value(e):
            ctx.assume(z3.And(e >= 0, e <= 255))
        return e
    if isinstance(s, BInt):
        m = s.val % IV(1 << (8 * s.n))
        e = None
        for i in range(s.n - 1, -1, -1):
            c = (m / IV(1 << (8 * i))) % 256
            if z3.is_int_value(k):
                if k.as_long() == i:
                    return simp(c)
            e = c if e is None else z3.If(k == i, c, e)
        return e
    if isinstance(s, BUtf):
        f = ctx.func('utf8byte', (StrSort, IntSort), IntSort)
        e = f(s.s, k)
        ctx.assume(z3.And(e >= 0, e <= 255))
        return e
    if isinstance(s, BFlt):
        f = ctx.func('fltbyte%d' % s.n, (FlSort, IntSort), IntSort)
        e = f(s.f, k)
        ctx.assume(z3.And(e >= 0, e <= 255))
        return e
    raise Unsupported('segment')


def byte_at(ctx, b, k):
    """byte at index k (z3 int assumed within range)"""
    k = simp(k)
    segs = segs_of(b)
    off = IV(0)
    parts = []
    for s in segs:
        n = seg_len(ctx, s)
        kk = simp(k - off)
        end = simp(off + n)
        if z3.is_int_value(kk) and z3.is_int_value(simp(n)):
            i = kk.as_long(); m = simp(n).as_long()
            if i < 0:
                pass
            elif i < m and not parts:
                return seg_byte(ctx, s, kk)
            elif i >= m:
                off = end
                continue
        parts.append((end, s, kk))
        off = end
    if not parts:
        return IV(0)
    e = seg_byte(ctx, parts[-1][1], parts[-1][2])
    for end, s, kk in reversed(parts[:-1]):
        e = z3.If(k < end, seg_byte(ctx, s, kk), e)
    return simp(e)


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


def clamp(ctx, i, ln):
    """python slice bound (z3 int or None) -> 0..len"""
    i = simp(i)
    if z3.is_int_value(i):
        if i.as_long() >= 0:
            if i.as_long() == 0:
                return IV(0)
            return zclip(ctx, i, ln)
        return zclip0(ctx, simp(ln + i))
    if ctx.prove(i >= 0):
        return zclip(ctx, i, ln)
    if ctx.decide(i >= 0):
        return zclip(ctx, i, ln)
    return zclip0(ctx, simp(ln + i))


def zclip(ctx, i, ln):
    if simp(i - ln).eq(IV(0)):
        return ln
    if ctx.prove(i <= ln):
        return i
    return zmin(i, ln)


def zclip0(ctx, i):
    if ctx.prove(i >= 0):
        return i
    return zmax(i, IV(0))


def bytes_slice(ctx, b, lo, hi):
    """b[lo:hi] with z3 bounds (None = open)"""
    ln = bytes_len(ctx, b)
    a = IV(0) if lo is None else clamp(ctx, lo, ln)
    e = ln if hi is None else clamp(ctx, hi, ln)
    if not ctx.prove(a <= e):
        e = zmax(a, e)
    return bytes_cut(ctx, b, simp(a), simp(e))


def bytes_cut(ctx, b, a, e):
    """b[a:e] for 0 <= a <= e <= len"""
    segs = segs_of(b)
    if isinstance(b, bytes):
        if z3.is_int_value(a) and z3.is_int_value(e):
            return b[a.as_long():e.as_long()]
    out = []
    off = IV(0)
    if len(segs) == 1 and isinstance(segs[0], BSlice):
        s = segs[0]
        return norm_bytes([BSlice(s.arr, simp(s.off + a), simp(e - a))])
    # locate both bounds in the segment list
    started = False
    if simp(a - e).eq(IV(0)):
        return b''
    for s in segs:
        n = simp(seg_len(ctx, s))
        end = simp(off + n)
        if not started:
            if not pdec(ctx, a < end):
                off = end
                continue
            started = True
            st = simp(a - off)
        else:
            st = IV(0)
        if pdec(ctx, e >= end):
            out.append(seg_cut(ctx, s, st, n))
            off = end
            if simp(e - end).eq(IV(0)):
                break
            continue
        out.append(seg_cut(ctx, s, st, simp(e - off)))
        break
    return norm_bytes([o for o in out if o is not None])


def pdec(ctx, e):
    return ctx.decide(e)


def seg_cut(ctx, s, a, e):
    a = simp(a); e = simp(e)
    n = simp(seg_len(ctx, s))
    if simp(a).eq(IV(0)) and simp(e - n).eq(IV(0)):
        return s
    if isinstance(s, BSlice):
        return BSlice(s.arr, simp(s.off + a), simp(e - a))
    if z3.is_int_value(a) and z3.is_int_value(e):
        i, j = a.as_long(), e.as_long()
        if i >= j:
            return None
        if isinstance(s, BConst):
            return BConst(s.b[i:j])
        if isinstance(s, BInt):
            m = s.val % IV(1 << (8 * s.n))
            return BInt(simp((m / IV(1 << (8 * i))) % IV(1 << (8 * (j - i)))), j - i)
    if ctx.decide(a >= e):
        return None
    if ctx.prove(z3.And(a == 0, e == n)):
        return s
    if isinstance(s, BConst):
        # enumerate concrete cuts
        aa = concretize(ctx, a, 0, len(s.b))
        ee = concretize(ctx, e, 0, len(s.b))
        return BConst(s.b[aa:ee])
    raise Unsupported('cut through an encoded value')


def concretize(ctx, e, lo, hi):
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    for k in range(lo, hi):
        if ctx.decide(e == k):
            return k
    return hi


def bytes_eq(ctx, a, b):
    """z3/py bool: exact equality of two byte strings.  For obligations an
    element-wise comparison at a fresh index is used, see bytes_eq_skolem"""
    a = norm_bytes(segs_of(a)); b = norm_bytes(segs_of(b))
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    r = _struct_eq(ctx, segs_of(a), segs_of(b))
    if r is not None:
        return r
    la, lb = bytes_len(ctx, a), bytes_len(ctx, b)
    for x, y in ((la, lb), (lb, la)):
        x = simp(x)
        if z3.is_int_value(x) and x.as_long() <= 64:
            n = x.as_long()
            return z3.And(y == n, *[byte_at(ctx, a, IV(i)) == byte_at(ctx, b, IV(i)) for i in range(n)])
    return None


def _struct_eq(ctx, sa, sb):
    """equality through aligned segments; None when they do not align"""
    if len(sa) != len(sb):
        return None
    conds = []
    for x, y in zip(sa, sb):
        if type(x) is not type(y):
            return None
        if isinstance(x, BConst):
            if x.b != y.b:
                return False if len(x.b) == len(y.b) and all(
                    z3.is_int_value(simp(seg_len(ctx, q))) for q in list(sa) + list(sb)) else None
        elif isinstance(x, BSlice):
            if not x.arr.eq(y.arr):
                return None
            d = simp(z3.And(x.len == y.len, z3.Or(x.len == 0, x.off == y.off)))
            if z3.is_false(d):
                return None
            if not z3.is_true(d):
                if not ctx.prove(d):
                    return None
        elif isinstance(x, BInt):
            if x.n != y.n:
                return None
            m = IV(1 << (8 * x.n))
            if not x.val.eq(y.val):
                conds.append(x.val % m == y.val % m)
        elif isinstance(x, BUtf):
            if not x.s.eq(y.s):
                conds.append(x.s == y.s)
        elif isinstance(x, BFlt):
            if x.n != y.n:
                return None
            if not x.f.eq(y.f):
                conds.append(x.f == y.f)
    if not conds:
        return True
    return z3.And(*conds)


def bytes_same(ctx, a, b):
    """equality as a proof goal: lengths and the byte at an arbitrary index"""
    r = bytes_eq(ctx, a, b)
    if r is not None:
        return r
    i = z3.Int(ctx.fresh('i'))
    la, lb = bytes_len(ctx, a), bytes_len(ctx, b)
    return z3.And(la == lb, z3.Implies(z3.And(i >= 0, i < la),
                                       byte_at(ctx, a, i) == byte_at(ctx, b, i)))


def utf8_decode(ctx, b, errors):
    """str(b, 'utf-8', errors); may raise UnicodeDecodeError"""
    b = as_bytes(b)
    if isinstance(b, bytes):
        try:
            return b.decode('utf-8', errors)
        except UnicodeDecodeError as e:
            raise PyExc(UnicodeDecodeError, e.args)
    segs = b.segs
    if all(isinstance(s, BUtf) or isinstance(s, BConst) for s in segs):
        parts = []
        try:
            for s in segs:
                parts.append(s.b.decode('utf-8') if isinstance(s, BConst) else SStr(s.s))
            return concat_str(parts)
        except UnicodeDecodeError:
            raise Unsupported('decoding of mixed bytes')
    if len(segs) != 1 or not isinstance(segs[0], BSlice):
        raise Unsupported('decoding of composed bytes %r' % (segs,))
    s = segs[0]
    # content seen from its own start, so that equal contents decode equally
    if errors == 'strict':
        ok = ctx.func('utf8ok', (ByteArr, IntSort, IntSort), BoolSort)(s.arr, s.off, s.len)
        if not ctx.decide(ok):
            raise PyExc(UnicodeDecodeError)
        name = 'utf8dec'
        r = ctx.func(name, (ByteArr, IntSort, IntSort), StrSort)(s.arr, s.off, s.len)
        ctx.assume(utflen(ctx, r) == s.len)
    else:
        ok = ctx.func('utf8ok', (ByteArr, IntSort, IntSort), BoolSort)(s.arr, s.off, s.len)
        r = ctx.func('utf8dec_' + errors, (ByteArr, IntSort, IntSort), StrSort)(s.arr, s.off, s.len)
        ctx.assume(z3.Implies(ok, r == ctx.func('utf8dec', (ByteArr, IntSort, IntSort), StrSort)(
            s.arr, s.off, s.len)))
        if errors == 'ignore':
            ctx.assume(utflen(ctx, r) <= s.len)
    ctx.assume(z3.Implies(s.len == 0, r == z3.StringVal('')))
    ctx.assume(z3.Implies(s.len == 0, ok))
    return SStr(r)


# ------------------------------------------------------------------ struct
CODES = {'b': (1, 's'), 'B': (1, 'u'), 'h': (2, 's'), 'H': (2, 'u'), 'i': (4, 's'), 'I': (4, 'u'),
         'q': (8, 's'), 'Q': (8, 'u'), 'f': (4, 'f'), 'd': (8, 'f'), '?': (1, '?'), 'c': (1, 'c')}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported('symbolic struct format')
    order = ''
    if fmt and fmt[0] in '<>=@!':
        order = fmt[0]
        fmt = fmt[1:]
    out = []
    num = ''
    for c in fmt:
        if c.isdigit():
            num += c
            continue
        if c not in CODES:
            raise Unsupported('struct code ' + c)
        out.extend([c] * (int(num) if num else 1))
        num = ''
    if order in ('>', '!'):
        raise Unsupported('big endian struct')
    if order in ('', '@') and any(CODES[c][0] > 1 for c in out) and len(out) > 1:
        raise Unsupported('native alignment')
    return out


def unpack(ctx, fmt, data):
    codes = parse_fmt(fmt)
    data = as_bytes(data)
    if data is None:
        raise PyExc(TypeError)
    size = sum(CODES[c][0] for c in codes)
    ln = bytes_len(ctx, data)
    if not ctx.decide(ln == size):
        raise PyExc(struct.error)
    out = []
    off = 0
    for c in codes:
        n, k = CODES[c]
        out.append(unpack_one(ctx, data, off, n, k))
        off += n
    return tuple(out)


def unpack_one(ctx, data, off, n, k):
    # direct hit on an encoded value
    pos = 0
    for s in segs_of(data):
        m = simp(seg_len(ctx, s))
        if not z3.is_int_value(m):
            break
        if pos == off and isinstance(s, BInt) and s.n == n and k in 'us':
            v = s.val
            lo, hi = (0, (1 << (8 * n)) - 1) if k == 'u' else (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            if ctx.prove(z3.And(v >= lo, v <= hi)):
                return mk_int(v)
        if pos == off and isinstance(s, BFlt) and s.n == n and k == 'f':
            return SFloat(s.f, n)
        pos += m.as_long()
        if pos > off:
            break
    bs = [byte_at(ctx, data, IV(off + i)) for i in range(n)]
    if k == 'c':
        return norm_bytes(bytes_cut(ctx, data, IV(off), IV(off + 1)).segs) if isinstance(data, SBytes) \
            else data[off:off + 1]
    if k == '?':
        return mk_bool(bs[0] != 0)
    if k == 'f':
        if all(z3.is_int_value(b) for b in bs):
            return struct.unpack('<f' if n == 4 else '<d', bytes(b.as_long() for b in bs))[0]
        f = ctx.func('unflt%d' % n, (IntSort,) * n, FlSort)
        return SFloat(f(*bs), n)
    v = bs[0]
    for i in range(1, n):
        v = v + bs[i] * IV(1 << (8 * i))
    v = simp(v)
    if k == 's':
        v = z3.If(bs[n - 1] >= 128, v - IV(1 << (8 * n)), v)
    return mk_int(v)


def pack(ctx, fmt, args):
    codes = parse_fmt(fmt)
    if len(codes) != len(args):
        raise PyExc(struct.error)
    segs = []
    for c, v in zip(codes, args):
        n, k = CODES[c]
        if isinstance(v, SAny):         # what is packed is a function of the value
            if not ctx.decide(ctx.func('packable:' + c, (AnySort,), BoolSort)(v.e)):
                raise PyExc(struct.error)
            segs.append(BInt(ctx.func('packed:' + c, (AnySort,), IntSort)(v.e), n))
            continue
        if k in 'us':
            if not is_int(v):
                if isinstance(v, (SObj, SList, SDict, SStr, str, SFloat, float, bytes, SBytes, type(None), tuple)):
                    raise PyExc(struct.error)
                raise Unsupported('pack of %r' % (v,))
            e = zi(v)
            lo, hi = (0, (1 << (8 * n)) - 1) if k == 'u' else (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            if not ctx.decide(z3.And(e >= lo, e <= hi)):
                raise PyExc(struct.error)
            segs.append(BInt(simp(e), n))
        elif k == '?':
            if isinstance(v, bool):
                segs.append(BConst(b'\1' if v else b'\0'))
            elif isinstance(v, (SBool, int, SInt)):
                e = v.e if isinstance(v, SBool) else (zi(v) != 0)
                segs.append(BInt(z3.If(e, IV(1), IV(0)), 1))
            elif isinstance(v, SFloat):
                segs.append(BInt(z3.If(ctx.func('fl_truth', (FlSort,), BoolSort)(v.e), IV(1), IV(0)), 1))
            elif isinstance(v, SStr):
                segs.append(BInt(z3.If(z3.Length(v.e) > 0, IV(1), IV(0)), 1))
            elif isinstance(v, SBytes):
                segs.append(BInt(z3.If(bytes_len(ctx, v) > 0, IV(1), IV(0)), 1))
            elif isinstance(v, (str, bytes, float, type(None))):
                segs.append(BConst(b'\1' if v else b'\0'))
            else:
                raise Unsupported('pack ? of %r' % (v,))
        elif k == 'f':
            if isinstance(v, float):
                segs.append(BConst(struct.pack('<f' if n == 4 else '<d', v)))
            elif isinstance(v, SFloat):
                if n == 4 and v.w != 4:
                    ok = ctx.func('fits_f32', (FlSort,), BoolSort)(v.e)
                    if not ctx.decide(ok):
                        raise PyExc(OverflowError)
                    segs.append(BFlt(ctx.func('round32', (FlSort,), FlSort)(v.e), n))
                else:
                    segs.append(BFlt(v.e, n))
            elif is_int(v):
                segs.append(BFlt(zf(ctx, v), n))
            else:
                raise PyExc(struct.error)
        elif k == 'c':
            b = as_bytes(v)
            if b is None:
                raise PyExc(struct.error)
            if not ctx.decide(bytes_len(ctx, b) == 1):
                raise PyExc(struct.error)
            segs.extend(segs_of(b))
    return norm_bytes(segs)


# ------------------------------------------------------------------ strings
def fmt_int(v):
    if isinstance(v, (bool, int)):
        return str(int(v))
    e = zi(v)
    return mk_str(z3.If(e < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-e)), z3.IntToStr(e)))


def fmt_int_nn(ctx, v):
    if isinstance(v, SInt) and ctx.prove(v.e >= 0):
        return mk_str(z3.IntToStr(v.e))
    return fmt_int(v)


def to_text(ctx, v, spec=''):
    """str(v) / format(v, spec)"""
    if spec == '':
        if isinstance(v, str) or isinstance(v, SStr):
            return v
        if isinstance(v, (bool, SBool)):
            if isinstance(v, bool):
                return str(v)
            return mk_str(z3.If(v.e, z3.StringVal('True'), z3.StringVal('False')))
        if isinstance(v, (int, SInt)):
            return fmt_int_nn(ctx, v)
        if isinstance(v, float) or v is None:
            return str(v)
        if isinstance(v, SFloat):
            return SStr(ctx.func('fltstr_%s' % ('np%d' % v.w if v.np else ''), (FlSort,), StrSort)(v.e))
        if isinstance(v, bytes):
            return str(v)
        if isinstance(v, SBytes) and len(v.segs) == 1 and isinstance(v.segs[0], BSlice):
            s = v.segs[0]
            return SStr(ctx.func('bytesrepr', (ByteArr, IntSort, IntSort), StrSort)(s.arr, s.off, s.len))
        if isinstance(v, SAny):
            return SStr(ctx.func('any_str', (AnySort,), StrSort)(v.e))
        if isinstance(v, type):
            return str(v)
        if type(v).__name__ == 'TypeOf':
            return v.name(ctx)
        raise Unsupported('str() of %r' % (v,))
    if not is_sym(v) and not isinstance(v, HObj):
        return format(v, spec)
    if is_int(v):
        return SStr(ctx.func('fmt_i:' + spec, (IntSort,), StrSort)(zi(v)))
    if isinstance(v, SFloat):
        return SStr(ctx.func('fmt_f:' + spec, (FlSort,), StrSort)(v.e))
    if isinstance(v, SStr):
        return SStr(ctx.func('fmt_s:' + spec, (StrSort,), StrSort)(v.e))
    if isinstance(v, SAny):
        return SStr(ctx.func('fmt_a:' + spec, (AnySort,), StrSort)(v.e))
    raise Unsupported('format of %r' % (v,))


def percent_format(ctx, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            j = fmt.find('%', i)
            j = len(fmt) if j < 0 else j
            out.append(fmt[i:j])
            i = j
            continue
        j = i + 1
        while fmt[j] in '0123456789.+- #':
            j += 1
        spec, conv = fmt[i + 1:j], fmt[j]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        if not args:
            raise PyExc(TypeError)
        v = args.pop(0)
        if not is_sym(v) and not isinstance(v, HObj):
            try:
                out.append(('%' + spec + conv) % v)
            except TypeError:
                raise PyExc(TypeError)
            continue
        if conv == 's' and spec == '':
            out.append(to_text(ctx, v))
        elif conv in 'di' and is_int(v):
            out.append(fmt_int_nn(ctx, v) if spec == '' else
                       SStr(ctx.func('fmt_i:' + spec + 'd', (IntSort,), StrSort)(zi(v))))
        elif conv in 'di' and isinstance(v, SFloat):
            e = ctx.func('f2i', (FlSort,), IntSort)(v.e)
            out.append(fmt_int(SInt(e)) if spec == '' else
                       SStr(ctx.func('fmt_i:' + spec + 'd', (IntSort,), StrSort)(e)))
        elif conv in 'xXoc' and is_int(v):
            out.append(SStr(ctx.func('fmt_i:' + spec + conv, (IntSort,), StrSort)(zi(v))))
        elif conv in 'feg' and (is_int(v) or isinstance(v, SFloat)):
            out.append(SStr(ctx.func('fmt_f:' + spec + conv, (FlSort,), StrSort)(zf(ctx, v))))
        elif conv in 'di':
            raise PyExc(TypeError)
        elif conv == 's':
            out.append(to_text(ctx, v, spec))
        else:
            raise Unsupported('%' + conv)
    if args:
        raise PyExc(TypeError)
    return concat_str(out)


# ------------------------------------------------------------------ text
# Searching in texts is uninterpreted: has(s), index(s), before(s), after(s) for
# every separator, related by their defining facts.  Constants are evaluated.
POOL = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t',
        'float', 'double', 'bool', 'char', '']


def lit(e):
    return z3str(e) if z3.is_string_value(e) else None


def t_has(ctx, s, sep):
    c = lit(s)
    if c is not None:
        return z3.BoolVal(sep in c)
    ctx.path_abstract = True
    r = known_has(ctx, s, sep)
    if r is not None:
        return z3.BoolVal(r)
    f = ctx.func('has:' + sep, (StrSort,), BoolSort)
    e = f(s)
    for k in POOL:
        if sep not in k:
            ctx.assume(z3.Implies(e, s != z3.StringVal(k)))
    return e


def known_has(ctx, s, sep):
    """structural knowledge: None when unknown"""
    if z3.is_app(s):
        n = s.decl().name()
        if n == 'before:' + sep:
            return False
        if n.startswith('dec(') and not (sep.isdigit() or sep == '-'):
            return False
    if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        rs = [known_has(ctx, x, sep) if lit(x) is None else (sep in lit(x)) for x in s.children()]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs) and len(sep) == 1:
            return False
        if len(sep) == 1:
            return None
    if s.decl().kind() in (z3.Z3_OP_INT_TO_STR,) and not sep.isdigit():
        return False
    return None


def pieces(s):
    """of a concatenation, however it is nested"""
    if s.decl().kind() != z3.Z3_OP_SEQ_CONCAT:
        return [s]
    return [y for x in s.children() for y in pieces(x)]


def code_of(ctx, s):
    """the number c of the text chr(c), when s was made so"""
    if s.decl().kind() == z3.Z3_OP_STR_FROM_CODE and ctx.prove(z3.And(s.arg(0) >= 0, s.arg(0) < 0x30000)):
        return s.arg(0)
    return None


def characters(ctx, s):
    """of a text made of single characters, else None"""
    r = []
    for x in pieces(s):
        c = lit(x)
        if c is None and code_of(ctx, x) is None:
            return None
        r += [SStr(x)] if c is None else list(c)
    return r


def concat_split(ctx, s, sep):
    """(before, after) of a concatenation whose first separator is known"""
    if s.decl().kind() != z3.Z3_OP_SEQ_CONCAT or len(sep) != 1:
        return None
    ch = pieces(s)
    pre = []
    for i, x in enumerate(ch):
        c = lit(x)
        if c is not None:
            if sep in c:
                a, b = c.split(sep, 1)
                return join_parts(pre + [z3.StringVal(a)]), join_parts([z3.StringVal(b)] + ch[i + 1:])
            pre.append(x)
            continue
        if not ctx.prove(z3.Not(t_has(ctx, x, sep))):
            return None
        pre.append(x)
    return None


def join_parts(parts):
    return zs(concat_str([lit(p) if lit(p) is not None else SStr(p) for p in parts]))


def t_before(ctx, s, sep):
    c = lit(s)
    if c is not None:
        return z3.StringVal(c.split(sep, 1)[0])
    r = concat_split(ctx, s, sep)
    if r is not None:
        return r[0]
    e = ctx.func('before:' + sep, (StrSort,), StrSort)(s)
    ctx.assume(z3.Not(ctx.func('has:' + sep, (StrSort,), BoolSort)(e)))
    return e


def t_after(ctx, s, sep):
    c = lit(s)
    if c is not None:
        return z3.StringVal(c.split(sep, 1)[1])
    r = concat_split(ctx, s, sep)
    if r is not None:
        return r[1]
    return ctx.func('after:' + sep, (StrSort,), StrSort)(s)


def t_index(ctx, s, sep):
    c = lit(s)
    if c is not None:
        return IV(c.find(sep))
    r = concat_split(ctx, s, sep)
    if r is not None:
        return t_len(ctx, r[0])
    h = t_has(ctx, s, sep)
    e = ctx.func('index:' + sep, (StrSort,), IntSort)(s)
    ctx.assume(e >= -1)
    ctx.assume(h == (e >= 0))
    ctx.index_terms[e.get_id()] = (e, s, sep)
    return e


def t_len(ctx, s):
    c = lit(s)
    if c is not None:
        return IV(len(c))
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        e = IV(0)
        for x in s.children():
            e = e + t_len(ctx, x)
        return simp(e)
    e = ctx.func('strlen', (StrSort,), IntSort)(s)
    ctx.assume(e >= 0)
    ctx.assume((e == 0) == (s == z3.StringVal('')))
    return e


def str_find(ctx, a, b, start=None):
    s = zs(a); c = lit(zs(b))
    if c is None:
        raise Unsupported('find of a symbolic text')
    if start is not None and not simp(start).eq(IV(0)):
        f = ctx.func('index_from:' + c, (StrSort, IntSort), IntSort)
        e = f(s, start)
        ctx.assume(e >= -1)
        ctx.path_abstract = True
        return mk_int(e)
    return mk_int(t_index(ctx, s, c))


def cut_pieces(ctx, s, lo, hi):
    """the part of a concatenation between two places at known offsets from the starts of its pieces"""
    ps = pieces(s)
    if len(ps) < 2:
        return None
    at = IV(0)
    out = None
    for p in ps:
        n = t_len(ctx, p)
        c = lit(p)
        a, b = 0, None
        if out is None:
            d = simp(lo - at)
            if not z3.is_int_value(d) or d.as_long() < 0 or c is None and d.as_long() != 0 or c is not None and d.as_long() > len(c):
                at = simp(at + n)
                continue
            a = d.as_long()
            out = []
        if hi is not None:
            d = simp(hi - at)
            if z3.is_int_value(d):
                d = d.as_long()
                if d == 0 and not a:
                    return join_parts(out) if out else z3.StringVal('')
                if c is not None and a <= d <= len(c):
                    return join_parts(out + [z3.StringVal(c[a:d])])
        out.append(z3.StringVal(c[a:]) if c is not None else p)
        at = simp(at + n)
    if out is None or hi is not None and not simp(hi - at).eq(IV(0)):
        return None
    return join_parts(out)


def str_slice(ctx, s, lo, hi):
    e = zs(s)
    if isinstance(s, str) and (lo is None or z3.is_int_value(simp(lo))) and (hi is None or z3.is_int_value(simp(hi))):
        return s[None if lo is None else simp(lo).as_long():None if hi is None else simp(hi).as_long()]
    ctx.path_abstract = True
    lo = None if lo is None else simp(lo)
    hi = None if hi is None else simp(hi)
    if lo is not None and lo.eq(IV(0)):
        lo = None
    if lo is None and hi is None:
        return s
    for (t, ts, sep) in list(ctx.index_terms.values()):
        if not ts.eq(e):
            continue
        if lo is None and hi is not None and hi.eq(t) and ctx.prove(t >= 0):
            return mk_str(t_before(ctx, e, sep))
        if hi is None and lo is not None and simp(lo - t - len(sep)).eq(IV(0)) and ctx.prove(t >= 0):
            return mk_str(t_after(ctx, e, sep))
    r = cut_pieces(ctx, e, IV(0) if lo is None else lo, hi)
    if r is not None:
        return mk_str(r)
    ln = t_len(ctx, e)
    f = ctx.func('substr', (StrSort, IntSort, IntSort), StrSort)
    r = f(e, IV(0) if lo is None else lo, ln if hi is None else hi)
    if lo is None:
        a = IV(0)
    else:
        a = z3.If(lo >= 0, lo, zmax(ln + lo, IV(0)))
    b = ln if hi is None else z3.If(hi >= 0, zmin(hi, ln), ln + hi)
    ctx.assume(t_len(ctx, r) == zmax(b - a, IV(0)))
    return mk_str(r)


def split_item(ctx, sp, i):
    """element i (concrete) of s.split(sep): None when there are fewer"""
    s, sep = sp.s, sp.sep
    rest = s
    for _ in range(i):
        if not ctx.decide(t_has(ctx, rest, sep)):
            return None
        rest = t_after(ctx, rest, sep)
    if ctx.decide(t_has(ctx, rest, sep)):
        return mk_str(t_before(ctx, rest, sep))
    return mk_str(rest)
