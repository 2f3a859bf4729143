"""C01-C11: reading, writing, comparing"""
import io
import struct
import copy
from . import ulg
from .gen import Gen, TEXTS


def load(b, **k):
    from pyulog import ULog
    return ULog(io.BytesIO(b), **k)


def join(case):
    return b''.join(bytes.fromhex(x) for x in case['parts'])


def mk(parts, **args):
    return {'parts': [p.hex() for p in parts], 'args': args}


DEFS = ['version', 'start', 'info', 'multi', 'initial', 'defaults', 'formats', 'appended', 'has_defaults']


def against(case, keys, topics=None, strict=True):
    b = join(case)
    try:
        want = ulg.Ref(b, topics)
    except ulg.Refused as e:
        if e.what == 'cut':
            return []
        try:
            load(b)
        except Exception as x:
            return [] if type(x).__name__ == e.what else ['refused with %r instead of %s' % (x, e.what)]
        return ['not refused: ' + e.what]
    try:
        u = load(b) if topics is None else load(b, message_name_filter_list=topics)
    except Exception as x:
        return ['loading raised %r' % x]
    return ulg.differ(ulg.ulog_view(u), want.view(), keys)


# ---------------------------------------------------------------- C01
class C01:
    def gen(self, g):
        r = g.r
        fl = None
        q = r.random()
        if q < 0.45:
            compat = [r.randrange(256) for _ in range(8)] if g.chance(0.5) else [1] + [0] * 7
            inc = [0] * 8
            if g.chance(0.2):
                inc[r.randrange(8)] = g.pick([1, 2, 3, 128, 255])
            if inc[0] & 1:
                inc[0] = g.pick([1, inc[0]])
            fl = ulg.flags(compat, inc, (0, 0, 0), g.pick([b'', b'', b'more']))
        defs = g.definitions(fl, bad=g.chance(0.5))
        if g.chance(0.3):
            defs += g.formats(1)
        h = g.header()
        if g.chance(0.08):
            k = r.randrange(7)
            h = h[:k] + bytes([h[k] ^ g.pick([1, 0x80, 0xff])]) + h[k + 1:]
        data = g.data(r.randrange(0, 6))if g.chance(0.7) else []
        return mk([h] + defs + data)

    def check(self, case):
        b = join(case)
        bad = against(case, DEFS)
        if bad:
            return bad
        # the corruption flag as far as the definitions decide it
        try:
            want = ulg.Ref(b, header_only=True)
        except ulg.Refused:
            return []
        cut = b[:want.data_start]
        u = load(cut)
        return ulg.differ(ulg.ulog_view(u), want.view(), DEFS + ['corrupt'])


# ---------------------------------------------------------------- C02
class C02:
    def gen(self, g):
        defs = g.definitions()
        g.formats()
        return mk([g.header()] + list(g.formats(2)) + defs[:3] + g.data(g.r.randrange(1, 50)))

    def check(self, case):
        return against(case, ['texts', 'tagged', 'dropouts', 'changed', 'last'])


# ---------------------------------------------------------------- C03
class C03:
    def gen(self, g):
        return mk([g.header()] + list(g.formats(g.r.randrange(1, 4))) + g.data(g.r.randrange(1, 50)))

    def check(self, case):
        return against(case, ['data'])


# ---------------------------------------------------------------- C04
def odd_messages(g):
    def wrong_size(live):
        if not live:
            return ulg.sample(99, b'12345678')
        t = g.pick(live)
        n = g.pick([0, t.size - 1, t.full + 1, 1, t.full + 200, t.size // 2])
        n = max(n, 0)
        if t.size <= n <= t.full:
            n = t.full + 1
        return ulg.sample(t.mid, bytes(g.r.randrange(256) for _ in range(n)))

    def unknown_id(live):
        return ulg.sample(g.pick([60, 61, 4000]), bytes(g.r.randrange(20)))

    def undecodable(live):
        return g.pick([ulg.message('D', b''), ulg.message('D', b'\1'), ulg.message('L', b'abc'),
                       ulg.message('C', b'abcdefgh'), ulg.message('O', b'\1'), ulg.message('O', b'\1\2\3'),
                       ulg.message('I', b'\0'), ulg.message('I', b'\xff'), ulg.info('nospace', b'a'),
                       ulg.info('int32_t X', b'abc', 'P'), ulg.info('int32_t x', b'abc'),
                       ulg.info('one', b'x', 'M', b'\1'), ulg.info('one', b'xxxx', 'Q', b'\3'),
                       ulg.message('Q', b'\1'), ulg.message('M', b'\1'), ulg.message('P', b'\x05a'),
                       ulg.announce('no_such_topic', 7, 0), ulg.message('A', b'\1'), ulg.message('A', b'\1\2')])
    return [wrong_size, wrong_size, unknown_id, undecodable]


class C04:
    def gen(self, g):
        noisy = g.chance(0.75)
        fm = list(g.formats(g.r.randrange(1, 4)))
        data = g.data(g.r.randrange(1, 40), extra=odd_messages(g) if noisy else ())
        if noisy:
            odd = odd_messages(g)
            for _ in range(g.r.randrange(1, 6)):
                data.insert(g.r.randrange(1, len(data) + 1), g.pick(odd)(g.topics))
        topics = None
        if g.chance(0.3):
            topics = g.r.sample(g.tops, g.r.randrange(0, len(g.tops) + 1)) + ['none']
        return mk([g.header()] + fm + data, topics=topics)

    def check(self, case):
        keys = ['data', 'last', 'corrupt', 'texts', 'tagged', 'dropouts', 'changed', 'info', 'multi', 'defaults']
        return against(case, keys, case['args'].get('topics'))


# ---------------------------------------------------------------- C05
class C05:
    def gen(self, g):
        fm = g.definitions()
        noisy = g.chance(0.3)
        data = g.data(g.r.randrange(1, 25), extra=odd_messages(g) if noisy else ())
        parts = [g.header()] + fm + data
        start = len(b''.join([parts[0]] + fm))
        first = len(data[0])
        total = len(b''.join(parts))
        cut = g.r.randrange(start + first, total + 1) if g.chance(0.8) else g.r.randrange(start, start + first + 1)
        return mk(parts, cut=cut, defs=1 + len(fm))

    def check(self, case):
        ps = [bytes.fromhex(x) for x in case['parts']]
        b = b''.join(ps)
        cut = min(case['args']['cut'], len(b))
        start = sum(len(p) for p in ps[:case['args']['defs']])
        if case['args']['defs'] >= len(ps) or cut < start:
            return []
        end = 0
        for p in ps:
            if end + len(p) > cut:
                break
            end += len(p)
        try:
            u = load(b[:cut])
        except Exception as x:
            return ['loading raised %r' % x]
        try:
            v = load(b[:end])
        except Exception as x:
            return []
        bad = ulg.differ(ulg.ulog_view(u), ulg.ulog_view(v), list(ulg.ulog_view(v)))
        if bad:
            return bad
        w = ulg.Ref(b[:end])
        keys = ['texts', 'tagged', 'dropouts', 'changed', 'data', 'last']
        return ulg.differ(ulg.ulog_view(u), w.view(), keys)


# ---------------------------------------------------------------- C06
def junk(g, n):
    return bytes(g.r.randrange(256) for _ in range(n))


class C06:
    def corruption(self, g):
        r = g.r
        q = r.random()
        tail = g.pick([b'', ulg.sync(), ulg.sync(), ulg.MARK, ulg.sync()[:8], b'\0' * 3 + ulg.MARK])
        if q < 0.2:         # implausible header, then noise up to a marker
            size = g.pick([0, 5, 10001, 300])
            body = struct.pack('<H', size) + b'\0' + b'\0' * g.pick([0, 5, 20])
            n = g.pick([0, 1, 7, 20, 480 + r.randrange(60), 505 + r.randrange(16), 1010 + r.randrange(30)])
            return body + b'\0' * n + tail
        if q < 0.35:        # type 0 or size 0 or too large
            kind = g.pick([b'\0', b'Z', b'\xfe'])
            size = 0 if kind != b'\0' or g.chance(0.3) else r.randrange(1, 60)
            return struct.pack('<H', size) + kind + b'\0' * g.pick([0, size]) + tail
        if q < 0.5:
            size = g.pick([10000, 10001, 10002, 20000])
            pay = bytearray(b'\0' * size)
            if g.chance(0.5):
                at = g.pick([0, size - 8, r.randrange(size - 8)])
                pay[at:at + 8] = ulg.MARK
            return struct.pack('<H', size) + b'Z' + bytes(pay) + tail
        if q < 0.75:        # unknown, plausible, with or without marker inside
            size = g.pick([1, 7, 8, 9, 40, 100, 511, 512, 513, 519, 520, 600, 1200])
            pay = bytearray(junk(g, size))
            if size >= 8 and g.chance(0.6):
                at = g.pick([0, size - 8, r.randrange(size - 7)])
                pay[at:at + 8] = ulg.MARK
                if g.chance(0.3) and size > 24:
                    pay[at + 8:at + 8] = ulg.text(54, 77, 'in')
                    pay = pay[:size]
            return ulg.message(g.pick('Z\x7f\xf0z'), bytes(pay))
        if q < 0.9:
            return junk(g, r.randrange(1, 40)) + tail
        return b'\0' * r.randrange(1, 1200) + tail

    def gen(self, g):
        fm = list(g.formats(2))
        data = g.data(g.r.randrange(2, 25))
        for _ in range(g.r.randrange(1, 4)):
            data.insert(g.r.randrange(1, len(data) + 1), self.corruption(g))
        return mk([g.header()] + fm + data)

    def check(self, case):
        return against(case, ['texts', 'tagged', 'dropouts', 'changed', 'data', 'last', 'corrupt', 'info', 'multi',
                              'defaults'])


# ---------------------------------------------------------------- C07
class C07:
    def gen(self, g):
        fm = g.definitions()
        k = g.r.randrange(0, 4)
        noisy = g.chance(0.4)
        secs = []
        size = 16 + 43 + sum(len(f) for f in fm)
        offs = []
        parts = []
        c6 = C06()
        for i in range(k + 1):
            d = g.data(g.r.randrange(1, 14), announce_late=True)
            if noisy:
                for _ in range(g.r.randrange(0, 3)):
                    d.insert(g.r.randrange(1, len(d) + 1), c6.corruption(g) if g.chance(0.7) else
                             ulg.message('Z', b'q' * g.r.randrange(1, 50)))
            if i < k and g.chance(0.4):     # a message reaching over the offset
                m = ulg.text(54, 5, 'over the edge' * 3)
                d.append(m[:g.r.randrange(1, len(m))])
            size += sum(len(x) for x in d)
            parts += d
            if i < k:
                offs.append(size)
        offs += [0] * (3 - len(offs))
        if g.chance(0.1):
            offs = [0, 0, 0]
        fl = ulg.flags([g.pick([0, 1])] + [0] * 7, [g.pick([1, 1, 1, 0])] + [0] * 7, tuple(offs))
        return mk([g.header(), fl] + fm + parts)

    shrink = False

    def check(self, case):
        return against(case, ['texts', 'tagged', 'dropouts', 'changed', 'data', 'last', 'appended', 'info', 'multi'])


# ---------------------------------------------------------------- C08
class C08:
    def gen(self, g):
        fm = g.definitions()
        noisy = g.chance(0.3)
        data = g.data(g.r.randrange(1, 45), extra=odd_messages(g)[2:] if noisy else ())
        near = [f(t) for t in g.tops for f in (lambda t: t[:-1], lambda t: t + 'x', str.swapcase)]
        pool = g.tops + ['nope', ''] + [t for t in near if t not in g.tops]
        return mk([g.header()] + fm + data,
                  topics=g.r.sample(g.tops + ['nope'] if g.chance(0.6) else pool, g.r.randrange(0, len(g.tops) + 1)))

    def check(self, case):
        b = join(case)
        topics = case['args']['topics']
        try:
            full = load(b)
        except Exception:
            return []
        try:
            some = load(b, message_name_filter_list=topics)
        except Exception as x:
            return ['loading with a filter raised %r' % x]
        f, s = ulg.ulog_view(full), ulg.ulog_view(some)
        f['data'] = [d for d in f['data'] if d[0] in topics]
        for v in (f, s):
            v['changed'] = [c[1:] for c in v['changed']]
            v['dropouts'] = [c[1:] for c in v['dropouts']]
        keys = DEFS + ['texts', 'tagged', 'dropouts', 'changed', 'data']
        bad = ulg.differ(s, f, keys)
        return bad or against(case, ['data'], topics)


# ---------------------------------------------------------------- C09 / C10
def ordered_log(g, nan=True, n=None):
    start = g.pick([0, 1, 1000, 2 * 10**6])
    g.t = start
    compat = [g.pick([0, 1])] + [g.pick([0, 0, 7]) for _ in range(7)]
    fl = ulg.flags(compat, [0] * 8) if g.chance(0.5) else None
    defs = [d for d in g.definitions(fl)]
    data = g.data(g.r.randrange(2, 45) if n is None else n, ordered=True, nan=nan)
    return mk([ulg.header(g.pick([0, 1]), start)] + defs + data)


def write(u):
    o = io.BytesIO()
    u.write_ulog(o)
    return o.getvalue()


# parameters and dropouts of a log without any sample, see known_findings.txt
def loses_first_records(v):
    return not v['data'] and (v['changed'] or v['dropouts'])


class C09:
    keys = DEFS[:-2] + ['has_defaults', 'texts', 'tagged', 'dropouts', 'changed', 'data', 'last']

    FINDINGS = {'no-samples': 'a log without any sample loses the dropouts and parameter changes before its first text '
                              'message when it is written: they follow no announcement and are read as definitions'}

    def gen(self, g):
        return ordered_log(g)

    def directed(self):
        c = mk([ulg.header(1, 5), ulg.text(50, 9, 'x'), ulg.info('int32_t P', b'\1\0\0\0', 'P'), ulg.dropout(7)])
        c['finding'] = 'no-samples'
        yield c

    def known(self, case, bad):
        return self.FINDINGS.get(case.get('finding'))

    def check(self, case):
        b = join(case)
        u = load(b)
        v = ulg.ulog_view(u)
        if (loses_first_records(v) and 'finding' not in case) or unordered(ulg.Ref(b)):
            return []
        try:
            w = write(u)
        except Exception as x:
            return ['writing raised %r' % x]
        try:
            z = ulg.ulog_view(load(w))
        except Exception as x:
            return ['loading the written log raised %r' % x]
        for q in (v, z):
            q['formats'] = ('dict', sorted(q['formats'][1]))
        return ulg.differ(z, v, self.keys) + \
            (['written log is flagged corrupt'] if z['corrupt'] and not v['corrupt'] else [])


def times_of(ref):
    out = []
    for t in ref.datasets:
        out.append([('D', x) for x in t.times()])
    return out


def unordered(ref):
    """records not stored in time order"""
    for t in ref.datasets:
        ts = t.times()
        if any(a > b for a, b in zip(ts, ts[1:])):
            return True
    for ts in [[t[1] for t in ref.texts]] + [[t[2] for t in v] for v in ref.tagged.values()]:
        if any(a > b for a, b in zip(ts, ts[1:])):
            return True
    for t in ref.datasets:
        if ref.start > t.times()[0]:
            return True
    ids = [t.mid for t in ref.datasets]
    return len(ids) != len(set(ids))


class C10:
    def gen(self, g):
        if g.chance(0.6):
            return ordered_log(g)
        fl = ulg.flags([1] + [0] * 7, [g.pick([0, 1])] + [0] * 7, (0, 0, 0))
        defs = g.definitions(fl)
        return mk([g.header()] + defs + g.data(g.r.randrange(2, 45)))

    def check(self, case):
        b = join(case)
        u = load(b)
        before = ulg.ulog_view(u)
        ids = [d[2] for d in before['data']]
        if len(ids) != len(set(ids)) or loses_first_records(before):
            return []
        try:
            w = write(u)
        except Exception as x:
            return ['writing raised %r' % x]
        bad = ulg.differ(ulg.ulog_view(u), before, list(before), ordered=True)
        if bad:
            return ['writing changed the log: ' + bad[0]]
        ref = ulg.Ref(b)
        if len(w) < 16 or w[:7] != ulg.MAGIC or w[7] != ref.version or w[8:16] != struct.pack('<Q', ref.start):
            return ['header %s' % w[:16].hex()]
        msgs = []
        pos = 16
        while pos < len(w):
            if pos + 3 > len(w):
                return ['truncated message header at %d' % pos]
            n, k = struct.unpack('<H', w[pos:pos + 2])[0], chr(w[pos + 2])
            p = w[pos + 3:pos + 3 + n]
            if len(p) != n:
                return ['message at %d has size %d, %d bytes follow' % (pos, n, len(p))]
            msgs.append((k, p))
            pos += 3 + n
        kinds = ''.join(k for k, _ in msgs)
        nd = 1 + len(ref.formats) + len(ref.info) + sum(len(x) for v in ref.multi.values() for x in v) + \
            len(ref.initial) + sum(len(v) for v in ref.defaults.values())
        na = len(ref.datasets)
        head, ann, body = msgs[:nd], msgs[nd:nd + na], msgs[nd + na:]
        if sorted(k for k, _ in head) != sorted(
                'B' + 'F' * len(ref.formats) + 'I' * len(ref.info) + 'M' * sum(len(x) for v in ref.multi.values() for x in v)
                + 'P' * len(ref.initial) + 'Q' * sum(len(v) for v in ref.defaults.values())):
            return ['definition messages: ' + kinds[:80]]
        if head[0][0] != 'B':
            return ['flags are not the first message']
        fl = head[0][1]
        if fl != bytes(ref.compat) + bytes([ref.incompat[0] & 0xfe]) + bytes(ref.incompat[1:]) + bytes(24):
            return ['flag message %s' % fl.hex()]
        if [k for k, _ in ann] != ['A'] * na:
            return ['announcements: ' + kinds[nd:nd + na + 5]]
        if sorted(p for _, p in ann) != sorted(struct.pack('<BH', t.instance, t.mid) + t.name.encode()
                                               for t in ref.datasets):
            return ['announcement contents']
        want = []
        for t in sorted(ref.datasets, key=lambda t: t.mid):
            for row, ts in zip(t.rows, t.times()):
                want.append((ts, 'D', struct.pack('<H', t.mid) + row))
        for lv, ts, s in ref.texts:
            want.append((ts, 'L', struct.pack('<BQ', lv, ts) + s.encode()))
        for ms in ref.tagged.values():
            for lv, tag, ts, s in ms:
                want.append((ts, 'C', struct.pack('<BHQ', lv, tag, ts) + s.encode()))
        for ts, d in ref.dropouts:
            want.append((ts, 'O', struct.pack('<H', d)))
        for ts, k, v in ref.changed:
            decl = (('int32_t ' if isinstance(v, int) else 'float ') + k).encode()
            want.append((ts, 'P', bytes([len(decl)]) + decl + struct.pack('<i' if isinstance(v, int) else '<f', v)))
        if sorted((k, p) for _, k, p in want) != sorted(body):
            return ['records in the data section differ: got %d, expected %d' % (len(body), len(want))]
        # time order, and the original order among records of the same kind (and dataset) and time
        times = {}
        for t, k, p in want:
            times.setdefault((k, p), []).append(t)
        def group(k, p):
            return (k, p[:2] if k == 'D' else p[1:3] if k == 'C' else b'')
        per = {}
        for t, k, p in want:
            per.setdefault(group(k, p), []).append((t, p))
        got = {}
        for k, p in body:
            got.setdefault(group(k, p), []).append(p)
        for k in per:
            per[k].sort(key=lambda x: x[0])
            if [p for _, p in per[k]] != got[k]:
                return ['order of %s records' % (k,)]
        seq = []
        idx = {k: 0 for k in per}
        for k, p in body:
            gk = group(k, p)
            seq.append(per[gk][idx[gk]][0])
            idx[gk] += 1
        if any(a > b for a, b in zip(seq, seq[1:])):
            return ['data section is not in time order']
        # definition values
        r2 = None
        try:
            r2 = ulg.Ref(w, header_only=True)
        except ulg.Refused as e:
            return ['definitions cannot be read back: %s' % e]
        vkeys = ['version', 'start', 'info', 'multi', 'initial', 'defaults', 'formats', 'has_defaults', 'appended']
        a, c = r2.view(), ref.view()
        c['appended'] = ulg.canon(False)
        return ulg.differ(a, c, vkeys)


# ---------------------------------------------------------------- C11
def by_value(v):
    """numbers that are equal in Python (0 and 0.0) are equal here"""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'float':
        x = struct.unpack('<d', bytes.fromhex(v[1]))[0]
        return int(x) if x == x and abs(x) != float('inf') and x == int(x) and v[1] != '0000000000000080' else v
    if isinstance(v, dict):
        return {k: by_value(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(by_value(i) for i in v)
    return v


class C11:
    def gen(self, g):
        c = ordered_log(g, n=g.r.randrange(4, 20))
        parts = c['parts']
        other = list(parts)
        q = g.r.random()
        k = g.r.randrange(len(other))
        if q < 0.25:
            pass
        elif q < 0.8:
            # change one byte of one message (payload or, for announcements, ids)
            k = g.r.randrange(1, len(other))
            m = bytearray(bytes.fromhex(other[k]))
            if chr(m[2]) == 'S':
                return mk([bytes.fromhex(p) for p in parts], other=other)
            at = g.r.randrange(3, len(m)) if len(m) > 3 else 2
            m[at] = g.pick([m[at] ^ 1, m[at] ^ 0x80, (m[at] + 1) % 256])
            other[k] = bytes(m).hex()
        elif q < 0.9:
            if bytes.fromhex(other[k])[2:3] != b'S' and k > 0:
                del other[k]
        else:
            h = bytearray(bytes.fromhex(other[0]))
            h[g.pick([7, 8, 12])] ^= 1
            other[0] = bytes(h).hex()
        return mk([bytes.fromhex(p) for p in parts], other=other)

    def check(self, case):
        b = join(case)
        o = b''.join(bytes.fromhex(x) for x in case['args']['other'])
        try:
            ra, rb = ulg.Ref(b), ulg.Ref(o)
            x, y = load(b), load(o)
        except Exception:
            return []
        if ra.syncs != rb.syncs or ra.corrupt or rb.corrupt or ra.search != rb.search:
            return []
        if any(len(set((t.name, t.instance) for t in q.datasets)) < len(q.datasets) for q in (ra, rb)):
            return []       # datasets that share name and instance: their order is not promised
        va, vb = by_value(ra.view()), by_value(rb.view())
        same = not ulg.differ(va, vb, list(va)) and \
            \
            [ra.info_types, ra.multi_types, ra.compat, ra.incompat, ra.offsets] == \
            [rb.info_types, rb.multi_types, rb.compat, rb.incompat, rb.offsets]
        for v in (va, vb):
            t = repr(v['info']) + repr(v['initial']) + repr(v['changed']) + repr(v['defaults']) + repr(v['multi'])
            if "f87f')" in t or "f8ff')" in t or "('float', '0000000000000080')" in t:
                return []       # not a number or negative zero outside datasets
        bad = []
        for dx, dy in zip(ra.datasets, rb.datasets):
            for i, (f, t) in enumerate(dx.fields):
                if t in ('float', 'double') and dx.rows != dy.rows:
                    if any(z != z or z == 0.0 for z in dx.values(i)):
                        return []
        for a, c, n in ((x, y, 'a == b'), (y, x, 'b == a')):
            if (a == c) != same:
                bad.append('%s is %s, contents are %s' % (n, a == c, 'equal' if same else 'different'))
            if (a != c) == same:
                bad.append('a != b is %s' % (a != c))
        if x == 5 or x == None or x == 'x' or x == object():    # noqa
            bad.append('equal to an unrelated object')
        for k in range(2):
            for lst, n in ((x.logged_messages, 'text'), (x.dropouts, 'dropout'),
                           (list(x.message_formats.values()), 'format'), (x.data_list, 'dataset')):
                for m in lst[:2]:
                    if m == 5 or m == None or not (m == m):     # noqa
                        bad.append('%s compared with an unrelated object or itself' % n)
        # parts
        def parts(u):
            return (u.logged_messages, [m for v in u.logged_messages_tagged.values() for m in v], u.dropouts,
                    list(u.message_formats.values()), u.data_list)
        def pv(r):
            return ([list(t) for t in r.texts], [list(m) for v in r.tagged.values() for m in v], [list(d) for d in r.dropouts],
                    [[k, v] for k, v in r.formats.items()], r.view()['data'])
        for la, lb, wa, wb, n in zip(parts(x), parts(y), pv(ra), pv(rb), ('text', 'tagged text', 'dropout', 'format', 'dataset')):
            for i in range(min(4, len(la))):
                for j in range(min(6, len(lb))):
                    if n == 'dataset' and i != j:
                        continue
                    if (la[i] == lb[j]) != (wa[i] == wb[j]):
                        bad.append('%s: == is %s for %s and %s' % (n, la[i] == lb[j], ulg.short(wa[i]), ulg.short(wb[j])))
        return bad[:4]


PROPS = {k: v for k, v in globals().items() if k.startswith('C') and k[1:].isdigit()}
