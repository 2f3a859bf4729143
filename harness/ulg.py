"""Independent model of the ULog format: a record-level writer of byte streams and a
reference reader.  Shares no code with pyulog and none with /verif/contracts."""
import struct

MAGIC = bytes([0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35])
MARK = bytes([0x2F, 0x73, 0x13, 0x20, 0x25, 0x0C, 0xBB, 0x12])
BASIC = {'int8_t': ('b', 1, 'i1'), 'uint8_t': ('B', 1, 'u1'), 'int16_t': ('h', 2, 'i2'),
         'uint16_t': ('H', 2, 'u2'), 'int32_t': ('i', 4, 'i4'), 'uint32_t': ('I', 4, 'u4'),
         'int64_t': ('q', 8, 'i8'), 'uint64_t': ('Q', 8, 'u8'), 'float': ('f', 4, 'f4'),
         'double': ('d', 8, 'f8'), 'bool': ('?', 1, 'i1'), 'char': ('c', 1, 'i1')}


# ------------------------------------------------------------------ writing
def message(kind, payload):
    return struct.pack('<H', len(payload)) + kind.encode('latin1') + payload


def header(version=1, start=0):
    return MAGIC + bytes([version]) + struct.pack('<Q', start)


def info(decl, value, kind='I', lead=b''):
    if isinstance(decl, str):
        decl = decl.encode()
    return message(kind, lead + bytes([len(decl)]) + decl + value)


def fmt(text):
    return message('F', text.encode() if isinstance(text, str) else text)


def announce(name, mid, instance=0):
    return message('A', struct.pack('<BH', instance, mid) + name.encode())


def sample(mid, raw):
    return message('D', struct.pack('<H', mid) + raw)


def flags(compat=(0,) * 8, incompat=(0,) * 8, offsets=(0, 0, 0), extra=b''):
    return message('B', bytes(compat) + bytes(incompat) + struct.pack('<QQQ', *offsets) + extra)


def text(level, time, s):
    return message('L', struct.pack('<BQ', level, time) + (s if isinstance(s, bytes) else s.encode()))


def tagged(level, tag, time, s):
    return message('C', struct.pack('<BHQ', level, tag, time) + (s if isinstance(s, bytes) else s.encode()))


def dropout(ms):
    return message('O', struct.pack('<H', ms))


def sync():
    return message('S', MARK)


# ------------------------------------------------------------------ reference reader
class Bad(Exception):
    """a message that cannot be split into its parts"""


class Refused(Exception):
    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


def lenient(b):
    return b.decode('utf-8', 'ignore')


def need(b, a, n):
    if len(b) < a + n:
        raise Bad()
    return b[a:a + n]


def key_value(p):
    n = need(p, 0, 1)[0]
    decl = lenient(p[1:1 + n]).split(' ')
    if len(decl) < 2:
        raise Bad()
    typ, name = decl[0], decl[1]
    raw = p[1 + n:]
    if typ.startswith('char['):
        return typ, name, lenient(raw)
    if typ in BASIC:
        c, size, _ = BASIC[typ]
        if len(raw) != size:
            raise Bad()
        return typ, name, struct.unpack('<' + c, raw)[0]
    return typ, name, bytes(raw)


def flatten(formats, name, prefix=''):
    """[(field name, type)] of a topic, padding included"""
    if name not in formats:
        raise Bad()
    out = []
    for typ, n, field in formats[name]:
        names = [prefix + field] if n <= 0 else ['%s%s[%d]' % (prefix, field, i) for i in range(n)]
        for x in names:
            if typ in BASIC:
                out.append((x, typ))
            else:
                out += flatten(formats, typ, x + '.')
    return out


class Topic:
    def __init__(self, name, instance, mid, fields):
        self.name, self.instance, self.mid = name, instance, mid
        self.full = sum(BASIC[t][1] for _, t in fields)
        while fields and fields[-1][0].startswith('_padding'):
            fields = fields[:-1]
        self.fields = fields
        self.size = sum(BASIC[t][1] for _, t in fields)
        self.rows = []
        off = 0
        self.time_at = 0
        self.time_index = -1
        for i, (f, t) in enumerate(fields):
            if f == 'timestamp':
                self.time_index = i
        for f, t in fields:
            if f == 'timestamp':
                break
            off += BASIC[t][1]
        self.time_at = off

    def column(self, i):
        off = sum(BASIC[t][1] for _, t in self.fields[:i])
        n = BASIC[self.fields[i][1]][1]
        return b''.join(r[off:off + n] for r in self.rows)

    def values(self, i):
        c = BASIC[self.fields[i][1]][2]
        c = {'i1': 'b', 'u1': 'B', 'i2': 'h', 'u2': 'H', 'i4': 'i', 'u4': 'I', 'i8': 'q',
             'u8': 'Q', 'f4': 'f', 'f8': 'd'}[c]
        return list(struct.unpack('<%d%s' % (len(self.rows), c), self.column(i)))

    def times(self):
        return self.values(self.time_index)


class Ref:
    """what a ULog file contains"""

    def __init__(self, content, topics=None, header_only=False):
        self.b = content
        self.only = topics
        self.corrupt = False
        self.info, self.info_types = {}, {}
        self.multi, self.multi_types = {}, {}
        self.initial, self.defaults, self.changed = {}, {}, []
        self.formats = {}
        self.texts, self.tagged, self.dropouts = [], {}, []
        self.compat, self.incompat, self.offsets = [0] * 8, [0] * 8, []
        self.syncs = 0
        self.search = True
        self.topics, self.skipped, self.datasets = {}, set(), []
        if len(content) < 16 or content[:7] != MAGIC:
            raise Refused('TypeError')
        self.version = content[7]
        self.start = self.last = struct.unpack('<Q', content[8:16])[0]
        pos = self.definitions(16)
        self.data_start = pos
        if header_only:
            return
        if self.incompat[0] & 1:
            for o in self.offsets:
                self.section(pos, o)
                pos = o
        self.section(pos, None)
        self.datasets.sort(key=lambda t: (t.name, t.instance))

    # the definition section must be complete (the property says nothing else)
    def definitions(self, pos):
        b = self.b
        while pos < len(b):
            if pos + 3 > len(b):
                raise Refused('cut')
            size, kind = struct.unpack('<H', b[pos:pos + 2])[0], chr(b[pos + 2])
            if kind in 'ALC':
                return pos
            p = b[pos + 3:pos + 3 + size]
            if len(p) < size:
                raise Refused('cut')
            pos += 3 + size
            try:
                if kind == 'I':
                    t, k, v = key_value(p)
                    self.info[k] = v
                    self.info_types[k] = t
                elif kind == 'M':
                    self.add_multi(p)
                elif kind == 'P':
                    t, k, v = key_value(p)
                    self.initial[k] = v
                elif kind == 'Q':
                    self.add_default(p)
                elif kind == 'F':
                    self.add_format(p)
                elif kind == 'B':
                    if size < 40:
                        raise Refused('cut')
                    self.compat, self.incompat = list(p[:8]), list(p[8:16])
                    o = list(struct.unpack('<QQQ', p[16:40]))
                    while o and o[-1] == 0:
                        o.pop()
                    self.offsets = o
                    if self.incompat[0] > 1:
                        raise Refused('ValueError')
                    if any(self.incompat[1:]):
                        raise Refused('NotImplementedError')
                elif ord(kind) == 0 or size == 0 or size > 10000:
                    self.corrupt = True
                    pos -= 2 + size
            except Bad:
                self.corrupt = True
        return pos

    def add_multi(self, p):
        lead = need(p, 0, 1)[0]
        t, k, v = key_value(p[1:])
        if k not in self.multi:
            self.multi[k] = [[v]]
            self.multi_types[k] = t
        elif lead:
            self.multi[k][-1].append(v)
        else:
            self.multi[k].append([v])

    def add_default(self, p):
        bits = need(p, 0, 1)[0]
        t, k, v = key_value(p[1:])
        for i in range(8):
            if bits >> i & 1:
                self.defaults.setdefault(i, {})[k] = v

    def add_format(self, p):
        parts = lenient(p).split(':')
        if len(parts) < 2:
            raise Bad()
        fields = []
        for d in parts[1].split(';'):
            if not d:
                continue
            w = d.split(' ')
            if len(w) < 2:
                raise Bad()
            t, n = w[0], 0
            if '[' in t:
                t, _, rest = t.partition('[')
                n = int(rest.split(']')[0])
            fields.append((t, n, w[1]))
        self.formats[parts[0]] = fields

    def section(self, pos, limit):
        b = self.b
        if limit is None:
            limit = 1 << 50
        while True:
            if pos + 3 > len(b):
                break
            size, kind = struct.unpack('<H', b[pos:pos + 2])[0], chr(b[pos + 2])
            end = pos + 3 + size
            if end > len(b) or end > limit:
                break
            pos = self.data_message(pos, size, kind, b[pos + 3:end])
        done = list(self.topics.values())
        self.topics = {}
        for t in done:
            if t.rows:
                self.datasets.append(t)

    def data_message(self, pos, size, kind, p):
        end = pos + 3 + size
        try:
            if kind == 'I':
                t, k, v = key_value(p)
                self.info[k] = v
                self.info_types[k] = t
            elif kind == 'M':
                self.add_multi(p)
            elif kind == 'P':
                t, k, v = key_value(p)
                self.changed.append((self.last, k, v))
            elif kind == 'Q':
                self.add_default(p)
            elif kind == 'A':
                inst, mid = struct.unpack('<BH', need(p, 0, 3))
                name = lenient(p[3:])
                t = Topic(name, inst, mid, flatten(self.formats, name))
                if self.only is None or name in self.only:
                    self.topics[mid] = t
                else:
                    self.skipped.add(mid)
            elif kind == 'L':
                lv, ts = struct.unpack('<BQ', need(p, 0, 9))
                self.texts.append((lv, ts, lenient(p[9:])))
            elif kind == 'C':
                lv, tag, ts = struct.unpack('<BHQ', need(p, 0, 11))
                self.tagged.setdefault(tag, []).append((lv, tag, ts, lenient(p[11:])))
            elif kind == 'D':
                mid = struct.unpack('<H', need(p, 0, 2))[0]
                if mid in self.topics:
                    t = self.topics[mid]
                    if t.size <= size - 2 <= t.full:
                        row = p[2:2 + t.size]
                        t.rows.append(row)
                        ts = struct.unpack('<Q', need(row, t.time_at, 8))[0]
                        self.last = max(self.last, ts)
                    else:
                        self.corrupt = True
                elif mid not in self.skipped:
                    self.corrupt = True
            elif kind == 'O':
                if size != 2:
                    raise Bad()
                self.dropouts.append((self.last, struct.unpack('<H', p)[0]))
            elif kind == 'S':
                self.syncs += 1
            elif ord(kind) == 0 or size == 0 or size > 10000:
                self.corrupt = True
                if self.search:
                    at = self.b.find(MARK, pos + 1)
                    if at >= 0:
                        return at + 8
                    self.search = False
                return pos + 1
            elif self.search:
                at = p.find(MARK)
                if at >= 0:
                    self.corrupt = True
                    return pos + 3 + at + 8
        except Bad:
            self.corrupt = True
        return end

    # ------------------------------------------------------------ comparison
    def view(self):
        v = {'version': self.version, 'start': self.start, 'last': self.last, 'corrupt': self.corrupt,
             'info': self.info, 'multi': self.multi, 'initial': self.initial,
             'defaults': [self.defaults.get(i, {}) for i in range(8)],
             'changed': self.changed, 'formats': self.formats, 'texts': self.texts,
             'tagged': self.tagged, 'dropouts': self.dropouts,
             'appended': bool(self.incompat[0] & 1), 'has_defaults': bool(self.compat[0] & 1),
             'data': [(t.name, t.instance, t.mid, t.time_index, t.fields,
                       [(f, BASIC[ty][2], t.column(i)) for i, (f, ty) in enumerate(t.fields)])
                      for t in self.datasets]}
        return {k: canon(x) for k, x in v.items()}


def canon(x):
    """plain, comparable form; not-a-number and -0.0 are kept by their bits"""
    if isinstance(x, float):
        return ('float', struct.pack('<d', x).hex())
    if isinstance(x, bool):
        return int(x)       # equal in Python
    if isinstance(x, (bytes, bytearray, memoryview)):
        return ('bytes', bytes(x).hex())
    if isinstance(x, dict):
        return ('dict', [(canon(k), canon(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    return x


def frozen_order(v):
    """dicts compare without order"""
    if isinstance(v, tuple) and v and v[0] == 'dict':
        return ('dict', sorted(((frozen_order(k), frozen_order(x)) for k, x in v[1]), key=repr))
    if isinstance(v, list):
        return [frozen_order(i) for i in v]
    return v


def data_view(d):
    import numpy as np
    cols = []
    for name, a in d.data.items():
        a = np.asarray(a)
        dt = a.dtype.newbyteorder('<')
        cols.append((name, dt.kind + str(dt.itemsize), a.astype(dt).tobytes()))
    return (d.name, int(d.multi_id), int(d.msg_id), int(d.timestamp_idx),
            [(f.field_name, f.type_str) for f in d.field_data], cols)


def ulog_view(u):
    """the same for an object of the library, by its public properties"""
    v = {'version': getattr(u, '_file_version', None), 'start': u.start_timestamp, 'last': u.last_timestamp,
         'corrupt': bool(u.file_corruption), 'info': u.msg_info_dict, 'multi': u.msg_info_multiple_dict,
         'initial': u.initial_parameters,
         'defaults': [u.get_default_parameters(i) for i in range(8)],
         'changed': [tuple(c) for c in u.changed_parameters],
         'formats': {k: [tuple(f) for f in m.fields] for k, m in u.message_formats.items()},
         'texts': [(m.log_level, m.timestamp, m.message) for m in u.logged_messages],
         'tagged': {k: [(m.log_level, m.tag, m.timestamp, m.message) for m in ms]
                    for k, ms in u.logged_messages_tagged.items()},
         'dropouts': [(d.timestamp, d.duration) for d in u.dropouts],
         'appended': bool(u.has_data_appended), 'has_defaults': bool(u.has_default_parameters),
         'data': [data_view(d) for d in u.data_list]}
    return {k: canon(x) for k, x in v.items()}


def differ(got, want, keys, ordered=False):
    out = []
    for k in keys:
        g, w = got[k], want[k]
        if k == 'version' and g is None:
            continue
        if not ordered:
            g, w = frozen_order(g), frozen_order(w)
        if k == 'data' and [x[:2] for x in g] == [x[:2] for x in w]:
            g, w = sorted(g, key=repr), sorted(w, key=repr)     # same name and instance: no order promised
        if g != w:
            out.append('%s: got %s, expected %s' % (k, short(g), short(w)))
    return out


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
