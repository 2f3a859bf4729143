"""Random ULog files, as lists of messages (bytes)."""
import struct
from . import ulg
from .ulg import BASIC

WORDS = ['a', 'b', 'alt', 'x', 'y', 'temp', 'status', 'v1', 'out', 'ref', 'timestamp_s', 'gps_timestamp']
# names of topics, by themselves and parts of one another
TOPICS = [['topic_a', 'topic_b', 'topic_c', 'topic_d', 'topic_e', 'topic_f'],
          ['att', 'att_set', 'vehicle_att', 'vehicle_att_set', 'a', 'att2'],
          ['Topic', 'topic', 'topic_', '_topic', 'top', 'ic']]
TEXTS = ['', 'hello', 'Küche', '日本', 'a b  c', 'tab\t', 'line', 'x' * 60, "quo'te \"q\"", '[ok] 100%']
U64 = [0, 1, 2**31, 2**32 - 1, 2**53 + 1, 2**63 - 1]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.t = 0
        self.steps = [0, 0, 1, 5, 1000, 250000]     # between ordered times

    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    # ---- values
    def raw(self, typ):
        c, n, _ = BASIC[typ]
        r = self.r
        if typ == 'float' or typ == 'double':
            v = self.pick([0.0, -0.0, 1.5, -3.25, 1e10, float('inf'), float('-inf'), float('nan'),
                           r.uniform(-1e3, 1e3), r.uniform(-1, 1)])
            return struct.pack('<' + c, v)
        if typ == 'bool':
            return bytes([self.pick([0, 1])])
        if self.chance(0.3):
            return self.pick([b'\0' * n, b'\xff' * n, b'\x80' + b'\0' * (n - 1), b'\0' * (n - 1) + b'\x80'])
        return bytes(r.randrange(256) for _ in range(n))

    def name(self, used=()):
        while True:
            n = self.pick(WORDS) + self.pick(['', '', '_%d' % self.r.randrange(9), '_z'])
            if n not in used:
                return n

    def info(self, kind='I', names=None):
        r = self.r
        name = self.pick(names or ['sys_name', 'ver_hw', 'ver_sw_release', 'time_ref_utc', 'n_%d' % r.randrange(6),
                                   'perf_counter_preflight-00', 'nom_é', 'perf_', 'perf', 'my_perf_x', 'Perf_x', 'time'])
        lead = bytes([self.pick([0, 0, 1, 1, 1, 255])]) if kind == 'M' else b''
        q = r.random()
        if q < 0.45:
            s = self.pick(TEXTS).encode()
            if self.chance(0.15):
                s = self.pick([b'\xff\xfeabc', b'ab\xc3', b'\xe6\x97', b'a\0b'])
            if name == 'ver_sw_release':
                return ulg.info('uint32_t ' + name, self.raw('uint32_t'), kind, lead)
            return ulg.info('char[%d] %s' % (len(s), name), s, kind, lead)
        if name == 'ver_sw_release':
            return ulg.info('uint32_t ' + name, self.raw('uint32_t'), kind, lead)
        if q < 0.85:
            t = self.pick(list(BASIC))
            return ulg.info('%s %s' % (t, name), self.raw(t), kind, lead)
        t = self.pick(['float', 'uint8_t', 'int16_t'])
        n = r.randrange(1, 5)
        return ulg.info('%s[%d] %s' % (t, n, name), b''.join(self.raw(t) for _ in range(n)), kind, lead)

    def multi(self, types=None):
        """multi-part entries: one type per name"""
        n = self.r.randrange(3)
        lead = bytes([self.pick([0, 0, 1, 1, 1, 7])])
        s = (self.pick(TEXTS) + str(self.r.randrange(100))).encode()
        if n < 2:
            return ulg.info('char[%d] part_%d' % (len(s), n), s, 'M', lead)
        return ulg.info('uint8_t[3] part_%d' % n, self.raw('uint8_t') * 3, 'M', lead)

    def param(self, kind='P', nan=True):
        r = self.r
        name = self.pick(['MAV_TYPE', 'SYS_MC_EST_GROUP', 'RC_MAP_ROLL', 'P_%d' % r.randrange(8)])
        lead = bytes([self.pick([0, 1, 2, 3, 4, 8, 128, 255, r.randrange(256)])]) if kind == 'Q' else b''
        if self.chance(0.5):
            return ulg.info('int32_t ' + name, self.raw('int32_t'), kind, lead)
        v = self.raw('float')
        if not nan and struct.unpack('<f', v)[0] != struct.unpack('<f', v)[0]:
            v = struct.pack('<f', 2.5)
        return ulg.info('float ' + name, v, kind, lead)

    # ---- formats and topics
    def formats(self, n_top=3, pads=True):
        """[(name, [(type, n, field)])], leaves first or last; topic names"""
        r = self.r
        leaves = []
        for i in range(r.randrange(0, 3)):
            fs = []
            for _ in range(r.randrange(1, 4)):
                fs.append((self.pick(list(BASIC)), self.pick([0, 0, 0, 2, 3]), self.name([f[2] for f in fs])))
            if self.chance(0.15):
                fs.append((self.pick(['uint64_t', 'uint32_t']), 0, 'timestamp'))
            if leaves and self.chance(0.4):
                fs.append((self.pick(leaves)[0], self.pick([0, 2]), 'sub'))
            if pads and self.chance(0.3):
                fs.append(('uint8_t', self.r.randrange(1, 4), '_padding0'))
            leaves.append(('leaf%d' % i, fs))
        tops = []
        names = self.pick([TOPICS[0]] + TOPICS)
        names = names if names is TOPICS[0] else r.sample(names, len(names))
        for i in range(n_top):
            fs = []
            for _ in range(r.randrange(0, 5)):
                used = [f[2] for f in fs]
                q = r.random()
                if q < 0.25 and leaves:
                    fs.append((self.pick(leaves)[0], self.pick([0, 0, 1, 2]), self.name(used)))
                elif q < 0.4:
                    fs.append(('char', self.r.randrange(1, 6), self.name(used)))
                else:
                    fs.append((self.pick(list(BASIC)), self.pick([0, 0, 0, 1, 2, 4]), self.name(used)))
            fs.insert(0 if self.chance(0.8) else r.randrange(len(fs) + 1), ('uint64_t', 0, 'timestamp'))
            if pads and self.chance(0.4):
                for k in range(r.randrange(1, 3)):
                    fs.append(('uint8_t', self.r.randrange(1, 8), '_padding%d' % k))
            tops.append((names[i], fs))
        both = leaves + tops
        r.shuffle(both)
        self.fm = {k: v for k, v in both}
        self.tops = [k for k, _ in tops]
        return [ulg.fmt(k + ':' + ''.join('%s %s;' % (t if n == 0 else '%s[%d]' % (t, n), f) for t, n, f in v))
                for k, v in both]

    def definitions(self, flagmsg=None, bad=False):
        out = list(self.formats(self.r.randrange(1, 4)))
        for _ in range(self.r.randrange(0, 6)):
            out.append(self.info())
        for _ in range(self.r.randrange(0, 6)):
            out.append(self.multi())
        for _ in range(self.r.randrange(0, 7)):
            out.append(self.param('P'))
        for _ in range(self.r.randrange(0, 5)):
            out.append(self.param('Q'))
        if bad:
            for _ in range(self.r.randrange(0, 3)):
                out.append(self.pick([
                    ulg.info('nospace', b'abc'), ulg.info('nospace', b'abc', 'P'),
                    ulg.info('one', b'x', 'M', b'\1'), ulg.info('one', b'xxxx', 'Q', b'\3'),
                    ulg.fmt('no_colon'), ulg.fmt('bad_fmt:float'), ulg.fmt('bad2:uint8_t a;float;'),
                    ulg.message('Z', b'unknown'), ulg.message('Z', b'u' * self.pick([1, 600, 10000])),
                    ulg.message('\x7f', b'abc'), ulg.sync()]))
            # formats given twice: the last counts
        self.r.shuffle(out)
        if flagmsg is not None:
            out.insert(0, flagmsg)
        return out

    def topic(self, name, instance, mid):
        return ulg.Topic(name, instance, mid, ulg.flatten(self.fm, name))

    def row(self, t, time):
        out = b''
        for f, ty in t.fields:
            out += struct.pack('<Q', time) if f == 'timestamp' else self.raw(ty)
        return out

    def time(self, ordered):
        if ordered:
            self.t += self.pick(self.steps)
            return self.t
        return self.pick([0, self.r.randrange(10**7), self.r.randrange(10**7), self.t + self.r.randrange(2000)])

    def data(self, n=30, ordered=False, extra=(), repeat=False, nan=True, announce_late=True):
        """messages of the data section; `extra`: functions giving odd messages"""
        r = self.r
        mids = r.sample(range(0, 60), 6)
        if self.chance(0.2):       # ids above a byte, some equal in their low byte
            mids = [m + 256 * self.pick([0, 1, 2, 255]) for m in mids[:3]]
            mids += [m ^ 256 for m in mids]
        self.t0 = self.t
        topics = []
        out = []
        seen = {}
        for name in self.tops:
            if self.chance(0.1):
                seen[name] = self.pick([1, 7, 9, 9, 99, 254])
            for inst in range(self.pick([1, 1, 2, 3])):
                if len(topics) < 6 and seen.get(name, 0) < 256:
                    topics.append(self.topic(name, seen.get(name, 0), mids[len(topics)]))
                    seen[name] = seen.get(name, 0) + 1
        r.shuffle(topics)
        live = []
        todo = list(topics)
        out.append(None)        # the first message ends the definitions
        for i in range(n):
            q = r.random()
            if todo and (q < 0.25 or i == 0):
                t = todo.pop()
                live.append(t)
                out.append(ulg.announce(t.name, t.mid, t.instance))
            elif q < 0.6 and live:
                t = self.pick(live)
                row = self.row(t, self.time(ordered))
                if t.full > t.size and self.chance(0.5):
                    k = self.pick([t.full - t.size, r.randrange(0, t.full - t.size + 1)])
                    row += bytes(r.randrange(256) for _ in range(k))
                out.append(ulg.sample(t.mid, row))
            elif q < 0.68:
                out.append(ulg.text(48 + r.randrange(8), self.time(ordered), self.pick(TEXTS)))
            elif q < 0.74:
                out.append(ulg.tagged(48 + r.randrange(8), self.pick([0, 1, 2, 3, 1, 257, 256, 65535]), self.time(ordered), self.pick(TEXTS)))
            elif q < 0.80:
                out.append(ulg.dropout(self.pick([0, 1, 500, 65535])))
            elif q < 0.86:
                out.append(self.param('P', nan))
            elif q < 0.88:
                out.append(self.param('Q', nan))
            elif q < 0.9:
                out.append(self.info())
            elif q < 0.92:
                out.append(self.multi())
            elif q < 0.94:
                out.append(ulg.sync())
            elif extra:
                out.append(self.pick(extra)(live))
        out = [o for o in out if o is not None]
        if out and out[0][2:3] not in (b'A', b'L', b'C'):
            out.insert(0, ulg.text(54, self.t0 if ordered else self.r.randrange(100), 'start'))
        self.topics = topics
        return out

    def header(self, start=None):
        if start is None:
            start = self.pick([0, 1, 1000, 2 * 10**6, 2**40])
        return ulg.header(self.pick([0, 1, 1, 1, 2]), start)
