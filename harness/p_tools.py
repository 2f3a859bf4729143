"""C16-C26: lookups and command line tools, run in-process through their public entry points"""
import contextlib
import importlib
import io
import json
import lzma
import math
import os
import shutil
import struct
import sys
import tempfile
import types
from . import ulg
from .gen import Gen, TEXTS
from .p_core import load, join, mk
from .ulg import BASIC


# ------------------------------------------------------------------ stand-ins for what is not installed
class FakeEvent:
    def __init__(self, group, text):
        self._g, self._t = group, text

    def group(self):
        return self._g

    def message(self):
        return self._t


class FakeParser:
    """stands for libevents' parser: definitions map an id to [group, text]"""
    def __init__(self):
        self.defs, self.profile = {}, None

    def load_definitions(self, d):
        if not isinstance(d, dict):
            raise ValueError('definitions')
        self.defs = d

    def set_profile(self, p):
        self.profile = p

    def parse(self, event_id, args):
        if self.profile != 'dev':
            raise RuntimeError('no profile')
        d = self.defs.get(str(int(event_id)))
        if d is None:
            return None
        assert isinstance(args, bytes)
        return FakeEvent(d[0], d[1] + ' ' + args.hex())


def events_module():
    if 'pyulog.libevents_parse.parser' not in sys.modules:
        pk = types.ModuleType('pyulog.libevents_parse')
        pk.__path__ = []
        pm = types.ModuleType('pyulog.libevents_parse.parser')
        pm.Parser = FakeParser
        pk.parser = pm
        sys.modules['pyulog.libevents_parse'] = pk
        sys.modules['pyulog.libevents_parse.parser'] = pm
    return importlib.import_module('pyulog.px4_events')


class Bag:
    log = []
    version = '0.15.0'
    opened = None
    closed = False
    topics = []


def ros_module():
    if 'rosbag2_py' not in sys.modules:
        import importlib.metadata as md
        old = md.version
        md.version = lambda n: Bag.version if n == 'rosbag2_py' else old(n)
        r = types.ModuleType('rclpy')
        rs = types.ModuleType('rclpy.serialization')
        rs.serialize_message = lambda m: ('cdr', type(m).__name__, m.dump())
        r.serialization = rs
        b = types.ModuleType('rosbag2_py')

        class SequentialWriter:
            def open(self, storage, conv):
                Bag.opened = (storage, conv)

            def create_topic(self, t):
                Bag.topics.append(t)

            def write(self, *a):
                n = 4 if tuple(int(x) for x in Bag.version.split('.')) >= (0, 32, 0) else 3
                if len(a) != n:
                    raise TypeError('write() takes %d arguments' % n)
                if a[0] not in [t['name'] for t in Bag.topics]:
                    raise RuntimeError('unknown topic')
                if type(a[2]) is not int:
                    raise TypeError('time')
                Bag.log.append((a[0], a[1], a[2]))

            def close(self):
                Bag.closed = True

        def topic(*a, **k):
            n = 1 if tuple(int(x) for x in Bag.version.split('.')) >= (0, 25, 0) else 0
            if len(a) != n:
                raise TypeError('TopicMetadata() takes %d positional arguments' % n)
            return dict(k)
        b.SequentialWriter = SequentialWriter
        b.StorageOptions = lambda **k: k
        b.ConverterOptions = lambda **k: k
        b.TopicMetadata = topic
        p = types.ModuleType('px4_msgs')
        pm = types.ModuleType('px4_msgs.msg')
        p.msg = pm
        sys.modules.update({'rclpy': r, 'rclpy.serialization': rs, 'rosbag2_py': b, 'px4_msgs': p, 'px4_msgs.msg': pm})
    return importlib.import_module('pyulog.ulog2ros2bag'), sys.modules['px4_msgs.msg']


# ------------------------------------------------------------------ running
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pvt')
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


LONG = {'ulog2csv': {'-m': '--messages', '-d': '--delimiter', '-o': '--output', '-i': '--ignore', '-ts': '--time_s', '-te': '--time_e'},
        'params': {'-l': '--delimiter', '-i': '--initial', '-t': '--timestamps', '-f': '--format', '-d': '--default'},
        'extract_gps_dump': {'-o': '--output', '-x': '--ignore', '-i': '--instance'},
        'messages': {'-i': '--ignore'}, 'info': {'-v': '--verbose', '-m': '--message', '-n': '--newline', '-i': '--ignore'},
        'ulog2ros2bag': {'-o': '--output', '-m': '--messages', '-i': '--ignore'},
        'ulog2kml': {'-o': '--output', '-i': '--ignore', '--topic': '--topic'}}
CALLS = [0]


def tool(mod, args):
    """(output, error): runs the main function of a tool"""
    CALLS[0] += 1
    if CALLS[0] % 2:        # every other call with the long names of the options
        names = LONG.get(mod.__name__.split('.')[-1], {})
        args = [names.get(str(a), a) for a in args]
    out = io.StringIO()
    old = sys.argv
    sys.argv = ['tool'] + [str(a) for a in args]
    err = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            mod.main()
    except SystemExit as x:
        if x.code:
            err = x
    except Exception as x:
        err = x
    finally:
        sys.argv = old
    return out.getvalue(), err


def save(d, case, name='log.ulg'):
    f = os.path.join(d, name)
    with open(f, 'wb') as h:
        h.write(join(case))
    return f


def ignore(case):
    """text that does not decode: the tools refuse it unless told to ignore it"""
    return any(x in bytes.fromhex(p) for p in case['parts'] if bytes.fromhex(p)[2:3] in (b'I', b'M')
               for x in (b'\xff\xfeabc', b'ab\xc3', b'\xe6\x97'))


def hdr(g, start=None):
    return ulg.header(g.pick([0, 1]), g.pick([0, 1, 1000, 2 * 10**6, 2**40]) if start is None else start)


def module(name):
    return importlib.import_module('pyulog.' + name)


def ref(case, topics=None):
    try:
        return ulg.Ref(join(case), topics)
    except ulg.Refused:
        return None


def np_values(t, i):
    import numpy as np
    return np.frombuffer(t.column(i), dtype='<' + BASIC[t.fields[i][1]][2])


def special(name, fields, rows, mid, instance=0, late=()):
    """format, announcement and samples of a topic"""
    fm = ulg.fmt(name + ':' + ''.join('%s %s;' % (t, f) for t, f in fields))
    return fm, ulg.announce(name, mid, instance), [ulg.sample(mid, r) for r in rows]


def log(g, specials, extra_defs=(), extra_data=(), mix=True, start=0):
    """header, definitions, data: samples of the special topics merged with `extra_data`"""
    fms, ann, streams = [], [], []
    for fm, a, s in specials:
        if fm not in fms:
            fms.append(fm)
        ann.append(a)
        streams.append(list(s))
    streams.append(list(extra_data))
    data = []
    while any(streams):
        k = g.r.randrange(len(streams)) if mix else [i for i, s in enumerate(streams) if s][0]
        if streams[k]:
            data.append(streams[k].pop(0))
    return [ulg.header(1, start)] + fms + list(extra_defs) + ann + data


def times(g, n, ordered=True):
    t = g.pick([0, 1, 10**6, 5 * 10**6])
    out = []
    for _ in range(n):
        out.append(t)
        t += g.pick([0, 1, 1000, 99999, 100000, 100001, 10**6, 2 * 10**6])
    if not ordered:
        g.r.shuffle(out)
    return out


def window(t, a, b):
    """[first >= a, first >= b) in seconds"""
    n = len(t)
    i = next((k for k in range(n) if t[k] >= a * 10**6), n) if a else 0
    j = next((k for k in range(n) if t[k] >= b * 10**6), n) if b else n
    return range(i, j)


# ---------------------------------------------------------------- C16
class C16:
    def gen(self, g):
        parts = [hdr(g)] + list(g.formats(g.r.randrange(1, 4)))
        g.t = g.pick([0, 10**6])
        parts += [slow(p) for p in g.data(g.r.randrange(3, 40), ordered=g.chance(0.7))]
        if g.chance(0.3):       # a topic with a slash and text
            n = g.r.randrange(1, 8)
            rows = [struct.pack('<Q', t) + bytes(g.pick([0, 65, 66, 0xc3, 0xa9, 0xff, 44]) for _ in range(n)) + b'\7'
                    for t in times(g, 4)]
            slash = g.pick(['sub/topic', 'sub/topic', 'a/b/c', '/x/', 'a//b'])
            fm, a, s = special(slash, [('uint64_t', 'timestamp'), ('char[%d]' % n, 'name'), ('uint8_t', 'z')], rows, 77)
            parts.insert(1, fm)
            parts += [ulg.text(50, 1, 'x'), a] + s
        sel = g.pick([None, None, g.tops[:1], g.tops[::-1], ['sub/topic'], ['none'], [g.tops[-1][:-1], g.tops[0]]])
        return mk(parts, sel=sel, delim=g.pick([',', ',', ';', '\t']), a=g.pick([None, None, 0, 1, 2, 5, 10**6]),
                  b=g.pick([None, None, 1, 2, 3, 7, 10**6]), out=g.pick([None, None, 'new', 'old']),
                  name=g.pick(['log.ulg', 'log.ULG', 'flight', 'a.b.ulg']), cli=g.chance(0.5))

    def check(self, case):
        r = ref(case)
        if r is None:
            return []
        a = case['args']
        m = module('ulog2csv')
        want = {}
        base = a['name'][:-4] if a['name'].lower().endswith('.ulg') else a['name']
        for t in r.datasets:
            if a['sel'] is not None and t.name not in a['sel']:
                continue
            cols = []           # (name, list of texts)
            seen = {}
            for i, (f, ty) in enumerate(t.fields):
                if f.startswith('_padding'):
                    continue
                if ty == 'char' and f.endswith(']') and '[' in f:
                    k = f[:f.rindex('[')]
                    if k not in seen:
                        seen[k] = [b''] * len(t.rows)
                        cols.append((k, seen[k]))
                    v = t.column(i)
                    for j in range(len(t.rows)):
                        seen[k][j] += v[j:j + 1]
                else:
                    v = np_values(t, i)
                    cols.append((f, [str(x) for x in v]))
            tcol = [c for c in cols if c[0] == 'timestamp'][0]
            cols = [tcol] + [c for c in cols if c is not tcol]
            cols = [(n, v if v and isinstance(v[0], str) else [x.split(b'\0')[0].decode('utf-8', 'replace') for x in v])
                    for n, v in cols]
            lines = [a['delim'].join(n for n, _ in cols)]
            for i in window(t.times(), a['a'], a['b']):
                lines.append(a['delim'].join(v[i] for _, v in cols))
            fn = '%s_%s_%d.csv' % (base, t.name.replace('/', '_'), t.instance)
            if fn in want:
                return []
            want[fn] = '\n'.join(lines) + '\n'
        with Scratch() as d:
            f = save(d, case, a['name'])
            where = d
            if a['out']:
                where = os.path.join(d, a['out'])
                if a['out'] == 'old' or not a['cli']:
                    os.mkdir(where)
            sel = ','.join(a['sel']) if a['sel'] else None
            if a['cli']:
                args = [f, '-d', a['delim']]
                if sel:
                    args += ['-m', sel]
                if a['out']:
                    args += ['-o', where]
                if a['a'] is not None:
                    args += ['-ts', a['a']]
                if a['b'] is not None:
                    args += ['-te', a['b']]
                if ignore(case):
                    args.append('-i')
                out, err = tool(m, args)
                if err:
                    return ['the tool failed: %r' % err]
            else:
                m.convert_ulog2csv(f, sel, where if a['out'] else None, a['delim'], a['a'], a['b'], ignore(case))
            got = {}
            for n in os.listdir(where):
                if n.endswith('.csv'):
                    with open(os.path.join(where, n), encoding='utf-8', newline='') as h:
                        got[n] = h.read()
        if sorted(got) != sorted(want):
            return ['files %s, expected %s' % (sorted(got), sorted(want))]
        for n in want:
            x, y = got[n].split('\n'), want[n].split('\n')
            if x != y:
                k = [i for i in range(max(len(x), len(y))) if x[i:i + 1] != y[i:i + 1]][0]
                return ['%s line %d of %d: %r, expected %r (of %d)' % (n, k, len(x), x[k:k + 1], y[k:k + 1], len(y))]
        return []


def slow(p):
    """(ordered logs stay ordered) nothing to do: kept for clarity of the generated case"""
    return p


# ---------------------------------------------------------------- C17
class C17:
    def gen(self, g):
        parts = [hdr(g)] + list(g.formats(g.r.randrange(1, 4)))
        g.t = g.pick([0, 10**6])
        parts += g.data(g.r.randrange(3, 40), ordered=g.chance(0.7))
        return mk(parts, topic=g.pick(g.tops + g.tops + [g.tops[0] + '_', g.tops[0] + g.tops[-1], 'none', None, 5]), a=g.pick([None, None, 0, 1, 2, 5, 10**6]),
                  b=g.pick([None, None, 1, 2, 3, 7, 10**6]))

    def check(self, case):
        r = ref(case)
        if r is None:
            return []
        a = case['args']
        f = module('extract_message').extract_message
        want = None
        for t in r.datasets:
            if t.name == a['topic'] and t.instance == 0 and want is None:
                names = [n for n, _ in t.fields]
                want = []
                cols = {n: np_values(t, i) for i, (n, _) in enumerate(t.fields)}
                names.remove('timestamp')
                for i in window(t.times(), a['a'], a['b']):
                    want.append([(n, cols[n][i]) for n in ['timestamp'] + names])
        if len([t for t in r.datasets if t.name == a['topic'] and t.instance == 0]) > 1:
            return []
        with Scratch() as d:
            p = save(d, case)
            try:
                got = f(p, a['topic'], a['a'], a['b'], ignore(case))
            except AttributeError as x:
                return [] if want is None else ['refused: %r' % x]
            except Exception as x:
                return ['raised %r' % x]
        if want is None:
            return ['an absent topic or a name that is no text was accepted: %r' % (got[:1],)]
        if len(got) != len(want):
            return ['%d rows, expected %d' % (len(got), len(want))]
        for i, (x, y) in enumerate(zip(got, want)):
            if list(x) != [k for k, _ in y]:
                return ['row %d: keys %s, expected %s' % (i, list(x), [k for k, _ in y])]
            for k, v in y:
                if same(x[k]) != same(v):
                    return ['row %d: %s is %r, expected %r' % (i, k, x[k], v)]
        return []


def same(x):
    """bits of a number"""
    import numpy as np
    v = np.asarray(x)
    return (v.dtype.kind, v.dtype.itemsize, v.tobytes())


# ---------------------------------------------------------------- C18
class C18:
    def gen(self, g):
        fl = ulg.flags([g.pick([0, 1, 1])] + [0] * 7)
        defs = [fl] + list(g.formats(1))
        for k in 'PPPPPPQQQQ':
            if g.chance(0.7):
                defs.append(g.param(k))
        data = g.data(g.r.randrange(1, 30), ordered=True)
        for _ in range(g.r.randrange(0, 6)):
            data.append(g.param('P'))
        ini, ts, df = g.pick([(0, 0, None)] * 3 + [(1, 0, None), (0, 1, None), (0, 0, 'system'), (0, 0, 'current_setup'),
                                                   (1, 0, 'system'), (0, 0, 'factory')])
        return mk([hdr(g)] + defs + data, format=g.pick(['csv', 'csv', 'octave', 'qgc']), initial=ini, ts=ts, default=df,
                  file=g.chance(0.4), delim=g.pick([',', ',', ';', ' ']))

    def check(self, case):
        r = ref(case)
        if r is None:
            return []
        a = case['args']
        refused = a['default'] is not None and (not r.compat[0] & 1 or a['default'] not in ('system', 'current_setup'))
        values = r.initial
        if a['default'] in ('system', 'current_setup'):
            values = r.defaults.get(['system', 'current_setup'].index(a['default']), {})
        initial = a['initial'] or a['default'] is not None
        text = ''
        for k in sorted(values):
            later = [] if initial else [(t, v) for t, n, v in r.changed if n == k]
            all_ = [values[k]] + [v for _, v in later]
            if a['format'] == 'csv':
                text += a['delim'].join([k] + [str(v) for v in all_]) + '\n'
                if a['ts']:
                    text += a['delim'].join(['timestamp', '0'] + [str(t) for t, _ in later]) + '\n'
            elif a['format'] == 'octave':
                if len(all_) > 1:
                    text += '# name %s\n# type: matrix\n# rows: 1\n# columns: %d\n%s\n' % (
                        k, len(all_), ''.join(str(v) + ' ' for v in all_))
                else:
                    text += '# name %s\n# type: scalar\n%s\n' % (k, all_[0])
            else:
                text += '\t'.join(['1', '1', k, str(values[k]), '9' if isinstance(values[k], float) else '6']) + '\n'
        with Scratch() as d:
            args = [save(d, case)] + (['-f', a['format']] if a['format'] != 'csv' or a['ts'] else []) + \
                (['-l', a['delim']] if a['delim'] != ',' or a['initial'] else [])
            if a['initial']:
                args.append('-i')
            if a['ts']:
                args.append('-t')
            if ignore(case):
                args.append('--ignore')
            if a['default']:
                args += ['-d', a['default']]
            if a['file']:
                args.insert(1, os.path.join(d, 'o.txt'))
            out, err = tool(module('params'), args)
            if err:
                return [] if refused else ['the tool failed: %r' % err]
            if refused:
                return ['defaults that do not exist were accepted']
            if a['file']:
                with open(os.path.join(d, 'o.txt'), encoding='utf-8', newline='') as h:
                    out = h.read()
        if a['ts'] and a['format'] == 'csv' and initial:
            return []
        if out.split() != text.split() if a['format'] == 'octave' else out != text:
            x, y = out.split('\n'), text.split('\n')
            k = [i for i in range(max(len(x), len(y))) if x[i:i + 1] != y[i:i + 1]]
            return ['line %s: %r, expected %r' % (k[:1], x[k[0]:k[0] + 1] if k else out, y[k[0]:k[0] + 1] if k else text)]
        return []


# ---------------------------------------------------------------- C19
class C19:
    def gen(self, g):
        n = g.pick([1, 5, 79, 127])
        withinst = g.chance(0.7)
        rows = []
        for t in times(g, g.r.randrange(0, 12)):
            ln = g.pick([0, 1, n, g.r.randrange(n + 1)]) | g.pick([0, 128])
            row = struct.pack('<Q', t) + (bytes([g.pick([0, 0, 1, 2])]) if withinst else b'') + bytes([ln])
            rows.append(row + bytes(g.r.randrange(256) for _ in range(n)))
        fields = [('uint64_t', 'timestamp')] + ([('uint8_t', 'instance')] if withinst else []) + \
                 [('uint8_t', 'len'), ('uint8_t[%d]' % n, 'data')]
        name = g.pick(['gps_dump'] * 5 + ['gps_other'])
        parts = log(g, [special(name, fields, rows, 3)], extra_data=[ulg.text(50, 1, 'x'), ulg.dropout(5)])
        if g.chance(0.15):      # not the fields of a dump
            bad = [x for x in fields if g.chance(0.6) and x[1] != 'timestamp'] + [('float', 'other')]
            if {'len', 'data', 'instance'} > {n for _, n in bad}:
                sizes = {'uint8_t': 1, 'uint64_t': 8, 'float': 4}
                raw = sum(sizes.get(t, n) for t, _ in bad)
                if not ('len' in [n for _, n in bad] and 'data' in [n for _, n in bad]):
                    parts = log(g, [special('gps_dump', fields[:1] + bad, [bytes(8 + raw)] * 3, 3)])
                    return mk(parts, wrong=True, n=n, instance=None, withinst=withinst, out=False)
        return mk(parts, n=n, instance=g.pick([None, 0, 1, 2]), withinst=withinst, out=g.chance(0.7))

    def check(self, case):
        r = ref(case)
        a = case['args']
        want = [b'', b'']
        i = a['instance'] or 0
        ds = [t for t in r.datasets if t.name == 'gps_dump']
        for t in ds[:1]:
            for row in t.rows:
                q = row[8:]
                inst = 0
                if a['withinst']:
                    inst, q = q[0], q[1:]
                if inst == i:
                    want[q[0] >> 7] += q[1:1 + (q[0] & 127)]
        with Scratch() as d:
            args = [save(d, case, 'f.ulg')]
            where = d
            if a['out']:
                where = os.path.join(d, 'o')
                os.mkdir(where)
                args += ['-o', where]
            if a['instance'] is not None:
                args += ['-i', a['instance']]
            out, err = tool(module('extract_gps_dump'), args)
            if a.get('wrong'):
                return [] if isinstance(err, SystemExit) else ['a topic without length and data was accepted: %r' % (err,)]
            if err:
                return ['the tool failed: %r' % err]
            names = ['f_%d_from_device.dat' % i, 'f_%d_to_device.dat' % i]
            if not ds:
                return ['files for a log without dump'] if [x for x in names if os.path.exists(os.path.join(where, x))] else []
            for n, w in zip(names, want):
                p = os.path.join(where, n)
                if not os.path.exists(p):
                    return ['no file ' + n]
                with open(p, 'rb') as h:
                    b = h.read()
                if b != w:
                    return ['%s: %s, expected %s' % (n, b[:40].hex(), w[:40].hex())]
        return []


# ---------------------------------------------------------------- C20
class C20:
    def gen(self, g):
        ints = g.chance(0.5)
        fix = g.chance(0.6)
        names = ('lat', 'lon', 'alt') if ints or g.chance(0.5) else ('latitude_deg', 'longitude_deg', 'altitude_msl_m')
        ty = ['int32_t'] * 3 if ints else ['double', 'double', 'float']
        fields = [('uint64_t', 'timestamp')] + [(t, n) for t, n in zip(ty, names)] + ([('uint8_t', 'fix_type')] if fix else [])

        def rows(n):
            out = []
            for t in times(g, n):
                v = [g.r.randrange(-900000000, 900000000) for _ in range(3)]
                body = struct.pack('<iii', *v) if ints else struct.pack('<ddf', v[0] / 1e7, v[1] / 1e7, v[2] / 1e3)
                out.append(struct.pack('<Q', t) + body + (bytes([g.pick([0, 2, 3, 3, 3, 4])]) if fix else b''))
            return out
        topic = g.pick(['vehicle_gps_position', 'vehicle_global_position'])
        sp = [special(topic, fields, rows(g.r.randrange(1, 20)), 1)]
        if g.chance(0.3):
            sp.append(special(topic, fields, rows(4), 2, 1))
        if g.chance(0.7):
            modes = []
            for t in times(g, g.r.randrange(1, 10)):
                modes.append(struct.pack('<QBB', t, g.r.randrange(9), g.pick([0, 3, 3, 4, 17])))
            sp.append(special('vehicle_status', [('uint64_t', 'timestamp'), ('uint8_t', 'arming'), ('uint8_t', 'nav_state')],
                              modes, 3))
        cam = g.pick([None, None, 'camera_capture', 'none'])
        if cam:
            rs = [struct.pack('<QddfI', t, g.r.uniform(-90, 90), g.r.uniform(-90, 90), 3.5, g.r.randrange(9))
                  for t in times(g, g.r.randrange(1, 5))]
            sp.append(special('camera_capture', [('uint64_t', 'timestamp'), ('double', 'lat'), ('double', 'lon'), ('float', 'alt'),
                                                 ('uint32_t', 'seq')], rs, 4))
        return mk(log(g, sp, start=0), topic=topic, cam=cam, ints=ints, fix=fix, names=list(names),
                  offset=g.pick([0, 0, 10, -2.5]), gap=g.pick([0.1, 0.1, 0, 1.0]), cli=g.chance(0.3), aslist=g.chance(0.3))

    def check(self, case):
        import xml.etree.ElementTree as ET
        r = ref(case)
        a = case['args']
        m = module('ulog2kml')
        if a['cli']:
            a = dict(a, offset=0, gap=0.1, aslist=False)
        pos = [t for t in r.datasets if t.name == a['topic'] and t.instance == 0]
        if not pos:
            return []
        t = pos[0]
        names = [n for n, _ in t.fields]
        col = {n: np_values(t, i) for i, n in enumerate(names)}
        lat, lon, alt = [[float(x) for x in col[n]] for n in a['names']]
        if a['ints']:
            lat, lon, alt = [x / 1e7 for x in lat], [x / 1e7 for x in lon], [x / 1e3 for x in alt]
        changes = []
        vs = [t for t in r.datasets if t.name == 'vehicle_status' and t.instance == 0]
        if vs:
            prev = None
            for ts, v in zip(vs[0].times(), vs[0].values(2)):
                if ts:
                    if v != prev:
                        changes.append((ts, v))
                    prev = v
            only = ulg.Ref(join(case), [a['topic'], 'vehicle_status'] + ([a['cam']] if a['cam'] else []))
            changes.append((only.last, -1))
        mode = changes[0][1] if changes else 0
        k = 0
        lines = [['%s:%d' % (a['topic'], mode), []]]
        last = 0
        for i, ts in enumerate(t.times()):
            if a['fix'] and col['fix_type'][i] <= 2:
                continue
            if (ts - last) / 1e6 > a['gap']:
                p = (lon[i], lat[i], alt[i] + a['offset'])
                lines[-1][1].append(p)
                last = ts
                while k + 1 < len(changes) and changes[k + 1][0] <= ts:
                    k += 1
                    lines.append(['%s:%d' % (a['topic'], changes[k][1]), [p]])
        points = []
        for c in r.datasets:
            if a['cam'] and c.name == a['cam'] and c.instance == 0:
                points = [('Camera Trigger %d' % s, (lo, la, al + a['offset'])) for la, lo, al, s in
                          zip(c.values(1), c.values(2), c.values(3), c.values(4))]
        with Scratch() as d:
            f = save(d, case)
            o = os.path.join(d, 't.kml')
            if a['cli']:
                out, err = tool(m, [f, '-o', o, '--topic', a['topic']] + (['--camera-trigger', a['cam']] if a['cam'] else []))
                if err:
                    return ['the tool failed: %r' % err]
            else:
                kw = dict(altitude_offset=a['offset'], minimum_interval_s=a['gap'], camera_trigger_topic_name=a['cam'])
                if a['aslist']:
                    m.convert_ulog2kml(f, o, [a['topic']], colors=[lambda x: 'ff0000ff'], **kw)
                else:
                    m.convert_ulog2kml(f, o, a['topic'], **kw)
            root = ET.parse(o).getroot()
        got_l, got_p = [], []
        for e in root.iter():
            tag = e.tag.split('}')[-1]
            if tag == 'Placemark':
                name = [x.text for x in e if x.tag.endswith('name')][0]
                for x in e.iter():
                    if x.tag.endswith('coordinates'):
                        pts = [tuple(float(v) for v in c.split(',')) for c in (x.text or '').split() if len(c.split(',')) == 3]
                        kind = [y.tag.split('}')[-1] for y in e if y.tag.endswith(('LineString', 'Point'))]
                        (got_l if kind == ['LineString'] else got_p).append([name, pts])
        # segments without positions show their default coordinate
        want_p = [[n, [p]] for n, p in points]
        def close(x, y):
            return len(x) == len(y) and all(math.isclose(p, q, rel_tol=1e-6, abs_tol=1e-9) for p, q in zip(x, y))
        for what, x, y in (('segment', got_l, lines), ('trigger', got_p, want_p)):
            if len(x) != len(y):
                return ['%d %ss %s, expected %d %s' % (len(x), what, [q[0] for q in x], len(y), [q[0] for q in y])]
            for u, v in zip(x, y):
                if not v[1]:
                    if len(u[1]) > 1:
                        return ['%s %s has positions' % (what, u[0])]
                    continue
                if u[0] != v[0] or len(u[1]) != len(v[1]) or not all(close(p, q) for p, q in zip(u[1], v[1])):
                    return ['%s %s, expected %s' % (what, ulg.short(u), ulg.short(v))]
        return []


# ---------------------------------------------------------------- C21
class C21:
    def gen(self, g):
        ty = g.pick(list(BASIC))
        vals = [g.raw(ty) for _ in range(g.pick([1, 2, 3]))]
        n = g.pick([0, 1, 2, 3, 5, 20])
        rows = [struct.pack('<Q', g.pick([0, 1, 5, 10**6 + i, i * 1000])) + g.pick(vals) + bytes([g.pick([0, 0, 1])])
                for i in range(n)]
        if not rows:
            rows = [struct.pack('<Q', 0) + vals[0] + b'\0']
        return mk(log(g, [special('t', [('uint64_t', 'timestamp'), (ty, 'v'), ('uint8_t', 'w')], rows, 1)]),
                  field=g.pick(['v', 'v', 'w', 'timestamp']))

    def check(self, case):
        r = ref(case)
        t = r.datasets[0]
        i = [n for n, _ in t.fields].index(case['args']['field'])
        v, ts = np_values(t, i), np_values(t, 0)
        want = []
        prev = None
        for a, b in zip(ts, v):
            if a == 0:
                continue
            if prev is None or float(b) != float(prev) or int_differs(b, prev):
                want.append((a, b))
            prev = b
        got = load(join(case)).get_dataset('t').list_value_changes(case['args']['field'])
        x, y = [(int(a), same(b)) for a, b in got], [(int(a), same(b)) for a, b in want]
        return [] if x == y else ['%s, expected %s' % (ulg.short(got), ulg.short(want))]


def int_differs(a, b):
    return a.dtype.kind in 'iu' and int(a) != int(b)


# ---------------------------------------------------------------- C22
MAV = {0: 'Generic', 1: 'Fixed Wing', 2: 'Quadrotor', 3: 'Coaxial helicopter', 4: 'Normal helicopter with tail rotor',
       5: 'Ground installation', 6: 'Ground Control Station', 7: 'Airship, controlled', 8: 'Free balloon, uncontrolled',
       9: 'Rocket', 10: 'Ground Rover', 11: 'Surface Vessel, Boat, Ship', 12: 'Submarine', 13: 'Hexarotor', 14: 'Octorotor',
       15: 'Tricopter', 16: 'Flapping wing', 17: 'Kite', 18: 'Onboard Companion Controller',
       19: 'Two-rotor VTOL (Tailsitter)', 20: 'Quad-rotor VTOL (Tailsitter)', 21: 'Tiltrotor VTOL', 22: 'VTOL Standard',
       23: 'VTOL Tailsitter', 24: 'VTOL reserved 4', 25: 'VTOL reserved 5', 26: 'Onboard Gimbal',
       27: 'Onboard ADSB Peripheral'}
LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']


def i32(name, v):
    return ulg.info('int32_t ' + name, struct.pack('<i', v), 'P')


class C22:
    def gen(self, g):
        d = []
        key = g.pick(['ver_sw_release', 'ver_sw_release', 'ver_vendor_sw_release'])
        if g.chance(0.85):
            d.append(ulg.info('uint32_t ' + key, bytes([g.pick([0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255])]) +
                              bytes(g.r.randrange(256) for _ in range(3))))
        if g.chance(0.8):
            d.append(i32('MAV_TYPE', g.pick(list(range(-1, 30)) + [1, 1, 1])))
        if g.chance(0.7):
            d.append(i32('SYS_MC_EST_GROUP', g.pick([-1, 0, 1, 2, 3, 4, 100])))
        for n in ['RC_MAP_ROLL', 'RC_MAP_PITCH', 'RC_MAP_YAW', 'RC_MAP_AUX1', 'RC_MAP_FLTMODE', 'RC_CHAN_CNT', 'XRC_MAP_A', 'RC_MAP_A_RC_MAP_B', 'RC_MAP_']:
            if g.chance(0.6):
                d.append(i32(n, g.pick([0, 1, 2, 3])))
        g.r.shuffle(d)
        levels = [g.pick(list(range(48, 56)) + [0, 47, 56, 255]) for _ in range(12)]
        if g.chance(0.5):
            levels = list(range(48, 56))
        data = [ulg.text(k, 5, 'x') for k in levels] + [ulg.tagged(k, 1, 5, 'x') for k in levels]
        return mk([ulg.header(1, 1)] + d + data, key=key)

    def check(self, case):
        r = ref(case)
        u = load(join(case))
        key = case['args']['key']
        bad = []

        def eq(what, x, y):
            if x != y:
                bad.append('%s: %r, expected %r' % (what, x, y))
        for k in {key, 'ver_sw_release', 'none'}:
            v = r.info.get(k)
            want = None if v is None else tuple(struct.pack('>I', v))
            got = u.get_version_info(k) if k != 'ver_sw_release' else u.get_version_info()
            eq('version of ' + k, None if got is None else tuple(got), want)
            s = None
            if want and want[3] >= 64:
                s = 'v%d.%d.%d' % want[:3] + (' (alpha)' if want[3] < 128 else ' (beta)' if want[3] < 192 else
                                             ' (RC)' if want[3] < 255 else '')
            eq('version text of ' + k, u.get_version_info_str(k) if k != 'ver_sw_release' else u.get_version_info_str(), s)
        for ms in [u.logged_messages] + list(u.logged_messages_tagged.values()):
            for m in ms:
                c = m.log_level
                if 48 <= c < 56:
                    eq('level %d' % c, m.log_level_str(), LEVELS[c - 48])
        from pyulog.px4 import PX4ULog
        p = PX4ULog(u)
        mt = r.initial.get('MAV_TYPE')
        eq('type', p.get_mav_type(), MAV.get(mt, 'unknown type'))
        e = r.initial.get('SYS_MC_EST_GROUP', 2)
        eq('estimator', p.get_estimator(), 'EKF2' if mt == 1 else
           {0: 'INAV', 1: 'LPE', 2: 'EKF2', 3: 'Q'}.get(e, 'unknown (%d)' % e))
        for c in range(-1, 4):
            w = [k[7:].capitalize() for k, v in r.initial.items() if k.startswith('RC_MAP_') and v == c + 1]
            g = p.get_configured_rc_input_names(c)
            eq('channel %d' % c, g if g is None else sorted(g), sorted(w) if w else None)
        return bad[:3]


# ---------------------------------------------------------------- C23
class C23:
    def gen(self, g):
        sp = []
        mid = 0
        for n, s in (('vehicle_attitude', ''), ('vehicle_vision_attitude', ''), ('vehicle_attitude_groundtruth', ''),
                     ('vehicle_attitude_setpoint', '_d'), ('other_attitude', '')):
            k = g.pick([0, 1, 1, 2, 3, 4])
            for inst in g.pick([range(k), range(k), range(1, k + 1)]):
                rows = []
                for t in times(g, g.r.randrange(1, 6)):
                    q = [g.r.gauss(0, 1) for _ in range(4)]
                    l = math.sqrt(sum(x * x for x in q)) or 1
                    if g.chance(0.1):
                        l = 0.5
                    rows.append(struct.pack('<Qffff', t, *[x / l for x in q]) + b'\7')
                sp.append(special(n, [('uint64_t', 'timestamp'), ('float[4]', 'q' + s), ('uint8_t', 'x')], rows, mid, inst))
                mid += 1
        return mk(log(g, sp, extra_data=[ulg.text(50, 2, 'x'), ulg.dropout(2)]),
                  sel=g.pick([None, None, ['vehicle_attitude'], ['vehicle_attitude_setpoint:_d', 'none'], []]))

    def check(self, case):
        import numpy as np
        from pyulog.px4 import PX4ULog
        u, o = load(join(case)), load(join(case))
        sel = case['args']['sel']
        old = ulg.ulog_view(o)
        p = PX4ULog(u)
        if sel is None:
            p.add_roll_pitch_yaw()
            sel = ['vehicle_attitude', 'vehicle_vision_attitude', 'vehicle_attitude_groundtruth', 'vehicle_attitude_setpoint:_d']
        else:
            p.add_roll_pitch_yaw(sel)
        for x, y in zip(u.data_list, o.data_list):
            s = None
            for m in sel:
                if m == x.name:
                    s = ''
                elif m == x.name + ':_d':
                    s = '_d'
            add = [] if s is None else ['roll' + s, 'pitch' + s, 'yaw' + s]
            if sorted(x.data) != sorted(list(y.data) + add):
                return ['%s/%d has %s' % (x.name, x.multi_id, sorted(x.data))]
            if s is None:
                continue
            q = [y.data['q%s[%d]' % (s, i)].astype(float) for i in range(4)]
            for i in range(len(q[0])):
                a, b, c, d = (float(z[i]) for z in q)
                sp = 2 * (a * c - d * b)
                w = {'roll': (2 * (a * b + c * d), 1 - 2 * (b * b + c * c)), 'yaw': (2 * (a * d + b * c), 1 - 2 * (c * c + d * d))}
                for n, (sy, cx) in w.items():
                    v = float(x.data[n + s][i])
                    h = math.hypot(sy, cx)
                    if h > 1e-3 and not (abs(math.sin(v) * h - sy) < 1e-4 * max(1, h) and
                                         abs(math.cos(v) * h - cx) < 1e-4 * max(1, h) and abs(v) <= math.pi + 1e-5):
                        return ['%s of %s/%d row %d is %r, expected %r' % (n + s, x.name, x.multi_id, i, v, math.atan2(sy, cx))]
                v = float(x.data['pitch' + s][i])
                if abs(sp) < 1 - 1e-5:
                    if not (abs(math.sin(v) - sp) < 1e-4 and abs(v) <= math.pi / 2 + 1e-5):
                        return ['pitch%s of %s/%d row %d is %r, expected %r' % (s, x.name, x.multi_id, i, v, math.asin(sp))]
                elif abs(sp) > 1 + 1e-4 and v == v:
                    return ['pitch of no angle is %r' % v]
            for n in add:
                if len(x.data[n]) != len(q[0]):
                    return ['%s has %d values' % (n, len(x.data[n]))]
                del x.data[n]
        return ulg.differ(ulg.ulog_view(u), old, list(old))[:3]


# ---------------------------------------------------------------- C24
class C24:
    def gen(self, g):
        rows = []
        ts = times(g, g.r.randrange(0, 10))
        n = g.pick([1, 3, 25])
        for t in ts:
            rows.append(struct.pack('<QIH', t, g.pick([1, 2, 3, 2**32 - 1]), 5) + bytes(g.r.randrange(256) for _ in range(n)) +
                        bytes([g.pick(list(range(16)) + [7, 7, 6, 4]) << 4 | g.r.randrange(16)]))
        fields = [('uint64_t', 'timestamp'), ('uint32_t', 'id'), ('uint16_t', 'event_sequence'), ('uint8_t[%d]' % n, 'arguments'),
                  ('uint8_t', 'log_levels')]
        sp = [special('event', fields, rows, 4)] if rows else []
        defs = []
        name = g.pick(['PX4', 'PX4', 'PX4', 'Other', None])
        if name:
            defs.append(ulg.info('char[%d] sys_name' % len(name), name.encode()))
        if g.chance(0.5):
            z = lzma.compress(json.dumps({'1': ['default', 'from log'], '3': ['other', 'hidden']}).encode())
            k = g.r.randrange(1, len(z))
            for i, part in enumerate((z[:k], z[k:])):
                defs.append(ulg.info('uint8_t[%d] metadata_events' % len(part), part, 'M', bytes([i])))
            if g.chance(0.4):       # a second list
                z = lzma.compress(json.dumps({'1': ['default', 'from second list']}).encode())
                defs.append(ulg.info('uint8_t[%d] metadata_events' % len(z), z, 'M', bytes([0])))
        if g.chance(0.8):
            h = g.pick(['a' * 64, 'b' * 64, 'c' * 65, 'ab/c', 'x' * 10])
            defs.append(ulg.info('char[%d] metadata_events_sha256' % len(h), h.encode()))
        texts = []
        for t in times(g, g.r.randrange(0, 6)):
            texts.append(ulg.text(g.r.randrange(48, 56), g.pick([t, t, 3600 * 10**6 + t, 10**12 + t]),
                                  g.pick([x for x in TEXTS if x])))
        if not texts and not rows:
            texts = [ulg.text(50, 1, 'x')]
        return mk(log(g, sp, defs, texts), default=g.pick([None, {'2': ['default', 'two'], '1': ['default', 'one']}, 'fail']),
                  twice=g.chance(0.3))

    def check(self, case):
        ev = events_module()
        import urllib.request
        r = ref(case)
        default = case['args']['default']
        own = None
        h = r.info.get('metadata_events_sha256')
        if 'metadata_events' in r.multi and h is not None and len(h) <= 64 and h.isalnum():
            own = json.loads(lzma.decompress(b''.join(r.multi['metadata_events'][0])))
        ds = [t for t in r.datasets if t.name == 'event' and t.instance == 0]
        want = []
        failed = own is None and default == 'fail'
        defs = own if own is not None else default
        if ds and not failed:
            t = ds[0]
            for row in t.rows:
                ts, eid, seq = struct.unpack('<QIH', row[:14])
                args, lv = row[14:-1], row[-1] >> 4
                if lv >= 8:
                    continue
                d = (defs or {}).get(str(eid))
                if d is None:
                    want.append((ts, LEVELS[lv], '[Unknown event with ID %d]' % eid))
                elif d[0] == 'default':
                    want.append((ts, LEVELS[lv], d[1] + ' ' + args.hex()))
        calls = []

        def cb(have):
            calls.append(have)
            if default == 'fail':
                raise OSError('no network')
            return default if not have else None
        bad = []
        p = ev.PX4Events()
        p.set_default_json_definitions_cb(cb)
        for _ in range(2 if case['args']['twice'] else 1):
            got = [(int(t), l, m) for t, l, m in p.get_logged_events(load(join(case), message_name_filter_list=['event']))]
            if got != want:
                bad.append('events %s, expected %s' % (ulg.short(got), ulg.short(want)))
        if own is not None and calls:
            bad.append('default definitions were asked for although the log has its own')
        # the tool
        mm = module('messages')
        old = urllib.request.urlopen

        def opener(*a, **k):
            if default in ('fail', None):
                raise OSError('no network')
            return io.BytesIO(lzma.compress(json.dumps(default).encode()))
        if own is None and default is None:
            want = []
        urllib.request.urlopen = opener
        try:
            with Scratch() as d:
                out, err = tool(mm, [save(d, case)])
        finally:
            urllib.request.urlopen = old
        if err:
            return bad + ['the tool failed: %r' % err]
        px4 = r.info.get('sys_name') == 'PX4'
        texts = [(t, LEVELS[l - 48], s) for l, t, s in r.texts]
        if px4:
            texts = sorted(want + [x for x in texts if not x[2].endswith('\t')], key=lambda x: x[0])

        def line(x):
            s = x[0] // 10**6
            return '%d:%02d:%02d %s: %s' % (s // 3600, s // 60 % 60, s % 60, x[1], x[2])
        lines = out.split('\n')[:-1]
        if lines and lines[0].startswith('Failed to get event parser'):
            lines = lines[1:]
        if len(lines) != len(texts):
            return bad + ['%d lines, expected %d' % (len(lines), len(texts))]
        i = 0
        while i < len(texts):
            j = i + 1
            while px4 and j < len(texts) and texts[j][0] == texts[i][0]:
                j += 1
            if sorted(lines[i:j]) != sorted(line(x) for x in texts[i:j]):
                return bad + ['lines %s, expected %s' % (lines[i:j], [line(x) for x in texts[i:j]])]
            i = j
        return bad[:3]


# ---------------------------------------------------------------- C25
ROS = {'bool': 'boolean', 'float': 'float', 'double': 'double', 'char': 'char'}


class C25:
    NAMES = {'vehicle_gps_position': 'SensorGps', 'estimator_wind': 'Wind', 'wind': 'Wind', 'sensor_combined': 'SensorCombined',
             'vehicle_attitude_groundtruth': 'VehicleAttitude', 'no_such_topic': None, 'vehicle_local_position': 'VehicleLocalPosition',
             'actuator_controls_status_3': 'ActuatorControlsStatus', 'actuator_controls_status_33': None,
             'actuator_outputs_debug': 'ActuatorOutputs', 'config_overrides_in': 'ConfigOverrides',
             'estimator_aid_src_gnss_yaw': 'EstimatorAidSource1d', 'estimator_aid_src_rng_hgt': 'EstimatorAidSource1d',
             'estimator_aid_src_drag': 'EstimatorAidSource2d', 'estimator_aid_src_gnss_pos': 'EstimatorAidSource2d',
             'estimator_aid_src_ev_vel': 'EstimatorAidSource3d', 'estimator_aid_src_gravity': 'EstimatorAidSource3d',
             'estimator_aid_src_other': None, 'estimator_ev_pos_bias': 'EstimatorBias3d', 'estimator_baro_bias': 'EstimatorBias',
             'estimator_gnss_hgt_bias': 'EstimatorBias', 'estimator_innovation_variances': 'EstimatorInnovations',
             'px4io_status': 'Px4ioStatus', 'px4io_status2': None, 'sensors_status_imu': 'SensorsStatus', 'sensors_status': None,
             'vehicle_angular_velocity_groundtruth': 'VehicleAngularVelocity', 'estimator_attitude': 'VehicleAttitude',
             'attitude': None, 'mc_virtual_attitude_setpoint': 'VehicleAttitudeSetpoint', 'gimbal_v1_command': 'VehicleCommand',
             'gimbal_control_mode': 'VehicleControlMode', 'aux_global_position': 'VehicleGlobalPosition',
             'external_ins_global_position': 'VehicleGlobalPosition', 'external_ins_local_position': 'VehicleLocalPosition',
             'my_global_position': None, 'estimator_odometry': 'VehicleOdometry', 'estimator_optical_flow_vel': 'VehicleOpticalFlowVel',
             'vehicle_thrust_setpoint_virtual_fw': 'VehicleThrustSetpoint', 'vehicle_torque_setpoint_x': 'VehicleTorqueSetpoint'}

    def gen(self, g):
        sp, types_ = [], {}
        mid = 0
        usual = ['vehicle_gps_position', 'estimator_wind', 'wind', 'sensor_combined', 'vehicle_attitude_groundtruth']
        names = sorted(self.NAMES) if g.chance(0.5) else usual
        for name in g.r.sample(names, g.r.randrange(1, 4)):
            fs = [('uint64_t', 'timestamp')]
            for i in range(g.r.randrange(0, 4)):
                fs.append((g.pick(list(BASIC)) + g.pick(['', '', '[2]', '[11]']), 'f%d' % i))
            ty = self.NAMES[name]
            have = {f: t for t, f in fs}
            if g.chance(0.15) and len(fs) > 1:
                del have['f0']
            have['unused'] = 'int32_t'
            if g.chance(0.9) and ty and ty not in types_:
                types_[ty] = {}
            if ty in types_:
                types_[ty] = dict(have, **types_[ty])
                fs = [(types_[ty].get(f, t), f) for t, f in fs]
            for inst in g.pick([[0], [0], [0, 1], [1], [0, 2]]):
                rows = []
                for t in times(g, g.r.randrange(1, 4)):
                    row = b''
                    for tt, f in fs:
                        b, _, n = tt.partition('[')
                        n = int(n[:-1]) if n else 1
                        row += struct.pack('<Q', t) if f == 'timestamp' else b''.join(g.raw(b) for _ in range(n))
                    rows.append(row)
                sp.append(special(name, fs, rows, mid, inst))
                mid += 1
        if g.chance(0.4):
            fm = ulg.fmt('inner:uint8_t a;')
            sp.append((fm, ulg.sync(), []))
            f, a, s = special('vehicle_odometry', [('uint64_t', 'timestamp'), ('inner', 'f')], [struct.pack('<QB', 5, 1)], 50)
            sp.append((f, a, s))
            types_['VehicleOdometry'] = {'timestamp': 'uint64_t', 'f': 'uint8_t', 'f.a': 'uint8_t'}
        return mk(log(g, sp), types=types_, version=g.pick(['0.15.0', '0.25.0', '0.26.3', '0.32.0', '0.33.1']),
                  sel=g.pick([None, None, ['wind'], ['vehicle_gps_position', 'sensor_combined']]), cli=g.chance(0.3))

    def check(self, case):
        m, msgs = ros_module()
        a = case['args']
        r = ref(case, a['sel'])
        for k in list(vars(msgs)):
            if k[0].isupper():
                delattr(msgs, k)
        for ty, fields in a['types'].items():
            setattr(msgs, ty, message_class(ty, fields))
        topics, want = [], []
        inst = {}
        for t in r.datasets:
            inst.setdefault(t.name, set()).add(t.instance)
        for t in r.datasets:
            ty = self.NAMES.get(t.name, 'VehicleOdometry')
            direct = ''.join(x.title() for x in t.name.split('_'))
            if direct in a['types']:
                ty = direct
            fs = a['types'].get(ty)
            if fs is None or any('.' in f for f, _ in t.fields) or any(f.split('[')[0] not in fs for f, _ in t.fields):
                continue
            name = '/px4/' + t.name + ('' if inst[t.name] == {0} else '_%d' % t.instance)
            topics.append((name, 'px4_msgs/msg/' + ty, 'cdr'))
            for i, ts in enumerate(t.times()):
                x = message_class(ty, fs)()
                for k, (f, tt) in enumerate(t.fields):
                    v = np_values(t, k)[i].item()
                    n, _, j = f.partition('[')
                    if BASIC[tt][2] == 'i1' and ros_type(fs[n]).startswith('bool'):
                        v = bool(v)
                    if j:
                        if not isinstance(getattr(x, n), list) or len(getattr(x, n)) <= int(j[:-1]):
                            return []
                        getattr(x, n)[int(j[:-1])] = v
                    else:
                        setattr(x, n, v)
                want.append((name, ('cdr', ty, x.dump()), ts * 1000))
        Bag.log, Bag.topics, Bag.version, Bag.closed, Bag.opened = [], [], a['version'], False, None
        with Scratch() as d:
            f = save(d, case, 'abc.ulg')
            sel = ','.join(a['sel']) if a['sel'] else None
            if a['cli']:
                out, err = tool(m, [f] + (['-m', sel] if sel else []))
                if err:
                    return ['the tool failed: %r' % err]
                uri = 'rosbag_abc'
            else:
                m.convert_ulog2ros2bag(f, 'x', True, sel)
                uri = 'x'
        got = [(t['name'], t['type'], t['serialization_format']) for t in Bag.topics]
        if got != topics:
            return ['topics %s, expected %s' % (got, topics)]
        # exactly one message per sample, per topic in order
        for n in [t[0] for t in topics]:
            x, y = [e for e in Bag.log if e[0] == n], [e for e in want if e[0] == n]
            if repr(x) != repr(y):
                return ['messages of %s: %s, expected %s' % (n, ulg.short(x), ulg.short(y))]
        if len(Bag.log) != len(want):
            return ['%d messages, expected %d' % (len(Bag.log), len(want))]
        if Bag.opened is None or Bag.opened[0].get('uri') != uri:
            return ['bag %r, expected %s' % (Bag.opened, uri)]
        return []


def ros_type(t):
    b, _, n = t.partition('[')
    b = ROS.get(b, b[:-2] if b.endswith('_t') else b)
    return b + ('[' + n if n else '')


def message_class(name, fields):
    def init(self):
        for f, t in fields.items():
            n = t.partition('[')[2]
            setattr(self, f, [0] * int(n[:-1]) if n else 0)

    def dump(self):
        return sorted((k, list(map(plain, v)) if isinstance(v, list) else plain(v)) for k, v in vars(self).items())
    return type(name, (), {'__init__': init, 'dump': dump, '__slots__': ('__dict__',),
                           'get_fields_and_field_types': classmethod(lambda c: {f: ros_type(t) for f, t in fields.items()})})


def plain(v):
    if type(v) not in (int, float, bool):
        raise TypeError('value %r' % (v,))
    return (type(v).__name__, struct.pack('<d', v).hex() if isinstance(v, float) else v)


# ---------------------------------------------------------------- C26
class C26:
    def gen(self, g):
        defs = [ulg.flags()] + list(g.formats(g.r.randrange(1, 3)))
        for _ in range(g.r.randrange(0, 6)):
            defs.append(g.info())
        for _ in range(g.r.randrange(0, 6)):
            defs.append(g.multi())
        start = g.pick([0, 1, 59 * 10**6, 61 * 10**6, 3599999999, 3600000000, 10**11 + 7])
        ordered = g.chance(0.7)
        if ordered and g.chance(0.7):
            g.t = start
            g.steps = [0, 1, 10**6, 999999, 59 * 10**6, 61 * 10**6, 3541 * 10**6, 3600 * 10**6]
        data = g.data(g.r.randrange(1, 40), ordered=ordered)
        if g.chance(0.3):
            data.append(ulg.sample(99, b'xxxxx'))
        if g.chance(0.5):
            data = [p for p in data if p[2:3] != b'O']
        return mk([hdr(g, start)] + defs + data,
                  verbose=g.chance(0.4), message=g.pick([None, None, None, 'part_0', 'part_1', 'part_2', 'nope']),
                  newline=g.chance(0.4))

    def check(self, case):
        r = ref(case)
        if r is None:
            return []
        a = case['args']
        with Scratch() as d:
            args = [save(d, case)]
            if a['verbose']:
                args.append('-v')
            if ignore(case):
                args.append('-i')
            if a['message']:
                args += ['-m', a['message']]
            if a['newline']:
                args.append('-n')
            out, err = tool(module('info'), args)
        if err:
            return ['the tool failed: %r' % err]
        sep = '\n' if a['newline'] else ''
        if a['message']:
            want = ''
            k = a['message']
            if k in r.multi:
                for i, l in enumerate(r.multi[k]):
                    if l and isinstance(l[0], bytes):
                        want += '# %s %d (len: %d):\n' % (k, i, sum(len(x) for x in l))
                        want += sep.join(' '.join('%02x' % c for c in x) for x in l) + '\n'
                    else:
                        want += '# %s %d:\n' % (k, i) + sep.join(l) + '\n'
            else:
                want = 'message %s not found\n' % k
            return [] if ('\n' + out).endswith('\n' + want) else ['%r, expected %r' % (out[:300], want[:300])]

        def hms(us):
            s = us // 10**6
            return '%d:%02d:%02d' % (s // 3600, s // 60 % 60, s % 60)
        w = []
        if r.corrupt:
            w.append('Warning: file has data corruption(s)')
        w.append('Logging start time: %s, duration: %s' % (hms(r.start), hms(r.last - r.start)))
        ds = [d for _, d in r.dropouts]
        if ds:
            w.append('Dropouts: count: %d, total duration: %.1f s, max: %d ms, mean: %d ms' % (
                len(ds), sum(ds) / 1000, max(ds), sum(ds) // len(ds)))
        else:
            w.append('No Dropouts')
        v = r.info.get('ver_sw_release')
        if v is not None and v & 255 >= 64:
            w.append('SW Version: v%d.%d.%d%s' % (v >> 24, v >> 16 & 255, v >> 8 & 255,
                                                 [' (alpha)', ' (beta)', ' (RC)', ''][(v & 255) // 64 - 1 + (v & 255 == 255)]))
        w.append('Info Messages:')
        for k in sorted(r.info):
            if a['verbose'] or not k.startswith('perf_'):
                w.append(' %s: %s' % (k, r.info[k]))
        if r.multi:
            if a['verbose']:
                w.append('Info Multiple Messages:')
                for k in sorted(r.multi):
                    w.append(' %s: %s' % (k, r.multi[k]))
            else:
                w.append('Info Multiple Messages: ' + ', '.join('[%s: %d]' % (k, len(r.multi[k])) for k in sorted(r.multi)))
        text = '\n'.join(w)
        # loading may print warnings of its own
        at = ('\n' + out).find('\n' + text + '\n')
        if at > 0:
            if not r.corrupt and 'Warning: file has data corruption' in out:
                return ['a warning about corruption for a log that is not corrupt']
            out = out[at:]
        if not out.startswith(text + '\n'):
            x, y = out.split('\n'), text.split('\n')
            k = [i for i in range(len(y)) if x[i:i + 1] != y[i:i + 1]][:1]
            return ['line %r, expected %r' % (x[k[0]] if k and k[0] < len(x) else '', y[k[0]] if k else '')]
        if out[len(text) + 1:].split('\n')[0].strip():
            return ['line %r, expected the list of datasets' % out[len(text) + 1:].split('\n')[0]]
        rest = [l.split() for l in out[len(text):].split('\n') if l.startswith(' ')]
        rows = []
        for t in r.datasets:
            size = sum(BASIC[ty][1] for _, ty in t.fields)
            rows.append([t.name, '(%d,' % t.instance, '%d)' % size, str(len(t.rows)), str(size * len(t.rows))])
        if sorted(rest) != sorted(rows):
            return ['datasets %s, expected %s' % (ulg.short(sorted(rest)), ulg.short(sorted(rows)))]
        return []


PROPS = {k: v for k, v in globals().items() if k.startswith('C') and k[1:].isdigit()}
