"""C12-C15: the database"""
import hashlib
import io
import os
import shutil
import sqlite3
import struct
import sys
import tempfile
from . import ulg
from .gen import Gen
from .p_core import load, join, mk, write, DEFS


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pvdb')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


_template = []


def new_db(d):
    """a migrated database (migrated once per process, then copied)"""
    from pyulog.migrate_db import migrate_db
    from pyulog.db import DatabaseULog
    path = os.path.join(d, 'l.sqlite3')
    if not _template:
        migrate_db(path)
        _template.append(open(path, 'rb').read())
    else:
        open(path, 'wb').write(_template[0])
    return path, DatabaseULog.get_db_handle(path)


def storable(g, n=None, scalar_multi=False, **kw):
    """a log without the known findings of C12"""
    nan = kw.get('nan', False)
    g.t = g.pick([0, 1, 1000])
    start = g.t
    fl = ulg.flags([g.pick([0, 1])] + [0] * 7, [g.pick([0, 0, 1])] + [0] * 7,
                   (g.pick([0, 0, 10**6]), 0, 0)) if g.chance(0.5) else None
    defs = [d for d in g.definitions(fl)]
    data = g.data(g.r.randrange(2, 40) if n is None else n, ordered=g.chance(0.5), nan=False)
    for _ in range(3):
        b = b''.join([ulg.header(g.pick([0, 1]), start)] + defs + data)
    parts = [ulg.header(g.pick([0, 1]), start)] + defs + data
    return [p for p in parts if fits(p)]


def fits(p):
    k = chr(p[2])
    if p[:4] == ulg.MAGIC[:4]:
        return True
    if k in 'IMPQ':
        q = p[3:]
        if k in 'MQ':
            q = q[1:]
        try:
            t, name, v = ulg.key_value(q)
        except ulg.Bad:
            return False
        if isinstance(v, float) and v != v:
            return False
        if isinstance(v, int) and v >= 2**63:
            return False
        if k == 'M' and isinstance(v, (int, float)):
            return False
    return True


def supported(b):
    """within the property (and outside the known findings)"""
    r = ulg.Ref(b)
    if r.corrupt:
        return False
    ids = [(t.name, t.instance) for t in r.datasets]
    if len(ids) != len(set(ids)):
        return False
    if any(not f for f in r.formats.values()):
        return False
    big = [r.start, r.last] + [t[1] for t in r.texts] + [m[2] for v in r.tagged.values() for m in v] + r.offsets
    return all(x < 2**63 for x in big)


def dump(path):
    con = sqlite3.connect(path)
    out = {}
    for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
        if t != 'sqlite_sequence':
            out[t] = sorted((r for r in con.execute('SELECT rowid, * FROM %s' % t).fetchall()), key=repr)
    con.close()
    return out


# ---------------------------------------------------------------- C12
class C12:
    shrink = False

    def gen(self, g):
        logs = []
        for _ in range(g.pick([1, 1, 2, 3])):
            logs.append([p.hex() for p in storable(g)])
        return {'logs': logs, 'json': g.chance(0.3), 'target': g.r.randrange(len(logs))}

    def directed(self):
        fm = ulg.fmt('topic_a:uint64_t timestamp;float x;')
        base = [ulg.header(1, 5), fm, ulg.announce('topic_a', 1), ulg.sample(1, struct.pack('<Qf', 6, 1.0))]
        # the known findings, one input each
        a = base[:2] + [ulg.info('int32_t n', struct.pack('<i', 7), 'M', b'\0')] + base[2:]
        b = base[:2] + [ulg.info('float p', struct.pack('<f', float('nan')), 'P')] + base[2:]
        c = base + [ulg.announce('topic_a', 2), ulg.sample(2, struct.pack('<Qf', 7, 1.0))]
        d = base + [ulg.sample(9, b'unknown')]
        for n, x in (('multi-scalar', a), ('nan-parameter', b), ('same-instance', c), ('corruption-flag', d)):
            yield {'logs': [[p.hex() for p in x]], 'json': False, 'target': 0, 'finding': n}
        # text and number look-alikes, empty values, extreme values
        e = base[:2] + [ulg.info('char[2] s', b'42'), ulg.info('char[3] t', b'1.0', 'M', b'\0'), ulg.info('char[0] u', b''),
                        ulg.info('uint8_t[3] r', b'\0\1\2'), ulg.info('int64_t v', struct.pack('<q', -2**63)),
                        ulg.info('float w', struct.pack('<f', float('inf'))), ulg.info('double w2', struct.pack('<d', 0.1)),
                        ulg.info('bool b', b'\1'), ulg.info('char c', b'x'),
                        ulg.info('int32_t P', struct.pack('<i', -1), 'P'), ulg.info('float P', struct.pack('<f', 3.0), 'Q', b'\x83'),
                        ulg.info('float F', struct.pack('<f', 2.0), 'P')] + base[2:] + [
            ulg.text(50, 2**62, '123'), ulg.tagged(51, 65535, 2**63 - 1, '0x10'), ulg.tagged(50, 3, 2**53 + 1, ''), ulg.dropout(65535),
            ulg.info('int32_t P', struct.pack('<i', 2**31 - 1), 'P'), ulg.info('float P', struct.pack('<f', 1.0), 'P'),
            ulg.sample(1, struct.pack('<Qf', 2**63 - 1, 1.0)), ulg.dropout(1)]
        yield {'logs': [[p.hex() for p in e]], 'json': True, 'target': 0}

    FINDINGS = {'multi-scalar': 'a multi-part information entry of a scalar number type is loaded as text',
                'nan-parameter': 'a not-a-number parameter or information value is loaded as None',
                'same-instance': 'a log with two datasets of the same name and instance cannot be saved',
                'corruption-flag': 'the corruption flag is not stored'}

    def known(self, case, bad):
        return self.FINDINGS.get(case.get('finding'))

    def check(self, case):
        from pyulog import ULog
        from pyulog.db import DatabaseULog
        with Scratch() as d:
            path, h = new_db(d)
            keys = []
            done = set()
            for i, parts in enumerate(case['logs']):
                b = b''.join(bytes.fromhex(x) for x in parts)
                if b in done or ('finding' not in case and not supported(b)):
                    keys.append(None)
                    continue
                done.add(b)
                f = os.path.join(d, '%d.ulg' % i)
                open(f, 'wb').write(b)
                try:
                    u = DatabaseULog(h, log_file=f)
                    u.save(append_json=case['json'])
                except Exception as x:
                    return ['saving log %d raised %r' % (i, x)]
                keys.append(u.primary_key)
            bad = []
            for i, k in enumerate(keys):
                if k is None:
                    continue
                b = b''.join(bytes.fromhex(x) for x in case['logs'][i])
                z = DatabaseULog(h, primary_key=k, lazy=False)
                u = load(b)
                r = ulg.Ref(b)
                v, w = ulg.ulog_view(z), ulg.ulog_view(u)
                bad += ulg.differ(v, w, list(w))
                # the order of lists and of names
                for q in ('initial', 'info', 'formats', 'multi'):
                    if v[q] != w[q] and not bad:
                        bad.append('%s: order or types differ' % q)
                if not bad and not (u == z):
                    bad.append('the loaded log is not equal to the original')
                if not bad and not (z == u):
                    bad.append('the original is not equal to the loaded log')
                if not bad and getattr(z, '_appended_offsets', None) is not None and z._appended_offsets != r.offsets:
                    bad.append('appended offsets %s, expected %s' % (z._appended_offsets, r.offsets))
            return bad[:4]


# ---------------------------------------------------------------- C13
def small(g, i):
    g.t = 0
    fm = g.formats(g.r.randrange(1, 3))
    defs = [g.info(), g.multi(), g.param('P', nan=False), g.param('Q', nan=False)]
    p = [ulg.header(1, i + 1)] + fm + defs + g.data(12, ordered=True, nan=False) + [ulg.dropout(1)]
    return [x for x in p if fits(x)]


class C13:
    shrink = False

    def gen(self, g):
        logs = []
        for i in range(3):
            p = small(g, i)
            logs.append([x.hex() for x in p])
        # padding of the file to sizes around the block size of the digest
        q = g.pick([None, 4095, 4096, 4097, 8192, 8191])
        if q:
            b = sum(len(x) // 2 for x in logs[0])
            left = q - b - 12
            if left > 0:
                logs[0].append(ulg.text(54, 10**9, 'z' * (left)).hex())
        ops = []
        for _ in range(g.r.randrange(3, 12)):
            ops.append([g.pick(['new', 'new', 'save', 'save', 'save', 'lookup', 'delete', 'delete', 'load', 'resave',
                                'badkey', 'both', 'neither', 'failsave', 'digest', 'exists', 'old']),
                        g.r.randrange(3), g.r.randrange(3)])
        return {'logs': logs, 'ops': ops}

    def check(self, case):
        from pyulog.db import DatabaseULog
        with Scratch() as d:
            path, h = new_db(d)
            files, sums = [], []
            for i, parts in enumerate(case['logs']):
                b = b''.join(bytes.fromhex(x) for x in parts)
                if not supported(b):
                    return []
                f = os.path.join(d, '%d.ulg' % i)
                open(f, 'wb').write(b)
                files.append(f)
                sums.append(hashlib.sha256(b).hexdigest())
            if len(set(sums)) < 3:
                return []
            # a log that cannot be stored: the last row fails
            cb = bytes.fromhex(case['logs'][0][0]) + ulg.fmt('topic_a:uint64_t timestamp;') + ulg.announce('topic_a', 1) + \
                ulg.sample(1, struct.pack('<Q', 2**63 - 3)) + ulg.text(50, 5, 'x') + ulg.text(50, 2**64 - 1, 'y')
            bf = os.path.join(d, 'bad.ulg')
            open(bf, 'wb').write(cb)
            rows = {}           # index -> (key, rows)
            obj = {}
            def added(old, new):
                return {t: [r for r in new[t] if r not in old[t]] for t in new}
            for op, i, j in case['ops']:
                before = dump(path)
                what = '%s(%d)' % (op, i)
                try:
                    if op == 'new':
                        if j == 2:      # from an open file
                            with open(files[i], 'rb') as f:
                                obj[i] = DatabaseULog(h, log_file=f)
                        else:
                            obj[i] = DatabaseULog(h, log_file=files[i])
                        if obj[i].primary_key is not None or obj[i].sha256sum != sums[i]:
                            return [what + ': key %r, digest %s' % (obj[i].primary_key, obj[i].sha256sum)]
                    elif op in ('save', 'resave'):
                        if i not in obj:
                            obj[i] = DatabaseULog(h, log_file=files[i])
                        u = obj[i]
                        if op == 'resave' and i in rows:
                            u = DatabaseULog(h, primary_key=rows[i][0], lazy=bool(j % 2))
                        legal = u.primary_key is None and i not in rows
                        try:
                            u.save()
                            ok = True
                        except KeyError:
                            ok = False
                        if ok != legal:
                            return ['%s %s' % (what, 'was accepted' if ok else 'was refused')]
                        if not ok and dump(path) != before:
                            return [what + ': refused but the database changed']
                        if ok:
                            after = dump(path)
                            rows[i] = (u.primary_key, added(before, after))
                            if added(after, before) != {t: [] for t in before}:
                                return [what + ': rows of other logs changed']
                            if len(rows[i][1]['ULog']) != 1:
                                return [what + ': %d log rows' % len(rows[i][1]['ULog'])]
                            continue
                        if i not in rows or u is not obj[i]:
                            continue
                        obj.pop(i)
                    elif op == 'lookup':
                        k = DatabaseULog.primary_key_from_sha256sum(h, sums[i])
                        if k != (rows[i][0] if i in rows else None):
                            return ['%s gave %r' % (what, k)]
                    elif op == 'exists':
                        for k in list(range(0, 6)):
                            want = k in [q for q, _ in rows.values()]
                            if bool(DatabaseULog.exists_in_db(h, k)) != want:
                                return ['exists_in_db(%d) is %s' % (k, not want)]
                    elif op == 'delete':
                        u = obj.get(i)
                        if j == 1 and i in rows:
                            u = DatabaseULog(h, primary_key=rows[i][0])
                        if u is None:
                            u = obj[i] = DatabaseULog(h, log_file=files[i])
                        if u.primary_key is None:
                            try:
                                u.delete()
                                return [what + ': a log that was not saved was deleted']
                            except KeyError:
                                pass
                            if dump(path) != before:
                                return [what + ': refused but the database changed']
                            continue
                        if i not in rows or rows[i][0] != u.primary_key:
                            continue
                        u.delete()
                        k, mine = rows.pop(i)
                        if u is not obj.get(i):
                            obj.pop(i, None)
                        want = {t: [r for r in before[t] if r not in mine[t]] for t in before}
                        after = dump(path)
                        if after != want:
                            t = [t for t in want if after[t] != want[t]][0]
                            return ['%s: table %s has %d rows, expected %d' % (what, t, len(after[t]), len(want[t]))]
                        if u.primary_key is not None:
                            return [what + ': the key is still set']
                        continue
                    elif op == 'load':
                        if i in rows:
                            u = DatabaseULog(h, primary_key=rows[i][0])
                            if u.sha256sum != sums[i] or u.primary_key != rows[i][0]:
                                return [what + ': digest or key differ']
                    elif op == 'badkey':
                        try:
                            DatabaseULog(h, primary_key=1000 + i)
                            return [what + ': an unknown key was loaded']
                        except KeyError:
                            pass
                    elif op == 'both' or op == 'neither':
                        try:
                            if op == 'both':
                                DatabaseULog(h, primary_key=1, log_file=files[i])
                            else:
                                DatabaseULog(h)
                            return [op + ' key and file accepted']
                        except ValueError:
                            pass
                    elif op == 'failsave':
                        u = DatabaseULog(h, log_file=bf)
                        try:
                            u.save()
                            return []
                        except (OverflowError, sqlite3.Error):
                            pass
                        if dump(path) != before:
                            return ['a failed save left rows']
                    elif op == 'old':
                        p2 = os.path.join(d, 'old.sqlite3')
                        shutil.copy(path, p2)
                        c = sqlite3.connect(p2)
                        c.execute('PRAGMA user_version = %d' % [0, 1, DatabaseULog.SCHEMA_VERSION - 1][j])
                        c.commit()
                        c.close()
                        try:
                            DatabaseULog(DatabaseULog.get_db_handle(p2), log_file=files[i])
                            return ['a database older than the code was accepted']
                        except ValueError:
                            pass
                    elif op == 'digest':
                        with open(files[i], 'rb') as f:
                            f.read(5 * j)
                            a = DatabaseULog.calc_sha256sum(f)
                            if f.tell() != 5 * j:
                                return ['digest of file %d moved the position in the file' % i]
                        b = DatabaseULog.calc_sha256sum(f)      # closed: opened again by name
                        c = DatabaseULog.calc_sha256sum(files[i])
                        e = DatabaseULog.calc_sha256sum(io.BytesIO(open(files[i], 'rb').read()))
                        if {a, b, c, e} != {sums[i]} or DatabaseULog.calc_sha256sum(None) is not None:
                            return ['digest of file %d is wrong' % i]
                except (KeyError, ValueError, sqlite3.Error, OverflowError) as x:
                    return ['%s raised %r' % (what, x)]
                if dump(path) != before:
                    return [what + ' changed the database']
            return []


# ---------------------------------------------------------------- C14
class C14:
    shrink = False

    def gen(self, g):
        r = g.r
        from pyulog.db import DatabaseULog
        top = DatabaseULog.SCHEMA_VERSION
        files = {}
        for k in range(1, top + 2):
            q = r.random()
            ok = ['CREATE TABLE t%d (a INTEGER);' % k, 'INSERT INTO keep VALUES (%d);' % k]
            if q < 0.62:
                body = ok
            elif q < 0.72:
                body = ok + ['INSERT INTO no_such_table VALUES (1);']
            elif q < 0.8:
                body = ok[:1] + ['CREATE TABLE t%d (a INTEGER);' % k] + ok[1:]
            elif q < 0.85:
                body = None         # missing file
            else:
                body = ok
            text = None
            if body is not None:
                pre, post = 'BEGIN;\n', 'COMMIT;'
                z = r.random()
                if z < 0.05: pre = ''
                elif z < 0.1: post = ''
                elif z < 0.13: post = 'COMMIT'
                elif z < 0.16: pre = 'begin;\n'
                elif z < 0.19: pre = g.pick(['CREATE TABLE early%d (a INTEGER);\nBEGIN;\n' % k, '-- about\nBEGIN;\n', ';BEGIN;\n',
                                             'PRAGMA foreign_keys=off;\nBEGIN;\n', 'BEGIN TRANSACTION;\n'])
                elif z < 0.22: post = g.pick(['COMMIT;\nCREATE TABLE late%d (a INTEGER);' % k, 'COMMIT;\n-- done', 'END;', 'commit;'])
                elif z < 0.3: pre, post = '\n  BEGIN;\n', 'COMMIT;\n\n'
                text = pre + '\n'.join(body) + '\n' + post
            files[str(k)] = text
        return {'files': files, 'have': g.pick([None, None, 0, 1, 2, top - 1, top, top + 1, top + 3, -1, -2]),
                'dir': g.pick(['sql', 'sql', 'sql {0} {x}']), 'force': g.chance(0.4), 'noop': g.chance(0.15), 'rows': g.chance(0.5),
                'main': g.pick([None, None, 'short', 'long', 'default'])}

    def directed(self):
        yield {'real': True}
        for k in range(1, 6):
            yield {'real': True, 'at': k}

    def state(self, path):
        if not os.path.exists(path):
            return (0, [], [])
        con = sqlite3.connect(path)
        v = con.execute('PRAGMA user_version').fetchone()[0]
        t = sorted(x for (x,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'"))
        keep = con.execute('SELECT * FROM keep').fetchall() if 'keep' in t else []
        con.close()
        return (v, t, keep)

    def check(self, case):
        from pyulog.migrate_db import migrate_db
        from pyulog.db import DatabaseULog
        top = DatabaseULog.SCHEMA_VERSION
        with Scratch() as d:
            if case.get('real'):
                return self.real(d, case, migrate_db, DatabaseULog)
            sql = os.path.join(d, case.get('dir', 'sql'))
            os.mkdir(sql)
            for k, t in case['files'].items():
                if t is not None:
                    open(os.path.join(sql, 'pyulog.%s.sql' % k), 'w').write(t)
            path = os.path.join(d, 'm.sqlite3')
            have = case['have']
            con = None
            if have is not None:
                con = sqlite3.connect(path)
                con.execute('CREATE TABLE keep (x INTEGER)')
                con.execute('INSERT INTO keep VALUES (77)')
                con.execute('PRAGMA user_version = %d' % have)
                con.commit()
                con.close()
            else:
                # the files insert into this table: create it in the first file
                t = case['files']['1']
                if t is not None:
                    t = t.replace('CREATE TABLE t1', 'CREATE TABLE keep (x INTEGER); CREATE TABLE t1')
                    open(os.path.join(sql, 'pyulog.1.sql'), 'w').write(t)
            v0, tables0, keep0 = self.state(path)
            # expected
            version, tables, keep = v0, list(tables0), list(keep0)
            error = None
            states = [(version, sorted(tables), list(keep))]
            if have == 0 and not case['force']:
                error = FileExistsError
            elif have is not None and have < 0:
                error = ValueError
            else:
                for k in range(v0 + 1, top + 1):
                    t = case['files'][str(k)]
                    if t is None:
                        error = FileNotFoundError
                        break
                    s = t.strip()
                    if not s.startswith('BEGIN;') or not s.endswith('COMMIT;'):
                        error = ValueError
                        break
                    if case['noop']:
                        continue
                    dup = t.count('CREATE TABLE t%d ' % k) > 1
                    if dup or 'no_such_table' in t:
                        error = sqlite3.OperationalError
                        break
                    version = k
                    tables.append('t%d' % k)
                    if have is None and k == 1:
                        tables.append('keep')
                    keep.append((k,))
                    states.append((version, sorted(tables), list(keep)))
            want = (version, sorted(tables), keep)
            # a copy of the database before every statement: what a crash would leave
            snaps = []
            real_connect = sqlite3.connect
            def connect(p, *a, **k):
                con = real_connect(p, *a, **k)
                def trace(stmt):
                    n = len(snaps)
                    q = os.path.join(d, 'snap%d' % n)
                    if n < 60 and os.path.exists(p):
                        shutil.copy(p, q)
                        if os.path.exists(p + '-journal'):
                            shutil.copy(p + '-journal', q + '-journal')
                        snaps.append((q, stmt))
                con.set_trace_callback(trace)
                return con
            got = None
            sqlite3.connect = connect
            try:
                if case.get('main'):
                    self.main(d, path, sql, case)
                else:
                    migrate_db(path, sql_dir=sql, noop=case['noop'], force=case['force'])
            except Exception as x:
                got = x
            finally:
                sqlite3.connect = real_connect
            bad = []
            if (error is None) != (got is None) or (error is not None and not isinstance(got, error)):
                bad.append('raised %r, expected %s' % (got, error and error.__name__))
            after = self.state(path)
            if after != want:
                bad.append('version, tables and rows are %s, expected %s' % (after, want))
            for q, stmt in snaps:
                st = self.state(q)
                if st not in states:
                    bad.append('a crash at %r leaves %s, which is no complete migration' % (stmt[:60], st))
                    break
            return bad[:3]

    def main(self, d, path, sql, case):
        """by the command line"""
        from pyulog import migrate_db as m
        short = case['main'] != 'long'
        args = ['tool', '-s' if short else '--sql', sql]
        if case['noop']:
            args.append('-n' if short else '--noop')
        if case['force']:
            args.append('-f' if short else '--force')
        old, cwd = sys.argv, os.getcwd()
        if case['main'] == 'default':       # the database in the current directory
            if os.path.exists(path):
                os.rename(path, os.path.join(d, 'pyulog.sqlite3'))
            os.chdir(d)
        else:
            args += ['-d' if short else '--database', path]
        sys.argv = args
        try:
            m.main()
        except SystemExit as x:
            raise RuntimeError('exit %s' % x.code)
        finally:
            sys.argv = old
            os.chdir(cwd)
            if case['main'] == 'default' and os.path.exists(os.path.join(d, 'pyulog.sqlite3')):
                os.rename(os.path.join(d, 'pyulog.sqlite3'), path)

    def real(self, d, case, migrate_db, DatabaseULog):
        """the migration files of the package keep what is stored"""
        path = os.path.join(d, 'r.sqlite3')
        top = DatabaseULog.SCHEMA_VERSION
        if 'at' not in case:
            migrate_db(path)
            v = self.state(path)[0]
            if v != top:
                return ['version %d after migration' % v]
            s1 = dump(path)
            migrate_db(path)
            return [] if dump(path) == s1 else ['a second migration changed the database']
        k = case['at']
        old = DatabaseULog.SCHEMA_VERSION
        if k > old:
            return []
        try:
            DatabaseULog.SCHEMA_VERSION = k
            migrate_db(path)
        finally:
            DatabaseULog.SCHEMA_VERSION = old
        # rows by plain SQL, in the columns of that version
        con = sqlite3.connect(path)
        tabs = [t for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite%'")]
        for t in tabs:
            info = con.execute('PRAGMA table_info(%s)' % t).fetchall()
            for n in (1, 2):
                vals = []
                for _, name, typ, _, _, _ in info:
                    typ = (typ or '').upper()
                    low = name.lower()
                    if low == 'id' or low.endswith('id') and low != 'multiid':
                        vals.append(n)
                    elif 'sha' in low:
                        vals.append('%s%d' % ('ab', n))
                    elif 'INT' in typ or 'BOOL' in typ:
                        vals.append(n)
                    elif 'REAL' in typ or 'FLOAT' in typ:
                        vals.append(float(n))
                    elif low == 'valuejson':
                        vals.append(None)
                    else:
                        vals.append('%s_%d' % (name, n))
                con.execute('INSERT INTO %s (%s) VALUES (%s)' % (t, ','.join(i[1] for i in info), ','.join('?' * len(vals))), vals)
        con.commit()
        def rows(con, t, cols):
            return sorted(con.execute('SELECT %s FROM %s' % (','.join(cols), t)).fetchall(), key=repr)
        cols = {t: [i[1] for i in con.execute('PRAGMA table_info(%s)' % t)] for t in tabs}
        before = {t: rows(con, t, cols[t]) for t in tabs}
        con.close()
        migrate_db(path)
        con = sqlite3.connect(path)
        bad = []
        if con.execute('PRAGMA user_version').fetchone()[0] != top:
            bad.append('version not reached from %d' % k)
        names = {t.lower(): t for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        left = [t for t in names if t.endswith('_tmp')]
        if left:
            bad.append('temporary tables are left: %s' % left)
        for t in tabs:
            if t.lower() not in names:
                bad.append('table %s is gone' % t)
                continue
            now = [i[1] for i in con.execute('PRAGMA table_info(%s)' % t)]
            common = [c for c in cols[t] if c in now]
            idx = [cols[t].index(c) for c in common]
            want = sorted([tuple(r[i] for i in idx) for r in before[t]], key=repr)
            got = rows(con, t, common)
            if [tuple(float(x) if isinstance(x, int) else x for x in r) for r in got] != \
               [tuple(float(x) if isinstance(x, int) else x for x in r) for r in want]:
                bad.append('table %s: rows %s, before %s' % (t, got[:3], want[:3]))
        con.close()
        return bad[:3]


# ---------------------------------------------------------------- C15
class C15:
    shrink = False

    def gen(self, g):
        if g.chance(0.15):      # topics announced again with another id, not for the database
            p = [g.header()] + g.definitions() + g.data(g.r.randrange(10, 40))
            again = []
            for t in g.topics:
                again += [ulg.announce(t.name, (t.mid + 2000) % 65536, t.instance)] * g.pick([0, 1])
                again += [ulg.sample((t.mid + 2000) % 65536, g.row(t, 5)) for _ in again[:1] for _ in range(g.pick([0, 1, 3]))]
            return {'parts': [x.hex() for x in p + again], 'plain': True}
        p = [x for x in storable(g, n=g.r.randrange(10, 40))]
        ops = [[g.pick(['get', 'get', 'get', 'nocache', 'lazy', 'default', 'write']), g.r.randrange(8), g.r.randrange(4)]
               for _ in range(g.r.randrange(3, 12))]
        return {'parts': [x.hex() for x in p], 'ops': ops}

    def check(self, case):
        from pyulog.db import DatabaseULog
        b = join(case)
        if case.get('plain'):
            u = load(b)
            bad = []
            for n in sorted({x.name for x in u.data_list} | {'nope'}):
                for i in range(-1, 5):
                    want = [x for x in u.data_list if (x.name, x.multi_id) == (n, i)]
                    try:
                        got = u.get_dataset(n, i) if i or u.data_list[0].name == n else u.get_dataset(n)
                    except (KeyError, IndexError, ValueError):
                        got = None
                    if got is not (want[0] if want else None):
                        bad.append('%s/%d: %s of %d datasets with this name and instance' % (
                            n, i, [k for k, x in enumerate(want) if x is got], len(want)))
            return bad[:3]
        if not supported(b):
            return []
        with Scratch() as d:
            path, h = new_db(d)
            f = os.path.join(d, 'x.ulg')
            open(f, 'wb').write(b)
            ref = ulg.Ref(b)
            u = load(b)
            s = DatabaseULog(h, log_file=f)
            s.save()
            z = DatabaseULog(h, primary_key=s.primary_key, lazy=True)
            e = DatabaseULog(h, primary_key=s.primary_key, lazy=False)
            view = {(x[0], x[1]): x for x in ulg.ulog_view(u)['data']}
            names = [(t.name, t.instance) for t in ref.datasets]
            pool = names + [('topic_a', 7), ('nope', 0), ('topic_a', 0), ('', 0)]
            cached = {}
            bad = []
            for op, i, j in case['ops']:
                n, inst = pool[i % len(pool)]
                here = (n, inst) in names
                if op == 'write':
                    try:
                        z.write_ulog(io.BytesIO())
                        bad.append('a lazily loaded log was written')
                    except ValueError:
                        pass
                    try:
                        e.write_ulog(io.BytesIO())
                    except Exception as x:
                        bad.append('an eagerly loaded log cannot be written: %r' % x)
                    continue
                for o, kind in ((u, 'file'), (e, 'eager'), (z, 'lazy')):
                    kw = {}
                    if op == 'nocache' and kind != 'file':
                        kw = {'caching': False}
                    try:
                        x = o.get_dataset(n, inst, **kw) if op != 'default' else o.get_dataset(n)
                        want_here = here if op != 'default' else (n, 0) in names
                        if not want_here:
                            bad.append('%s: %s/%d found' % (kind, n, inst))
                            continue
                        key = (n, inst if op != 'default' else 0)
                        if ulg.canon(ulg.data_view(x)) != view[key]:
                            bad.append('%s: dataset %s is %s' % (kind, key, ulg.short(ulg.data_view(x))))
                        if kind != 'file':
                            if op == 'nocache':
                                if x in [q for q in [cached.get((kind, key))] if q is not None and q is x]:
                                    bad.append('%s: uncached request gave the cached dataset' % kind)
                                y = o.get_dataset(*key)
                                if (kind, key) in cached and y is not cached[(kind, key)]:
                                    bad.append('%s: uncached request replaced the cached dataset' % kind)
                                if y is x:
                                    bad.append('%s: uncached dataset was cached' % kind)
                                cached[(kind, key)] = y
                            else:
                                if (kind, key) in cached and x is not cached[(kind, key)]:
                                    bad.append('%s: cached dataset was not returned again' % kind)
                                cached[(kind, key)] = x
                                if not any(x is q for q in o.data_list):
                                    bad.append('%s: dataset is not the one of the list' % kind)
                    except (KeyError, IndexError, ValueError) as ex:
                        if (here if op != 'default' else (n, 0) in names):
                            bad.append('%s: %s/%d not found: %r' % (kind, n, inst, ex))
            return bad[:3]


PROPS = {k: v for k, v in globals().items() if k.startswith('C') and k[1:].isdigit()}
