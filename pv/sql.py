"""Connections to a SQL database (sqlite3), by what the statements say.

A statement is identified by what it means, not by its spelling: letter case, white space, names of aliases, the
order of the columns of an INSERT or SELECT and of the conditions of a WHERE do not count.
- The rows inserted into a table are observed per table, in order, as are commits, deletions, pragmas and scripts.
- What a query yields is a function of the query, its parameters and the state of the database before the program
  (a query after a modification is outside the model).  The values of a column are of the declared type.
- The key of an inserted row is a function of the table and of how many rows were inserted before.
- A modification may fail; leaving a `with connection` by an exception undoes what was modified inside.
Option db={table: {column: Schema}} of a contract declares the tables.

Option memory=True (lemmas about what was saved): the database holds nothing that the queries of the lemma ask for but
what the program inserts, inserting succeeds, and a query yields the rows that meet its conditions, in the order
asked for, or else in the order of insertion.  Values come back as they were stored.
"""
import re
import sqlite3
from functools import cmp_to_key
import z3
from .values import *
from . import ops, schema as S
from .ops import zi, zs, simp, mk_int, mk_bool, IV
from .models import model
from .methods import opaque_result
from .compare import freeze, Cmp
from .tools import record

TOKEN = re.compile(r"\s+|--[^\n]*|([A-Za-z_][A-Za-z_0-9]*|\d+|'(?:[^']|'')*'|\?|.)")


class Bad(Exception):
    pass


def tokens(sql):
    r = [t for t in TOKEN.findall(sql) if t]
    while r and r[-1] == ';':
        r.pop()
    return [t if t.startswith("'") else t.lower() for t in r]


class Parse:
    def __init__(self, sql, tables):
        self.t = tokens(sql)
        self.i = 0
        self.tables = tables
        self.nparams = 0

    def at(self, *ws):
        return tuple(self.t[self.i:self.i + len(ws)]) == ws

    def take(self, *ws):
        if not self.at(*ws):
            return False
        self.i += len(ws)
        return True

    def need(self, *ws):
        if not self.take(*ws):
            raise Bad(' '.join(self.t))

    def word(self):
        if self.i >= len(self.t):
            raise Bad('end')
        self.i += 1
        w = self.t[self.i - 1]
        if not re.match(r'[a-z_]', w):
            raise Bad(w)
        return w

    def names(self, close):
        r = []
        while True:
            r.append(self.word())
            if self.take(close):
                return r
            self.need(',')

    def exprs(self):
        """the values of an INSERT: text with ? for parameters"""
        r, cur, depth = [], [], 0
        while True:
            if self.i >= len(self.t):
                raise Bad('end')
            w = self.t[self.i]
            self.i += 1
            if depth == 0 and w in (',', ')'):
                r.append(''.join(cur)); cur = []
                if w == ')':
                    return r
                continue
            depth += (w == '(') - (w == ')')
            cur.append(w)

    def table(self):
        t = self.word()
        if t not in self.tables:
            raise PyExc(sqlite3.OperationalError, ('no such table: ' + t,))
        return t

    def column(self, src):
        """table.column, for sources {alias: table}"""
        w = self.word()
        if self.take('.'):
            if w not in src:
                raise PyExc(sqlite3.OperationalError, ('no such column',))
            c = self.word()
            if c not in self.tables[src[w]]:
                raise PyExc(sqlite3.OperationalError, ('no such column: ' + c,))
            return src[w], c
        have = [t for t in src.values() if w in self.tables[t]]
        if not have:
            raise PyExc(sqlite3.OperationalError, ('no such column: ' + w,))
        if len(have) > 1:
            raise PyExc(sqlite3.OperationalError, ('ambiguous column name: ' + w,))
        return have[0], w

    def statement(self):
        if self.take('insert', 'into'):
            t = self.table()
            self.need('(')
            cols = self.names(')')
            self.need('values', '(')
            vals = self.exprs()
            if self.i != len(self.t) or len(vals) != len(cols) or len(set(cols)) != len(cols):
                raise Bad('insert')
            for c in cols:
                if c not in self.tables[t]:
                    raise PyExc(sqlite3.OperationalError, ('no such column: ' + c,))
            return Insert(t, cols, vals)
        if self.take('delete', 'from'):
            t = self.table()
            q = Query()
            q.sources = [t]
            self.tail(q, {t: t})
            return Delete(t, q)
        if self.take('pragma'):
            w = self.word()
            if self.i == len(self.t):
                return Pragma(w, None)
            self.need('=')
            return Pragma(w, ''.join(self.t[self.i:]))
        if self.take('select'):
            return self.select()
        if self.t in (['begin'], ['commit'], ['rollback'], ['begin', 'transaction']):
            return Other(' '.join(self.t))
        raise Bad(' '.join(self.t))

    def select(self):
        start = self.i
        depth = 0
        while self.i < len(self.t) and not (depth == 0 and self.t[self.i] == 'from'):
            self.i += 1
        q = Query()
        self.need('from')
        src = {}
        conds = []
        first = True
        while first or self.take('join') or self.take('inner', 'join') or self.take(','):
            first = False
            t = self.table()
            a = t
            self.take('as')
            if self.i < len(self.t) and re.match(r'[a-z_]', self.t[self.i]) and self.t[self.i] not in (
                    'join', 'inner', 'on', 'where', 'order', 'limit', 'left', 'group'):
                a = self.word()
            if a in src or t in src.values():
                raise Bad('table twice')
            src[a] = t
            if self.take('on'):
                self.conjuncts(conds, src, q)
        q.sources = sorted(src.values())
        self.tail(q, src, conds)
        end = self.i
        self.i = start
        while True:
            if self.take('count', '(', '*', ')'):
                q.cols.append('count')
            else:
                q.cols.append(self.column(src))
            if self.at('from'):
                break
            self.need(',')
        self.i = end
        return q

    def conjuncts(self, conds, src, q):
        while True:
            a = self.column(src)
            self.need('=')
            if self.take('?'):
                conds.append(('param', a, self.nparams))
                self.nparams += 1
            elif self.i < len(self.t) and re.match(r"\d|'", self.t[self.i]):
                conds.append(('const', a, self.t[self.i]))
                self.i += 1
            else:
                b = self.column(src)
                conds.append(('same',) + tuple(sorted((a, b))))
            if not self.take('and'):
                return

    def tail(self, q, src, conds=None):
        conds = [] if conds is None else conds
        if self.take('where'):
            self.conjuncts(conds, src, q)
        if self.take('order', 'by'):
            while True:
                c = self.column(src)
                d = 'desc' if self.take('desc') else 'asc'
                self.take('asc')
                q.order.append(c + (d,))
                if not self.take(','):
                    break
        if self.i != len(self.t):
            raise Bad(' '.join(self.t[self.i:]))
        q.same = sorted(set(c for c in conds if c[0] != 'param'))
        q.where = sorted((c for c in conds if c[0] == 'param'), key=lambda c: c[1:])
        q.nparams = self.nparams


class Query:
    def __init__(self):
        self.sources = []; self.cols = []; self.same = []; self.where = []; self.order = []; self.nparams = 0
    def text(self):
        return 'rows of %s where %s %s order %s' % (
            ','.join(self.sources), ','.join('.'.join(c[1]) for c in self.where),
            ','.join('='.join(str(x) for x in c[1:]) for c in self.same), ','.join('.'.join(o) for o in self.order))


class Insert:
    def __init__(self, table, cols, vals):
        self.table = table; self.cols = cols; self.vals = vals
        self.order = sorted(range(len(cols)), key=lambda i: cols[i])
        self.kind = tuple((cols[i], vals[i]) for i in self.order)
        n, self.places = 0, []
        for v in vals:
            k = v.count('?')
            if k > 1:
                raise Bad('values')
            self.places.append(n if k else None)
            n += k
        self.nparams = n
    def row(self, params):
        """the values by the names of the columns; the names come first"""
        return (self.kind,) + tuple(params[self.places[i]] for i in self.order if self.places[i] is not None)


class Delete:
    def __init__(self, table, q): self.table = table; self.q = q


class Pragma:
    def __init__(self, name, value): self.name = name; self.value = value


class Other:
    def __init__(self, text): self.text = text


class Row(S.Schema):
    def __init__(self, cols, tables):
        self.cols = cols; self.tables = tables
    def make(self, ctx, name, idx=(), owner=None):
        return tuple(S.Nat.make(ctx, name + '.count', idx, owner) if c == 'count' else
                     self.tables[c[0]][c[1]].make(ctx, '%s.%s.%s' % (name, c[0], c[1]), idx, owner) for c in self.cols)


class Seen(S.Schema):
    """anything that was observed"""
    anything = True
    def make(self, ctx, name, idx=(), owner=None):
        return S.Any().make(ctx, name, idx, owner)
    def conforms(self, ctx, v):
        return True


def tables_of(it):
    db = it.options.get('db')
    if db is None:
        raise Unsupported('database outside a contract about one')
    return db


def start(it, world):
    world.roots['$sql'] = SList(it.ctx, (), name='sql', schema=Seen())
    for t in sorted(tables_of(it)):
        world.roots['$rows of ' + t] = SList(it.ctx, (), name='new ' + t, schema=Seen())


def event(it, *e):
    r = it.ctx.world.roots['$sql']
    it.note_write(r, 'content')
    r.segs = tuple(r.segs) + (Unit(freeze(tuple(e))),)
    return zi(it.length(r))


def state(it):
    w = it.ctx.world
    return {n: r.segs for n, r in w.roots.items() if n.startswith('$rows of ')}


def modified(it):
    """may the database have been modified by this program?"""
    w = it.ctx.world
    return any(r.segs for n, r in w.roots.items() if n.startswith('$rows of ')) or getattr(w, 'sql_changed', False)


def fails(it, what, at):
    ctx = it.ctx
    if it.options.get('memory'):
        return
    if ctx.decide(ctx.func('sql fails: ' + what, (IntSort,), BoolSort)(at)):
        raise PyExc(sqlite3.DatabaseError, (SStr(ctx.func('sql error: ' + what, (IntSort,), StrSort)(at)),))


class Connection:
    """of the database that a handle opens"""
    def __init__(self, it):
        it.ctx.world.roots['$sql']      # only where it is observed
    def pv_truth(self, it):
        return True
    def pv_freeze(self, memo, freeze):
        return self
    def pv_same(self, cmp, b, path):
        return True if isinstance(b, Connection) else cmp.no(path, 'connection')
    def pv_getattr(self, it, name):
        return Builtin('Connection.' + name, lambda i, a, k: self.pv_method(i, name, a, k))
    def pv_method(self, it, name, a, k):
        if name == 'cursor' and not a and not k:
            return Cursor()
        if name in ('execute', 'executemany', 'executescript'):
            return Cursor().pv_method(it, name, a, k)
        if name in ('commit', 'rollback'):
            event(it, name)
            return None
        if name == 'close':
            return None
        raise Unsupported('Connection.' + name)
    def pv_context(self, it):
        w = it.ctx.world
        before = {}
        def enter():
            before.update(state(it))
            before['$sql'] = w.roots['$sql'].segs
            w.inside = getattr(w, 'inside', 0) + 1
            return self
        def leave(e):
            w.inside -= 1
            if all(w.roots[n].segs is segs for n, segs in before.items()):
                pass        # nothing to commit or to undo
            elif e is None:
                event(it, 'commit')
            else:
                for n, segs in before.items():
                    if n == '$sql':
                        continue
                    r = w.roots[n]
                    if r.segs is not segs:
                        it.note_write(r, 'content')
                        r.segs = segs
                event(it, 'rollback')
            return False
        return enter, leave


class Cursor:
    def __init__(self):
        self.last = None
    def pv_truth(self, it):
        return True
    def pv_freeze(self, memo, freeze):
        return self
    def pv_same(self, cmp, b, path):
        return True if isinstance(b, Cursor) else cmp.no(path, 'cursor')
    def pv_context(self, it):
        raise Unsupported('with cursor')
    def pv_getattr(self, it, name):
        if name == 'lastrowid':
            k = self.recent(it)
            if not isinstance(k, tuple) or k[0] != 'id':
                raise Unsupported('lastrowid')
            return key(it, k[1], k[2])
        return Builtin('Cursor.' + name, lambda i, a, k: self.pv_method(i, name, a, k))

    def remember(self, it, x):
        self.last = (x, tuple(id(f) for f in it.loop_stack), len(it.ctx.world.loops))

    def recent(self, it):
        if self.last is None or self.last[1] != tuple(id(f) for f in it.loop_stack) or self.last[2] != len(it.ctx.world.loops):
            raise Unsupported('result of a statement before a loop')
        return self.last[0]

    def pv_sym_seq(self, it):
        return it.sym_seq(self.pv_method(it, 'fetchall', [], {}))

    def pv_method(self, it, name, a, k):
        ctx = it.ctx
        if name == 'close':
            return None
        if name in ('execute', 'executemany', 'executescript'):
            if k or not a or not isinstance(a[0], str) and name != 'executescript':
                raise Unsupported('statement that depends on the input')
            if name == 'executescript':
                at = event(it, 'script', a[0])
                ctx.world.sql_changed = True
                self.remember(it, None)
                fails(it, 'script', at)
                return self
            try:
                p = Parse(a[0], tables_of(it))
                st = p.statement()
            except Bad as e:
                raise Unsupported('SQL: %s' % e)
            params = a[1] if len(a) > 1 else ()
            getattr(self, name)(it, st, params)
            return self
        if name in ('fetchone', 'fetchall'):
            q = self.recent(it)
            self.remember(it, None)
            if not isinstance(q, SList) and not (isinstance(q, tuple) and q[0] == 'one'):
                raise Unsupported('fetch without a query')
            if name == 'fetchall':
                return q if isinstance(q, SList) else SList(ctx, (Unit(q[1]),))
            if not isinstance(q, SList):
                return q[1]
            if not ctx.decide(zi(it.length(q)) > 0):
                return None
            return it.seq_at(q, IV(0))
        raise Unsupported('Cursor.' + name)

    def params(self, it, params, n):
        v = it.concrete_items(params) if not isinstance(params, tuple) else params
        if v is None:
            raise Unsupported('parameters')
        if len(v) != n:
            raise PyExc(sqlite3.ProgrammingError)
        return tuple(v)

    def execute(self, it, st, params):
        ctx, w = it.ctx, it.ctx.world
        if isinstance(st, Pragma):
            self.params(it, params, 0)
            if st.value is None:
                if modified(it) and not it.options.get('memory'):
                    raise Unsupported('query after a modification')
                self.remember(it, ('one', (S.Int().make(ctx, 'pragma ' + st.name),)))
                return
            event(it, 'pragma', st.name, st.value)
            if st.name != 'foreign_keys':
                w.sql_changed = True
            self.remember(it, None)
            return
        if isinstance(st, Other):
            event(it, st.text)
            self.remember(it, None)
            return
        if isinstance(st, Insert):
            at = self.insert(it, st, [Unit(freeze(st.row(self.params(it, params, st.nparams))))])
            self.remember(it, ('id', st.table, at))
            return
        if isinstance(st, Delete):
            ps = self.params(it, params, st.q.nparams)
            at = event(it, 'delete', st.q.text(), *[ps[c[2]] for c in st.q.where])
            w.sql_changed = True
            self.remember(it, None)
            self.unprotected(it)
            fails(it, 'delete', at)
            return
        if it.options.get('memory'):
            self.remember(it, answer(it, st, self.params(it, params, st.nparams)))
            return
        if modified(it):
            raise Unsupported('query after a modification')
        ps = self.params(it, params, st.nparams)
        args = tuple(ps[c[2]] for c in st.where)
        name = opaque_result(it, st.text(), args)
        row = Row(st.cols, tables_of(it))
        if 'count' in st.cols:
            self.remember(it, ('one', row.make(ctx, name)))
            return
        rows = S.ListOf(row).make(ctx, name)
        self.remember(it, rows)

    def executemany(self, it, st, rows):
        if not isinstance(st, Insert):
            raise Unsupported('executemany')
        from .nparr import fseq
        items = it.concrete_items(rows)
        if items is not None:
            segs = [Unit(freeze(st.row(self.params(it, r, st.nparams)))) for r in items]
        else:
            n, at = it.sym_seq(rows)
            segs = fseq(it, n, lambda j: st.row(self.params(it, at(j), st.nparams))).segs
        if segs:
            self.insert(it, st, segs)
        self.remember(it, None)

    def insert(self, it, st, segs):
        r = it.ctx.world.roots['$rows of ' + st.table]
        at = simp(zi(it.length(r)))
        it.note_write(r, 'content')
        r.segs = tuple(r.segs) + tuple(segs)
        self.unprotected(it)
        fails(it, 'insert into ' + st.table, at)
        return at

    def unprotected(self, it):
        if not getattr(it.ctx.world, 'inside', 0):
            event(it, 'outside of a transaction')


def key(it, table, at):
    """key of the row that was inserted as number `at`"""
    ctx = it.ctx
    f = ctx.func('key of ' + table, (IntSort,), IntSort)
    ctx.assume(f(at) >= 1)
    if it.options.get('memory'):        # no two rows have the same
        seen = ctx.world.__dict__.setdefault('sql_keys', {}).setdefault(table, [])
        if not any(at.eq(b) for b in seen):
            for b in seen:
                ctx.assume(z3.Implies(at != b, f(at) != f(b)))
            seen.append(at)
    return SInt(f(at))


class Rows:
    """rows of a table that were inserted together"""
    def __init__(self, it, table, first, n, get):
        self.it = it; self.table = table; self.first = first; self.n = n; self.get = get    # n: None for a single row
    def at(self, j=None):
        row = self.get(j)
        def value(col):
            if col == 'id':
                return key(self.it, self.table, simp(self.first if j is None else self.first + j))
            i = 1
            for c, v in row[0]:
                if c == col and '?' in v:
                    return row[i]
                if c == col:
                    raise Unsupported('constant column')
                i += '?' in v
            return None
        return value


def inserted(it, table):
    l = it.ctx.world.roots['$rows of ' + table]
    at, r = IV(0), []
    for s in l.segs:
        if isinstance(s, Unit):
            r.append(Rows(it, table, at, None, lambda j, s=s: s.v))
            at = simp(at + 1)
        else:
            n = simp(s.hi - s.lo)
            r.append(Rows(it, table, at, n, lambda j, s=s: it.opq_elem(l, s, simp(s.lo + j))))
            at = simp(at + n)
    return r


def surely(it, cond):
    """is the condition true for every input, or false for every input?"""
    if isinstance(cond, bool):
        return cond
    e = ops.zb(cond)
    if it.ctx.prove(e):
        return True
    if it.ctx.prove(z3.Not(e)):
        return False
    raise Unsupported('rows that may or may not be asked for')


def before(it, q, x, y):
    """-1 or 1: which row comes first"""
    for o in q.order:
        a, b = x(o), y(o)
        try:
            if surely(it, it.eq(a, b)):
                continue
        except Unsupported:
            pass
        if not all(isinstance(v, (int, SInt)) for v in (a, b)):
            raise Unsupported('order of rows')
        return -1 if surely(it, mk_bool(zi(a) < zi(b))) == (o[2] == 'asc') else 1
    raise Unsupported('order of rows')


def answer(it, q, params):
    """the rows of what was inserted that a query asks for"""
    from .nparr import fseq
    ctx = it.ctx
    found = []          # (number of rows or None, index -> value of (table, column))

    def fits(val):
        conds = [(val(c[1]), params[c[2]]) for c in q.where] + [(val(c[1]), val(c[2])) for c in q.same if c[0] == 'same']
        if any(c[0] == 'const' for c in q.same):
            raise Unsupported('constant in a query')
        return all(surely(it, it.eq(a, b)) for a, b in conds)

    def join(todo, chosen):
        if not todo:
            many = [r for r in chosen.values() if r.n is not None]
            if len(many) > 1:
                raise Unsupported('join of many rows with many rows')
            def val(j):
                vs = {t: r.at(j if r.n is not None else None) for t, r in chosen.items()}
                return lambda c: vs[c[0]](c[1])
            if not many:
                if fits(val(None)):
                    found.append((None, val))
                return
            n = many[0].n
            if not ctx.decide(n > 0):
                return
            k = z3.Int(ctx.fresh('row'))
            ctx.assume(z3.And(k >= 0, k < n))
            if fits(val(k)):
                found.append((n, val))
                for o in q.order:
                    k2 = z3.Int(ctx.fresh('row'))
                    if len(q.order) > 1 or o[2] != 'asc' or not surely(it, mk_bool(z3.Implies(
                            z3.And(k2 > k, k2 < n), zi(val(k)(o)) < zi(val(k2)(o))))):
                        raise Unsupported('order of many rows')
            return
        for r in inserted(it, todo[0]):
            join(todo[1:], dict(chosen, **{todo[0]: r}))

    join(q.sources, {})
    if q.order and len(found) > 1:
        if any(n is not None for n, _ in found):
            raise Unsupported('order of rows')
        found.sort(key=cmp_to_key(lambda x, y: before(it, q, x[1](None), y[1](None))))
    if 'count' in q.cols:
        if any(n is not None for n, _ in found):
            raise Unsupported('count of many rows')
        return ('one', (len(found),))
    segs = ()
    for n, val in found:
        def row(j, val=val):
            v = val(j)
            return tuple(v(c) for c in q.cols)
        segs += (Unit(row(None)),) if n is None else tuple(fseq(it, n, row).segs)
    return SList(ctx, segs)


class Handle(S.Schema):
    """what DatabaseULog.get_db_handle returns"""
    def make(self, ctx, name, idx=(), owner=None):
        return DbHandle()
    def conforms(self, ctx, v):
        return isinstance(v, (DbHandle, SFunc))


class DbHandle:
    def pv_freeze(self, memo, freeze):
        return self
    def pv_same(self, cmp, b, path):
        return True if isinstance(b, DbHandle) else cmp.no(path, 'handle')
    def pv_truth(self, it):
        return True
    def pv_call(self, it, a, k):
        if a or k:
            raise PyExc(TypeError)
        return Connection(it)


class OpenCursor(S.Schema):
    """a cursor handed to a function by its caller"""
    def make(self, ctx, name, idx=(), owner=None):
        return Cursor()
    def conforms(self, ctx, v):
        return isinstance(v, Cursor)


@model(sqlite3.connect)
def _(it, a, k):
    event(it, 'connect', *(tuple(a) + tuple(x for n in sorted(k) for x in (n, k[n]))))
    return Connection(it)
