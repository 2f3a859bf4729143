"""Contracts of pyulog.db.  The database is foreign (pv/sql.py): every row inserted, every deletion and every commit is
observed; what a query yields is any list of rows of the declared types."""
import hashlib
import sqlite3
import numpy as np
import z3
from pyulog.core import ULog
from pyulog.db import DatabaseULog
from pv.contract import Contract
from pv import schema as S
from pv.nparr import FieldArr
from pv.sql import Handle, OpenCursor
from pv.tools import Effect
from contracts.core import LOG, part, STATE, DATA, FIELD, FLAGS, TYPE_STR

C = []
# times: what a signed 64-bit number of the database can hold
TIME = S.Int(0, 2**63 - 1)
ID = S.Nat
TEXT = S.Str()
ANY = S.Any()
DB = {
    'ulog': dict(id=ID, sha256sum=TEXT, fileversion=S.U8, starttimestamp=TIME, lasttimestamp=TIME, compatflags=TEXT, incompatflags=TEXT,
                 synccount=S.Nat, hassync=S.Bool()),
    'ulogappendedoffsets': dict(seriesindex=S.Nat, offset=TIME, ulogid=ID),
    'ulogdataset': dict(id=ID, datasetname=TEXT, multiid=S.U8, messageid=S.U16, timestampindex=S.Int(-1), ulogid=ID),
    'ulogfield': dict(id=ID, topicname=TEXT, datatype=TYPE_STR, valuearray=S.Bytes(), valuejson=TEXT, datasetid=ID),
    'ulogmessagedropout': dict(timestamp=TIME, duration=S.U16, ulogid=ID),
    'ulogmessageformat': dict(id=ID, name=TEXT, ulogid=ID),
    'ulogmessageformatfield': dict(fieldtype=TEXT, arraysize=S.Int(), name=TEXT, messageid=ID),
    'ulogmessagelogging': dict(loglevel=S.U8, timestamp=TIME, message=TEXT, ulogid=ID),
    'ulogmessageloggingtagged': dict(loglevel=S.U8, timestamp=TIME, tag=S.U16, message=TEXT, ulogid=ID),
    'ulogmessageinfo': dict(key=TEXT, typename=TEXT, value=ANY, ulogid=ID),
    'ulogmessageinfomultiple': dict(id=ID, key=TEXT, typename=TEXT, ulogid=ID),
    'ulogmessageinfomultiplelist': dict(id=ID, seriesindex=S.Nat, messageid=ID),
    'ulogmessageinfomultiplelistelement': dict(id=ID, seriesindex=S.Nat, value=ANY, listid=ID),
    'ulogparameter': dict(),
    'uloginitialparameter': dict(key=TEXT, value=ANY, ulogid=ID),
    'ulogchangedparameter': dict(timestamp=TIME, key=TEXT, value=ANY, ulogid=ID),
    'ulogdefaultparameter': dict(defaulttype=S.Small(0, 7), key=TEXT, value=ANY, ulogid=ID),
}
del DB['ulogparameter']


# ------------------------------------------------------------------ handles and keys
def open_database(db_path):
    return DatabaseULog.get_db_handle(db_path)()


def opened(db_path):
    con = sqlite3.connect(db_path, detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)
    con.execute('PRAGMA foreign_keys=on')
    return con


def exists(db_handle, primary_key):
    with db_handle() as con:
        (n,) = con.cursor().execute('SELECT COUNT(*) FROM ULog WHERE Id=?', (primary_key,)).fetchone()
    return n == 1


def key_of_digest(db_handle, sha256sum):
    with db_handle() as con:
        row = con.cursor().execute('SELECT Id FROM ULog WHERE SHA256Sum=?', (sha256sum,)).fetchone()
    return row[0] if row else None


def digest(log_file):
    """of all bytes of the file; an open file stays where it is"""
    if log_file is None:
        return None
    if isinstance(log_file, str):
        return hashlib.sha256(open(log_file, 'rb').read()).hexdigest()
    if log_file.closed:
        return hashlib.sha256(open(log_file.name, 'rb').read()).hexdigest()
    at = log_file.tell()
    log_file.seek(0)
    all_bytes = log_file.read()
    log_file.seek(at)
    return hashlib.sha256(all_bytes).hexdigest()


# ------------------------------------------------------------------ the object
def new_log(self, db_handle, primary_key=None, log_file=None, lazy=True, message_name_filter_list=None, disable_str_exceptions=True,
            parse_header_only=False):
    with db_handle() as con:
        (version,) = con.cursor().execute('PRAGMA user_version').fetchone()
    if version < DatabaseULog.SCHEMA_VERSION:
        raise ValueError()
    if (log_file is None) == (primary_key is None):
        raise ValueError()
    self._pk = primary_key
    self._db = db_handle
    self._lazy_loaded = lazy
    if log_file is not None:
        self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
    ULog.__init__(self, log_file, message_name_filter_list=message_name_filter_list, disable_str_exceptions=disable_str_exceptions,
                  parse_header_only=parse_header_only)
    if primary_key is not None:
        self.load(lazy=lazy)


def log_eq(self, other):
    if type(other) is ULog:
        return ULog.__eq__(other, self)
    return ULog.__eq__(self, other)


def identity(log):
    return (log.primary_key, log.sha256sum)


def key_and_digest(log):
    return (log._pk, log._sha256sum)


def write(self, log_file):
    if self._lazy_loaded:
        raise ValueError()
    ULog.write_ulog(self, log_file)


# ------------------------------------------------------------------ saving, loading, deleting
def delete(self):
    if self._pk is None:
        raise KeyError()
    with self._db() as con:
        con.cursor().execute('DELETE FROM ULog WHERE Id=?', (self._pk,))
    self._pk = None


def save(self, append_json=False):
    if self._pk is not None:
        raise KeyError()
    have = DatabaseULog.primary_key_from_sha256sum(self._db, self._sha256sum)
    if have is not None:
        self._pk = have
        raise KeyError()
    with self._db() as con:
        cur = con.cursor()
        cur.execute('INSERT INTO ULog (FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, HasSync, '
                    'SHA256Sum) VALUES (?, ?, ?, ?, ?, ?, ?, ?)',
                    (self._file_version, self._start_timestamp, self._last_timestamp, ''.join([chr(n) for n in self._compat_flags]),
                     ''.join([chr(n) for n in self._incompat_flags]), self._sync_seq_cnt, self._has_sync, self._sha256sum))
        pk = cur.lastrowid
        self._pk = pk
        cur.executemany('INSERT INTO ULogAppendedOffsets (SeriesIndex, Offset, ULogId) VALUES (?, ?, ?)',
                        [(i, o, pk) for i, o in enumerate(self._appended_offsets)])
        for d in self._data_list:
            cur.execute('INSERT INTO ULogDataset (DatasetName, MultiId, MessageId, TimestampIndex, ULogId) VALUES (?, ?, ?, ?, ?)',
                        (d.name, d.multi_id, d.msg_id, d.timestamp_idx, pk))
            owner = cur.lastrowid
            for f in d.field_data:
                cur.execute('INSERT INTO ULogField (TopicName, DataType, ValueArray, ValueJson, DatasetId) VALUES (?, ?, ?, ?, ?)',
                            (f.field_name, f.type_str, d.data[f.field_name].tobytes(), None, owner))
        cur.executemany('INSERT INTO ULogMessageDropout (Timestamp, Duration, ULogId) VALUES (?, ?, ?)',
                        [(x.timestamp, x.duration, pk) for x in self._dropouts])
        cur.executemany('INSERT INTO ULogMessageLogging (LogLevel, Timestamp, Message, ULogId) VALUES (?, ?, ?, ?)',
                        [(m.log_level, m.timestamp, m.message, pk) for m in self._logged_messages])
        for tag, messages in self._logged_messages_tagged.items():
            cur.executemany('INSERT INTO ULogMessageLoggingTagged (LogLevel, Timestamp, Tag, Message, ULogId) VALUES (?, ?, ?, ?, ?)',
                            [(m.log_level, m.timestamp, tag, m.message, pk) for m in messages])
        for name, fmt in self._message_formats.items():
            cur.execute('INSERT INTO ULogMessageFormat (Name, ULogId) VALUES (?, ?)', (name, pk))
            owner = cur.lastrowid
            cur.executemany('INSERT INTO ULogMessageFormatField (FieldType, ArraySize, Name, MessageId) VALUES (?, ?, ?, ?)',
                            [(t, n, f, owner) for t, n, f in fmt.fields])
        cur.executemany('INSERT INTO ULogMessageInfo (Key, Value, Typename, ULogId) VALUES (?, ?, ?, ?)',
                        [(k, v, self._msg_info_dict_types[k], pk) for k, v in self._msg_info_dict.items()])
        for k, lists in self._msg_info_multiple_dict.items():
            cur.execute('INSERT INTO ULogMessageInfoMultiple (Key, Typename, ULogId) VALUES (?, ?, ?)',
                        (k, self._msg_info_multiple_dict_types[k], pk))
            entry = cur.lastrowid
            for i, values in enumerate(lists):
                cur.execute('INSERT INTO ULogMessageInfoMultipleList (SeriesIndex, MessageId) VALUES (?, ?)', (i, entry))
                owner = cur.lastrowid
                cur.executemany('INSERT INTO ULogMessageInfoMultipleListElement (SeriesIndex, Value, ListId) VALUES (?, ?, ?)',
                                [(j, v, owner) for j, v in enumerate(values)])
        cur.executemany('INSERT INTO ULogInitialParameter (Key, Value, ULogId) VALUES (?, ?, ?)',
                        [(k, v, pk) for k, v in self._initial_parameters.items()])
        for kind, values in self._default_parameters.items():
            cur.executemany('INSERT INTO ULogDefaultParameter (DefaultType, Key, Value, ULogId) VALUES (?, ?, ?, ?)',
                            [(kind, k, v, pk) for k, v in values.items()])
        cur.executemany('INSERT INTO ULogChangedParameter (Timestamp, Key, Value, ULogId) VALUES (?, ?, ?, ?)',
                        [(t, k, v, pk) for t, k, v in self._changed_parameters])


def load(self, lazy=True):
    if not DatabaseULog.exists_in_db(self._db, self._pk):
        raise KeyError()
    with self._db() as con:
        cur = con.cursor()
        head = cur.execute('SELECT FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, HasSync, SHA256Sum '
                           'FROM ULog WHERE Id=?', (self._pk,)).fetchone()
        self._file_version, self._start_timestamp, self._last_timestamp = head[0], head[1], head[2]
        self._compat_flags = [ord(x) for x in head[3]]
        self._incompat_flags = [ord(x) for x in head[4]]
        self._sync_seq_cnt, self._has_sync, self._sha256sum = head[5], head[6], head[7]
        for row in cur.execute('SELECT Offset FROM ULogAppendedOffsets WHERE ULogId=? ORDER BY SeriesIndex', (self._pk,)).fetchall():
            self._appended_offsets.append(row[0])
        self._data_list = []
        for name, multi in cur.execute('SELECT DatasetName, MultiId FROM ULogDataset WHERE ULogId=? ORDER BY DatasetName, MultiId',
                                       (self._pk,)).fetchall():
            self._data_list.append(self.get_dataset(name, multi_instance=multi, lazy=lazy, db_cursor=cur, caching=False))
        for t, n in cur.execute('SELECT Timestamp, Duration FROM ULogMessageDropout WHERE ULogId=?', (self._pk,)).fetchall():
            self._dropouts.append(DatabaseULog.DatabaseMessageDropout(timestamp=t, duration=n))
        for l, t, m in cur.execute('SELECT LogLevel, Timestamp, Message FROM ULogMessageLogging WHERE ULogId=?', (self._pk,)).fetchall():
            self._logged_messages.append(DatabaseULog.DatabaseMessageLogging(log_level=l, timestamp=t, message=m))
        for l, g, t, m in cur.execute('SELECT LogLevel, Tag, Timestamp, Message FROM ULogMessageLoggingTagged WHERE ULogId=?',
                                      (self._pk,)).fetchall():
            if g not in self._logged_messages_tagged:
                self._logged_messages_tagged[g] = []
            self._logged_messages_tagged[g].append(
                DatabaseULog.DatabaseMessageLoggingTagged(log_level=l, tag=g, timestamp=t, message=m))
        for name, t, n, f in cur.execute('SELECT m.Name, f.FieldType, f.ArraySize, f.Name FROM ULogMessageFormat m JOIN '
                                         'ULogMessageFormatField f ON f.MessageId = m.Id WHERE ULogId=?', (self._pk,)).fetchall():
            if name in self._message_formats:
                self._message_formats[name].fields.append((t, n, f))
            else:
                self._message_formats[name] = DatabaseULog.DatabaseMessageFormat(name=name, fields=[(t, n, f)])
        for k, y, v in cur.execute('SELECT Key, Typename, Value FROM ULogMessageInfo WHERE ULogId=?', (self._pk,)).fetchall():
            self._msg_info_dict[k] = v
            self._msg_info_dict_types[k] = y
        for entry, k, y in cur.execute('SELECT Id, Key, Typename FROM ULogMessageInfoMultiple WHERE ULogId=?', (self._pk,)).fetchall():
            self._msg_info_multiple_dict[k] = []
            self._msg_info_multiple_dict_types[k] = y
            for row in cur.execute('SELECT Id FROM ULogMessageInfoMultipleList WHERE MessageId=? ORDER BY SeriesIndex', (entry,)).fetchall():
                found = cur.execute('SELECT Value FROM ULogMessageInfoMultipleListElement WHERE ListId=? ORDER BY SeriesIndex',
                                    (row[0],)).fetchall()
                self._msg_info_multiple_dict[k].append([v[0] for v in found])
        for k, v in cur.execute('SELECT Key, Value FROM ULogInitialParameter WHERE ULogId=?', (self._pk,)).fetchall():
            self._initial_parameters[k] = v
        for kind, k, v in cur.execute('SELECT DefaultType, Key, Value FROM ULogDefaultParameter WHERE ULogId=?', (self._pk,)).fetchall():
            if kind not in self._default_parameters:
                self._default_parameters[kind] = {}
            self._default_parameters[kind][k] = v
        for t, k, v in cur.execute('SELECT Timestamp, Key, Value FROM ULogChangedParameter WHERE ULogId=?', (self._pk,)).fetchall():
            self._changed_parameters.append((t, k, v))
    self._lazy_loaded = lazy


# ------------------------------------------------------------------ datasets
def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):
    cur = self._db().cursor() if db_cursor is None else db_cursor
    have = None
    for d in self._data_list:
        if d.name == name and d.multi_id == multi_instance:
            have = d
            break
    if caching and have is not None and (lazy or have.data):
        return have
    row = cur.execute('SELECT Id, TimestampIndex, MessageId FROM ULogDataset WHERE DatasetName=? AND MultiId=? AND ULogId=?',
                      (name, multi_instance, self._pk)).fetchone()
    if row is None:
        raise KeyError()
    fields, data = [], {}
    if not lazy:
        for n, t, b in cur.execute('SELECT TopicName, DataType, ValueArray FROM ULogField WHERE DatasetId=?', (row[0],)).fetchall():
            fields.append(DatabaseULog._FieldData(field_name=n, type_str=t))
            data[n] = np.frombuffer(b, dtype=ULog._UNPACK_TYPES[t][2])
    if caching and have is not None:
        have.msg_id = row[2]
        have.timestamp_idx = row[1]
        have.field_data = fields
        have.data = data
        return have
    return DatabaseULog.DatabaseData(name=name, multi_id=multi_instance, msg_id=row[2], timestamp_idx=row[1], field_data=fields, data=data)


DROPOUT = S.Obj(DatabaseULog.DatabaseMessageDropout, {'duration': S.U16, 'timestamp': TIME})
MESSAGE = S.Obj(DatabaseULog.DatabaseMessageLogging, {'log_level': S.U8, 'timestamp': TIME, 'message': TEXT})
TAGGED = S.Obj(DatabaseULog.DatabaseMessageLoggingTagged, {'log_level': S.U8, 'tag': S.U16, 'timestamp': TIME, 'message': TEXT})
FORMAT = S.Obj(DatabaseULog.DatabaseMessageFormat, {'name': TEXT, 'fields': S.ListOf(S.Tup(TEXT, S.Int(), TEXT))})
DATASET = S.Obj(DatabaseULog.DatabaseData, DATA.attrs)
PK = S.OneOf(S.Const(None), ID)
EXTRA = dict(_pk=PK, _db=Handle(), _sha256sum=TEXT, _lazy_loaded=S.Bool())


def dblog(*names, **more):
    return S.Obj(DatabaseULog, dict({n: a for n, a in LOG.attrs.items() if n in names}, **more))


LOADING = dblog(*STATE, **dict(EXTRA, _dropouts=S.ListOf(DROPOUT), _logged_messages=S.ListOf(MESSAGE),
                               _logged_messages_tagged=S.DictOf(S.U16, S.ListOf(TAGGED)), _message_formats=S.DictOf(TEXT, FORMAT),
                               _data_list=S.ListOf(DATASET),
                               _msg_info_multiple_dict=S.DictOf(TEXT, S.ListOf(S.ListOf(ANY)))))
SAVING = dblog(*STATE, **EXTRA)
OPT = dict(db=DB)
P = 'pyulog.db:DatabaseULog.'
c = lambda n, *a, **k: C.append(Contract(P + n, *a, name='DatabaseULog.' + n, options=dict(OPT, **k.pop('options', {})), **k))
c('get_db_handle', dict(db_path=TEXT), opened, code=open_database)
c('exists_in_db', dict(db_handle=Handle(), primary_key=PK), exists)
c('primary_key_from_sha256sum', dict(db_handle=Handle(), sha256sum=TEXT), key_of_digest)
c('delete', dict(self=dblog(_pk=PK, _db=Handle())), delete)
c('get_dataset', dict(self=LOADING, name=TEXT, multi_instance=S.U8, lazy=S.Bool(), db_cursor=S.OneOf(S.Const(None), OpenCursor()),
                      caching=S.Bool()), get_dataset, options=dict(dict_schema={'data': (TEXT, FieldArr())},
                                                                   elem_schema={'fields': FIELD}))
c('load', dict(self=LOADING, lazy=S.Bool()), load,
  options=dict(foreign={DatabaseULog.get_dataset: Effect(DATASET, raises=(KeyError,), pure=True)}))
c('save', dict(self=SAVING, append_json=S.Const(False)), save)
c('calc_sha256sum', dict(log_file=S.OneOf(S.Const(None), TEXT, S.File(), S.File(closed=True))), digest,
  options=dict(code_loops=True), split=('log_file',))
LOADS = (ValueError, TypeError, OSError)
c('__init__', dict(self=S.Obj(DatabaseULog, {}), db_handle=Handle(), primary_key=PK, log_file=S.OneOf(S.Const(None), TEXT, S.File()), lazy=S.Bool(),
                   message_name_filter_list=S.OneOf(S.Const(None), S.ListOf(TEXT)), disable_str_exceptions=S.Bool(),
                   parse_header_only=S.Bool()), new_log,
  options=dict(io=True, foreign={ULog.__init__: Effect(None, raises=LOADS), DatabaseULog.load: Effect(None, raises=(KeyError,)),
                                 DatabaseULog.calc_sha256sum: Effect(TEXT, raises=(OSError,))}))
c('__eq__', dict(self=SAVING, other=S.OneOf(SAVING, LOG, S.Int(), S.Const(None))), log_eq,
  options=dict(io=True, foreign={ULog.__eq__: Effect(S.Bool(), pure=True)}))
c('write_ulog', dict(self=dblog(_lazy_loaded=S.Bool()), log_file=S.OneOf(TEXT, S.OutFile())), write,
  options=dict(io=True, foreign={ULog.write_ulog: Effect(None, raises=(ValueError, OSError))}))
c('primary_key', dict(log=dblog(_pk=PK, _sha256sum=TEXT)), key_and_digest, code=identity)
