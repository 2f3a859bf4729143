"""Lemmas over saving and loading a log (pyulog.db, real bodies): what was saved into the database is what is loaded from it.

Tables with one row per record: for lists of any length, all of them at once.  Nested ones: one tag, format, list of values, kind of
default with any number of entries, and a dataset of two fields.  Databases by model (pv/sql.py, option memory)."""
import numpy as np
from pyulog.core import ULog
from pyulog.db import DatabaseULog
from pv.contract import Contract
from pv import schema as S
from pv.sql import Handle
from contracts.core import FLAGS, EFIELD
from pv.nparr import Arr
from contracts.db import DB, DROPOUT, MESSAGE, TAGGED, FORMAT, TEXT, ANY, TIME, dblog

C = []


def empty(log):
    """without any record"""
    log._compat_flags, log._incompat_flags, log._appended_offsets = [], [], []
    log._data_list, log._dropouts, log._logged_messages, log._logged_messages_tagged = [], [], [], {}
    log._message_formats, log._msg_info_dict, log._msg_info_dict_types = {}, {}, {}
    log._msg_info_multiple_dict, log._msg_info_multiple_dict_types = {}, {}
    log._initial_parameters, log._default_parameters, log._changed_parameters = {}, {}, []


def loaded(self, other):
    """through the database"""
    empty(other)
    self.save()
    other._pk = self._pk
    other.load(lazy=False)


def copied(self, other):
    """what every log has"""
    empty(other)
    self.save()
    other._pk = self._pk
    other._file_version = self._file_version
    other._start_timestamp = self._start_timestamp
    other._last_timestamp = self._last_timestamp
    other._compat_flags = self._compat_flags
    other._incompat_flags = self._incompat_flags
    other._sync_seq_cnt = self._sync_seq_cnt
    other._has_sync = self._has_sync
    other._sha256sum = self._sha256sum


NUMBERS = dict(_file_version=S.U8, _start_timestamp=TIME, _last_timestamp=TIME, _sync_seq_cnt=S.Nat, _has_sync=S.Bool(), _sha256sum=TEXT)
FROM = dblog('_nothing', **dict(NUMBERS, _pk=S.Const(None), _db=Handle(), _lazy_loaded=S.Bool()))
TO = dblog('_nothing', **dict(NUMBERS, _pk=S.Const(None), _db=Handle(), _lazy_loaded=S.Bool()))


DICTS = {'_msg_info_dict': (TEXT, ANY), '_msg_info_dict_types': (TEXT, TEXT), '_initial_parameters': (TEXT, ANY),
         '_default_parameters': (S.Small(0, 7), S.DictOf(TEXT, ANY)), '_message_formats': (TEXT, FORMAT),
         '_logged_messages_tagged': (S.U16, S.ListOf(TAGGED)), '_msg_info_multiple_dict': (TEXT, S.ListOf(S.ListOf(ANY))),
         '_msg_info_multiple_dict_types': (TEXT, TEXT)}


def c(name, args, spec, code, **k):
    C.append(Contract('pyulog.db:lemma.' + name, dict(args, self=FROM, other=TO), spec, code=code, name='lemma.' + name,
                      options=dict(db=DB, memory=True, dict_schema=DICTS, inline=True, types={DatabaseULog.DatabaseMessageDropout: DROPOUT,
                                                                           DatabaseULog.DatabaseMessageLogging: MESSAGE,
                                                                           DatabaseULog.DatabaseMessageLoggingTagged: TAGGED,
                                                                           DatabaseULog.DatabaseMessageFormat: FORMAT}), **k))


# ------------------------------------------------------------------ the numbers of every log, flags and offsets
def saved_head(self, other, compat, incompat, offsets):
    empty(self)
    self._compat_flags, self._incompat_flags, self._appended_offsets = compat, incompat, offsets
    loaded(self, other)


def copied_head(self, other, compat, incompat, offsets):
    empty(self)
    self._compat_flags, self._incompat_flags, self._appended_offsets = compat, incompat, offsets
    copied(self, other)
    for x in [x for x in offsets]:
        other._appended_offsets.append(x)
    other._lazy_loaded = False


c('stored head', dict(compat=FLAGS, incompat=FLAGS, offsets=S.ListOf(TIME)), copied_head, saved_head)


# ------------------------------------------------------------------ tables with one row per record
def saved_records(self, other, dropouts, messages, changes):
    empty(self)
    self._dropouts, self._logged_messages, self._changed_parameters = dropouts, messages, changes
    loaded(self, other)


def copied_records(self, other, dropouts, messages, changes):
    empty(self)
    self._dropouts, self._logged_messages, self._changed_parameters = dropouts, messages, changes
    copied(self, other)
    for d in [d for d in dropouts]:
        other._dropouts.append(DatabaseULog.DatabaseMessageDropout(timestamp=d.timestamp, duration=d.duration))
    for m in [m for m in messages]:
        other._logged_messages.append(DatabaseULog.DatabaseMessageLogging(log_level=m.log_level, timestamp=m.timestamp, message=m.message))
    for t, k, v in [x for x in changes]:
        other._changed_parameters.append((t, k, v))
    other._lazy_loaded = False


c('stored records', dict(dropouts=S.ListOf(DROPOUT), messages=S.ListOf(MESSAGE), changes=S.ListOf(S.Tup(TIME, TEXT, ANY))),
  copied_records, saved_records)


def saved_values(self, other, info, types, parameters):
    empty(self)
    self._msg_info_dict, self._msg_info_dict_types, self._initial_parameters = info, types, parameters
    loaded(self, other)


def copied_values(self, other, info, types, parameters):
    empty(self)
    self._msg_info_dict, self._msg_info_dict_types, self._initial_parameters = info, types, parameters
    copied(self, other)
    for k, v in [(k, v) for k, v in info.items()]:
        other._msg_info_dict[k] = v
        other._msg_info_dict_types[k] = types[k]
    for k, v in [(k, v) for k, v in parameters.items()]:
        other._initial_parameters[k] = v
    other._lazy_loaded = False


# every information entry has a type
c('stored values', dict(info=S.DictOf(TEXT, ANY), types=S.DictOf(S.EveryStr(), TEXT), parameters=S.DictOf(TEXT, ANY)),
  copied_values, saved_values)


# ------------------------------------------------------------------ nested tables
def saved_tagged(self, other, tag, messages):
    empty(self)
    self._logged_messages_tagged = {tag: messages}
    loaded(self, other)


def copied_tagged(self, other, tag, messages):
    empty(self)
    self._logged_messages_tagged = {tag: messages}
    copied(self, other)
    for m in [m for m in messages]:
        if tag not in other._logged_messages_tagged:
            other._logged_messages_tagged[tag] = []
        other._logged_messages_tagged[tag].append(
            DatabaseULog.DatabaseMessageLoggingTagged(log_level=m.log_level, tag=tag, timestamp=m.timestamp, message=m.message))
    other._lazy_loaded = False


c('stored tagged messages', dict(tag=S.U16, messages=S.ListOf(TAGGED)), copied_tagged, saved_tagged)


def saved_defaults(self, other, kind, values):
    empty(self)
    self._default_parameters = {kind: values}
    loaded(self, other)


def copied_defaults(self, other, kind, values):
    empty(self)
    self._default_parameters = {kind: values}
    copied(self, other)
    for k, v in [(k, v) for k, v in values.items()]:
        if kind not in other._default_parameters:
            other._default_parameters[kind] = {}
        other._default_parameters[kind][k] = v
    other._lazy_loaded = False


c('stored defaults', dict(kind=S.Small(0, 7), values=S.DictOf(TEXT, ANY)), copied_defaults, saved_defaults)


def saved_format(self, other, name, form):
    empty(self)
    self._message_formats = {name: form}
    loaded(self, other)


def copied_format(self, other, name, form):
    empty(self)
    self._message_formats = {name: form}
    copied(self, other)
    for t, n, f in [x for x in form.fields]:
        if name in other._message_formats:
            other._message_formats[name].fields.append((t, n, f))
        else:
            other._message_formats[name] = DatabaseULog.DatabaseMessageFormat(name=name, fields=[(t, n, f)])
    other._lazy_loaded = False


c('stored format', dict(name=TEXT, form=FORMAT), copied_format, saved_format)


def saved_multiple(self, other, name, kind, first, second):
    empty(self)
    self._msg_info_multiple_dict = {name: [first, second]}
    self._msg_info_multiple_dict_types = {name: kind}
    loaded(self, other)


def copied_multiple(self, other, name, kind, first, second):
    empty(self)
    self._msg_info_multiple_dict = {name: [first, second]}
    self._msg_info_multiple_dict_types = {name: kind}
    copied(self, other)
    other._msg_info_multiple_dict[name] = [[v for v in first], [v for v in second]]
    other._msg_info_multiple_dict_types[name] = kind
    other._lazy_loaded = False


c('stored lists', dict(name=TEXT, kind=TEXT, first=S.ListOf(ANY), second=S.ListOf(ANY)), copied_multiple, saved_multiple)


# ------------------------------------------------------------------ a dataset
def made_dataset(name, instance, msg_id, at, f1, v1, f2, v2):
    return DatabaseULog.DatabaseData(name=name, multi_id=instance, msg_id=msg_id, timestamp_idx=at, field_data=[f1, f2],
                                     data={f1.field_name: v1, f2.field_name: v2})


def saved_dataset(self, other, name, instance, msg_id, at, f1, v1, f2, v2):
    empty(self)
    self._data_list = [made_dataset(name, instance, msg_id, at, f1, v1, f2, v2)]
    loaded(self, other)


def copied_dataset(self, other, name, instance, msg_id, at, f1, v1, f2, v2):
    empty(self)
    self._data_list = [made_dataset(name, instance, msg_id, at, f1, v1, f2, v2)]
    copied(self, other)
    other._data_list.append(DatabaseULog.DatabaseData(
        name=name, multi_id=instance, msg_id=msg_id, timestamp_idx=at,
        field_data=[DatabaseULog._FieldData(field_name=f.field_name, type_str=f.type_str) for f in [f1, f2]],
        data={f.field_name: np.frombuffer(v.tobytes(), dtype=ULog._UNPACK_TYPES[f.type_str][2]) for f, v in [(f1, v1), (f2, v2)]}))
    other._lazy_loaded = False


c('stored dataset', dict(name=TEXT, instance=S.U8, msg_id=S.U16, at=S.Int(-1), f1=EFIELD, v1=Arr(ANY), f2=EFIELD, v2=Arr(ANY)),
  copied_dataset, saved_dataset, requires=lambda self, other, name, instance, msg_id, at, f1, v1, f2, v2: f1.field_name != f2.field_name)


# two instances of a topic, in the order of their numbers
def one(name, instance, msg_id, f, v):
    return DatabaseULog.DatabaseData(name=name, multi_id=instance, msg_id=msg_id, timestamp_idx=0, field_data=[f], data={f.field_name: v})


def back(name, instance, msg_id, f, v):
    return DatabaseULog.DatabaseData(
        name=name, multi_id=instance, msg_id=msg_id, timestamp_idx=0,
        field_data=[DatabaseULog._FieldData(field_name=f.field_name, type_str=f.type_str)],
        data={f.field_name: np.frombuffer(v.tobytes(), dtype=ULog._UNPACK_TYPES[f.type_str][2])})


def saved_instances(self, other, name, i, j, m1, m2, f1, v1, f2, v2):
    empty(self)
    self._data_list = [one(name, j, m2, f2, v2), one(name, i, m1, f1, v1)]
    loaded(self, other)


def copied_instances(self, other, name, i, j, m1, m2, f1, v1, f2, v2):
    empty(self)
    self._data_list = [one(name, j, m2, f2, v2), one(name, i, m1, f1, v1)]
    copied(self, other)
    other._data_list.append(back(name, i, m1, f1, v1))
    other._data_list.append(back(name, j, m2, f2, v2))
    other._lazy_loaded = False


c('stored instances', dict(name=TEXT, i=S.U8, j=S.U8, m1=S.U16, m2=S.U16, f1=EFIELD, v1=Arr(ANY), f2=EFIELD, v2=Arr(ANY)),
  copied_instances, saved_instances, requires=lambda self, other, name, i, j, m1, m2, f1, v1, f2, v2: i < j)


# ------------------------------------------------------------------ beside another log
def both_saved(self, other, third):
    empty(other)
    third._db = self._db
    third.save()
    self.save()
    other._db = self._db
    other._pk = self._pk


def numbers(self, other):
    other._file_version = self._file_version
    other._start_timestamp = self._start_timestamp
    other._last_timestamp = self._last_timestamp
    other._sync_seq_cnt = self._sync_seq_cnt
    other._has_sync = self._has_sync
    other._sha256sum = self._sha256sum


def filled(log, dropouts, parameters):
    empty(log)
    log._dropouts, log._initial_parameters = dropouts, parameters


def saved_beside(self, other, third, dropouts, parameters, dropouts2, parameters2):
    filled(self, dropouts, parameters)
    filled(third, dropouts2, parameters2)
    both_saved(self, other, third)
    other.load(lazy=False)


def copied_beside(self, other, third, dropouts, parameters, dropouts2, parameters2):
    filled(self, dropouts, parameters)
    filled(third, dropouts2, parameters2)
    both_saved(self, other, third)
    numbers(self, other)
    for d in [d for d in dropouts]:
        other._dropouts.append(DatabaseULog.DatabaseMessageDropout(timestamp=d.timestamp, duration=d.duration))
    for k, v in [(k, v) for k, v in parameters.items()]:
        other._initial_parameters[k] = v
    other._lazy_loaded = False


MINE = dict(dropouts=S.ListOf(DROPOUT), parameters=S.DictOf(TEXT, ANY))
c('stored beside another', dict(third=FROM, **MINE, **{k + '2': v for k, v in MINE.items()}), copied_beside, saved_beside,
  requires=lambda self, other, third, dropouts, parameters, dropouts2, parameters2: self._sha256sum != third._sha256sum)


# nested tables: the same tag and the same format in both logs
def saved_same_tag(self, other, third, tag, name, messages, form, messages2, form2):
    empty(self)
    empty(third)
    self._logged_messages_tagged, self._message_formats = {tag: messages}, {name: form}
    third._logged_messages_tagged, third._message_formats = {tag: messages2}, {name: form2}
    both_saved(self, other, third)
    other.load(lazy=False)


def copied_same_tag(self, other, third, tag, name, messages, form, messages2, form2):
    empty(self)
    empty(third)
    self._logged_messages_tagged, self._message_formats = {tag: messages}, {name: form}
    third._logged_messages_tagged, third._message_formats = {tag: messages2}, {name: form2}
    both_saved(self, other, third)
    numbers(self, other)
    for m in [m for m in messages]:
        if tag not in other._logged_messages_tagged:
            other._logged_messages_tagged[tag] = []
        other._logged_messages_tagged[tag].append(
            DatabaseULog.DatabaseMessageLoggingTagged(log_level=m.log_level, tag=tag, timestamp=m.timestamp, message=m.message))
    for t, n, f in [x for x in form.fields]:
        if name in other._message_formats:
            other._message_formats[name].fields.append((t, n, f))
        else:
            other._message_formats[name] = DatabaseULog.DatabaseMessageFormat(name=name, fields=[(t, n, f)])
    other._lazy_loaded = False


MINE = dict(messages=S.ListOf(TAGGED), form=FORMAT)
c('stored beside a similar one', dict(third=FROM, tag=S.U16, name=TEXT, **MINE, **{k + '2': v for k, v in MINE.items()}), copied_same_tag,
  saved_same_tag, requires=lambda self, other, third, tag, name, messages, form, messages2, form2: self._sha256sum != third._sha256sum)


# the same topic and instance in both logs
def saved_same_topic(self, other, third, name, i, m1, m2, f1, v1, f2, v2):
    empty(self)
    empty(third)
    self._data_list, third._data_list = [one(name, i, m1, f1, v1)], [one(name, i, m2, f2, v2)]
    both_saved(self, other, third)
    other.load(lazy=False)


def copied_same_topic(self, other, third, name, i, m1, m2, f1, v1, f2, v2):
    empty(self)
    empty(third)
    self._data_list, third._data_list = [one(name, i, m1, f1, v1)], [one(name, i, m2, f2, v2)]
    both_saved(self, other, third)
    numbers(self, other)
    other._data_list.append(back(name, i, m1, f1, v1))
    other._lazy_loaded = False


c('stored beside the same topic', dict(third=FROM, name=TEXT, i=S.U8, m1=S.U16, m2=S.U16, f1=EFIELD, v1=Arr(ANY), f2=EFIELD, v2=Arr(ANY)),
  copied_same_topic, saved_same_topic,
  requires=lambda self, other, third, name, i, m1, m2, f1, v1, f2, v2: self._sha256sum != third._sha256sum)
