"""Lemmas over the contracts of reading: one arbitrary message of the data section, as the specification of the loop
(contracts.ulog_format.read_data, to which the real loop is proved equal) treats it."""
import struct
from contracts.core import (part, new, STRICT, CONTENTS, HEADER, IDS, SUBSCRIPTIONS, MSG_DATA, FILTER)
from contracts import ulog_format as F
from pyulog.core import ULog
from pv.contract import Contract
from pv import schema as S

C = []


def c(name, args, spec, code, inline=True, peel=0, **k):
    C.append(Contract('pyulog.core:lemma.' + name, args, spec, code=code, name='lemma.' + name, statics=STRICT,
                      options={'inline': inline, 'peel': peel, 'types': {ULog._MessageHeader: HEADER, ULog._MessageData: MSG_DATA}}, **k))


def step(self, kind, data, header, names):
    sample = ULog._MessageData()
    try:
        F.data_message(self, kind, data, header, sample, names)
    except (IndexError, KeyError, struct.error):
        self._file_corrupt = True


# ------------------------------------------------------------------ a filter changes no sample (C08)
def samples_of(topics, i, names=None):
    """what is known about id i, when the filter asks for its topic"""
    if i in topics and (names is None or topics[i].message_name in names):
        return (topics[i].message_name, topics[i].multi_id, topics[i].msg_id, topics[i].field_data, topics[i].timestamp_idx,
                topics[i].dtype, topics[i].buffer)
    return None


def unfiltered_step(self, time, kind, data, header, names, i):
    self._changed_parameters = []
    self._dropouts = []
    step(self, kind, data, header, None)
    return (samples_of(self._subscriptions, i, names), [(k, v) for _, k, v in self._changed_parameters],
            [d.duration for d in self._dropouts])


def filtered_step(self, time, kind, data, header, names, i):
    self._changed_parameters = []
    self._dropouts = []
    kept = self._kept
    if i in kept:
        kept[i] = self._subscriptions[i]
    self._subscriptions = kept
    self._last_timestamp = time
    step(self, kind, data, header, names)
    return (samples_of(self._subscriptions, i), [(k, v) for _, k, v in self._changed_parameters],
            [d.duration for d in self._dropouts])


def related(self, time, kind, data, header, names, i):
    """_kept are the topics of the filtered run: those that the filter asks for, as far as i is concerned; no id is announced twice"""
    if len(data) != header.msg_size or self._file_handle.tell() < 3 + len(data):
        return False
    known = i in self._subscriptions
    if kind == 'A' and len(data) >= 3 and F.u16(data, 1) in self._subscriptions:
        return False
    return (i in self._kept) == (known and self._subscriptions[i].message_name in names)


LOG = part('_debug', '_message_formats', *CONTENTS)
LOG = S.Obj(ULog, dict(LOG.attrs, _kept=SUBSCRIPTIONS), ignore=('_kept', '_subscriptions', '_filtered_message_ids', '_missing_message_ids', '_file_corrupt', '_last_timestamp',
                                     '_changed_parameters', '_dropouts'))
KINDS = S.OneOf(*[S.Const(k) for k in 'DALCOPQIMS?'])
c('filtered message', dict(self=LOG, time=S.U64, kind=KINDS, data=S.Bytes(), header=HEADER, names=S.ListOf(S.Str()), i=S.U16),
  filtered_step, unfiltered_step, requires=related, inline=('_MessageData.initialize', 'MessageDropout.__init__', '_MessageAddLogged.__init__'), split=('kind',))


# ------------------------------------------------------------------ rejected samples (C04)
def rejected_step(self, data, header):
    step(self, 'D', data, header, None)


def absent(self, data, header):
    """nothing but the flag and the list of unknown ids"""
    if F.u16(data, 0) not in self._subscriptions:
        self._missing_message_ids.add(F.u16(data, 0))
    self._file_corrupt = True


def rejected(self, data, header):
    """an unknown id or an impossible size"""
    i = F.u16(data, 0)
    if i not in self._subscriptions:
        return i not in self._filtered_message_ids
    size = len(data) - 2
    return size < self._subscriptions[i].dtype.itemsize or size > self._subscriptions[i].max_data_size


def sized(self, data, header):
    return len(data) >= 2 and rejected(self, data, header)


DATA_LOG = part('_debug', '_message_formats', *CONTENTS)
c('rejected sample', dict(self=DATA_LOG, data=S.Bytes(), header=HEADER), absent, rejected_step, requires=sized)


# ------------------------------------------------------------------ incomplete messages (C05) and messages across an offset (C07)
def collect(self):
    while self._subscriptions:
        topic = self._subscriptions.popitem()[1]
        if len(topic.buffer) > 0:
            self._data_list.append(ULog.Data(topic))
    self._data_list.sort(key=lambda d: (d.name, d.multi_id))


def read_rest(self, message_name_filter_list, read_until):
    ULog._read_file_data(self, message_name_filter_list, read_until)


def nothing_left(self, message_name_filter_list, read_until):
    """only what was read before"""
    collect(self)


def incomplete(self, message_name_filter_list, read_until):
    """less than one message is left, or one that extends past the limit"""
    file = self._file_handle
    at = file.tell()
    head = file.read(3)
    r = True
    if len(head) == 3:
        size = F.u16(head, 0)
        r = len(file.read(size)) < size or read_until is not None and at + 3 + size > read_until
    file.seek(at)
    return r


REST = S.Obj(ULog, DATA_LOG.attrs, ignore=('_file_handle',))
c('incomplete message', dict(self=REST, message_name_filter_list=FILTER, read_until=S.OneOf(S.Const(None), S.U64)), nothing_left, read_rest,
  requires=incomplete, inline=('_read_file_data', '_MessageHeader.initialize'), peel=1)


def known_step(self, kind, data, header, names):
    step(self, kind, data, header, names)


def elsewhere_step(self, kind, data, header, names):
    """in another file, at another place"""
    self._file_handle = self._other_file
    step(self, kind, data, header, names)


KNOWN = S.Obj(ULog, dict(DATA_LOG.attrs, _other_file=S.File()), ignore=('_file_handle', '_other_file'))
c('known message', dict(self=KNOWN, kind=S.OneOf(*[S.Const(k) for k in 'DALCOPQIMS']), data=S.Bytes(), header=HEADER, names=FILTER),
  elsewhere_step, known_step, inline=('_MessageData.initialize',), split=('kind',))
