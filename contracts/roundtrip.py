"""What is written is read back: lemmas over the real functions that write records and the real ones that read them
(both by their bodies).  Each says that one arbitrary record, written to an empty file, is exactly one message, of
the right kind, and that the reading function makes the same record of its payload."""
import io
import struct
import z3
from contracts.core import STRICT, FLAGS, FORMATS, LOGGING, TAGGED, DROPOUT, DATA, FORMAT, IDS, SUBSCRIPTION
from contracts.ulog_format import TYPE_CODE, TYPE_SIZE
from pyulog.core import ULog
from pv.contract import Contract
from pv import schema as S

C = []


def c(name, args, spec, code, inline=True, **k):
    """inline: the functions that count by their bodies"""
    C.append(Contract('pyulog.core:lemma.' + name, dict({'log': S.Obj(ULog, {})}, **args), spec, code=code, name='lemma.' + name,
                      statics=STRICT, options={'inline': inline}, **k))


def first_message(raw):
    """kind, payload and header of the first message, and what follows"""
    header = ULog._MessageHeader()
    header.initialize(raw[0:3])
    return chr(header.msg_type), raw[3:3 + header.msg_size], header, raw[3 + header.msg_size:]


def one_message(raw):
    """of the only message"""
    kind, payload, header, rest = first_message(raw)
    assert rest == b''
    return kind, payload, header


def record(method, log):
    f = io.BytesIO()
    method(log, f)
    return one_message(f.getvalue())


# ------------------------------------------------------------------ header and flags
def header_again(log):
    f = io.BytesIO()
    ULog._write_file_header(log, f)
    log._file_handle = io.BytesIO(f.getvalue())
    version, start = log._file_version, log._start_timestamp
    log._file_version, log._start_timestamp = 0, 0
    ULog._read_file_header(log)
    return log._file_version == version, log._start_timestamp == start, log._file_handle.read() == b''


def header_same(log):
    return True, True, True


c('header', dict(log=S.Obj(ULog, {'_file_version': S.U8, '_start_timestamp': S.U64, '_file_handle': S.Any()}, ignore=('_file_handle',))),
  header_same, header_again)


def flags_again(log):
    kind, payload, header = record(ULog._write_flags, log)
    r = ULog._MessageFlagBits(payload, header)
    return kind, r.compat_flags, r.incompat_flags, r.appended_offsets


def flags_same(log):
    """nothing appended"""
    kept = []
    for i in range(8):
        kept.append(log._incompat_flags[i] - (log._incompat_flags[i] % 2 if i == 0 else 0))
    return 'B', log._compat_flags, kept, []


c('flags', dict(log=S.Obj(ULog, {'_compat_flags': FLAGS, '_incompat_flags': FLAGS})), flags_same, flags_again)


# ------------------------------------------------------------------ information
NUMBERS = {k: S.Int() for k in ('int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t')}
NUMBERS.update({'float': S.Float(4), 'double': S.Float(), 'bool': S.Bool(), 'char': S.Bytes()})
TEXTS = S.Str(lambda e: z3.PrefixOf(z3.StringVal('char['), e))
OTHERS = S.Str(lambda e: z3.And(z3.Not(z3.PrefixOf(z3.StringVal('char['), e)), *[e != z3.StringVal(k) for k in NUMBERS]))
ENTRY = S.OneOf(*([S.Tup(S.Const(k), v) for k, v in NUMBERS.items()] + [S.Tup(TEXTS, S.Str()), S.Tup(OTHERS, S.Bytes())]))


def names(log, key, entry):
    return ' ' not in key and ' ' not in entry[0]


def information_again(log, key, entry):
    log._msg_info_dict = {key: entry[1]}
    log._msg_info_dict_types = {key: entry[0]}
    kind, payload, header = record(ULog._write_info_messages, log)
    r = ULog._MessageInfo(payload, header)
    return kind, r.type, r.key, r.value


def information_same(log, key, entry):
    log._msg_info_dict = {key: entry[1]}
    log._msg_info_dict_types = {key: entry[0]}
    record(ULog._write_info_messages, log)      # what cannot be written is refused
    return 'I', entry[0], key, entry[1]


c('information', dict(key=S.Str(), entry=ENTRY), information_same, information_again, requires=names, split=('entry',))


def part_again(log, key, entry):
    """the first part of a list and one that continues it"""
    log._msg_info_multiple_dict = {key: [[entry[1], entry[1]]]}
    log._msg_info_multiple_dict_types = {key: entry[0]}
    f = io.BytesIO()
    ULog._write_info_multiple_message(log, f)
    rest = f.getvalue()
    out = []
    for _ in range(2):
        kind, payload, header, rest = first_message(rest)
        r = ULog._MessageInfo(payload, header, is_info_multiple=True)
        out.append((kind, r.type, r.key, r.value, r.is_continued))
    assert rest == b''
    return out


def part_same(log, key, entry):
    log._msg_info_multiple_dict = {key: [[entry[1], entry[1]]]}
    log._msg_info_multiple_dict_types = {key: entry[0]}
    ULog._write_info_multiple_message(log, io.BytesIO())
    return [('M', entry[0], key, entry[1], 0), ('M', entry[0], key, entry[1], 1)]


c('multiple information', dict(key=S.Str(), entry=ENTRY), part_same, part_again, requires=names, split=('entry',))

# ------------------------------------------------------------------ parameters
VALUE = S.OneOf(S.I32, S.Float(4))


def name_only(log, key, value):
    return ' ' not in key


def parameter_again(log, key, value):
    log._initial_parameters = {key: value}
    kind, payload, header = record(ULog._write_initial_parameters, log)
    r = ULog._MessageInfo(payload, header)
    return kind, r.key, r.value


def parameter_same(log, key, value):
    log._initial_parameters = {key: value}
    record(ULog._write_initial_parameters, log)
    return 'P', key, value


c('parameter', dict(key=S.Str(), value=VALUE), parameter_same, parameter_again, requires=name_only, split=('value',))


def default_again(log, bit, key, value):
    log._default_parameters = {bit: {key: value}}
    kind, payload, header = record(ULog._write_default_parameters, log)
    r = ULog._MessageParameterDefault(payload, header)
    log._default_parameters = {}
    ULog._add_parameter_default(log, r)
    return kind, log._default_parameters


def default_same(log, bit, key, value):
    log._default_parameters = {bit: {key: value}}
    record(ULog._write_default_parameters, log)
    return 'Q', {bit: {key: value}}


def default_name(log, bit, key, value):
    return ' ' not in key


c('default parameter', dict(log=S.Obj(ULog, {'_default_parameters': S.Any()}, ignore=('_default_parameters',)),
                            bit=S.Small(0, 7), key=S.Str(), value=VALUE), default_same, default_again, requires=default_name,
  split=('value',))


def change_again(log, time, key, value):
    log._changed_parameters = [(time, key, value)]
    [(at, raw)] = ULog._make_changed_param_items(log)
    kind, payload, header = one_message(raw)
    r = ULog._MessageInfo(payload, header)
    return at, kind, r.key, r.value


def change_same(log, time, key, value):
    log._changed_parameters = [(time, key, value)]
    ULog._make_changed_param_items(log)
    return time, 'P', key, value


def change_name(log, time, key, value):
    return ' ' not in key


c('parameter change', dict(time=S.U64, key=S.Str(), value=VALUE), change_same, change_again, requires=change_name, split=('value',))


# ------------------------------------------------------------------ texts and dropouts
def text_again(log, record):
    log._logged_messages = [record]
    [(at, raw)] = ULog._make_logged_message_items(log)
    kind, payload, header = one_message(raw)
    r = ULog.MessageLogging(payload, header)
    return at, kind, r.log_level, r.timestamp, r.message


def text_same(log, record):
    log._logged_messages = [record]
    ULog._make_logged_message_items(log)
    return record.timestamp, 'L', record.log_level, record.timestamp, record.message


c('text', dict(record=LOGGING), text_same, text_again)


def tagged_again(log, record):
    log._logged_messages_tagged = {record.tag: [record]}
    [(at, raw)] = ULog._make_tagged_logged_message_items(log)
    kind, payload, header = one_message(raw)
    r = ULog.MessageLoggingTagged(payload, header)
    return at, kind, r.log_level, r.tag, r.timestamp, r.message


def tagged_same(log, record):
    log._logged_messages_tagged = {record.tag: [record]}
    ULog._make_tagged_logged_message_items(log)
    return record.timestamp, 'C', record.log_level, record.tag, record.timestamp, record.message


c('tagged text', dict(record=TAGGED), tagged_same, tagged_again)


def dropout_again(log, record):
    log._dropouts = [record]
    [(at, raw)] = ULog._make_dropout_items(log)
    kind, payload, header = one_message(raw)
    r = ULog.MessageDropout(payload, header, at)
    return kind, r.duration, r.timestamp


def dropout_same(log, record):
    log._dropouts = [record]
    ULog._make_dropout_items(log)
    return 'O', record.duration, record.timestamp


c('dropout', dict(record=DROPOUT), dropout_same, dropout_again)


# ------------------------------------------------------------------ announcements, samples and formats
def announcement_again(log, dataset):
    log._data_list = [dataset]
    kind, payload, header = record(ULog._write_logged_message_subscriptions, log)
    r = ULog._MessageAddLogged(payload, header, log._message_formats)
    return kind, r.multi_id, r.msg_id, r.message_name


def announcement_same(log, dataset):
    """(its fields are those that the formats give for its name)"""
    log._data_list = [dataset]
    record(ULog._write_logged_message_subscriptions, log)
    ULog._MessageAddLogged(struct.pack('<BH', dataset.multi_id, dataset.msg_id) + bytes(dataset.name, 'utf-8'),
                           ULog._MessageHeader(), log._message_formats)
    return 'A', dataset.multi_id, dataset.msg_id, dataset.name


c('announcement', dict(log=S.Obj(ULog, {'_data_list': S.Any(), '_message_formats': FORMATS}, ignore=('_data_list',)), dataset=DATA),
  announcement_same, announcement_again, inline=('_write_logged_message_subscriptions', '_MessageAddLogged.__init__'))


def sample_of(log, dataset, time, value):
    dataset.field_data = [ULog._FieldData('timestamp', 'uint64_t'), ULog._FieldData('x', value[0])]
    dataset.data = {'timestamp': [time], 'x': [value[1]]}
    log._data_list = [dataset]


def sample_again(log, subscription, dataset, time, value):
    sample_of(log, dataset, time, value)
    [(at, raw)] = ULog._make_data_items(log)
    kind, payload, header = one_message(raw)
    r = ULog._MessageData()
    corrupt = r.initialize(payload, header, {dataset.msg_id: subscription}, log)
    return at, kind, corrupt, r.timestamp


def sample_same(log, subscription, dataset, time, value):
    sample_of(log, dataset, time, value)
    ULog._make_data_items(log)
    x = value[1]
    if value[0] == 'char':
        x = struct.pack('<b', x)
    subscription.buffer.extend(struct.pack('<Q', time) + struct.pack('<' + TYPE_CODE[value[0]], x))
    return time, 'D', False, time


def sample_plain(log, subscription, dataset, time, value):
    """of a topic with these two fields"""
    return subscription.timestamp_offset == 0 and subscription.dtype.itemsize == 8 + TYPE_SIZE[value[0]] and \
        subscription.max_data_size >= subscription.dtype.itemsize


c('sample', dict(log=S.Obj(ULog, {'_data_list': S.Any(), '_filtered_message_ids': IDS, '_missing_message_ids': IDS}, ignore=('_data_list',)),
                 subscription=SUBSCRIPTION, dataset=S.Obj(ULog.Data, {'msg_id': S.U16}), time=S.U64,
                 value=S.OneOf(*[S.Tup(S.Const(k), v if k != 'char' else S.Int()) for k, v in NUMBERS.items()])),
  sample_same, sample_again, requires=sample_plain, split=('value',))


def format_again(log, form):
    log._message_formats = {form.name: form}
    kind, payload, header = record(ULog._write_format_messages, log)
    r = ULog.MessageFormat(payload, header)
    return kind, r.name, r.fields


def format_same(log, form):
    log._message_formats = {form.name: form}
    record(ULog._write_format_messages, log)
    return 'F', form.name, form.fields


def format_plain(log, form):
    """names without the separators"""
    ok = ':' not in form.name
    for kind, size, field in form.fields:
        for x in ' :;[]':
            ok = ok and x not in kind and x not in field
        ok = ok and size >= 0
    return ok


c('format', dict(form=FORMAT.with_attrs(fields=S.ListOf(S.Tup(S.Str(), S.Int(), S.Str()), 2))), format_same, format_again,
  requires=format_plain)
