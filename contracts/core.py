"""Contracts of pyulog.core: types of the inputs and the specification of each function."""
import os
import sys
import struct
import z3
sys.path.insert(0, os.environ.get('PV_REPO', '/repo'))
from pyulog.core import ULog
from pv.contract import Contract, conforms
from pv import schema as S
from pv.nparr import FieldArr
from pv.npdtype import DTypeSchema
from contracts import ulog_format as F

HEADER = S.Obj(ULog._MessageHeader, {'msg_size': S.U16, 'msg_type': S.U8})
STRICT = {(ULog, '_disable_str_exceptions'): S.Bool()}


def new(cls):
    return S.Obj(cls, {})

VALUE = S.OneOf(S.Int(), S.Float(), S.Str(), S.Bytes(), S.Bool())
ANY = S.Any()
E_INFO = (struct.error, IndexError, UnicodeDecodeError)
INFO = S.Obj(ULog._MessageInfo, {'key': S.Str(), 'type': S.Str(), 'value': ANY, 'is_continued': S.U8})
DEFAULT = S.Obj(ULog._MessageParameterDefault, {'key': S.Str(), 'type': S.Str(), 'value': ANY, 'default_types': S.U8})

FLAGS = S.ListOf(S.U8, 8)
LOGGING = S.Obj(ULog.MessageLogging, {'log_level': S.U8, 'timestamp': S.U64, 'message': S.Str()})
TAGGED = S.Obj(ULog.MessageLoggingTagged, {'log_level': S.U8, 'tag': S.U16, 'timestamp': S.U64, 'message': S.Str()})
FORMAT = S.Obj(ULog.MessageFormat, {'name': S.Str(), 'fields': S.ListOf(S.Tup(S.Str(), S.Int(), S.Str()))})
DROPOUT = S.Obj(ULog.MessageDropout, {'duration': S.U16, 'timestamp': S.U64})
C = []
def c(*a, **k):
    C.append(Contract(*a, **k))

P = 'pyulog.core:ULog.'
rec = lambda cls, **k: dict(dict(self=new(cls), data=S.Bytes(), header=HEADER), **k)
c(P + '_MessageHeader.initialize', dict(self=HEADER, data=S.Bytes()), F.header_initialize)
c(P + '_MessageInfo.__init__', rec(ULog._MessageInfo, is_info_multiple=S.OneOf(S.Const(False), S.Const(True))), F.info_init, statics=STRICT,
  sets=lambda b: dict({'key': S.Str(), 'type': S.Str(), 'value': ANY},
                      **({'is_continued': S.U8} if b['is_info_multiple'] else {})), raises=E_INFO)
c(P + '_MessageParameterDefault.__init__', rec(ULog._MessageParameterDefault), F.parameter_default_init, statics=STRICT,
  sets={'default_types': S.U8, 'key': S.Str(), 'type': S.Str(), 'value': ANY}, raises=E_INFO)
c(P + '_MessageFlagBits.__init__', rec(ULog._MessageFlagBits), F.flag_bits_init,
  sets={'compat_flags': FLAGS, 'incompat_flags': FLAGS, 'appended_offsets': S.ListOf(S.U64)}, raises=(struct.error,))
c(P + 'MessageFormat._extract_type', dict(field_str=S.Str()), F.extract_type)
c(P + 'MessageFormat.__init__', rec(ULog.MessageFormat), F.format_init, statics=STRICT,
  options={'types': {ULog.MessageFormat: FORMAT}}, sets=lambda b: FORMAT.attrs, raises=(IndexError, ValueError, UnicodeDecodeError))
c(P + 'MessageLogging.__init__', rec(ULog.MessageLogging), F.logging_init, statics=STRICT,
  sets=LOGGING.attrs, raises=(struct.error, UnicodeDecodeError))
c(P + 'MessageLoggingTagged.__init__', rec(ULog.MessageLoggingTagged), F.logging_tagged_init, statics=STRICT,
  sets=TAGGED.attrs, raises=(struct.error, UnicodeDecodeError))
c(P + 'MessageDropout.__init__', rec(ULog.MessageDropout, timestamp=S.U64), F.dropout_init,
  sets=DROPOUT.attrs, raises=(struct.error,))
c(P + 'MessageLogging.log_level_str', dict(self=LOGGING), F.level_text, result=S.Str())
c(P + 'MessageLoggingTagged.log_level_str', dict(self=TAGGED), F.level_text, result=S.Str())
LOG = S.Obj(ULog, {
    '_debug': S.Bool(), '_file_corrupt': S.Bool(), '_start_timestamp': S.U64, '_last_timestamp': S.U64,
    '_msg_info_dict': S.DictOf(S.Str(), ANY), '_msg_info_dict_types': S.DictOf(S.Str(), S.Str()),
    '_msg_info_multiple_dict': S.DictOf(S.Str(), S.ListOf(S.ListOf(ANY, lo=1), lo=1)),
    '_msg_info_multiple_dict_types': S.DictOf(S.Str(), S.Str()),
    '_initial_parameters': S.DictOf(S.Str(), ANY),
    '_default_parameters': S.DictOf(S.Small(0, 7), S.DictOf(S.Str(), ANY)),
    '_file_version': S.U8, '_file_handle': S.File(),
})
def part(*names):
    return S.Obj(ULog, {n: LOG.attrs[n] for n in names})
c(P + '_add_parameter_default', dict(self=part('_default_parameters'),
                                     msg_param=DEFAULT.with_attrs(default_types=S.Small(0, 255))),
  F.add_parameter_default, modifies=['self._default_parameters'])
c(P + '_add_message_info_multiple', dict(self=part('_msg_info_multiple_dict', '_msg_info_multiple_dict_types'), msg_info=INFO),
  F.add_message_info_multiple, modifies=['self._msg_info_multiple_dict', 'self._msg_info_multiple_dict_types'])
c(P + '_read_file_header', dict(self=part('_file_handle', '_file_version', '_start_timestamp')), F.read_file_header,
  modifies=['self._file_handle', 'self._file_version', 'self._start_timestamp'], raises=(TypeError,), observe_print=False)
c(P + '_check_packet_corruption', dict(self=part('_file_corrupt', '_debug'), header=HEADER), F.check_packet_corruption,
  modifies=['self._file_corrupt'], result=S.Bool())
LOG = LOG.with_attrs(_debug=S.Const(False), _has_sync=S.Bool(), _sync_seq_cnt=S.Nat)
c(P + '_find_sync', dict(self=part('_file_handle', '_has_sync', '_file_corrupt', '_debug'), last_n_bytes=S.Int()),
  F.find_sync, requires=F.find_sync_requires, result=S.Bool(),
  modifies=['self._file_handle', 'self._has_sync', 'self._file_corrupt'],
  options={'code_loops': True, 'peel': 1, 'scan_pattern': F.SYNC})

# ------------------------------------------------------------------ lookups
U32 = S.U32
VERSION_LOG = S.Obj(ULog, {'_msg_info_dict': S.DictOf(S.Str(), U32)})
def numbers(it, args, kw):
    """other logs: by the body of the function"""
    return args[0].schema is VERSION_LOG
c(P + 'get_version_info', dict(self=VERSION_LOG, key_name=S.Str()), F.version_info, applicable=numbers)
c(P + 'get_version_info_str', dict(self=VERSION_LOG, key_name=S.Str()), F.version_text, applicable=numbers)

# ------------------------------------------------------------------ comparison
FIELD = S.Obj(ULog._FieldData, {'field_name': S.Str(), 'type_str': S.Str()})
OTHER = S.OneOf(S.Str(), S.Int(), S.Const(None), S.Obj(ULog._MessageHeader, {}))
c(P + 'MessageFormat.__eq__', dict(self=FORMAT, other=S.OneOf(FORMAT, OTHER)), F.format_eq)
c(P + 'MessageLogging.__eq__', dict(self=LOGGING, other=S.OneOf(LOGGING, TAGGED, OTHER)), F.logging_eq)
c(P + 'MessageLoggingTagged.__eq__', dict(self=TAGGED, other=S.OneOf(TAGGED, LOGGING, OTHER)), F.tagged_eq)
c(P + 'MessageDropout.__eq__', dict(self=DROPOUT, other=S.OneOf(DROPOUT, OTHER)), F.dropout_eq)
c(P + '_FieldData.__eq__', dict(self=FIELD, other=S.OneOf(FIELD, OTHER)), F.field_eq)

# ------------------------------------------------------------------ writing
def writer(name, spec, attrs, **k):
    c(P + name, dict(self=S.Obj(ULog, attrs), file=S.OutFile()), spec, modifies=['file'], raises=E_WRITE, **k)
ITEMS = S.ListOf(S.Tup(S.Int(), S.Bytes()))
E_WRITE = (struct.error, TypeError, ValueError, KeyError, OverflowError, AttributeError, IndexError)
MAKES = dict(result=ITEMS, raises=E_WRITE, options={'local_elems': ITEMS.elem})
PARAM = S.OneOf(S.I32, S.Float(4))
writer('_write_file_header', F.write_file_header, {'_file_version': S.U8, '_start_timestamp': S.U64})
writer('_write_flags', F.write_flags, {'_compat_flags': FLAGS, '_incompat_flags': FLAGS})
SELF = dict(self=S.Obj(ULog, {}))
c(P + '_make_info_message_data', dict(SELF, key=S.Str(), value=VALUE, value_type=S.Str(), continued=S.OneOf(S.Const(None), S.Bool())),
  F.info_data)
c(P + '_make_parameter_data', dict(SELF, name=S.Str(), value=VALUE), F.parameter_data)
writer('_write_initial_parameters', F.write_initial_parameters, {'_initial_parameters': S.DictOf(S.Str(), PARAM)})
writer('_write_format_messages', F.write_format_messages, {'_message_formats': S.DictOf(S.Str(), FORMAT)})
c(P + '_make_logged_message_items', dict(self=S.Obj(ULog, {'_logged_messages': S.ListOf(LOGGING)})), F.text_items, **MAKES)
c(P + '_make_dropout_items', dict(self=S.Obj(ULog, {'_dropouts': S.ListOf(DROPOUT)})), F.dropout_items, **MAKES)
c(P + '_make_changed_param_items', dict(self=S.Obj(ULog, {'_changed_parameters': S.ListOf(S.Tup(S.U64, S.Str(), PARAM))})), F.change_items, **MAKES)
c(P + '_make_tagged_logged_message_items', dict(self=S.Obj(ULog, {'_logged_messages_tagged': S.DictOf(S.U16, S.ListOf(TAGGED))})), F.tagged_items, **MAKES)

writer('_write_info_messages', F.write_info_messages, {'_msg_info_dict': S.DictOf(S.Str(), VALUE), '_msg_info_dict_types': S.DictOf(S.Str(), S.Str())})
writer('_write_info_multiple_message', F.write_info_multiple_message,
       {'_msg_info_multiple_dict': S.DictOf(S.Str(), S.ListOf(S.ListOf(VALUE))), '_msg_info_multiple_dict_types': S.DictOf(S.Str(), S.Str())})
writer('_write_default_parameters', F.write_default_parameters, {'_default_parameters': S.DictOf(S.Small(0, 7), S.DictOf(S.Str(), PARAM))})

# ------------------------------------------------------------------ datasets
DATA = S.Obj(ULog.Data, {'multi_id': S.U8, 'msg_id': S.U16, 'name': S.Str(), 'field_data': S.ListOf(FIELD), 'timestamp_idx': S.Int(-1),
                         'data': S.DictOf(S.Str(), FieldArr())})
WITH_DATA = S.Obj(ULog, {'_data_list': S.ListOf(DATA)})
def usual_data(it, args, kw):
    """logs with more known about the fields of their datasets: by the body of the function"""
    return conforms(it.ctx, WITH_DATA, args[0]) is True
c(P + 'get_dataset', dict(self=WITH_DATA, name=S.Str(), multi_instance=S.Int()), F.get_dataset,
  result=S.frozen(DATA), raises=(IndexError,), applicable=usual_data)
c(P + 'Data.list_value_changes', dict(self=DATA, field_name=S.Str()), F.list_value_changes)

# ------------------------------------------------------------------ announcements and samples
TYPE_STR = S.Str(lambda e: z3.Or(*[e == z3.StringVal(t) for t in F.TYPE_SIZE]))
EFIELD = S.Obj(ULog._FieldData, {'field_name': S.Str(), 'type_str': TYPE_STR})
FORMATS = S.DictOf(S.Str(), FORMAT)
ADDED = S.Obj(ULog._MessageAddLogged, {'field_data': S.ListOf(EFIELD), 'timestamp_idx': S.Int(-1), 'message_name': S.Str(),
                                       'max_data_size': S.Nat})
def added(*names):
    return S.Obj(ULog._MessageAddLogged, {n: ADDED.attrs[n] for n in names})
c(P + '_MessageAddLogged._parse_nested_type', dict(self=added('field_data', 'timestamp_idx'), prefix_str=S.Str(), type_name=S.Str(),
                                                   message_formats=FORMATS), F.nested_fields,
  modifies=['self.field_data', 'self.timestamp_idx'], raises=(KeyError,))
c(P + '_MessageAddLogged._parse_format', dict(self=added('field_data', 'timestamp_idx', 'message_name', 'max_data_size'),
                                              message_formats=FORMATS), F.parse_format,
  modifies=['self.field_data', 'self.timestamp_idx', 'self.max_data_size'], raises=(KeyError,))
ADDED = ADDED.with_attrs(multi_id=S.U8, msg_id=S.U16, timestamp_offset=S.Nat, buffer=S.Buf(), dtype=DTypeSchema())
ADDED_ATTRS = dict(ADDED.attrs)
c(P + '_MessageAddLogged.__init__', dict(self=new(ULog._MessageAddLogged), data=S.Bytes(), header=HEADER, message_formats=FORMATS),
  F.add_logged_init, statics=STRICT, sets=ADDED_ATTRS, raises=(KeyError, struct.error, UnicodeDecodeError),
  options={'elem_schema': {'dtype_list': S.Tup(S.Str(), ANY), 'columns': S.Tup(S.Str(), ANY)}})
SUBSCRIPTIONS = S.DictOf(S.U16, S.Obj(ULog._MessageAddLogged, ADDED_ATTRS))
MSG_DATA = S.Obj(ULog._MessageData, {'timestamp': S.U64})
IDS = S.SetOf(S.U16)
c(P + '_MessageData.initialize', dict(self=MSG_DATA, data=S.Bytes(), header=HEADER, subscriptions=SUBSCRIPTIONS,
                                      ulog_object=S.Obj(ULog, {'_filtered_message_ids': IDS, '_missing_message_ids': IDS, '_debug': S.Const(False)})),
  F.data_initialize, result=S.Bool(), raises=(struct.error,),
  modifies=['self.timestamp', 'subscriptions', 'ulog_object._missing_message_ids'])
SUBSCRIPTION = S.Obj(ULog._MessageAddLogged, ADDED_ATTRS)
DATASET_ATTRS = dict(DATA.attrs, field_data=S.ListOf(EFIELD))
c(P + 'Data.__init__', dict(self=new(ULog.Data), message_add_logged_obj=SUBSCRIPTION), F.data_init,
  sets=DATASET_ATTRS, raises=(ValueError,), options={'dict_schema': {'data': (S.Str(), FieldArr())}})

# ------------------------------------------------------------------ reading a file
LOG = LOG.with_attrs(_compat_flags=FLAGS, _incompat_flags=FLAGS, _appended_offsets=S.ListOf(S.U64), _message_formats=FORMATS)
LOG.attrs['_msg_info_dict'] = S.DictOf(S.Str(), ANY)
DEFINITIONS = ['_msg_info_dict', '_msg_info_dict_types', '_msg_info_multiple_dict', '_msg_info_multiple_dict_types',
               '_initial_parameters', '_default_parameters', '_message_formats', '_compat_flags', '_incompat_flags',
               '_appended_offsets', '_file_corrupt', '_file_handle']
c(P + '_read_file_definitions', dict(self=part('_debug', *DEFINITIONS)), F.read_definitions, statics=STRICT,
  modifies=['self.' + n for n in DEFINITIONS], raises=(struct.error, ValueError, UnicodeDecodeError, NotImplementedError, OSError),
  options={'types': {ULog._MessageHeader: HEADER}})
LOG = LOG.with_attrs(_changed_parameters=S.ListOf(S.Tup(S.U64, S.Str(), ANY)), _subscriptions=SUBSCRIPTIONS, _filtered_message_ids=IDS,
                     _missing_message_ids=IDS, _logged_messages=S.ListOf(LOGGING), _logged_messages_tagged=S.DictOf(S.U16, S.ListOf(TAGGED)),
                     _dropouts=S.ListOf(DROPOUT), _data_list=S.ListOf(S.Obj(ULog.Data, DATASET_ATTRS)), _last_timestamp=S.U64)
CONTENTS = ['_msg_info_dict', '_msg_info_dict_types', '_msg_info_multiple_dict', '_msg_info_multiple_dict_types', '_default_parameters',
            '_changed_parameters', '_subscriptions', '_filtered_message_ids', '_missing_message_ids', '_logged_messages',
            '_logged_messages_tagged', '_dropouts', '_data_list', '_last_timestamp', '_sync_seq_cnt', '_has_sync', '_file_corrupt', '_file_handle']
FILTER = S.OneOf(S.Const(None), S.ListOf(S.Str()))
c(P + '_read_file_data', dict(self=part('_debug', '_message_formats', *CONTENTS), message_name_filter_list=FILTER,
                              read_until=S.OneOf(S.Const(None), S.U64)), F.read_data, statics=STRICT,
  modifies=['self.' + n for n in CONTENTS], raises=(ValueError, UnicodeDecodeError),
  options={'types': {ULog._MessageHeader: HEADER, ULog._MessageData: MSG_DATA}})
E_LOAD = (TypeError, struct.error, ValueError, UnicodeDecodeError, NotImplementedError, OSError, FileNotFoundError)
STATE = sorted(set(DEFINITIONS + CONTENTS + ['_file_version', '_start_timestamp']) - {'_file_handle'})
c(P + '_load_file', dict(self=part('_debug', *STATE), log_file=S.OneOf(S.Str(), S.File()), message_name_filter_list=FILTER,
                         parse_header_only=S.Bool()), F.load_file, statics=STRICT)
c(P + '__init__', dict(self=new(ULog), log_file=S.OneOf(S.Const(None), S.Str(), S.File()), message_name_filter_list=FILTER,
                       disable_str_exceptions=S.Bool(), parse_header_only=S.Bool()), F.log_init, statics=STRICT,
  options={'types': {ULog: LOG}})

# ------------------------------------------------------------------ writing the data section
DATASETS = S.ListOf(S.Obj(ULog.Data, DATASET_ATTRS))
writer('_write_logged_message_subscriptions', F.write_subscriptions, {'_data_list': DATASETS})
c(P + '_make_data_items', dict(self=S.Obj(ULog, {'_data_list': DATASETS})), F.data_items, **MAKES)

WRITTEN = {'_data_list': DATASETS, '_logged_messages': S.ListOf(LOGGING), '_dropouts': S.ListOf(DROPOUT),
           '_changed_parameters': S.ListOf(S.Tup(S.U64, S.Str(), PARAM)), '_logged_messages_tagged': S.DictOf(S.U16, S.ListOf(TAGGED))}
writer('_write_data_section', F.write_data_section, WRITTEN)
WRITTEN = dict(WRITTEN, _file_version=S.U8, _start_timestamp=S.U64, _compat_flags=FLAGS, _incompat_flags=FLAGS,
               _initial_parameters=S.DictOf(S.Str(), PARAM), _message_formats=FORMATS,
               _msg_info_dict=S.DictOf(S.Str(), VALUE), _msg_info_dict_types=S.DictOf(S.Str(), S.Str()),
               _msg_info_multiple_dict=S.DictOf(S.Str(), S.ListOf(S.ListOf(VALUE))), _msg_info_multiple_dict_types=S.DictOf(S.Str(), S.Str()),
               _default_parameters=S.DictOf(S.Small(0, 7), S.DictOf(S.Str(), PARAM)))
c(P + 'write_ulog', dict(self=S.Obj(ULog, WRITTEN), log_file=S.OneOf(S.Str(), S.OutFile())), F.write_log)

# ------------------------------------------------------------------ comparison of logs
EDATA = S.Obj(ULog.Data, dict(DATASET_ATTRS))
c(P + 'Data.__eq__', dict(self=EDATA, other=S.OneOf(EDATA, OTHER)), F.dataset_eq)
ELOG = part('_debug', *STATE)
c(P + '__eq__', dict(self=ELOG, other=S.OneOf(ELOG, OTHER)), F.log_eq)
