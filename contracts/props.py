"""Which contracts each property rests on."""
MODULES = ['core', 'px4', 'extract', 'csv', 'params', 'gps', 'info', 'events', 'kml', 'db', 'migrate', 'ros2bag', 'roundtrip', 'reading', 'storing']
U = 'ULog.'
INFO = [U + '_MessageInfo.__init__']
READ = [U + f for f in ('_read_file_data', '_load_file', '__init__')]
SAMPLE = [U + f for f in ('_MessageHeader.initialize', '_MessageData.initialize')]
ANNOUNCE = [U + f for f in ('MessageFormat._extract_type', 'MessageFormat.__init__', '_MessageAddLogged._parse_nested_type',
                            '_MessageAddLogged._parse_format', '_MessageAddLogged.__init__')]
PROOFS = {
    'C01': [U + f for f in (
        '_MessageHeader.initialize', '_MessageInfo.__init__', '_MessageParameterDefault.__init__', '_MessageFlagBits.__init__',
        'MessageFormat._extract_type', 'MessageFormat.__init__', '_add_parameter_default', '_add_message_info_multiple',
        '_read_file_header', '_check_packet_corruption', '_read_file_definitions', '_load_file', '__init__')],
    'C02': [U + f for f in ('_MessageHeader.initialize', '_MessageInfo.__init__', 'MessageLogging.__init__',
                            'MessageLoggingTagged.__init__', 'MessageDropout.__init__', '_MessageData.initialize')] + READ,
    'C03': ANNOUNCE + SAMPLE + [U + 'Data.__init__'] + READ,
    'C04': [U + '_MessageAddLogged._parse_format', U + '_MessageAddLogged.__init__'] + SAMPLE + READ,
    'C05': [U + '_MessageHeader.initialize', U + '_MessageData.initialize'] + READ,
    'C06': [U + '_MessageHeader.initialize', U + '_find_sync', U + '_check_packet_corruption', U + '_read_file_data'],
    'C07': [U + '_MessageHeader.initialize', U + '_MessageFlagBits.__init__', U + '_find_sync', U + '_read_file_definitions'] + READ,
    'C08': SAMPLE + READ,
    'C09': [U + f for f in (
        '_write_file_header', '_write_flags', '_make_info_message_data', '_make_parameter_data', '_write_format_messages',
        '_write_info_messages', '_write_info_multiple_message', '_write_initial_parameters', '_write_default_parameters',
        '_write_logged_message_subscriptions', '_make_data_items',
        '_make_logged_message_items', '_make_tagged_logged_message_items', '_make_dropout_items', '_make_changed_param_items',
        '_write_data_section', 'write_ulog')],
    'C11': [U + f for f in ('MessageFormat.__eq__', 'MessageLogging.__eq__', 'MessageLoggingTagged.__eq__',
                            'MessageDropout.__eq__', '_FieldData.__eq__', 'Data.__eq__', '__eq__')],
    'C15': [U + 'get_dataset'],
    'C21': [U + 'Data.list_value_changes'],
    'C22': [U + 'MessageLogging.log_level_str', U + 'MessageLoggingTagged.log_level_str', U + 'get_version_info',
            U + 'get_version_info_str'] + ['PX4ULog.' + f for f in ('get_mav_type', 'get_estimator', 'get_configured_rc_input_names')],
    'C23': ['PX4ULog._add_roll_pitch_yaw_to_message', 'PX4ULog.add_roll_pitch_yaw'],
}
PROOFS['C16'] = ['ulog2csv.' + f for f in ('read_string_data', 'convert_ulog2csv', 'main')]
PROOFS['C17'] = ['extract_message']
PROOFS['C18'] = ['params.get_defaults', 'params.main']
PROOFS['C19'] = ['gps_dump.main']
PROOFS['C20'] = [U + 'Data.list_value_changes'] + ['ulog2kml.' + f for f in (
    '_kml_default_colors', '_kml_add_camera_triggers', '_kml_add_position_data', 'convert_ulog2kml', 'main')]
PROOFS['C24'] = ['PX4Events.' + f for f in ('__init__', 'set_default_json_definitions_cb', '_get_default_json_definitions',
                                            '_get_event_parser', 'get_logged_events')] + ['messages.main']
PROOFS['C26'] = ['ULog.get_field_size', 'info.show_info', 'info.main']
D = 'DatabaseULog.'
PROOFS['C12'] = [D + f for f in ('get_db_handle', 'save', 'load', 'get_dataset', '__init__', '__eq__')]
PROOFS['C13'] = [D + f for f in ('get_db_handle', 'exists_in_db', 'primary_key_from_sha256sum', 'calc_sha256sum', '__init__',
                                 'primary_key', 'save', 'load', 'delete')]
PROOFS['C14'] = ['migrate_db.' + f for f in ('_read_db_schema_version', '_read_migration_file', 'migrate_db', 'main')]
PROOFS['C15'] += [D + f for f in ('get_dataset', 'load', 'write_ulog')]
PROOFS['C25'] = ['ulog2ros2bag.' + f for f in ('to_camel_case', 'calc_msgtype', 'rosbag_write_uses_seqnum', 'rosbag_topicmetadata_uses_id',
                                              'ros2ify_value', 'ros2_msg_from_ulg_topic', 'convert_ulog2ros2bag', 'main')]
L = 'lemma.'
PROOFS['C04'] = PROOFS['C04'] + [L + 'rejected sample']
PROOFS['C05'] = PROOFS['C05'] + [L + 'incomplete message', L + 'known message']
PROOFS['C07'] = PROOFS['C07'] + [L + 'incomplete message']
PROOFS['C08'] = PROOFS['C08'] + [L + 'filtered message']
PROOFS['C12'] = PROOFS['C12'] + [L + 'stored ' + f for f in ('head', 'records', 'values', 'tagged messages', 'defaults', 'format', 'lists', 'dataset', 'instances', 'beside another', 'beside a similar one', 'beside the same topic')]
PROOFS['C13'] = PROOFS['C13'] + [L + 'stored ' + f for f in ('beside another', 'beside a similar one', 'beside the same topic')]
PROOFS['C10'] = list(PROOFS['C09'])
PROOFS['C09'] = PROOFS['C09'] + ['lemma.' + f for f in (
    'header', 'flags', 'information', 'multiple information', 'parameter', 'default parameter', 'parameter change', 'text',
    'tagged text', 'dropout', 'announcement', 'sample', 'format')]
# what a property says about the state that the reading functions build: obligations about
# other locations belong to other properties
_F = {
    'C01': '_msg_info|_initial_parameters|_default_parameters|_message_formats|_flags|_appended_offsets|_file_version|'
           '_start_timestamp|_file_corrupt|_file_handle',
    'C02': '_dropouts|_logged_messages|_changed_parameters|_last_timestamp|_start_timestamp|_file_handle|subscriptions',
    'C03': '_data_list|_subscriptions|_message_formats|_file_handle',
    'C04': '_file_corrupt|_missing_message_ids|_filtered_message_ids|_last_timestamp|_data_list|_subscriptions|_file_handle',
    'C06': '_file_handle|_has_sync|_file_corrupt',
    'C07': '_file_handle|_flags|_appended_offsets|_has_sync',
    'C08': '_subscriptions|_filtered_message_ids|_data_list|_file_handle',
}
FOCUS = {}
for _p, _r in _F.items():
    for _n in ('_read_file_definitions', '_read_file_data', '_load_file', '__init__'):
        FOCUS[(_p, U + _n)] = _r
BOUNDED = ('Functions not named here are covered only by the bounded public-interface search, which also '
           'finds the failing input; it is not counted as proof.')
WHOLE = ' the loop over the messages of the data section, the order of the sections and the constructor. '
NOTES = {
    'C01': 'Proved for all inputs: header, message decoders, default bits and multi-part lists, plausibility, the loop over the '
           'definition section, loading and the constructor. ' + BOUNDED,
    'C02': 'Proved for all inputs: the decoders of text messages, dropouts and parameters, the last time,' + WHOLE + BOUNDED,
    'C03': 'Proved for all inputs: formats, expansion of nested formats and arrays, offsets, collection of the samples of an '
           'announcement,' + WHOLE + 'That numpy decodes a buffer by the record type is trusted. ' + BOUNDED,
    'C04': 'Proved for all inputs: admissible sizes, unknown and filtered ids, the flag, that a rejected sample does nothing else,' + WHOLE +
           BOUNDED,
    'C05': 'Proved for all inputs: what each complete or incomplete message does,' + WHOLE +
           'Lemmas: an incomplete message at the end does nothing, and what a message of known type does is independent of the rest of '
           'the file; that therefore cutting commutes with loading is by induction over the messages, not checked (and searched, '
           'bounded). ' + BOUNDED,
    'C06': 'Proved for all inputs: marker search, header plausibility, the loop over the messages of the data section. ' + BOUNDED,
    'C07': 'Proved for all inputs: flags and offsets, the use of the offsets by loading, stopping at and continuing from an offset, that a message across it '
           'does nothing,' +
           WHOLE + BOUNDED,
    'C08': 'Proved for all inputs: what a filter does to announcements and samples,' + WHOLE +
           'Lemma: one arbitrary message keeps the filtered and the unfiltered run related, for every id; that therefore filtering '
           'commutes with loading is by induction over the messages, not checked (and searched, bounded). ' + BOUNDED,
    'C09': 'Proved for all inputs: the contents of every kind of record written, and that one arbitrary record of each kind, written, '
           'is one message of which the reading functions make the same record (formats: of two fields; samples: of the time and one '
           'field). That the records of a whole file are read back in order is searched, bounded. ' + BOUNDED,
    'C10': 'Proved for all inputs: the contents of every kind of record written, their order and the file as a whole. ' + BOUNDED,
    'C11': 'Proved for all inputs: the comparisons of records, datasets and logs. ' + BOUNDED,
    'C12': 'Proved for all inputs (without append_json): every row that saving inserts into every table, with its columns; everything that '
           'loading takes from the rows of a log, and from which columns, in the order of the queries. Lemmas: a log saved and loaded '
           '(real bodies) gives the numbers, flags, offsets, dropouts, messages, changes, values and parameters it had, for lists of any '
           'length; one tag, kind of default, format and list of two parts of any length; a dataset of two fields, two instances of a '
           'topic; and that it does so beside another log with the same names. Databases by model (pv/sql.py). '
           'The column types, several tags or formats at once and append_json are searched, bounded. ' + BOUNDED,
    'C13': 'Proved for all inputs: the digest of all bytes of a file, the lookups, the refusals, what is deleted, that every row is '
           'inserted inside one transaction with the new key. Lemmas: a log loads as it was saved, whatever another log holds. '
           'Databases by model (pv/sql.py); the cascades of the schema are '
           'searched, bounded. ' + BOUNDED,
    'C14': 'Proved for all inputs: which files are read, what is refused, which scripts are run in which order on which connection, '
           'and that the version is set inside the transaction of its file. What sqlite does with a script, and the migration '
           'files themselves, are searched, bounded. ' + BOUNDED,
    'C15': 'Proved for all inputs: the lookup of a dataset in a log and in the database, caching, and the refusal to write; databases by '
           'model (pv/sql.py). ' + BOUNDED,
    'C16': 'Proved for all inputs: which files are opened, every string written to them, the values of the options and what is '
           'passed to the conversion; files, arrays and the argument parser by model (pv/tools.py, pv/nparr.py), the log that is '
           'loaded is an arbitrary one. ' + BOUNDED,
    'C17': 'Proved for all inputs: the list of mappings returned, for an arbitrary loaded log. ' + BOUNDED,
    'C18': 'Proved for all inputs: the selection of defaults and every text written to the output, for every combination of options '
           'and an arbitrary loaded log; files and the argument parser by model (pv/tools.py). ' + BOUNDED,
    'C19': 'Proved for all inputs: which files are opened and every byte written to them, for an arbitrary loaded log whose '
           'fields other than the time are single bytes. ' + BOUNDED,
    'C20': 'Proved for all inputs: everything made in the document and set in it, in order, for an arbitrary loaded log; the library '
           'that makes documents is foreign, arithmetic on positions uninterpreted. ' + BOUNDED,
    'C21': 'Proved for all inputs: the list of value changes. ' + BOUNDED,
    'C22': 'Proved for all inputs: level and version texts, vehicle type, estimator, radio mappings. ' + BOUNDED,
    'C23': 'Proved for all inputs: which datasets get which angle fields, from which fields, by which formulas (array operations '
           'uninterpreted). ' + BOUNDED,
    'C24': 'Proved for all inputs: which definitions are loaded into the parser, the list of events with all arguments handed to '
           'the parser, merging and printing; the parser of event definitions, json, lzma and the network are foreign (functions of '
           'what they are given), fields of the event topic other than time and id are single bytes. ' + BOUNDED,
    'C25': 'Proved for all inputs (without -v, which only prints): which datasets are converted under which topic and type, every call '
           'on the bag writer, every message made and every field and element set in it, in order, for an arbitrary loaded log, every '
           'set of message types and every version of the writer; ROS 2 is foreign, regular expressions are uninterpreted but for '
           'their text, elements of arrays have a kind and a plain value. ' + BOUNDED,
    'C26': 'Proved for all inputs: every text printed, for every combination of options and an arbitrary loaded log whose fields '
           'are elementary; division and rounding of floating-point numbers uninterpreted. ' + BOUNDED,
}
NOT_APPLICABLE = {}
# what is believed and not checked, per property; the library functions that a run met are listed in the evidence
CORE = [
    'pv/: the symbolic interpreter of Python (semantics of statements, expressions, int as mathematical integers as in Python, '
    'exceptions, dictionaries in insertion order), the comparison of final states, the induction over loops',
    'z3 (a refutation or proof by it is believed; unknown never counts as proved)',
    'pv/models.py, pv/methods.py: built-in functions, str/bytes/list/dict methods and struct, by their documentation; '
    'decoding UTF-8 is a partial function of the bytes that inverts encoding',
    'contracts/*.py state the property rightly (mutation-tested and read, not proved)',
    'termination and memory are outside: partial correctness',
]
_FILES = 'files by model: contents fixed while they are read, reads return what is there, writes append in order (pv/models.py)'
_NP = 'numpy by model (pv/nparr.py, pv/npdtype.py): frombuffer and record types are functions of their arguments, elementwise operations, ' \
      'selection, where and array_equal by their definition'
_FL = 'floating-point arithmetic and formatting are uninterpreted functions of their operands'
_TOOL = 'command line by model (pv/tools.py): argparse yields any values its declarations allow; the log that is loaded is an arbitrary ' \
        'ULog of the declared schema'
_SQL = 'sqlite3 by model (pv/sql.py): queries are functions of their meaning, parameters and database; an exception inside a transaction ' \
       'undoes it; constraints and cascades of the schema are not part of the model'
_RE = 're by model (pv/regex.py): matches other than of fixed texts are uninterpreted predicates of the text'
_TRUST = {
    'C01': [_FILES], 'C02': [_FILES], 'C03': [_FILES, _NP], 'C04': [_FILES, _NP], 'C05': [_FILES, _NP,
        'the step from one message to all messages of a cut file (induction over the specification)'],
    'C06': [_FILES], 'C07': [_FILES], 'C08': [_FILES, _NP,
        'the step from one message to all messages of a filtered load (induction over the specification)'],
    'C09': [_FILES, _NP, 'the step from one record to all records of a file (order of the records, induction over the sections)'],
    'C10': [_FILES, _NP], 'C11': [_NP], 'C12': [_SQL, _NP, 'sqlite3 gives back the rows inserted, in the order asked for (pv/sql.py, option memory)'], 'C13': [_SQL, _FILES, 'hashlib: a digest is a function of all bytes fed'],
    'C14': [_SQL, _FILES, _TOOL], 'C15': [_SQL, _NP], 'C16': [_TOOL, _FILES, _NP, _FL], 'C17': [_TOOL, _NP],
    'C18': [_TOOL, _FILES, _FL], 'C19': [_TOOL, _FILES, _NP],
    'C20': [_TOOL, _NP, _FL, 'simplekml is foreign: observed are the calls on it and what is set in it'],
    'C21': [_NP], 'C22': [], 'C23': [_NP, _FL],
    'C24': [_TOOL, _NP, 'libevents, json, lzma and urllib are foreign: functions of what they are given, or failing'],
    'C25': [_TOOL, _NP, _FL, _RE, 'ROS 2 (rclpy, rosbag2_py, rosidl_runtime_py) is foreign: observed are the calls on it and what is set'],
    'C26': [_TOOL, _NP, _FL, _RE],
}


def trusted(pid):
    return CORE + _TRUST[pid]
