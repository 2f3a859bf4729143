import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
core='pyulog/core.py'; db='pyulog/db.py'
p('C01','The definition section is decoded exactly',
 "Loading a log whose header is valid exposes exactly the file version and start time of the header and every information, multi-part information, initial-parameter, default-parameter, flag and format message of the definition section, each decoded with the type and name it declares; for a repeated name the last one wins, a continued multi-part entry extends the latest list of its name while a new one starts a list, and a default applies to every default kind whose bit is set. A message of unknown type and plausible size has no effect, a definition message that cannot be split into its parts sets the corruption flag without affecting the others, and an unknown incompatible flag or a wrong magic is refused with an exception.",
 ['inputs'],"every header, every sequence of definition messages with arbitrary names, types, values and sizes",
 "The tests compare one parse of four sample logs with another parse of the same code; they sample no wrong magic, no default bit above 1, no unknown message, no undecodable definition and never compare with the format itself.",
 [core],[('file header check and decoding','pyulog/core.py ULog._read_file_header'),('definition loop','pyulog/core.py ULog._read_file_definitions'),('key/type/value decoding','pyulog/core.py ULog._MessageInfo'),('flag bits','pyulog/core.py ULog._MessageFlagBits'),('format parsing','pyulog/core.py ULog.MessageFormat'),('default bits','pyulog/core.py ULog._add_parameter_default'),('multi-part lists','pyulog/core.py ULog._add_message_info_multiple')],
 ['ULog properties after construction (msg_info_dict, msg_info_multiple_dict, initial_parameters, get_default_parameters, message_formats, start_timestamp)'])
p('C02','Text messages, dropouts and parameter changes are complete and time-stamped',
 "Every plain or tagged text message, dropout, and parameter change in the data section of a log is reported exactly once, in file order (tagged text grouped by tag), with level, tag, time, text, duration, name and value decoded from the message. A dropout or parameter change carries the largest of the log's start time and the times of all valid samples stored before it, and the log's last time is that maximum over the whole log.",
 ['inputs','histories'],"every interleaving of data-section messages with arbitrary contents and arbitrary (also non-monotonic) sample times",
 "Tests only compare a log with its own rewritten copy for four samples; the time stamp attached to dropouts and parameter changes depends on the whole preceding message history.",
 [core],[('data section loop','pyulog/core.py ULog._read_file_data'),('text decoding','pyulog/core.py ULog.MessageLogging / MessageLoggingTagged'),('dropout decoding','pyulog/core.py ULog.MessageDropout')],
 ['ULog.logged_messages, logged_messages_tagged, dropouts, changed_parameters, last_timestamp'])
p('C03','Every stored sample is decoded exactly',
 "Each data message of an announced topic adds exactly one row, in file order, to the dataset of its announcement, with one column per elementary field of the topic's format: nested formats and arrays are expanded in declaration order with dotted and indexed names, padding at the end is left out, and each value is the little-endian decoding of the field's bytes at the field's offset. Datasets without samples are not listed, and the list is ordered by topic name and instance.",
 ['inputs','programs'],"every set of format definitions (any nesting, array sizes, field types and padding), every announcement and every sample content",
 "Formats are programs written in the log; the samples exercise a handful of formats, compare the parser with itself and contain no check of offsets, nesting or array expansion.",
 [core],[('format flattening','pyulog/core.py ULog._MessageAddLogged._parse_nested_type / _parse_format'),('row layout','pyulog/core.py ULog._MessageAddLogged.__init__'),('sample accumulation','pyulog/core.py ULog._MessageData.initialize'),('column extraction','pyulog/core.py ULog.Data.__init__')],
 ['ULog.data_list, ULog.Data.data, field_data, timestamp_idx'])
p('C04','Invalid samples are contained',
 "A data message whose size differs from what its topic's format allows (with or without padding at the end), or whose id was never announced, adds no row, does not change the log's last time, sets the corruption flag and leaves everything else exactly as if the message were absent; a message of the data section that cannot be decoded likewise only sets the flag. A sample of an announced topic that the caller filtered out is ignored without setting the flag, and a log without such messages is not flagged.",
 ['inputs','fault_sequences'],"every insertion of a data message with a wrong size or unknown id, and of undecodable messages, at every position of the data section",
 "The sample logs hold almost no corrupt messages and no test asserts the corruption flag or the effect of a corrupt message on its neighbours.",
 [core],[('size and id check','pyulog/core.py ULog._MessageData.initialize'),('flag handling and containment','pyulog/core.py ULog._read_file_data')],
 ['ULog.file_corruption, data_list, last_timestamp'])
p('C05','A log cut in its data section loads as its complete messages',
 "A log that is cut at any byte of its data section loads without an exception and yields exactly the contents of the log that ends with the last message that is complete before the cut.",
 ['crash_points','inputs'],"every log and every cut position in its data section",
 "Power loss cuts logs at arbitrary bytes; no test truncates a log.",
 [core],[('end of data handling','pyulog/core.py ULog._read_file_data')],['ULog properties after construction'])
p('C06','Recovery resumes right behind the next sync marker',
 "After a message of unknown type with an implausible header (type 0, size 0 or size above 10000) reading resumes right behind the first sync marker found from the following byte on, and if there is none from the very next byte; an unknown message of plausible size is skipped unless its payload contains a sync marker, in which case reading resumes right behind the first one there. The marker is found wherever it lies in the file, and skipping to one or meeting an implausible header sets the corruption flag.",
 ['inputs','fault_sequences'],"every position, length and content of garbage, every alignment of the marker relative to the search chunks, markers at the end of the file, logs without markers",
 "The scan works in overlapping chunks, so the boundary behaviour depends on marker position modulo the chunk size; no test corrupts a log.",
 [core],[('marker search','pyulog/core.py ULog._find_sync'),('header plausibility','pyulog/core.py ULog._check_packet_corruption'),('recovery dispatch','pyulog/core.py ULog._read_file_data')],
 ['ULog.data_list, logged_messages, file_corruption'])
p('C07','Appended sections are read once, up to and from their offsets',
 "For a log with data appended, the sections before, between and after the recorded offsets are each parsed: a message that would extend past the next offset is not used, parsing continues exactly at the offset, and no message is lost or used twice, also when corruption was skipped on the way. Offsets are ignored unless the flag for appended data is set, and zero offsets at the end of the list are not used.",
 ['inputs','histories'],"every number of appended sections (0 to 3), every offset and every content of the sections, including corrupted ones",
 "One sample with appended sections is parsed and compared with itself.",
 [core],[('section loop','pyulog/core.py ULog._load_file'),('read limit','pyulog/core.py ULog._read_file_data'),('offset list','pyulog/core.py ULog._MessageFlagBits')],
 ['ULog.logged_messages, data_list, has_data_appended'])
p('C08','A topic filter selects datasets and changes no sample',
 "Loading with a list of topic names yields exactly the datasets of the unfiltered load whose topic name is in the list, with identical fields, samples and order; definitions, text messages, and the order and contents of parameter changes and dropouts (apart from the time attached to the latter two and the log's last time) are the same as without filter.",
 ['inputs','configurations'],"every log and every filter list",
 "Only one extract test uses a filter, on one topic of one log, without comparing to the unfiltered load.",
 [core],[('subscription filter','pyulog/core.py ULog._read_file_data'),('filtered ids','pyulog/core.py ULog._MessageData.initialize')],
 ['ULog(file, message_name_filter_list).data_list and the other ULog properties'])
p('C09','Writing and loading again preserves the log',
 "For every log whose records are stored in time order, loading the file produced by writing it out yields the same header time and version, information, multi-part information, parameters, defaults, formats, datasets, text messages, dropouts and parameter changes as the original; only sync markers, the appended-data marking and padding bytes are dropped. Every value type, array type, non-ASCII character and default kind survives.",
 ['inputs'],"every loaded log (all value types, names, array types, default bits, any number of records)",
 "Four sample logs are rewritten; they contain no array-typed information except char and uint8_t, no non-ASCII characters, no default bit above 1.",
 [core],[('writer','pyulog/core.py ULog.write_ulog and _write_* / _make_* methods'),('reader','pyulog/core.py ULog._load_file')],
 ['ULog(write_ulog(x)) == x'])
p('C10','A written log is well-formed and chronological',
 "The file written for any log starts with a valid header and continues with messages whose size field equals the length of their payload and whose type is the one belonging to the record; definitions come first, then one announcement per dataset, then all samples, text messages, dropouts and parameter changes ordered by time, each record exactly once and records of the same kind and time in their original order. Writing does not change the log in memory, and the file is not marked as having appended data.",
 ['inputs'],"every log in memory",
 "The tests never look at the written bytes.",
 [core],[('message headers','pyulog/core.py ULog._write_* and _make_*_items'),('chronological merge','pyulog/core.py ULog._write_data_section'),('flags','pyulog/core.py ULog._write_flags')],
 ['bytes produced by ULog.write_ulog'])
p('C11','Log comparison is exact',
 "Two loaded logs compare equal when and only when all their header data, definitions, parameters, formats, texts, dropouts and datasets (ids, field lists and every sample, with not-a-number equal to itself) are equal; comparing is symmetric between parsed logs, compares a text message, dropout, format, field or dataset by all its contents, and comparing with an unrelated object is never equal.",
 ['inputs'],"every pair of logs, messages and datasets, differing in any single component",
 "One test changes one sample of one log.",
 [core,db],[('comparison methods','pyulog/core.py ULog.__eq__, Data.__eq__, MessageLogging.__eq__, MessageLoggingTagged.__eq__, MessageDropout.__eq__, MessageFormat.__eq__, _FieldData.__eq__'),('database variant','pyulog/db.py DatabaseULog.__eq__')],
 ['== between ULog, DatabaseULog and their parts'])
p('C12','Saving to and loading from the database preserves the log',
 "For every log with times below 2^63 and formats with at least one field, saving it into a migrated database and loading it by its key without laziness yields an equal log: same header data, flags, offsets, datasets (fields, types and every sample), dropouts, text messages, formats, information, parameters, defaults and changes, in the same order, independent of what else the database contains.",
 ['inputs','histories'],"every log content and every prior database content",
 "Four sample logs, each in an otherwise empty database.",
 [db,'pyulog/sql'],[('row writing','pyulog/db.py DatabaseULog.save'),('row reading','pyulog/db.py DatabaseULog.load / get_dataset'),('column types','pyulog/sql/pyulog.*.sql')],
 ['DatabaseULog(db, primary_key=..., lazy=False) == ULog(file)'])
p('C13','Database entries are unique, isolated and removable',
 "A log is identified by the SHA-256 of all bytes of its file: looking up the digest gives the key of the log saved with it or nothing, saving a file already present or an object already saved is refused without changing the database, and a failed save leaves no rows. Deleting removes every row of that log and no row of any other log, and needs a saved log; loading an unknown key, giving both or neither of key and file, or a database older than the code is refused.",
 ['histories','inputs'],"every sequence of save, lookup, load and delete operations on any set of logs",
 "The tests save and delete two fixed logs and compare file sizes.",
 [db,'pyulog/sql'],[('digest','pyulog/db.py DatabaseULog.calc_sha256sum'),('lookup','pyulog/db.py primary_key_from_sha256sum, exists_in_db'),('guards','pyulog/db.py __init__, save, delete'),('cascades','pyulog/sql/pyulog.2.sql, get_db_handle')],
 ['database rows and exceptions of DatabaseULog operations'])
p('C14','Schema migration is ordered, atomic and preserving',
 "Migrating applies exactly the migration files numbered from the database's version plus one up to the code's version, in order, each completely or not at all together with the version number, so that after any failure the version tells exactly which files took effect; logs already stored survive. Without force an existing database of version 0 is refused, a file that does not open and close its own transaction is refused before any of it runs, a dry run changes nothing, and a database at or above the code's version is left alone.",
 ['histories','fault_sequences','configurations'],"every starting version, every set of migration files, missing or failing files at every step, every option combination",
 "A handful of two-file scenarios on empty tables.",
 ['pyulog/migrate_db.py','pyulog/sql'],[('version check','pyulog/migrate_db.py _read_db_schema_version'),('file check','pyulog/migrate_db.py _read_migration_file'),('migration loop','pyulog/migrate_db.py migrate_db')],
 ['PRAGMA user_version, schema and rows after migrate_db'])
p('C15','Dataset access by name and instance is exact, lazy or not',
 "Asking a log for a topic and instance returns the dataset with exactly that name and instance (the first one, instance 0 by default) and raises a lookup error when there is none. For a log loaded lazily from the database the dataset then returned equals the one of the eager load, a cached dataset is returned again as the same object, an uncached request reads anew without replacing the cached one, and a lazily loaded log refuses to be written.",
 ['inputs','histories'],"every set of datasets and every sequence of lazy, cached and uncached requests",
 "Tests walk one small log in one fixed request order.",
 [core,db],[('lookup','pyulog/core.py ULog.get_dataset'),('database lookup and cache','pyulog/db.py DatabaseULog.get_dataset, write_ulog')],
 ['get_dataset results and identity'])
p('C16','CSV export contains exactly the requested samples',
 "For every dataset of the (optionally name-filtered) log one CSV file is written, named after the log, the topic with slashes replaced and the instance, whose header lists time first and then the fields in log order (padding left out, each char array as one text column) and whose rows are exactly the samples from the first whose time reaches the start limit up to but excluding the first whose time reaches the end limit, in order. A limit that is not given or lies behind the last sample does not cut the end and never raises.",
 ['inputs','configurations'],"every log, filter, delimiter and pair of time limits",
 "The only CSV test runs one conversion, ignores the output and cannot be imported here.",
 ['pyulog/ulog2csv.py'],[('column list','pyulog/ulog2csv.py convert_ulog2csv.get_fields'),('text columns','pyulog/ulog2csv.py read_string_data'),('row loop','pyulog/ulog2csv.py convert_ulog2csv')],
 ['files written by convert_ulog2csv'])
p('C17','Message extraction returns exactly the requested rows',
 "Extracting a topic returns one mapping per sample of its first instance, in order, from the first sample whose time reaches the start limit up to but excluding the first whose time reaches the end limit, each with the time first and then every field in log order with the sample's value; an absent topic or a non-text topic name is refused. Limits not given or behind the last sample never raise.",
 ['inputs','configurations'],"every log, topic and pair of time limits",
 "One test extracts one topic and looks at its length.",
 ['pyulog/extract_message.py'],[('row selection','pyulog/extract_message.py extract_message')],['return value of extract_message'])
p('C18','Parameter export is exact',
 "The parameter tool prints, sorted by name, exactly the initial parameters (or the selected defaults) of the log, once each: in CSV the name, the initial value and, unless only initial values are asked for, every later value of that parameter in order (with a second line of times when asked for); in Octave a scalar or a matrix of those values with the right column count; in the ground-control format the name, value and type code 9 for floating point and 6 for integers. Defaults are refused when the log has none or the kind is unknown.",
 ['inputs','configurations'],"every set of parameters and changes and every option combination",
 "No test checks the output (the only one runs without assertion and cannot be imported here).",
 ['pyulog/params.py'],[('defaults','pyulog/params.py get_defaults'),('formats','pyulog/params.py main')],['output of ulog_params'])
p('C19','The GPS dump splits the byte stream by direction',
 "For a log with GPS communication data the two output files receive, in sample order, exactly the first n data bytes of every sample of the requested instance, where n is the length without its top bit: samples with the top bit set go to the to-device file, the others to the from-device file.",
 ['inputs'],"every sequence of dump samples, lengths 0 to the array size, both directions, all instances",
 "The only test is skipped and no sample log contains such data.",
 ['pyulog/extract_gps_dump.py'],[('split loop','pyulog/extract_gps_dump.py main')],['files written by ulog_extract_gps_dump'])
p('C20','The KML track is a faithful, thinned copy of the positions',
 "The KML conversion emits, in order, the positions of the first instance of the topic that have a fix (where the topic tells), in degrees and meters plus the altitude offset, leaving out a position only when it is not more than the minimum interval after the last one emitted (the start of time counting as one emitted); a new line segment named after the flight mode starts, repeating the position, at the first emitted position at or after each change of flight mode. Every camera trigger sample becomes one named point at its position.",
 ['inputs','configurations'],"every sequence of positions, fixes, times and flight mode changes",
 "No test imports the converter.",
 ['pyulog/ulog2kml.py'],[('track','pyulog/ulog2kml.py _kml_add_position_data'),('triggers','pyulog/ulog2kml.py _kml_add_camera_triggers'),('mode changes','pyulog/core.py ULog.Data.list_value_changes')],
 ['KML document written by convert_ulog2kml'])
p('C21','The list of value changes is exact',
 "The list of value changes of a field contains, in order, the first sample with non-zero time and every later sample with non-zero time whose value differs from that of the preceding sample with non-zero time, each with its own time and value, and nothing else.",
 ['inputs'],"every sequence of times and values, including empty, all-zero-time and constant ones",
 "No test calls it.",
 [core],[('change detection','pyulog/core.py ULog.Data.list_value_changes')],['return value of list_value_changes'])
p('C22','Version, level, vehicle and RC lookups follow their tables',
 "The version information is the four bytes of the stored number, most significant first, or nothing when absent; its text is 'vMAJOR.MINOR.PATCH' with ' (alpha)' for types from 64, ' (beta)' from 128, ' (RC)' from 192 and no suffix for 255, and nothing below 64. Level texts follow the codes '0' to '7', the vehicle type and estimator texts follow the stored parameters with their documented fallbacks (fixed wing always EKF2, EKF2 by default), and the RC inputs of a channel are exactly the RC mappings equal to the channel number plus one, or nothing.",
 ['inputs'],"every 32-bit version number, level code, parameter value and parameter set",
 "No test calls any of them.",
 [core,'pyulog/px4.py'],[('version','pyulog/core.py get_version_info, get_version_info_str'),('levels','pyulog/core.py log_level_str'),('vehicle','pyulog/px4.py get_mav_type, get_estimator, get_configured_rc_input_names')],
 ['return values'])
p('C23','Attitude angles are derived from the right quaternion of every instance',
 "Adding roll, pitch and yaw adds to every instance of each of the attitude topics that are present exactly the three series atan2(2(q0q1+q2q3), 1-2(q1^2+q2^2)), asin(2(q0q2-q3q1)) and atan2(2(q0q3+q1q2), 1-2(q2^2+q3^2)) of its own quaternion, with the setpoint topic using and producing the names with the '_d' suffix, and changes nothing else; topics that are absent are ignored.",
 ['inputs','configurations'],"every set of attitude topics and instances and every quaternion series",
 "The tests only check that three keys exist for one topic.",
 ['pyulog/px4.py'],[('angles','pyulog/px4.py add_roll_pitch_yaw, _add_roll_pitch_yaw_to_message')],['Data.data of attitude topics'])
p('C24','Events and text messages are merged completely and in time order',
 "Extracting events yields, in log order, one entry per event whose external level is below 8, with its time, level text and either the decoded message (default group only) or a placeholder naming the unknown id, decoding from all argument bytes in order; definitions stored in the log take precedence over the default ones when their hash is alphanumeric and at most 64 characters. The message tool prints all text messages, for a PX4 log merged with the events in time order and without the texts that end with a tab, each as hours:minutes:seconds, level and text.",
 ['inputs','configurations'],"every event sequence, argument list, text list and definition source",
 "The test modules cannot be imported without the missing event library, so nothing exercises this here.",
 ['pyulog/px4_events.py','pyulog/messages.py'],[('event extraction','pyulog/px4_events.py get_logged_events, _get_event_parser'),('merge and print','pyulog/messages.py main')],
 ['return value of get_logged_events, output of ulog_messages'])
p('C25','The ROS 2 bag holds one faithful message per sample',
 "For every dataset whose message type exists, is not composed and has all its fields, the bag gets one topic, named after the topic (with the instance appended unless instance 0 is the only one), and exactly one message per sample, in order, at the sample's time in nanoseconds, with every field and array element set to the sample's value (int8 fields as booleans where the type says so); all other datasets are skipped as a whole.",
 ['inputs','configurations'],"every log, filter and set of available message types",
 "ROS 2 is not installed and no test covers the converter.",
 ['pyulog/ulog2ros2bag.py'],[('conversion','pyulog/ulog2ros2bag.py convert_ulog2ros2bag, ros2_msg_from_ulg_topic, ros2ify_value'),('type lookup','pyulog/ulog2ros2bag.py calc_msgtype, to_camel_case')],
 ['calls on the bag writer'])
p('C26','The information report states the log\'s figures',
 "The report gives the start time and the duration in hours:minutes:seconds, the count, total, maximum and mean of all dropouts (or that there are none), a warning exactly when the log is flagged corrupt, every information message sorted by name (performance counters only when verbose), each multi-part name with its number of lists or its contents, and for every dataset its name, instance, size of a sample in bytes, number of samples and their product.",
 ['inputs','configurations'],"every log and both verbosity settings",
 "The test module cannot be imported here, and compares four fixed outputs.",
 ['pyulog/info.py'],[('report','pyulog/info.py show_info, main')],['output of ulog_info'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
