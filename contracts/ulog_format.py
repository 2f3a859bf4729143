"""Executable specifications of the ULog file format and of the log contents.

These functions state, independently of pyulog's code, what every function
under contract has to do.  They are ordinary Python: the verifier interprets
them symbolically, and tests/self-checks run them natively.
"""
import struct
import numpy as np
from pyulog.core import ULog

MAGIC = b'\x55\x4c\x6f\x67\x01\x12\x35'
SYNC = b'\x2F\x73\x13\x20\x25\x0C\xBB\x12'

# elementary types: struct code, size in bytes
TYPE_CODE = {'int8_t': 'b', 'uint8_t': 'B', 'int16_t': 'h', 'uint16_t': 'H',
             'int32_t': 'i', 'uint32_t': 'I', 'int64_t': 'q', 'uint64_t': 'Q',
             'float': 'f', 'double': 'd', 'bool': '?', 'char': 'c'}
TYPE_SIZE = {'int8_t': 1, 'uint8_t': 1, 'int16_t': 2, 'uint16_t': 2,
             'int32_t': 4, 'uint32_t': 4, 'int64_t': 8, 'uint64_t': 8,
             'float': 4, 'double': 8, 'bool': 1, 'char': 1}
TYPE_NUMPY = {'int8_t': np.int8, 'uint8_t': np.uint8, 'int16_t': np.int16, 'uint16_t': np.uint16,
              'int32_t': np.int32, 'uint32_t': np.uint32, 'int64_t': np.int64, 'uint64_t': np.uint64,
              'float': np.float32, 'double': np.float64, 'bool': np.int8, 'char': np.int8}


# ------------------------------------------------------------------ decoding
def u8(data, at):
    return struct.unpack('<B', data[at:at + 1])[0]


def u16(data, at):
    return struct.unpack('<H', data[at:at + 2])[0]


def u64(data, at):
    return struct.unpack('<Q', data[at:at + 8])[0]


def text(data):
    """decoded text; invalid characters are dropped unless strict decoding is on"""
    if ULog._disable_str_exceptions:
        return str(data, 'utf-8', 'ignore')
    return str(data, 'utf-8', 'strict')


def header_initialize(self, data):
    size_and_type = struct.unpack('<HB', data)
    self.msg_size = size_and_type[0]
    self.msg_type = size_and_type[1]


def info_init(self, data, header, is_info_multiple=False):
    """[continued: u8] key length: u8, key: '<type> <name>', value"""
    start = 0
    if is_info_multiple:
        self.is_continued = u8(data, 0)
        start = 1
    key_end = start + 1 + u8(data, start)
    parts = text(data[start + 1:key_end]).split(' ')
    self.type = parts[0]
    self.key = parts[1]
    raw = data[key_end:]
    if self.type.startswith('char['):
        self.value = text(raw)
    elif self.type in TYPE_CODE:
        self.value = struct.unpack('<' + TYPE_CODE[self.type], raw)[0]
    else:
        self.value = raw


def parameter_default_init(self, data, header):
    """default kinds: u8 bit set, then an information record"""
    self.default_types = u8(data, 0)
    record = ULog._MessageInfo(data[1:], header)
    self.type = record.type
    self.key = record.key
    self.value = record.value


def flag_bits_init(self, data, header):
    """8 compatible flag bytes, 8 incompatible flag bytes, 3 offsets (u64)"""
    compat = []
    incompat = []
    compat.extend(struct.unpack('<8B', data[0:8]))
    incompat.extend(struct.unpack('<8B', data[8:16]))
    o1, o2, o3 = struct.unpack('<3Q', data[16:40])
    offsets = [o1, o2, o3]
    if o3 == 0:
        offsets = [o1, o2]
        if o2 == 0:
            offsets = [o1]
            if o1 == 0:
                offsets = []
    self.compat_flags = compat
    self.incompat_flags = incompat
    self.appended_offsets = offsets


def extract_type(field_str):
    """'<type>[<n>] <name>' -> (type, n, name); n is 0 when there is no array"""
    parts = field_str.split(' ')
    type_text = parts[0]
    name = parts[1]
    open_at = type_text.find('[')
    if open_at < 0:
        return type_text, 0, name
    return type_text[:open_at], int(type_text[open_at + 1:type_text.find(']')]), name


def format_init(self, data, header):
    """'<name>:<field>;<field>;...'"""
    parts = text(data).split(':')
    self.name = parts[0]
    self.fields = []
    for field in parts[1].split(';'):
        if field != '':
            self.fields.append(extract_type(field))


def logging_init(self, data, header):
    """level: u8, time: u64, text"""
    self.log_level = u8(data, 0)
    self.timestamp = u64(data, 1)
    self.message = text(data[9:])


def logging_tagged_init(self, data, header):
    """level: u8, tag: u16, time: u64, text"""
    self.log_level = u8(data, 0)
    self.tag = u16(data, 1)
    self.timestamp = u64(data, 3)
    self.message = text(data[11:])


def dropout_init(self, data, header, timestamp):
    self.duration = struct.unpack('<H', data)[0]
    self.timestamp = timestamp


def level_text(self):
    names = ('EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG')
    i = self.log_level - ord('0')
    if i < 0 or i > 7:
        return 'UNKNOWN'
    return names[i]


# ------------------------------------------------------------------ log contents
def add_parameter_default(self, msg_param):
    """the value is a default of every kind whose bit is set"""
    for kind in range(8):
        if (msg_param.default_types >> kind) & 1:
            if kind not in self._default_parameters:
                self._default_parameters[kind] = {}
            self._default_parameters[kind][msg_param.key] = msg_param.value


def add_message_info_multiple(self, msg_info):
    """a continued entry extends the last list of its name, any other starts a list"""
    if msg_info.key not in self._msg_info_multiple_dict:
        self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]
        self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type
    elif msg_info.is_continued:
        self._msg_info_multiple_dict[msg_info.key][-1].append(msg_info.value)
    else:
        self._msg_info_multiple_dict[msg_info.key].append([msg_info.value])


def read_file_header(self):
    header = self._file_handle.read(16)
    if len(header) != 16 or header[0:7] != MAGIC:
        raise TypeError('not a ULog file')
    self._file_version = header[7]
    self._start_timestamp = u64(header, 8)


def check_packet_corruption(self, header):
    """an unknown message is implausible when its type or size is 0 or its size is
    above 10000: then the file is corrupt"""
    implausible = header.msg_type == 0 or header.msg_size == 0 or header.msg_size > 10000
    if implausible:
        self._file_corrupt = True
    return implausible


def find_sync(self, last_n_bytes=-1):
    """look for the first marker in the last n bytes, or from here to the end of the
    file; on success continue right behind it and flag the corruption"""
    file = self._file_handle
    here = file.tell()
    if last_n_bytes == -1:
        start = here
        block = file.read()
    else:
        start = here - last_n_bytes
        file.seek(start)
        block = file.read(last_n_bytes)
    found_at = block.find(SYNC)
    if found_at < 0:
        file.seek(here)
        if last_n_bytes == -1:
            self._has_sync = False
        return False
    file.seek(start + found_at + len(SYNC))
    self._file_corrupt = True
    return True


def find_sync_requires(self, last_n_bytes=-1):
    """the bytes to look at have been read before"""
    return last_n_bytes == -1 or (last_n_bytes >= 0 and self._file_handle.tell() >= last_n_bytes)


# ------------------------------------------------------------------ lookups
def version_info(self, key_name='ver_sw_release'):
    """the four bytes, most significant first"""
    if key_name not in self._msg_info_dict:
        return None
    number = self._msg_info_dict[key_name]
    return (number // 16777216 % 256, number // 65536 % 256, number // 256 % 256, number % 256)


def version_text(self, key_name='ver_sw_release'):
    version = version_info(self, key_name)
    if version is None or version[3] < 64:
        return None
    kind = ''
    if version[3] < 128:
        kind = ' (alpha)'
    elif version[3] < 192:
        kind = ' (beta)'
    elif version[3] != 255:
        kind = ' (RC)'
    return 'v' + str(version[0]) + '.' + str(version[1]) + '.' + str(version[2]) + kind


# ------------------------------------------------------------------ comparison
def format_eq(self, other):
    if not isinstance(other, ULog.MessageFormat):
        return NotImplemented
    return self.name == other.name and self.fields == other.fields


def logging_eq(self, other):
    if not isinstance(other, ULog.MessageLogging):
        return NotImplemented
    return (self.message == other.message and self.timestamp == other.timestamp
            and self.log_level == other.log_level)


def tagged_eq(self, other):
    if not isinstance(other, ULog.MessageLoggingTagged):
        return NotImplemented
    return (self.message == other.message and self.timestamp == other.timestamp
            and self.log_level == other.log_level and self.tag == other.tag)


def dropout_eq(self, other):
    if not isinstance(other, ULog.MessageDropout):
        return NotImplemented
    return self.timestamp == other.timestamp and self.duration == other.duration


def field_eq(self, other):
    if not isinstance(other, ULog._FieldData):
        return NotImplemented
    return self.type_str == other.type_str and self.field_name == other.field_name


# ------------------------------------------------------------------ writing
def message(kind, payload):
    """size: u16, type: one character, payload"""
    return struct.pack('<HB', len(payload), ord(kind)) + payload


def write_file_header(self, file):
    file.write(MAGIC + struct.pack('<B', self._file_version) + struct.pack('<Q', self._start_timestamp))


def write_flags(self, file):
    """not marked as having appended data"""
    payload = struct.pack('<8B', *self._compat_flags)
    payload = payload + struct.pack('<B', self._incompat_flags[0] & 254)
    for i in range(1, 8):
        payload = payload + struct.pack('<B', self._incompat_flags[i])
    file.write(message('B', payload + struct.pack('<3Q', 0, 0, 0)))


def info_data(self, key, value, value_type, continued=None):
    declared = bytes(key, 'utf-8')
    payload = bytearray()
    if continued is not None:
        payload.extend(struct.pack('<B', continued))
    payload.extend(struct.pack('<B', len(declared)) + declared)
    if value_type.startswith('char['):
        payload.extend(bytes(value, 'utf-8'))
    elif value_type in TYPE_CODE:
        payload.extend(struct.pack('<' + TYPE_CODE[value_type], value))
    else:
        payload.extend(value)
    return payload


def parameter_data(self, name, value):
    if isinstance(value, int):
        return info_data(self, 'int32_t ' + name, value, 'int32_t')
    if isinstance(value, float):
        return info_data(self, 'float ' + name, value, 'float')
    raise TypeError('neither integer nor floating point')


def write_initial_parameters(self, file):
    for name, value in self._initial_parameters.items():
        file.write(message('P', parameter_data(self, name, value)))


def format_payload(message_format):
    payload = bytes(message_format.name + ':', 'utf-8')
    for kind, size, name in message_format.fields:
        if size > 0:
            payload = payload + bytes(kind + '[' + str(size) + '] ' + name + ';', 'utf-8')
        else:
            payload = payload + bytes(kind + ' ' + name + ';', 'utf-8')
    return payload


def write_format_messages(self, file):
    for message_format in self._message_formats.values():
        file.write(message('F', format_payload(message_format)))


def text_items(self):
    """(time, message) of every text message"""
    items = []
    for m in self._logged_messages:
        items.append((m.timestamp, message('L', struct.pack('<B', m.log_level) + struct.pack('<Q', m.timestamp)
                                           + bytes(m.message, 'utf-8'))))
    return items


def tagged_items(self):
    items = []
    for messages in self._logged_messages_tagged.values():
        for m in messages:
            items.append((m.timestamp, message('C', struct.pack('<BHQ', m.log_level, m.tag, m.timestamp)
                                               + bytes(m.message, 'utf-8'))))
    return items


def dropout_items(self):
    items = []
    for d in self._dropouts:
        items.append((d.timestamp, message('O', struct.pack('<H', d.duration))))
    return items


def change_items(self):
    items = []
    for time, name, value in self._changed_parameters:
        items.append((time, message('P', parameter_data(self, name, value))))
    return items


def write_info_messages(self, file):
    for name, value in self._msg_info_dict.items():
        kind = self._msg_info_dict_types[name]
        file.write(message('I', info_data(self, kind + ' ' + name, value, kind)))


def write_info_multiple_message(self, file):
    """the first value of a list starts it, the others continue it"""
    for name, lists in self._msg_info_multiple_dict.items():
        kind = self._msg_info_multiple_dict_types[name]
        for values in lists:
            continued = False
            for value in values:
                file.write(message('M', info_data(self, kind + ' ' + name, value, kind, continued)))
                continued = True


def write_default_parameters(self, file):
    for kind, defaults in self._default_parameters.items():
        for name, value in defaults.items():
            file.write(message('Q', struct.pack('<B', 1 << kind) + parameter_data(self, name, value)))


# ------------------------------------------------------------------ datasets
def get_dataset(self, name, multi_instance=0):
    """the first dataset of that name and instance"""
    matching = [d for d in self._data_list if d.multi_id == multi_instance and d.name == name]
    return matching[0]


def list_value_changes(self, field_name):
    """among the samples with non-zero time: the first, and every one whose value
    differs from the one before"""
    times = self.data['timestamp']
    values = self.data[field_name]
    kept = np.flatnonzero(times != 0)
    if len(kept) == 0:
        return []
    changed = np.flatnonzero(values[kept[1:]] != values[kept[:-1]])
    result = [(times[kept[0]], values[kept[0]])]
    result.extend(zip(times[kept[changed + 1]], values[kept[changed + 1]]))
    return result


# ------------------------------------------------------------------ announcements and samples
def nested_fields(self, prefix_str, type_name, message_formats):
    """the elementary fields below a format, in declaration order"""
    for kind, count, name in message_formats[type_name].fields:
        path = prefix_str + name
        if kind not in TYPE_SIZE:
            if count > 0:
                for i in range(count):
                    self._parse_nested_type(path + '[' + str(i) + '].', kind, message_formats)
            else:
                self._parse_nested_type(path + '.', kind, message_formats)
        else:
            if count > 0:
                for i in range(count):
                    self.field_data.append(ULog._FieldData(path + '[' + str(i) + ']', kind))
            else:
                self.field_data.append(ULog._FieldData(path, kind))
            if path == 'timestamp':
                self.timestamp_idx = len(self.field_data) - 1


def parse_format(self, message_formats):
    """elementary fields without the padding at the end; with it the largest size"""
    self._parse_nested_type('', self.message_name, message_formats)
    for field in self.field_data:
        self.max_data_size = self.max_data_size + TYPE_SIZE[field.type_str]
    while len(self.field_data) > 0 and self.field_data[-1].field_name.startswith('_padding'):
        self.field_data.pop()


def add_logged_init(self, data, header, message_formats):
    """instance: u8, id: u16, topic name; its samples are stored without padding"""
    self.multi_id = u8(data, 0)
    self.msg_id = u16(data, 1)
    self.message_name = text(data[3:])
    self.timestamp_idx = -1
    self.field_data = []
    self.max_data_size = 0
    self._parse_format(message_formats)
    self.timestamp_offset = 0
    for field in self.field_data:
        if field.field_name == 'timestamp':
            break
        self.timestamp_offset = self.timestamp_offset + TYPE_SIZE[field.type_str]
    self.buffer = bytearray()
    columns = []
    for field in self.field_data:
        columns.append((field.field_name, TYPE_NUMPY[field.type_str]))
    self.dtype = np.dtype(columns).newbyteorder('<')


def data_initialize(self, data, header, subscriptions, ulog_object):
    """id: u16, sample; a sample of a possible size is kept without its padding.
    True when the message is corrupt"""
    msg_id = u16(data, 0)
    self_time = 0
    corrupt = False
    if msg_id in subscriptions:
        topic = subscriptions[msg_id]
        sample = data[2:]
        size = topic.dtype.itemsize
        corrupt = len(sample) < size or len(sample) > topic.max_data_size
        if not corrupt:
            topic.buffer.extend(sample[:size])
            self_time = u64(sample[:size], topic.timestamp_offset)
    elif msg_id not in ulog_object._filtered_message_ids:
        ulog_object._missing_message_ids.add(msg_id)
        corrupt = True
    self.timestamp = self_time
    return corrupt


def data_init(self, message_add_logged_obj):
    """one array per column of the topic's samples"""
    topic = message_add_logged_obj
    self.multi_id = topic.multi_id
    self.msg_id = topic.msg_id
    self.name = topic.message_name
    self.field_data = topic.field_data
    self.timestamp_idx = topic.timestamp_idx
    samples = np.frombuffer(topic.buffer, topic.dtype)
    self.data = {}
    for column in topic.dtype.names:
        self.data[column] = samples[column]


# ------------------------------------------------------------------ reading a file
def add_information(self, record):
    self._msg_info_dict[record.key] = record.value
    self._msg_info_dict_types[record.key] = record.type


def set_flags(self, flags):
    """flags nobody knows make the log unreadable"""
    self._compat_flags = flags.compat_flags
    self._incompat_flags = flags.incompat_flags
    self._appended_offsets = flags.appended_offsets
    if self._incompat_flags[0] > 1:
        raise ValueError('unknown flag')
    for i in range(1, 8):
        if self._incompat_flags[i] != 0:
            raise NotImplementedError('unknown flag')


def definition(self, kind, data, header):
    """one message of the definition section"""
    if kind == 'I':
        add_information(self, ULog._MessageInfo(data, header))
    elif kind == 'M':
        self._add_message_info_multiple(ULog._MessageInfo(data, header, True))
    elif kind == 'F':
        record = ULog.MessageFormat(data, header)
        self._message_formats[record.name] = record
    elif kind == 'P':
        record = ULog._MessageInfo(data, header)
        self._initial_parameters[record.key] = record.value
    elif kind == 'Q':
        self._add_parameter_default(ULog._MessageParameterDefault(data, header))
    elif kind == 'B':
        set_flags(self, ULog._MessageFlagBits(data, header))
    elif self._check_packet_corruption(header):
        self._file_handle.seek(-2 - header.msg_size, 1)


def read_definitions(self):
    """all messages up to the first announcement or text, or the end of the file"""
    file = self._file_handle
    header = ULog._MessageHeader()
    while True:
        head = file.read(3)
        if len(head) < 3:
            break
        header.initialize(head)
        data = file.read(header.msg_size)
        kind = chr(header.msg_type)
        if kind in ('A', 'L', 'C'):
            file.seek(-3 - len(data), 1)
            break
        try:
            definition(self, kind, data, header)
        except IndexError:
            self._file_corrupt = True


def data_message(self, kind, data, header, sample, message_name_filter_list):
    """one message of the data section"""
    if kind == 'D':
        if sample.initialize(data, header, self._subscriptions, self):
            self._file_corrupt = True
        elif sample.timestamp > self._last_timestamp:
            self._last_timestamp = sample.timestamp
    elif kind == 'A':
        topic = ULog._MessageAddLogged(data, header, self._message_formats)
        if message_name_filter_list is not None and topic.message_name not in message_name_filter_list:
            self._filtered_message_ids.add(topic.msg_id)
        else:
            self._subscriptions[topic.msg_id] = topic
    elif kind == 'L':
        self._logged_messages.append(ULog.MessageLogging(data, header))
    elif kind == 'C':
        text_message = ULog.MessageLoggingTagged(data, header)
        if text_message.tag not in self._logged_messages_tagged:
            self._logged_messages_tagged[text_message.tag] = []
        self._logged_messages_tagged[text_message.tag].append(text_message)
    elif kind == 'O':
        self._dropouts.append(ULog.MessageDropout(data, header, self._last_timestamp))
    elif kind == 'P':
        record = ULog._MessageInfo(data, header)
        self._changed_parameters.append((self._last_timestamp, record.key, record.value))
    elif kind == 'Q':
        self._add_parameter_default(ULog._MessageParameterDefault(data, header))
    elif kind == 'I':
        add_information(self, ULog._MessageInfo(data, header))
    elif kind == 'M':
        self._add_message_info_multiple(ULog._MessageInfo(data, header, True))
    elif kind == 'S':
        self._sync_seq_cnt = self._sync_seq_cnt + 1
    else:
        recover(self, header)


def recover(self, header):
    """an unknown message: when it is implausible, look for the next marker from its
    second byte on (else continue there), when it is plausible, only in its payload"""
    if self._check_packet_corruption(header):
        self._file_handle.seek(-2 - header.msg_size, 1)
        if self._has_sync:
            self._find_sync()
    elif self._has_sync:
        self._find_sync(header.msg_size)


def read_data(self, message_name_filter_list, read_until=None):
    """all complete messages that end before the limit"""
    file = self._file_handle
    limit = 1125899906842624
    if read_until is not None:
        limit = read_until
    header = ULog._MessageHeader()
    sample = ULog._MessageData()
    while True:
        head = file.read(3)
        if len(head) < 3:
            break
        header.initialize(head)
        data = file.read(header.msg_size)
        if len(data) < header.msg_size:
            break
        if file.tell() > limit:
            break
        try:
            data_message(self, chr(header.msg_type), data, header, sample, message_name_filter_list)
        except (IndexError, KeyError, struct.error):
            self._file_corrupt = True
    while self._subscriptions:
        topic = self._subscriptions.popitem()[1]
        if len(topic.buffer) > 0:
            self._data_list.append(ULog.Data(topic))
    self._data_list.sort(key=lambda d: (d.name, d.multi_id))


def load_file(self, log_file, message_name_filter_list, parse_header_only=False):
    """header, definitions, then the data up to and from each appended offset"""
    if isinstance(log_file, str):
        log_file = open(log_file, 'rb')
    self._file_handle = log_file
    self._read_file_header()
    self._last_timestamp = self._start_timestamp
    self._read_file_definitions()
    if not parse_header_only:
        if self._incompat_flags[0] % 2 == 1 and len(self._appended_offsets) > 0:
            for offset in self._appended_offsets:
                self._read_file_data(message_name_filter_list, offset)
                log_file.seek(offset)
        self._read_file_data(message_name_filter_list)
    log_file.close()
    del self._file_handle


def log_init(self, log_file, message_name_filter_list=None, disable_str_exceptions=True, parse_header_only=False):
    """nothing known yet, then the file"""
    self._debug = False
    self._file_corrupt = False
    self._has_sync = True
    self._sync_seq_cnt = 0
    self._file_version = 0
    self._start_timestamp = 0
    self._last_timestamp = 0
    self._compat_flags = [0, 0, 0, 0, 0, 0, 0, 0]
    self._incompat_flags = [0, 0, 0, 0, 0, 0, 0, 0]
    self._appended_offsets = []
    self._msg_info_dict = {}
    self._msg_info_dict_types = {}
    self._msg_info_multiple_dict = {}
    self._msg_info_multiple_dict_types = {}
    self._initial_parameters = {}
    self._default_parameters = {}
    self._changed_parameters = []
    self._message_formats = {}
    self._logged_messages = []
    self._logged_messages_tagged = {}
    self._dropouts = []
    self._data_list = []
    self._subscriptions = {}
    self._filtered_message_ids = set()
    self._missing_message_ids = set()
    ULog._disable_str_exceptions = disable_str_exceptions
    if log_file is not None:
        self._load_file(log_file, message_name_filter_list, parse_header_only)


# ------------------------------------------------------------------ writing the data section
def write_subscriptions(self, file):
    """one announcement per dataset, by id"""
    for d in sorted(self._data_list, key=lambda d: d.msg_id):
        file.write(message('A', struct.pack('<BH', d.multi_id, d.msg_id) + bytes(d.name, 'utf-8')))


def data_items(self):
    """(time, message) of every sample"""
    items = []
    for d in sorted(self._data_list, key=lambda d: d.msg_id):
        for i in range(len(d.data[d.field_data[0].field_name])):
            payload = struct.pack('<H', d.msg_id)
            time = d.data['timestamp'][i]
            for field in d.field_data:
                value = d.data[field.field_name][i]
                if field.type_str == 'char':
                    value = struct.pack('<b', value)
                payload = payload + struct.pack('<' + TYPE_CODE[field.type_str], value)
            items.append((time, message('D', payload)))
    return items


def write_data_section(self, file):
    """all records by time; records of the same time in this order"""
    items = self._make_data_items()
    items = items + self._make_logged_message_items()
    items = items + self._make_tagged_logged_message_items()
    items = items + self._make_dropout_items()
    items = items + self._make_changed_param_items()
    for item in sorted(items, key=lambda item: item[0]):
        file.write(item[1])


def write_log(self, log_file):
    """header, flags, formats, information, parameters, defaults; announcements, data"""
    if isinstance(log_file, str):
        file = open(log_file, 'wb')
    else:
        file = log_file
    try:
        self._write_file_header(file)
        self._write_flags(file)
        self._write_format_messages(file)
        self._write_info_messages(file)
        self._write_info_multiple_message(file)
        self._write_initial_parameters(file)
        self._write_default_parameters(file)
        self._write_logged_message_subscriptions(file)
        self._write_data_section(file)
    finally:
        if isinstance(log_file, str):
            file.close()


# ------------------------------------------------------------------ comparison of logs
def dataset_eq(self, other):
    """all contents; not-a-number equals itself"""
    if not isinstance(other, ULog.Data):
        return NotImplemented
    same = self.data.keys() == other.data.keys()
    if same:
        for a, b in zip(self.data.values(), other.data.values()):
            same = same and np.array_equal(a, b, equal_nan=True)
    return (self.multi_id == other.multi_id and self.msg_id == other.msg_id and self.name == other.name
            and self.field_data == other.field_data and self.timestamp_idx == other.timestamp_idx and same)


def log_eq(self, other):
    """everything a log holds"""
    if not isinstance(other, ULog):
        return NotImplemented
    return (self._file_version == other._file_version and self._start_timestamp == other._start_timestamp
            and self._last_timestamp == other._last_timestamp and self._compat_flags == other._compat_flags
            and self._incompat_flags == other._incompat_flags and self._appended_offsets == other._appended_offsets
            and self._msg_info_dict == other._msg_info_dict and self._msg_info_dict_types == other._msg_info_dict_types
            and self._msg_info_multiple_dict == other._msg_info_multiple_dict
            and self._msg_info_multiple_dict_types == other._msg_info_multiple_dict_types
            and self._initial_parameters == other._initial_parameters and self._default_parameters == other._default_parameters
            and self._changed_parameters == other._changed_parameters and self._message_formats == other._message_formats
            and self._logged_messages == other._logged_messages and self._logged_messages_tagged == other._logged_messages_tagged
            and self._dropouts == other._dropouts and self._data_list == other._data_list
            and self._file_corrupt == other._file_corrupt and self._has_sync == other._has_sync
            and self._sync_seq_cnt == other._sync_seq_cnt and self._subscriptions == other._subscriptions
            and self._filtered_message_ids == other._filtered_message_ids
            and self._missing_message_ids == other._missing_message_ids and self._debug == other._debug)
