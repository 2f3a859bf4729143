"""Contracts of pyulog.ulog2csv."""
import argparse
import os
import re
import numpy as np
from pyulog.core import ULog
from pyulog.ulog2csv import convert_ulog2csv, read_string_data
from pv.contract import Contract
from pv import schema as S
from pv.tools import traced
from contracts.core import DATA
from contracts.tool import TOOL, SECONDS

C = []
INDEXED = re.compile(r"(.*)\[(.*?)\]")


def text_field(data, field_name, array_size, data_index):
    """the characters before the first zero, decoded"""
    raw = b''
    for k in range(array_size):
        ch = data.data[field_name + '[' + str(k) + ']'][data_index]
        if ch == 0:
            break
        raw = raw + ch.tobytes()
    return raw.decode('utf-8', 'replace')


def columns(d):
    """columns in the order of the fields, time first, character arrays as one column;
    lengths of the character arrays"""
    keys = []
    sizes = {}
    for f in d.field_data:
        name = f.field_name
        if name.startswith('_padding'):
            continue
        m = INDEXED.fullmatch(name)
        if m and f.type_str == 'char':
            base, k = m.groups()
            k = int(k)
            sizes[base] = max(k + 1, sizes.get(base, 0))
            if k == 0:
                keys.append(base)
        else:
            keys.append(name)
    keys.remove('timestamp')
    keys.insert(0, 'timestamp')
    return keys, sizes


def csv_files(ulog_file_name, messages, output, delimiter, time_s, time_e, disable_str_exceptions=False):
    wanted = None
    if messages:
        wanted = messages.split(',')
    log = ULog(ulog_file_name, wanted, disable_str_exceptions)
    prefix = ulog_file_name
    if prefix.lower().endswith('.ulg'):
        prefix = prefix[:-4]
    if output:
        prefix = os.path.join(output, os.path.basename(prefix))
    for d in log.data_list:
        name = prefix + '_' + d.name.replace('/', '_') + '_' + str(d.multi_id) + '.csv'
        times = d.data['timestamp']
        print('Writing ' + name + ' (' + str(len(times)) + ' data points)')
        with open(name, 'w', encoding='utf-8') as out:
            keys, sizes = columns(d)
            out.write(delimiter.join(keys) + '\n')
            first = next(iter(np.where(times >= time_s * 1e6)[0]), len(times)) if time_s else 0
            last = next(iter(np.where(times >= time_e * 1e6)[0]), len(times)) if time_e else len(times)
            for i in range(first, last):
                for k in range(len(keys)):
                    if keys[k] in sizes:
                        out.write(read_string_data(d, keys[k], sizes[keys[k]], i))
                    else:
                        out.write(str(d.data[keys[k]][i]))
                    if k != len(keys) - 1:
                        out.write(delimiter)
                out.write('\n')


def csv_main():
    p = argparse.ArgumentParser()
    p.add_argument('filename')
    p.add_argument('-m', '--messages')
    p.add_argument('-d', '--delimiter', default=',')
    p.add_argument('-o', '--output')
    p.add_argument('-i', '--ignore', action='store_true')
    p.add_argument('-ts', '--time_s', type=int)
    p.add_argument('-te', '--time_e', type=int)
    a = p.parse_args()
    if a.output and not os.path.isdir(a.output):
        print('Creating output directory ' + a.output)
        os.mkdir(a.output)
    convert_ulog2csv(a.filename, a.messages, a.output, a.delimiter, a.time_s, a.time_e, a.ignore)


c = lambda name, *a, **k: C.append(Contract('pyulog.ulog2csv:' + name, *a, name='ulog2csv.' + name, **k))
c('read_string_data', dict(data=S.frozen(DATA), field_name=S.Str(), array_size=S.Int(), data_index=S.Nat), text_field,
  result=S.Str(), raises=(KeyError, IndexError))
c('convert_ulog2csv', dict(ulog_file_name=S.Str(), messages=S.OneOf(S.Const(None), S.Str()), output=S.OneOf(S.Const(None), S.Str()),
                           delimiter=S.Str(), time_s=SECONDS, time_e=SECONDS, disable_str_exceptions=S.Bool()), csv_files, opaque=traced(), split=('messages', 'output', 'time_s', 'time_e'),
  options=TOOL(merge=True, local_elems=S.Str(), dict_schema={'string_array_sizes': (S.Str(), S.Int()), 'sizes': (S.Str(), S.Int())}))
c('main', dict(), csv_main, options=TOOL())
