"""Contracts of pyulog.info."""
import argparse
from pyulog.core import ULog
from pyulog.info import show_info
from pv.contract import Contract
from pv import schema as S
from pv.tools import traced
from contracts.core import DATA, EFIELD
from contracts.tool import TOOL, LOADED
from contracts.ulog_format import TYPE_SIZE

C = []
# fields of datasets have elementary types (contract of _parse_format)
PARTS = S.OneOf(S.ListOf(S.Str(), lo=1), S.ListOf(S.Bytes(), lo=1))
LOG = LOADED.with_attrs(_msg_info_multiple_dict=S.DictOf(S.Str(), S.ListOf(PARTS, lo=1)),
                        _msg_info_dict=S.DictOf(S.Str(), S.ByKey(('ver_sw_release',), S.U32, S.Any())),
                        _data_list=S.ListOf(S.frozen(DATA.with_attrs(field_data=S.ListOf(EFIELD)))))


def clock(us):
    """hours, minutes and seconds of microseconds"""
    total = int(us / 1e6)
    return '{:d}:{:02d}:{:02d}'.format(total // 3600, total // 60 % 60, total % 60)


def info_report(ulog, verbose):
    if ulog.file_corruption:
        print('Warning: file has data corruption(s)')
    print('Logging start time: ' + clock(ulog.start_timestamp) + ', duration: ' + clock(ulog.last_timestamp - ulog.start_timestamp))
    durations = [d.duration for d in ulog.dropouts]
    if durations:
        n = len(durations)
        total = sum(durations)
        print('Dropouts: count: ' + str(n) + ', total duration: ' + '{:.1f}'.format(total / 1000.) + ' s, max: ' +
              str(max(durations)) + ' ms, mean: ' + str(int(total / n)) + ' ms')
    else:
        print('No Dropouts')
    version = ulog.get_version_info_str()
    if version is not None:
        print('SW Version: ' + version)
    print('Info Messages:')
    for k in sorted(ulog.msg_info_dict):
        if verbose or not k.startswith('perf_'):
            print(' ' + k + ': ' + str(ulog.msg_info_dict[k]))
    multi = ulog.msg_info_multiple_dict
    if multi:
        if verbose:
            print('Info Multiple Messages:')
            for k in sorted(multi):
                print(' ' + k + ': ' + str(multi[k]))
        else:
            print('Info Multiple Messages: ' + ', '.join(['[' + k + ': ' + str(len(multi[k])) + ']' for k in sorted(multi)]))
    print('')
    print('{:<41} {:7}, {:10}'.format('Name (multi id, message size in bytes)', 'number of data points', 'total bytes'))
    for d in sorted(ulog.data_list, key=lambda d: d.name + str(d.multi_id)):
        size = sum([ULog.get_field_size(f.type_str) for f in d.field_data])
        n = len(d.data['timestamp'])
        label = d.name + ' (' + str(d.multi_id) + ', ' + str(size) + ')'
        print(' {:<40} {:7d} {:10d}'.format(label, n, size * n))


def info_main():
    p = argparse.ArgumentParser()
    p.add_argument('filename')
    p.add_argument('-v', '--verbose', action='store_true')
    p.add_argument('-m', '--message')
    p.add_argument('-n', '--newline', action='store_true')
    p.add_argument('-i', '--ignore', action='store_true')
    a = p.parse_args()
    log = ULog(a.filename, None, a.ignore)
    if not a.message:
        show_info(log, a.verbose)
        return
    separator = ''
    if a.newline:
        separator = '\n'
    if a.message not in log.msg_info_multiple_dict:
        print('message ' + a.message + ' not found')
        return
    for i, parts in enumerate(log.msg_info_multiple_dict[a.message]):
        if len(parts) > 0 and isinstance(parts[0], (bytes, bytearray)):
            print('# ' + a.message + ' ' + str(i) + ' (len: ' + str(sum([len(b) for b in parts])) + '):')
            print(separator.join([' '.join(['{:02x}'.format(x) for x in b]) for b in parts]))
        else:
            print('# ' + a.message + ' ' + str(i) + ':')
            print(separator.join(parts))


def known_type(type_str):
    return type_str in TYPE_SIZE


def field_size(type_str):
    return TYPE_SIZE[type_str]


C.append(Contract('pyulog.core:ULog.get_field_size', dict(type_str=S.Str()), field_size, name='ULog.get_field_size',
                  requires=known_type, result=S.Nat))
c = lambda name, *a, **k: C.append(Contract('pyulog.info:' + name, *a, name='info.' + name, **k))
c('show_info', dict(ulog=LOG, verbose=S.Bool()), info_report, opaque=traced(), options=dict(io=True, merge=True))
c('main', dict(), info_main, options=TOOL(LOG, merge=True))
