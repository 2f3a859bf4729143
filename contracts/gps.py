"""Contracts of pyulog.extract_gps_dump."""
import argparse
import os
import sys
from pyulog.core import ULog
from pv.contract import Contract
from pv import schema as S
from pv.nparr import FieldArr
from contracts.core import DATA
from contracts.tool import TOOL, LOADED

C = []
# the fields of the topic are single bytes, except for the time
LOG = LOADED.with_attrs(_data_list=S.ListOf(S.frozen(DATA.with_attrs(data=S.DictOf(S.Str(), FieldArr(S.U8))))))


def gps_main():
    p = argparse.ArgumentParser()

    def directory(path):
        if not os.path.isdir(path):
            raise ValueError()
        return path
    p.add_argument('filename')
    p.add_argument('-o', '--output', type=directory)
    p.add_argument('-x', '--ignore', action='store_true')
    p.add_argument('-i', '--instance', default=0)
    a = p.parse_args()
    wanted = int(a.instance)
    log = ULog(a.filename, ['gps_dump'], a.ignore)
    prefix = os.path.basename(a.filename)
    if prefix.lower().endswith('.ulg'):
        prefix = prefix[:-4]
    if a.output is not None:
        prefix = os.path.join(a.output, prefix)
    prefix = prefix + '_' + str(wanted)
    if not log.data_list:
        print('File ' + a.filename + ' does not contain gps_dump messages!')
        raise SystemExit(0)
    d = log.data_list[0]
    names = [f.field_name for f in d.field_data]
    if 'len' not in names or 'data[0]' not in names:
        print('Error: gps_dump message has wrong format')
        raise SystemExit(-1)
    if log.dropouts:
        print('Warning: file contains ' + str(len(log.dropouts)) + ' dropouts')
    print('Creating files ' + prefix + '_to_device.dat and ' + prefix + '_from_device.dat')
    with open(prefix + '_to_device.dat', 'wb') as to_device:
        with open(prefix + '_from_device.dat', 'wb') as from_device:
            lens = d.data['len']
            instances = d.data.get('instance')
            for i in range(len(d.data['timestamp'])):
                instance = 0
                if instances is not None:
                    instance = instances[i]
                n = lens[i]
                if instance == wanted:
                    out = from_device
                    if n >= 128:
                        n = n - 128
                        out = to_device
                    for k in range(n):
                        out.write(d.data['data[' + str(k) + ']'][i])


C.append(Contract('pyulog.extract_gps_dump:main', dict(), gps_main, name='gps_dump.main', options=TOOL(LOG, merge=True)))
