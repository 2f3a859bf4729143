"""Contracts of pyulog.extract_message."""
import numpy as np
from pyulog.core import ULog
from pv.contract import Contract
from pv import schema as S
from contracts.tool import TOOL, SECONDS

C = []


def message_rows(ulog_file_name, message, time_s=None, time_e=None, disable_str_exceptions=False):
    if not isinstance(message, str):
        raise AttributeError()
    log = ULog(ulog_file_name, message, disable_str_exceptions)
    try:
        d = log.get_dataset(message)
    except Exception:
        raise AttributeError()
    keys = [f.field_name for f in d.field_data]
    keys.remove('timestamp')
    keys.insert(0, 'timestamp')
    times = d.data['timestamp']
    first = 0
    if time_s:
        first = next(iter(np.where(times >= time_s * 1e6)[0]), len(times))
    last = len(times)
    if time_e:
        last = next(iter(np.where(times >= time_e * 1e6)[0]), len(times))
    rows = []
    for i in range(first, last):
        row = {}
        for key in keys:
            row[key] = d.data[key][i]
        rows.append(row)
    return rows


C.append(Contract('pyulog.extract_message:extract_message',
                  dict(ulog_file_name=S.Str(), message=S.OneOf(S.Str(), S.Const(None)), time_s=SECONDS, time_e=SECONDS,
                       disable_str_exceptions=S.Bool()), message_rows, name='extract_message',
                  options=TOOL(local_elems=S.DictOf(S.Str(), S.Any()))))
