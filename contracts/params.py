"""Contracts of pyulog.params."""
import argparse
import sys
from pyulog.core import ULog
from pv.contract import Contract
from pv import schema as S
from contracts.tool import TOOL, LOADED

C = []
PARAM = S.Any(int, float)
CHANGES = S.ListOf(S.Tup(S.U64, S.Str(), PARAM))
LOG = LOADED.with_attrs(_initial_parameters=S.DictOf(S.Str(), PARAM), _changed_parameters=CHANGES,
                        _default_parameters=S.DictOf(S.Small(0, 7), S.DictOf(S.Str(), PARAM)))


def defaults(ulog, default):
    """the defaults of the selected kind"""
    if not ulog.has_default_parameters:
        raise AssertionError()
    kinds = {'system': 0, 'current_setup': 1}
    if default in kinds:
        return ulog.get_default_parameters(kinds[default])
    raise ValueError()


def params_main():
    p = argparse.ArgumentParser()
    p.add_argument('filename')
    p.add_argument('-l', '--delimiter', default=',')
    p.add_argument('-i', '--initial', action='store_true')
    p.add_argument('-t', '--timestamps', action='store_true')
    p.add_argument('-f', '--format', default='csv')
    p.add_argument('output', nargs='?')
    p.add_argument('--ignore', action='store_true')
    p.add_argument('-d', '--default')
    a = p.parse_args()
    log = ULog(a.filename, [] if a.initial else None, a.ignore)
    chosen = log.initial_parameters
    only_initial = a.initial
    if a.default is not None:
        chosen = defaults(log, a.default)
        only_initial = True
    names = sorted(chosen)
    out = sys.stdout
    if a.output is not None:
        out = open(a.output, 'w', encoding='utf-8')
    if a.format == 'csv':
        for n in names:
            out.write(n)
            if a.timestamps:
                out.write(a.delimiter + str(chosen[n]))
                for t, name, value in log.changed_parameters:
                    if name == n:
                        out.write(a.delimiter + str(value))
                out.write('\n' + 'timestamp' + a.delimiter + '0')
                for t, name, value in log.changed_parameters:
                    if name == n:
                        out.write(a.delimiter + str(t))
                out.write('\n')
            else:
                out.write(a.delimiter + str(chosen[n]))
                if not only_initial:
                    for t, name, value in log.changed_parameters:
                        if name == n:
                            out.write(a.delimiter + str(value))
                out.write('\n')
    elif a.format == 'octave':
        for n in names:
            out.write('# name ' + n)
            values = [chosen[n]]
            if not only_initial:
                for t, name, value in log.changed_parameters:
                    if name == n:
                        values.append(value)
            if len(values) > 1:
                out.write('\n# type: matrix\n# rows: 1\n# columns: ' + str(len(values)) + '\n')
                for v in values:
                    out.write(str(v) + ' ')
            else:
                out.write('\n# type: scalar\n' + str(values[0]))
            out.write('\n')
    elif a.format == 'qgc':
        for n in names:
            kind = 6
            if isinstance(chosen[n], float):
                kind = 9
            out.write('1\t1\t' + n + '\t' + str(chosen[n]) + '\t' + str(kind) + '\n')


c = lambda name, *a, **k: C.append(Contract('pyulog.params:' + name, *a, name='params.' + name, **k))
c('get_defaults', dict(ulog=LOG, default=S.Str()), defaults)
c('main', dict(), params_main, options=TOOL(LOG, merge=True, local_elems=PARAM))
