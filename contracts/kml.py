"""Contracts of pyulog.ulog2kml.  The document that is written is foreign: what is made in it and set in it, in
which order, is observed.  Fields of positions are numbers; arithmetic on them is uninterpreted."""
import argparse
import sys
import types
try:
    import simplekml
except ImportError:
    simplekml = types.ModuleType('simplekml')
    simplekml.Kml = type('Kml', (), {})
    simplekml.Color = type('Color', (), {c: 'color ' + c for c in (
        'red', 'green', 'blue', 'violet', 'yellow', 'orange', 'burlywood', 'azure', 'lightblue', 'lawngreen', 'indianred', 'hotpink',
        'bisque', 'cyan', 'darksalmon', 'deepskyblue', 'lime', 'orchid')})
    sys.modules['simplekml'] = simplekml
from pyulog.core import ULog
from pyulog.ulog2kml import convert_ulog2kml, _kml_add_position_data, _kml_add_camera_triggers, _kml_default_colors
from pv.contract import Contract
from pv import schema as S
from pv.nparr import FieldArr
from pv.tools import traced, Effect, Foreign, SET
from contracts.core import DATA
from contracts.tool import TOOL, LOADED

C = []
LINE = Foreign('linestring', extrude=SET, coords=Foreign('coords', addcoordinates=Effect()),
               style=Foreign('style', linestyle=Foreign('linestyle', color=SET, width=SET)))
POINT = Foreign('point', coords=SET)
KML = Foreign('Kml', newlinestring=Effect(LINE), newpoint=Effect(POINT), save=Effect(raises=(OSError,)))
COLORS = Foreign('colors', call=Effect(S.Any(), raises=(IndexError,), pure=True))
LOG = LOADED.with_attrs(_data_list=S.ListOf(S.frozen(DATA.with_attrs(
    data=S.DictOf(S.Str(), FieldArr(S.Float(8, np=True), fix_type=S.U8, seq=S.U32))))))
STYLE = S.DictOf(S.Str(), S.Any())
CHANGES = S.ListOf(S.Tup(S.U64, S.Int()))
PALETTE = ['red', 'green', 'blue', 'violet', 'yellow', 'orange', 'burlywood', 'azure', 'lightblue', 'lawngreen', 'indianred', 'hotpink',
           'bisque', 'cyan', 'darksalmon', 'deepskyblue', 'lime', 'orchid']


def default_colors(x):
    if x < 0:
        return simplekml.Color.red
    return [getattr(simplekml.Color, c) for c in PALETTE][x]


def column(d, old, new):
    """a field that has another name in newer versions"""
    if old in d.data:
        return d.data[old]
    return d.data[new]


def camera_triggers(kml, ulog, camera_trigger_topic_name, altitude_offset):
    found = [d for d in ulog.data_list if d.name == camera_trigger_topic_name and d.multi_id == 0]
    if found:
        d = found[0]
        lon = column(d, 'lon', 'longitude_deg')
        lat = column(d, 'lat', 'latitude_deg')
        alt = column(d, 'alt', 'altitude_msl_m')
        numbers = d.data['seq']
        for i in range(len(lon)):
            point = kml.newpoint(name='Camera Trigger ' + str(numbers[i]))
            point.coords = [(lon[i], lat[i], alt[i] + altitude_offset)]


def position_data(kml, ulog, position_topic_name, colors, style, altitude_offset=0, minimum_interval_s=0.1, flight_mode_changes=None):
    found = [d for d in ulog.data_list if d.name == position_topic_name and d.multi_id == 0]
    if not found:
        raise KeyError()
    d = found[0]
    lon = column(d, 'lon', 'longitude_deg')
    lat = column(d, 'lat', 'latitude_deg')
    alt = column(d, 'alt', 'altitude_msl_m')
    times = d.data['timestamp']
    if 'fix_type' in d.data:
        fix = d.data['fix_type'] > 2
        lon = lon[fix]
        lat = lat[fix]
        alt = alt[fix]
        times = times[fix]
    kinds = [f.type_str for f in d.field_data if f.field_name == 'lon']
    if kinds and kinds[0] == 'int32_t':
        lon = lon / 1e7
        lat = lat / 1e7
        alt = alt / 1e3
    changes = flight_mode_changes
    if flight_mode_changes is None:
        changes = []

    def segment(mode):
        line = kml.newlinestring(name=position_topic_name + ':' + str(mode), altitudemode='absolute')
        if style['extrude']:
            line.extrude = 1
        line.style.linestyle.color = colors(mode)
        line.style.linestyle.width = style['line_width']
        return line
    line = segment(changes[0][1] if changes else 0)
    k = 0
    last = 0
    for i in range(len(lon)):
        t = times[i]
        if (t - last) / 1e6 > minimum_interval_s:
            position = [lon[i], lat[i], alt[i] + altitude_offset]
            line.coords.addcoordinates([position])
            last = t
            while k + 1 < len(changes) and changes[k + 1][0] <= t:
                k += 1
                line = segment(changes[k][1])
                line.coords.addcoordinates([position])


def convert(ulog_file_name, output_file_name, position_topic_name='vehicle_gps_position', colors=_kml_default_colors, altitude_offset=0,
            minimum_interval_s=0.1, style=None, camera_trigger_topic_name=None, disable_str_exceptions=False):
    chosen = {'extrude': False, 'line_width': 3}
    if style is not None:
        for key in style:
            chosen[key] = style[key]
    topics, palettes = position_topic_name, colors
    if not isinstance(position_topic_name, list):
        topics, palettes = [position_topic_name], [colors]
    kml = simplekml.Kml()
    wanted = topics + ['vehicle_status']
    if camera_trigger_topic_name is not None:
        wanted = wanted + [camera_trigger_topic_name]
    log = ULog(ulog_file_name, wanted, disable_str_exceptions)
    changes = []
    try:
        changes = log.get_dataset('vehicle_status').list_value_changes('nav_state')
        changes.append((log.last_timestamp, -1))
    except (KeyError, IndexError):
        pass
    for topic, palette in zip(topics, palettes):
        _kml_add_position_data(kml, log, topic, palette, chosen, altitude_offset, minimum_interval_s, changes)
    _kml_add_camera_triggers(kml, log, camera_trigger_topic_name, altitude_offset)
    kml.save(output_file_name)


def kml_main():
    p = argparse.ArgumentParser()
    p.add_argument('filename')
    p.add_argument('-o', '--output', default='track.kml')
    p.add_argument('--topic', default='vehicle_gps_position')
    p.add_argument('--camera-trigger')
    p.add_argument('-i', '--ignore', action='store_true')
    a = p.parse_args()
    convert_ulog2kml(a.filename, a.output, position_topic_name=a.topic, camera_trigger_topic_name=a.camera_trigger,
                     disable_str_exceptions=a.ignore)


OFFSET = S.OneOf(S.Int(), S.Float())
OPT = dict(io=True, state_on_exc=False)
c = lambda name, *a, **k: C.append(Contract('pyulog.ulog2kml:' + name, *a, name='ulog2kml.' + name, **k))
c('_kml_default_colors', dict(x=S.Int()), default_colors)
c('_kml_add_camera_triggers', dict(kml=KML, ulog=LOG, camera_trigger_topic_name=S.OneOf(S.Str(), S.Const(None)), altitude_offset=OFFSET),
  camera_triggers, options=OPT, split=('altitude_offset',), opaque=traced(raises=(KeyError,)))
c('_kml_add_position_data', dict(kml=KML, ulog=LOG, position_topic_name=S.Str(), colors=COLORS, style=STYLE, altitude_offset=OFFSET,
                                 minimum_interval_s=S.Float(), flight_mode_changes=S.OneOf(CHANGES, S.Const(None))),
  position_data, options=OPT, split=('altitude_offset', 'flight_mode_changes'), opaque=traced(raises=(KeyError,)))
c('convert_ulog2kml', dict(ulog_file_name=S.Str(), output_file_name=S.Str(), position_topic_name=S.OneOf(S.Str(), S.ListOf(S.Str())),
                           colors=S.OneOf(COLORS, S.ListOf(COLORS)), altitude_offset=OFFSET, minimum_interval_s=S.Float(),
                           style=S.OneOf(S.Const(None), STYLE), camera_trigger_topic_name=S.OneOf(S.Str(), S.Const(None)),
                           disable_str_exceptions=S.Bool()),
  convert, options=TOOL(LOG, env={ULog: LOG, simplekml.Kml: KML}, foreign={ULog.Data.list_value_changes: Effect(CHANGES, raises=(KeyError,))}),
  split=('position_topic_name', 'colors'), cases=((0, 0), (1, 1)),     # one colouring for one topic, a list for a list
  opaque=traced())
c('main', dict(), kml_main, options=TOOL())
