"""Contracts of pyulog.px4_events and pyulog.messages.  The parser of event definitions (libevents), json,
lzma and the network are foreign: what they do is a function of what they are given."""
import argparse
import importlib.machinery
import json
import lzma
import sys
import types
import urllib.request
if importlib.machinery.PathFinder.find_spec('libevents_parse', __import__('pyulog').__path__) is None:
    # the git submodule is not there; its parser is foreign anyway
    sys.modules['pyulog.libevents_parse'] = types.ModuleType('pyulog.libevents_parse')
    sys.modules['pyulog.libevents_parse.parser'] = types.ModuleType('pyulog.libevents_parse.parser')
    sys.modules['pyulog.libevents_parse.parser'].Parser = type('Parser', (), {})
from pyulog.core import ULog
from pyulog.px4_events import PX4Events, Parser
from pv.contract import Contract
from pv import schema as S
from pv.nparr import FieldArr
from pv.tools import traced, Effect, Foreign
from contracts.core import DATA
from contracts.tool import TOOL, LOADED
from contracts.info import clock, PARTS

C = []
DEFINITIONS = 'https://px4-travis.s3.amazonaws.com/Firmware/master/_general/all_events.json.xz'
LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']
EVENT = Foreign('Event', group=Effect(S.Str(), pure=True), message=Effect(S.Str(), pure=True))
PARSER = Foreign('Parser', load_definitions=Effect(raises=(ValueError, KeyError)), set_profile=Effect(),
                 parse=Effect(S.OneOf(S.Const(None), EVENT), raises=(ValueError, IndexError), pure=True))
CALLBACK = Foreign('callback', call=Effect(S.OneOf(S.Const(None), S.Any()), raises=(OSError,)))
EVENTS = S.Obj(PX4Events, dict(_events_profile=S.Str(), _default_parser=S.OneOf(S.Const(None), PARSER),
                               _get_default_json_def_cb=CALLBACK))
RESPONSE = Foreign('response', enter=Effect(), read=Effect(S.Bytes(), raises=(OSError,)))
FOREIGN = {json.loads: Effect(S.Any(), raises=(ValueError,), pure=True),
           lzma.decompress: Effect(S.Bytes(), raises=(lzma.LZMAError,), pure=True),
           urllib.request.urlopen: Effect(RESPONSE, raises=(OSError,))}
DATASET = S.frozen(DATA.with_attrs(data=S.DictOf(S.Str(), FieldArr(S.U8, id=S.U32))))
LOG = LOADED.with_attrs(
    _data_list=S.ListOf(DATASET),
    _msg_info_multiple_dict=S.DictOf(S.Str(), S.ListOf(S.ListOf(S.Bytes(), lo=1), lo=1)),
    _msg_info_dict=S.DictOf(S.Str(), S.Str()))


def new_events(self):
    self._events_profile = 'dev'
    self._default_parser = None
    self._get_default_json_def_cb = PX4Events._get_default_json_definitions


def set_callback(self, default_json_definitions_cb):
    self._get_default_json_def_cb = default_json_definitions_cb


def default_definitions(already_has_default_parser):
    if already_has_default_parser:
        return None
    with urllib.request.urlopen(DEFINITIONS, timeout=4) as response:
        return json.loads(lzma.decompress(response.read()))


def event_parser(self, ulog):
    if 'metadata_events' in ulog.msg_info_multiple_dict and 'metadata_events_sha256' in ulog.msg_info_dict:
        digest = ulog.msg_info_dict['metadata_events_sha256']
        if len(digest) <= 64 and digest.isalnum():
            stored = json.loads(lzma.decompress(b''.join(ulog.msg_info_multiple_dict['metadata_events'][0])))
            p = Parser()
            p.load_definitions(stored)
            p.set_profile(self._events_profile)
            return p
    usual = self._get_default_json_def_cb(self._default_parser is not None)
    if usual is not None:
        self._default_parser = Parser()
        self._default_parser.load_definitions(usual)
        self._default_parser.set_profile(self._events_profile)
    return self._default_parser


def logged_events(self, ulog):
    found = []
    try:
        d = ulog.get_dataset('event')
        ids = d.data['id']
        if len(ids) == 0:
            return found
        try:
            parser = self._get_event_parser(ulog)
        except Exception as e:
            print('Failed to get event parser: ' + str(e))
            return []
        for i in range(len(ids)):
            level = d.data['log_levels'][i] // 16
            if level < 8:
                arguments = []
                n = 0
                while 'arguments[' + str(n) + ']' in d.data:
                    arguments.append(d.data['arguments[' + str(n) + ']'][i])
                    n += 1
                t = d.data['timestamp'][i]
                event = None
                if parser is not None:
                    event = parser.parse(ids[i], bytes(arguments))
                if event is None:
                    found.append((t, LEVELS[level], '[Unknown event with ID ' + str(ids[i]) + ']'))
                elif event.group() == 'default':
                    found.append((t, LEVELS[level], event.message()))
    except (KeyError, IndexError, ValueError):
        pass
    return found


def messages_main():
    p = argparse.ArgumentParser()
    p.add_argument('filename')
    p.add_argument('-i', '--ignore', action='store_true')
    a = p.parse_args()
    log = ULog(a.filename, ['event'], a.ignore)
    lines = [(m.timestamp, m.log_level_str(), m.message) for m in log.logged_messages]
    if log.msg_info_dict.get('sys_name', '') == 'PX4':
        everything = PX4Events().get_logged_events(log)
        for t, level, text in lines:
            if not text.endswith('\t'):
                everything.append((t, level, text))
        lines = sorted(everything, key=lambda line: line[0])
    for t, level, text in lines:
        print(clock(t) + ' ' + level + ': ' + text)


OPT = dict(io=True, env={Parser: PARSER}, foreign=FOREIGN, merge=True)
c = lambda name, *a, **k: C.append(Contract('pyulog.px4_events:PX4Events.' + name, *a, name='PX4Events.' + name, **k))
c('__init__', dict(self=S.Obj(PX4Events, {})), new_events)
c('set_default_json_definitions_cb', dict(self=EVENTS, default_json_definitions_cb=CALLBACK), set_callback)
c('_get_default_json_definitions', dict(already_has_default_parser=S.Bool()), default_definitions, options=OPT)
c('_get_event_parser', dict(self=EVENTS, ulog=LOG), event_parser, options=dict(OPT, state_on_exc=False),
  opaque=traced(S.OneOf(S.Const(None), PARSER), raises=(ValueError, KeyError, OSError, lzma.LZMAError)))
c('get_logged_events', dict(self=EVENTS, ulog=LOG), logged_events,
  options=dict(OPT, local_elems=[S.U8, S.Tup(S.U64, S.Str(), S.Str())]),
  opaque=traced(S.ListOf(S.Tup(S.U64, S.Str(), S.Str()))))
C.append(Contract('pyulog.messages:main', dict(), messages_main, name='messages.main',
                  options=TOOL(LOG, merge=True, local_elems=S.Tup(S.U64, S.Str(), S.Str()))))
