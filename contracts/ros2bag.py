"""Contracts of pyulog.ulog2ros2bag.  ROS 2 is foreign: what is made, set and written, in which order, is observed.
Which message types there are, their fields, and the version of the bag writer are arbitrary."""
import argparse
import re
import sys
import types
from collections import defaultdict
from importlib.metadata import version
from pathlib import Path
import numpy as np
from pv import ops, schema as S
from pv.contract import Contract
from pv.nparr import FieldArr
from pv.npvalue import NpSchema
from pv.tools import traced, Effect, Foreign

WRITER = Foreign('SequentialWriter', open=Effect(raises=(RuntimeError,)), create_topic=Effect(raises=(RuntimeError,)),
                 write=Effect(raises=(RuntimeError,)), close=Effect())
PART = Foreign('part', items=Effect(raises=(IndexError, TypeError, AssertionError)))
MSG = Foreign('message', attrs=PART, set_attrs=Effect(raises=(AssertionError, AttributeError)))
TYPE = Foreign('MsgType', call=Effect(MSG, stable=True), __name__=S.Str(),
               get_fields_and_field_types=Effect(S.DictOf(S.Str(), S.Str()), pure=True))


def SequentialWriter():
    pass


def StorageOptions(uri, storage_id=''):
    pass


def ConverterOptions(input_serialization_format, output_serialization_format):
    pass


def TopicMetadata(*args, **kw):
    pass


def serialize_message(message):
    pass


ROS = {SequentialWriter: Effect(WRITER), StorageOptions: Effect(S.Any(), pure=True), ConverterOptions: Effect(S.Any(), pure=True),
       TopicMetadata: Effect(S.Any(), pure=True), serialize_message: Effect(S.Any()), version: Effect(S.Str(), pure=True)}


def module(name, **attrs):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


module('rclpy')
module('rclpy.serialization', serialize_message=serialize_message)
rosbag2_py = module('rosbag2_py', SequentialWriter=SequentialWriter, StorageOptions=StorageOptions, ConverterOptions=ConverterOptions,
                    TopicMetadata=TopicMetadata)
px4_msgs = Foreign('px4_msgs', attrs=TYPE).make(None, 'px4_msgs')
module('px4_msgs', msg=px4_msgs)
from pyulog.core import ULog
from pyulog.ulog2ros2bag import (to_camel_case, calc_msgtype, ros2ify_value, ros2_msg_from_ulg_topic, convert_ulog2ros2bag,
                                 rosbag_write_uses_seqnum, rosbag_topicmetadata_uses_id)
from contracts.core import DATA
from contracts.tool import TOOL, LOADED

C = []
TIME = S.Int(0, 2**64 // 1000 - 1)         # in nanoseconds it is one of 64 bits
SAMPLES = S.frozen(DATA.with_attrs(data=S.DictOf(S.Str(), FieldArr(NpSchema(), timestamp=TIME))))
LOG = LOADED.with_attrs(_data_list=S.ListOf(SAMPLES))
NAMES = [
    (r'^actuator_controls_status_\d$', 'ActuatorControlsStatus'),
    (r'^actuator_outputs\w*', 'ActuatorOutputs'),
    (r'^config_overrides\w*', 'ConfigOverrides'),
    (r'^estimator_aid_src_((gnss_yaw)|(ev_yaw)|(fake_hgt)|(airspeed)|(sideslip)|(\w+_hgt))$', 'EstimatorAidSource1d'),
    (r'^estimator_aid_src_((drag)|(aux_vel)|(optical_flow)|(\w+_pos)|(aux_global_position))$', 'EstimatorAidSource2d'),
    (r'^estimator_aid_src_((ev_vel)|(gnss_vel)|(gravity)|(mag))$', 'EstimatorAidSource3d'),
    (r'^estimator_ev_pos_bias', 'EstimatorBias3d'),
    (r'^estimator_((baro)|(gnss_hgt))_bias', 'EstimatorBias'),
    (r'^estimator_innovation\w*', 'EstimatorInnovations'),
    (r'^px4io_status$', 'Px4ioStatus'),
    (r'^vehicle_gps_position$', 'SensorGps'),
    (r'^sensors_status_\w+', 'SensorsStatus'),
    (r'^vehicle_angular_velocity\w*', 'VehicleAngularVelocity'),
    (r'^\w+?attitude(_groundtruth)?$', 'VehicleAttitude'),
    (r'^\w+?attitude_setpoint$', 'VehicleAttitudeSetpoint'),
    (r'^\w+?_command\w*', 'VehicleCommand'),
    (r'^\w+?_control_\w+', 'VehicleControlMode'),
    (r'^((aux_)|(estimator_)|(vehicle_)|(external_ins_))global_position(_groundtruth)?$', 'VehicleGlobalPosition'),
    (r'^\w+?_local_position(_groundtruth)?$', 'VehicleLocalPosition'),
    (r'^\w+?_odometry$', 'VehicleOdometry'),
    (r'^((estimator)|(vehicle))_optical_flow_vel$', 'VehicleOpticalFlowVel'),
    (r'^vehicle_thrust_setpoint\w*', 'VehicleThrustSetpoint'),
    (r'^vehicle_torque_setpoint\w*', 'VehicleTorqueSetpoint'),
    (r'^(estimator_)?wind$', 'Wind')]


def camel_case(snake_str):
    return ''.join([part.title() for part in snake_str.split('_')])


def message_type(topic_name):
    own = to_camel_case(topic_name)
    if hasattr(px4_msgs, own):
        return own
    for pattern, name in NAMES:
        if re.match(pattern, topic_name):
            return name
    return None


def value_of(field_name, value, MsgType):
    ty = MsgType.get_fields_and_field_types()[field_name]
    if value.dtype == np.int8 and ty.startswith('bool'):
        return bool(value)
    return value.item()


def message(ulg_topic, i, MsgType):
    m = MsgType()
    for f in ulg_topic.field_data:
        in_array = re.match(r'(.*?)\[(\d+)\]', f.field_name)
        v = ulg_topic.data[f.field_name][i]
        if in_array:
            name = in_array.group(1)
            v = ros2ify_value(name, v, MsgType)
            getattr(m, name)[int(in_array.group(2))] = v
        else:
            v = ros2ify_value(f.field_name, v, MsgType)
            setattr(m, f.field_name, v)
    return m


def with_sequence_number():
    return version('rosbag2_py') >= '0.32.0'


def with_topic_id():
    return version('rosbag2_py') >= '0.25.0'


def convert(ulog_file_name, rosbag_name, mcap, messages, disable_str_exceptions=False, verbose=False):
    wanted = messages.split(',') if messages else None
    log = ULog(ulog_file_name, wanted, disable_str_exceptions)
    instances = defaultdict(set)
    for d in log.data_list:
        instances[d.name].add(d.multi_id)
    bag = rosbag2_py.SequentialWriter()
    name = rosbag_name
    if not name:
        name = 'rosbag_' + re.sub(r'\.ulg$', '', Path(ulog_file_name).name)
    bag.open(rosbag2_py.StorageOptions(name, 'mcap' if mcap else 'sqlite3'), rosbag2_py.ConverterOptions('cdr', 'cdr'))
    numbered = rosbag_write_uses_seqnum()
    identified = rosbag_topicmetadata_uses_id()
    for d in log.data_list:
        times = d.data['timestamp']
        topic = '/px4/' + d.name
        if instances[d.name] != {0}:
            topic = '/px4/' + d.name + '_' + str(d.multi_id)
        kind = calc_msgtype(d.name)
        if kind is None or not hasattr(px4_msgs, kind):
            continue
        MsgType = getattr(px4_msgs, kind)
        if any('.' in f.field_name for f in d.field_data):
            continue
        known = MsgType.get_fields_and_field_types()
        fields = [re.sub(r'\[\d+\]$', '', f.field_name) for f in d.field_data]
        if not all(f in known for f in fields):
            continue
        what = dict(name=topic, type='px4_msgs/msg/' + MsgType.__name__, serialization_format='cdr')
        bag.create_topic(rosbag2_py.TopicMetadata(0, **what) if identified else rosbag2_py.TopicMetadata(**what))
        for i in range(len(times)):
            m = serialize_message(ros2_msg_from_ulg_topic(d, i, MsgType))
            if numbered:
                bag.write(topic, m, times[i] * 1000, 0)
            else:
                bag.write(topic, m, times[i] * 1000)
    bag.close()


def bag_main():
    p = argparse.ArgumentParser()
    p.add_argument('filename')
    p.add_argument('-o', '--output')
    p.add_argument('--mcap', action='store_true')
    p.add_argument('-m', '--messages')
    p.add_argument('-i', '--ignore', action='store_true')
    p.add_argument('-v', '--verbose', action='store_true')
    a = p.parse_args()
    convert_ulog2ros2bag(a.filename, a.output, a.mcap, a.messages, a.ignore, a.verbose)


class Off(S.Const):
    """a switch that, by its contract, only changes what is printed"""
    def __init__(self):
        super().__init__(False)
    def conforms(self, ctx, v):
        return ops.is_int(v)


OPT = dict(io='calls', foreign=ROS, state_on_exc=False)
c = lambda name, *a, **k: C.append(Contract('pyulog.ulog2ros2bag:' + name, *a, name='ulog2ros2bag.' + name, **k))
c('to_camel_case', dict(snake_str=S.Str()), camel_case, result=S.Str(), modifies=())
c('calc_msgtype', dict(topic_name=S.Str()), message_type, result=S.OneOf(S.Const(None), S.Str()), modifies=())
c('rosbag_write_uses_seqnum', dict(), with_sequence_number, options=OPT, result=S.Bool(), modifies=())
c('rosbag_topicmetadata_uses_id', dict(), with_topic_id, options=OPT, result=S.Bool(), modifies=())
c('ros2ify_value', dict(field_name=S.Str(), value=NpSchema(), MsgType=TYPE), value_of, result=S.Any(), modifies=(), raises=(KeyError,),
  options=OPT)
c('ros2_msg_from_ulg_topic', dict(ulg_topic=SAMPLES, i=S.Nat, MsgType=TYPE), message, options=OPT,
  opaque=traced(MSG, raises=(KeyError, IndexError, AssertionError, AttributeError, TypeError)))
c('convert_ulog2ros2bag', dict(ulog_file_name=S.Str(), rosbag_name=S.OneOf(S.Str(), S.Const(None)), mcap=S.OneOf(S.Const(False), S.Const(True)),
                               messages=S.OneOf(S.Str(), S.Const(None)), disable_str_exceptions=S.Bool(), verbose=Off()),
  convert, options=TOOL(LOG, io='calls', foreign=ROS, local_dict=(S.Str(), S.SetOf(S.Int()))),
  split=('rosbag_name', 'mcap', 'messages'), opaque=traced())
c('main', dict(), bag_main, options=TOOL())
