"""Contracts of pyulog.px4."""
import numpy as np
from pyulog.core import ULog
from pyulog.px4 import PX4ULog
from pv.contract import Contract
from pv import schema as S
from contracts.core import DATA, PARAM, ULog

C = []
def c(name, *a, **k):
    C.append(Contract('pyulog.px4:PX4ULog.' + name, *a, name='PX4ULog.' + name, **k))

PARAMETERS = S.DictOf(S.Str(), PARAM)
def px4(**attrs):
    return S.Obj(PX4ULog, {'_ulog': S.Obj(ULog, attrs)})

VEHICLES = ['Generic', 'Fixed Wing', 'Quadrotor', 'Coaxial helicopter', 'Normal helicopter with tail rotor',
            'Ground installation', 'Ground Control Station', 'Airship, controlled', 'Free balloon, uncontrolled',
            'Rocket', 'Ground Rover', 'Surface Vessel, Boat, Ship', 'Submarine', 'Hexarotor', 'Octorotor', 'Tricopter',
            'Flapping wing', 'Kite', 'Onboard Companion Controller', 'Two-rotor VTOL (Tailsitter)',
            'Quad-rotor VTOL (Tailsitter)', 'Tiltrotor VTOL', 'VTOL Standard', 'VTOL Tailsitter', 'VTOL reserved 4',
            'VTOL reserved 5', 'Onboard Gimbal', 'Onboard ADSB Peripheral']


def vehicle_text(self):
    p = self._ulog._initial_parameters
    if 'MAV_TYPE' in p:
        kind = p['MAV_TYPE']
        for i in range(len(VEHICLES)):
            if kind == i:
                return VEHICLES[i]
    return 'unknown type'


def estimator_text(self):
    p = self._ulog._initial_parameters
    if 'MAV_TYPE' in p and p['MAV_TYPE'] == 1:
        return 'EKF2'
    if 'SYS_MC_EST_GROUP' not in p:
        return 'EKF2'
    group = p['SYS_MC_EST_GROUP']
    if group == 0:
        return 'INAV'
    if group == 1:
        return 'LPE'
    if group == 2:
        return 'EKF2'
    if group == 3:
        return 'Q'
    return 'unknown ({})'.format(group)


def rc_inputs(self, channel):
    """the RC mappings equal to the channel number plus one"""
    names = []
    for key in self._ulog._initial_parameters:
        if key.startswith('RC_MAP_') and self._ulog._initial_parameters[key] == channel + 1:
            names.append(key[7:].capitalize())
    if len(names) == 0:
        return None
    return names


def add_angles(self, message_name, field_name_suffix=''):
    s = field_name_suffix
    for d in [d for d in self._ulog.data_list if d.name == message_name]:
        q0 = d.data['q' + s + '[0]']
        q1 = d.data['q' + s + '[1]']
        q2 = d.data['q' + s + '[2]']
        q3 = d.data['q' + s + '[3]']
        roll = np.arctan2(2.0 * (q0 * q1 + q2 * q3), 1.0 - 2.0 * (q1 * q1 + q2 * q2))
        pitch = np.arcsin(2.0 * (q0 * q2 - q3 * q1))
        yaw = np.arctan2(2.0 * (q0 * q3 + q1 * q2), 1.0 - 2.0 * (q2 * q2 + q3 * q3))
        d.data['roll' + s] = roll
        d.data['pitch' + s] = pitch
        d.data['yaw' + s] = yaw


def add_all_angles(self, messages=None):
    if messages is None:
        messages = ['vehicle_attitude', 'vehicle_vision_attitude', 'vehicle_attitude_groundtruth', 'vehicle_attitude_setpoint:_d']
    for m in messages:
        if m.endswith(':_d'):
            self._add_roll_pitch_yaw_to_message(m[:-3], '_d')
        else:
            self._add_roll_pitch_yaw_to_message(m)


c('get_mav_type', dict(self=px4(_initial_parameters=PARAMETERS)), vehicle_text)
c('get_estimator', dict(self=px4(_initial_parameters=PARAMETERS)), estimator_text)
c('get_configured_rc_input_names', dict(self=px4(_initial_parameters=PARAMETERS), channel=S.Int()), rc_inputs)
c('_add_roll_pitch_yaw_to_message', dict(self=px4(_data_list=S.ListOf(DATA)), message_name=S.Str(), field_name_suffix=S.Str()), add_angles,
  modifies=['self._ulog._data_list'], raises=(KeyError,))
c('add_roll_pitch_yaw', dict(self=px4(_data_list=S.ListOf(DATA)), messages=S.OneOf(S.Const(None), S.ListOf(S.Str()))), add_all_angles)
