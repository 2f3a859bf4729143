"""What the contracts of the command-line tools share: the log that a tool loads is an arbitrary
object of the type that the reader's contracts establish, and is only read."""
from pyulog.core import ULog
from pv import schema as S
from contracts.core import part, DATA, STATE

LOADED = S.frozen(part('_debug', *STATE).with_attrs(_data_list=S.ListOf(DATA)))
SECONDS = S.OneOf(S.Const(None), S.Int())


def TOOL(log=LOADED, **k):
    return dict(dict(io=True, env={ULog: log}, local_dict=(S.Str(), S.Any()), state_on_exc=False), **k)
