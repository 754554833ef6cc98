"""Environment stubs shared by the symbolic and the concrete (replay) runs.

clock      every wall-clock source the implementation uses returns ``clock.now`` (a symbolic integer
           in symbolic runs, the model's value in replays).
"""
import datetime as _dt
import sys
import time

BASE = 1_700_000_000


class Clock:
    now = BASE


clock = Clock()


def _now(*a, **k):
    return clock.now


class FakeDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return _dt.datetime.fromtimestamp(int(clock.now), tz)

    @classmethod
    def utcnow(cls):
        return _dt.datetime.fromtimestamp(int(clock.now), _dt.timezone.utc).replace(tzinfo=None)


def _targets():
    import cryptojwt.jwt
    import oidcmsg.time_util as tu

    return {id(cryptojwt.jwt.utc_time_sans_frac): _now, id(tu.utc_time_sans_frac): _now, id(tu.time_sans_frac): _now}


def patch_clock():
    tg = _targets()
    for name, mod in list(sys.modules.items()):
        if mod is None or not (
            name.startswith("oidcop") or name.startswith("oidcmsg") or name.startswith("cryptojwt")
        ):
            continue
        for attr, val in list(vars(mod).items()):
            if id(val) in tg:
                setattr(mod, attr, tg[id(val)])
            elif val is _dt.datetime and name.startswith("oidcop"):
                setattr(mod, attr, FakeDatetime)
    time.time = lambda: clock.now
